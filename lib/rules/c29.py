"""C29: a request that is abandoned half-way loses nothing."""
from txn import *
RULE = ("Every path of every handler of the main server (its future is dropped at a suspension point when the client goes away): there is no suspension point between "
        "taking a task and registering it, nor between removing a transaction and handing its finish report to the tracker; the dispatch function itself does not suspend "
        "between claiming a task and returning it; the event channel is unbounded, so that reporting never suspends.")
ASSUME = ["sending on an unbounded async_channel completes at its first poll"]


def check(P, rep):
    R = Roles(P)
    S, n = run_txn(P, rep, R, C29KEYS)
    rep.floor("requests for a task", n.get("requests for a task", 0), 1)
    rep.floor("removals", n.get("removals", 0), 1)
    made = [(b, sp, p) for b, sp, p, t in scan.calls(P, lambda p: p in ("async_channel::bounded", "async_channel::unbounded"), crate="execgraph")]
    rep.floor("event channels", len(made), 1)
    for b, sp, p in made:
        rep.need(p.endswith("unbounded"), "event-channel-bounded:" + b.df.npath, "the event channel is unbounded, so a report never suspends half-way", "%s:%d" % (sp[0], sp[1]))
    c = Claim(P, rep, R)
    out = c.start(R.recv)
    c.finish(c.I, out, R.recv)
