"""C03: no task is handed to two runners."""
from servicer import *
RULE = ("Queue items of one task share one fresh claim flag (service loop, all paths); the dispatch function returns an item's id only on "
        "paths where its own atomic read-modify-write on that item's flag found it unset, never drops an item it claimed or "
        "found unclaimed, and has no suspension point between taking an item and returning; no other function takes from the "
        "ready queues or changes a claim flag.")
ASSUME = ["each receive from a queue yields an item once (async_priority_channel)", "a count reaches zero once (C01), so a task is queued once"]
KEYS = {"claim-flag-per-queue", "claim-flag-not-shared", "claimflag", "enqueued-outside-draw", "enqueued-without-zero-count"}


def check(P, rep):
    R = Roles(P)
    g, out = run_gate(P, rep, R, KEYS)
    c = run_claim(P, rep, R)
    bodies = c.I.seen_bodies
    rx = scan.calls(P, lambda p: p.startswith("async_priority_channel::Receiver::") and p.split("::")[-1] in ("recv", "try_recv", "recv_blocking", "recvv", "try_recvv"))
    outside(P, rep, R, bodies, "the only receiver", rx, "queue-receivers", "an item is taken from a ready queue in %s, outside the analysed dispatch function")
    outside(P, rep, R, bodies | g.I.seen_bodies, "analysed", scan.field_writers(P, R.ipath, {R.i_taken}), "claim-writers", "a claim flag is replaced in %s")
    rep.floor("receives", len(rx), 1)
    rep.floor("claims", c.n["rmw"], 1)
    rep.floor("ids returned", c.n["ok"], 1)
    rep.floor("queue items seen", g.seen.get("taskitem", 0), 1)
