"""C27: quick failures are counted and stop the run at the allowed number."""
from ledger import *
RULE = ("Every path of the service loop: the fizzle count goes up by one exactly where the finished task did not exit with code 0 and the time since it "
        "was put in the map of running tasks is known to be below the cutoff; it never goes up otherwise; after a Finished event the "
        "tasks started within the cutoff are cancelled, the queues closed and soft shutdown recorded unless the count is known to be below the "
        "allowed number; and nothing is cancelled where it is known to be below.")
ASSUME = ["Instant::now is monotone"]
KEYS = {"fizzle-success", "fizzle-long", "fizzle-missed", "fizzle-no-shutdown", "fizzle-early", "step-fizz", "servicer-hard-cancels", "event-not-handled"}


def check(P, rep):
    R = Roles(P)
    a = run_ledger(P, rep, R, KEYS, "stop", ("serve",))
    s = a[0].seen
    for n in ("soft cancel", "fizzle shutdown", "finished handled"):
        rep.floor(n, s.get(n, 0), 1)
    outside(P, rep, R, a[0].I.seen_bodies, "analysed", scan.field_writers(P, R.S["def"].npath, {"n_fizzled", "fizzles_allowed"}), "fizzle-writers", "the fizzle count is changed in %s")
