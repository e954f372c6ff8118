"""C06: the run ends exactly when nothing is outstanding."""
from ledger import *
RULE = ("Every path of the service loop and of drain: the number of outstanding tasks goes up by one for each task put on the ready "
        "queues (or by the length of the list of tasks about to be put there) and nowhere else, goes down by exactly one while a "
        "Finished event is handled and nowhere else; after a Finished event the loop goes on only where the number is known not to "
        "be zero; every normal end of the loop has dropped the ready-queue senders.")
ASSUME = ["a task reports one Finished event (C05, C17)"]
KEYS = {"outstanding-step", "outstanding-down", "outstanding-not-down", "outstanding-up-twice", "outstanding-up-missing", "started-counted",
        "event-not-handled", "outstanding-up", "drain-rest:nri", "drain-not-walked", "drain-skips", "queues-reopened"}
STOP = {"continues-when-done", "exit-queues-open", "exit-queues-closed"}


def check(P, rep):
    R = Roles(P)
    a = run_ledger(P, rep, R, KEYS, "count")
    run_ledger(P, rep, R, STOP, "stop", ("serve",))
    s = a[0].seen
    rep.floor("finished events handled", s.get("finished handled", 0), 1)
    rep.floor("outstanding goes up", s.get("outstanding up", 0), 1)
    rep.floor("queue items made", s.get("queue item", 0), 1)
    rep.floor("normal exits", s.get("normal exit", 0), 1)
    rep.floor("drain: finished events handled", a[1].seen.get("finished handled", 0), 1)
    outside(P, rep, R, a[0].I.seen_bodies | a[1].I.seen_bodies, "analysed", scan.field_writers(P, R.S["def"].npath, {"n_ready_or_inflight"}), "outstanding-writers", "the number of outstanding tasks is changed in %s")
