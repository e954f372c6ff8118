"""C26: soft shutdown hands out no new work and ends when the running tasks have."""
from ledger import *
RULE = ("Every path of the service loop: once the soft-shutdown trigger fired, the ready-queue senders are dropped and the state is recorded before "
        "the next event; no queue item is made while the state is soft shutdown; the state is never reset and the senders never "
        "replaced; after a Finished event in that state the loop goes on only where a task is known to be running; the service loop "
        "itself cancels running tasks only by start time (fizzle), never outright.")
ASSUME = ["a dropped sender closes its queue (async_priority_channel)"]
KEYS = {"soft-not-closed", "soft-state-not-set", "soft-trigger", "queued-in-soft-shutdown", "soft-shutdown-undone", "queues-reopened", "soft-continues", "servicer-hard-cancels", "exit-queues-open", "exit-queues-closed"}


def check(P, rep):
    R = Roles(P)
    a = run_ledger(P, rep, R, KEYS, "stop", ("serve",))
    s = a[0].seen
    for n in ("soft trigger", "soft handled", "finished handled", "queue item", "normal exit"):
        rep.floor(n, s.get(n, 0), 1)
    closed_check(P, rep, R)


def closed_check(P, rep, R):
    """a runner that asks after the queues were closed gets an error"""
