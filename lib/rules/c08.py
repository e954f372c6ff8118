"""C08: the log's entries per task: Ready, then Started, then Finished, each once, under the task's key."""
from ledger import *
RULE = ("Every path of the service loop and of drain: exactly one Ready entry, with the task's key, run count and storage root, for each "
        "task put on the ready queues; exactly one Started entry, with the task's key and the reported host, pid and job id, per Started "
        "event, together with one insertion in the map of running tasks; exactly one Finished entry, under the task's key, per Finished event, "
        "preceded by a stand-in Started entry exactly where the task was not in the map of running tasks, and one removal from that map; "
        "drain writes one Finished entry for every task left in the map. No entry is written outside these.")
ASSUME = ["a task reports at most one Started and one Finished event, in this order (C05, C17)"]
KEYS = {"log-entry-unknown", "finished-logged-twice", "finished-key", "started-logged-twice", "started-key", "started-after-finished", "started-host", "started-pid",
        "started-slurm_jobid", "started-without-event", "ready-key", "ready-runcount", "ready-storage_root", "ready-not-logged", "ready-logged-twice",
        "finished-without-event", "started-not-logged", "running-map-insert", "running-map-insert-missing", "running-map-remove", "running-map-remove-missing",
        "finished-not-logged", "finished-without-started", "event-not-handled", "drain-rest", "drain-not-walked", "drain-walked", "drain-skips", "started-counted"}


def check(P, rep):
    R = Roles(P)
    a = run_ledger(P, rep, R, KEYS, "log")
    s = a[0].seen
    for n in ("log Ready", "log Started", "log Finished", "finished handled", "started handled", "queue item"):
        rep.floor(n, s.get(n, 0), 1)
    for n in ("log Started", "log Finished", "remaining", "finished handled", "started handled"):
        rep.floor("drain: " + n, a[1].seen.get(n, 0), 1)
    e = adt(P, "LogEntry")["def"].npath
    mk_ = {b.df.npath for v in ("Ready", "Started", "Finished") for b, _ in scan.builders(P, e, v)}
    direct = [(b, sp) for v in ("Ready", "Started", "Finished") for b, sp in scan.builders(P, e, v) if not b.df.npath.startswith(e + "::")]
    made = direct + [(b, sp) for b, sp, p, t in scan.calls(P, lambda p: p in mk_ and p.startswith(e + "::"), crate="execgraph")]
    outside(P, rep, R, a[0].I.seen_bodies | a[1].I.seen_bodies, "analysed", made, "log-writers", "a Ready, Started or Finished entry is made in %s, outside the analysed service")
    rep.floor("places that make entries", len(made), 1)
