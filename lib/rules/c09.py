"""C09: the outcome a task reported is the outcome recorded."""
from ledger import *
RULE = ("Every path of the service loop and of drain: the Finished entry's status is the reported exit code where the task exited, and a negative "
        "constant where it was cancelled or disconnected; its values are the reported ones; the number of failed tasks goes up by one exactly "
        "on the paths where the status is not exit code 0; in the service loop the task is put on the list of finished tasks exactly once. Two distinct "
        "negative constants are used for cancelled and disconnected.")
ASSUME = []
LOG = {"finished-status", "finished-values", "log-entry-unknown"}
COUNT = {"failed-count", "finished-order", "step-fail", "drain-rest:fail", "event-not-handled"}


def check(P, rep):
    R = Roles(P)
    a = run_ledger(P, rep, R, LOG, "log")
    b = run_ledger(P, rep, R, COUNT, "count")
    rep.floor("log Finished", a[0].seen.get("log Finished", 0), 1)
    rep.floor("drain: log Finished", a[1].seen.get("log Finished", 0), 1)
    rep.floor("finished handled", b[0].seen.get("finished handled", 0), 1)
    rep.floor("drain: remaining", b[1].seen.get("remaining", 0), 1)
    st = sorted(k for k in rep.obs if k.startswith("finished-status:"))
    rep.need(len(st) >= 3, "status-per-outcome", "the logged status was decided for each outcome: %s" % ", ".join(st))
    consts = dict((k, w) for k, w in rep.obs.items() if k.startswith("finished-status:") and "Code" not in k)
    rep.need(len(set(consts.values())) == len(consts), "status-distinct", "cancelled and disconnected tasks are logged with different statuses: %s" % consts)
    outside(P, rep, R, a[0].I.seen_bodies | b[1].I.seen_bodies, "analysed", scan.field_writers(P, R.S["def"].npath, {"n_failed", "finished_order"}), "result-writers", "the failed count or the list of finished tasks is changed in %s")
