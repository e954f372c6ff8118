"""C17: the life of a remote transaction."""
from txn import *
RULE = ("Every path of every handler of the main server and of the ping reaper: a task taken for a remote runner is registered as exactly one open transaction, for that "
        "task, and the answer carries that transaction's id and that task's command line and input; the start of a transaction is reported at most once, for its own task "
        "with the host and pid of the request; a transaction is closed by /end only under the id in the request and by the job that opened it, and each transaction removed, by /end or by "
        "the reaper, leads to exactly one finish report for its own task, with the status and output of the request or as disconnected.")
ASSUME = ["random transaction ids do not collide while both are open", "DashMap operations on one key are atomic"]


def check(P, rep):
    R = Roles(P)
    S, n = run_txn(P, rep, R, C17KEYS)
    for k in ("requests for a task", "registrations", "answers", "removals", "finish reports", "start reports", "ends", "ends checked"):
        rep.floor(k, n.get(k, 0), 1)
    for k in ("reaper: removals", "reaper: finish reports"):
        rep.floor(k, n.get(k, 0), 1)
    rep.floor("handlers", len(S.routes), 6)
