"""C02: a task whose dependencies all exited 0 becomes ready; failures hold back exactly the dependents."""
from servicer import *
RULE = ("Every path of the service loop: after a task exited 0 (no soft shutdown in progress) its outgoing edges are walked to the end before "
        "the next event, each edge's target has its count decremented unless marked as having a failed dependency, each target whose "
        "count may have reached zero is collected, each collected task is drawn and offered through a complete walk over its "
        "affinity bits before the next event; the failure mark is set only on direct dependents of a task that did not exit 0 and "
        "never cleared; all tasks with zero dependencies are collected at the start.")
ASSUME = ["petgraph's edges_directed/neighbors enumerate exactly the edges of the node"]
KEYS = {"edges-skipped", "edge-not-counted", "zero-count-not-collected", "successors-not-processed", "ready-task-dropped",
        "ready-task-not-offered", "poison", "poison-on-success", "poison-elsewhere", "initial-not-walked", "initial-zero-not-collected",
        "count-step", "count-twice"}


def check(P, rep):
    R = Roles(P)
    g, out = run_gate(P, rep, R, KEYS)
    check_init(P, rep, R)
    rep.floor("edges seen", g.seen.get("edge", 0), 1)
    rep.floor("collected dependents seen", g.seen.get("collected-edge", 0), 1)
    rep.floor("collected initial tasks seen", g.seen.get("collected-initial", 0), 1)
    rep.floor("draws seen", g.seen.get("draw", 0), 1)
    rep.floor("walks ended", g.seen.get("walked", 0), 1)
    rep.floor("initial walk ended", g.seen.get("init-walked", 0), 1)
    rep.floor("exits", g.exits, 1)
