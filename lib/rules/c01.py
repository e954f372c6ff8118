"""C01: a task is dispatched only after every dependency exited 0."""
from servicer import *
RULE = ("Every path of the service loop (all events, all interleavings of its select branches, loops to a fixpoint): a queue item "
        "is made only for an id collected while its unmet-dependency count was provably zero; the count starts as the "
        "number of incoming edges, and goes down by exactly 1 only inside the walk over the outgoing edges of the task "
        "whose Finished event is being handled, on paths where its status is exit code 0, for that edge's target; "
        "no other function writes the counts, the status map or makes queue items; ids leave only through the queues.")
ASSUME = ["petgraph's edges_directed/neighbors enumerate exactly the edges of the node", "one Finished event per dispatch (C05)"]
KEYS = {"count-written-elsewhere", "count-decremented-without-success", "count-step", "count-outside-walk", "count-twice",
        "enqueued-without-zero-count", "enqueued-outside-draw", "statuses-replaced", "poison-cleared", "decrement", "taskitem"}


def check(P, rep):
    R = Roles(P)
    g, out = run_gate(P, rep, R, KEYS)
    check_init(P, rep, R)
    bodies = g.I.seen_bodies
    newb = {b.key for b in P.bodies.values() if b.key.startswith(R.new.key)}
    outside(P, rep, R, bodies | newb, "analysed as part of the service loop", scan.field_writers(P, R.S["def"].npath, {R.statuses}), "status-map-writers", "the status map is changed in %s, outside the analysed service loop")
    outside(P, rep, R, bodies, "analysed as part of the service loop", scan.field_writers(P, R.tpath, {R.count}), "count-writers", "an unmet-dependency count is changed in %s, outside the analysed service loop")
    outside(P, rep, R, bodies | newb, "analysed", scan.builders(P, R.tpath), "status-builders", "a task status is made in %s, outside the analysed constructor")
    outside(P, rep, R, bodies, "analysed as part of the service loop", scan.builders(P, R.ipath), "item-builders", "a queue item is made in %s, outside the analysed service loop")
    rep.floor("count updates seen", g.seen.get("decrement", 0), 1)
    rep.floor("queue items seen", g.seen.get("taskitem", 0), 1)
    rep.floor("exits", g.exits, 1)
