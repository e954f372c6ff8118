prop("C01", "A task starts only after every one of its dependencies exited with code 0",
 "Whatever the shape of the task graph, the number of runners and the order in which tasks finish, a task of the executed graph is offered to runners only once each task it depends on in that graph has been reported finished with exit code 0. A task with a dependency that failed, was cancelled, got disconnected or has not finished is never offered to any runner.",
 ["inputs", "schedules", "histories"], "all task graphs, all orders and outcomes of task completions, all interleavings of the scheduler's event sources",
 "Tests run a few graphs whose completion orders are decided by chance; the guarantee is about every graph and every order, including a failure that arrives between two successes.",
 ["src/sync.rs"], "the unmet-dependency counts and failure marks kept by the servicer task, and the only place that makes ready-queue items",
 note="all paths of the service loop, every event; loops and graphs unbounded (fixpoint)")
prop("C02", "A task whose dependencies all succeeded is made ready and offered to its queues",
 "When the last unfinished dependency of a task exits with code 0 and no shutdown is in progress, the task is put on every ready queue it has an affinity for before the scheduler handles its next event; tasks without dependencies are put there at the start. A failed task holds back exactly the tasks that depend on it, directly or through others, and no other task.",
 ["inputs", "schedules", "histories"], "all task graphs, all completion orders",
 "A dependent that is forgotten shows up only for particular edge orders and completion orders, as a task that silently never runs.",
 ["src/sync.rs"], "the walk over the finished task's outgoing edges, the collection of newly ready tasks, and the code that makes one queue item per affinity bit")
prop("C03", "No task is handed to more than one runner",
 "A task that sits on several ready queues at once is given to at most one runner, no matter how many runners of how many types ask at the same time. An item that a runner claims is always given to that runner: it is not dropped between being claimed and being returned.",
 ["schedules"], "all interleavings of concurrent requests for work, including requests cancelled at a suspension point",
 "Double dispatch needs two runners to take the two copies of one item at the same moment; tests practically never produce that interleaving.",
 ["src/sync.rs"], "the claim flag shared by the queue items of one task and the atomic read-modify-write in the function that hands out work")
prop("C04", "A task is offered to exactly the runner types in its affinity",
 "A task put on the ready queues is put on queue k exactly when runner type k is in the task's affinity, the queue a runner takes its work from is the queue of its own runner type, and each queue's sending and receiving end belong together. The local runners with captured output take work as runner type 0 and the local console runners, which give the task the terminal, take work as runner type 1.",
 ["inputs", "histories"], "all affinities, all runner types, all graphs",
 "A task that strays to another runner type needs a multi-bit affinity and a runner of the other type that is free first; tests use one runner type at a time.",
 ["src/sync.rs", "src/execgraph.rs", "src/localrunner.rs"], "the items made from one-bits of the affinity, the pairing of the channel arrays and the runner-type argument of every request for work")
prop("C06", "The scheduler counts outstanding tasks exactly, and stops when there are none",
 "The number of outstanding tasks goes up by one for every task put on the ready queues and down by one for every task reported finished, and by nothing else. After a task finished, the scheduler goes on exactly while that number is not zero, or until it is shut down; when it ends it closes the ready queues, so that runners waiting for work learn that there is none.",
 ["inputs", "schedules", "histories"], "all graphs, all orders and outcomes of events",
 "A count that is off by one on one rare path (a failed task, a disconnect, a shutdown) makes the run end early or never; tests see the common paths.",
 ["src/sync.rs"], "the outstanding-task counter of the servicer: its increments when tasks are queued, the single decrement per Finished event and the loop's exit condition")
prop("C07", "The queue counters shown to provisioners follow every task's life",
 "For every queue, num_ready goes up once when a task of that affinity is put on the ready queues, and when a runner is handed the task num_ready goes down by one (never below zero) and num_inflight up by one; num_inflight goes down once when that task is reported finished or is given up at the end of the run. A task whose runner lost the race for it changes nothing.",
 ["inputs", "schedules", "histories"], "all graphs and affinities, all interleavings of runners, completions and shutdowns",
 "The counters only show drift after particular races (a shutdown that zeroes them while a runner takes a queued item); wrap-around then reports four billion ready tasks.",
 ["src/sync.rs"], "the queuestate map: its updates in add_to_ready_queue, the bookkeeping of finished tasks, and the dispatch function")
prop("C08", "The log has each task's Ready, Started and Finished entries once and in order",
 "For each task put on the ready queues the log gets one Ready entry with its key, run count and storage root. For each start a runner reports it gets one Started entry with the task's key and the reported host, pid and job id, and for each finished task one Finished entry under its key. A Finished entry always follows a Started one: where no start was reported, a stand-in Started entry is written first. Tasks still running when the run ends get a Finished entry too.",
 ["inputs", "schedules", "histories", "crash points"], "all graphs, event orders and ways the run ends",
 "Entries go missing or double only on the rare paths (a lost start report, an end of the run while tasks are running), and the log decides what a later run skips.",
 ["src/sync.rs"], "the servicer's and drain's log writes and the map of running tasks that decides whether a start was already logged")
prop("C09", "The outcome a task reported is the outcome recorded",
 "The exit status in a task's Finished log entry is the exit code the runner reported, or a fixed negative number for a cancelled and another for a disconnected task, and the entry carries the values the task reported. The number of failed tasks goes up by one for a task that did not exit with code 0 and stays for one that did, and every finished task is put once on the list of finished tasks.",
 ["inputs", "schedules", "histories"], "all outcomes, in the service loop and in the final drain",
 "A wrong status for one outcome (a signal, a cancellation, a disconnect at the end) makes a later run skip a task that failed, which no single run shows.",
 ["src/sync.rs"], "the conversion of the event's status, the Finished entries, and the failed-task counter")
prop("C26", "Soft shutdown hands out no new work and waits for the running tasks",
 "When a soft shutdown is triggered, the scheduler closes the ready queues before it handles its next event, never queues a task again, and never leaves that state. It lets running tasks finish: it does not cancel them outright, and after a task finished in that state it goes on only while some task is running.",
 ["schedules", "histories"], "all moments at which the trigger can arrive, relative to all other events",
 "Depends on the moment at which the trigger arrives; tests trigger it in one or two states.",
 ["src/sync.rs"], "the select arm of the soft-shutdown trigger, the shutdown state and the checks on it while finished tasks are handled")
prop("C27", "Quick failures are counted and stop the run at the allowed number",
 "A task counts as fizzled exactly when it did not exit with code 0 and ran for less than the cutoff. While fewer tasks fizzled than are allowed nothing is cancelled; once the number is reached, tasks that started less than the cutoff ago are cancelled, the ready queues are closed and soft shutdown begins.",
 ["inputs", "schedules", "histories"], "all run times, outcomes and allowed numbers",
 "Needs a mix of long and short failures around the cutoff and the limit, in particular orders.",
 ["src/sync.rs"], "the elapsed-time test, the fizzle counter and the limit test after each finished task")
prop("C05", "A local runner reports one start and one finish for each task it takes",
 "A local runner that was handed a task starts at most one process for it, with the program and all the arguments of that task's own command line, and before it asks for another task or ends it has reported to the scheduler one start and after that one finish, both for that task: also when no process can be started, when waiting for it fails and when the task is soft-cancelled. Only a hard cancellation lets it leave without the finish report. Each report reaches the scheduler's event channel as one event carrying the reported values.",
 ["inputs", "schedules", "crash points"], "all outcomes of starting and waiting for the process, all moments of cancellation, all tasks",
 "A task whose report is lost on an error path keeps the whole run from ending; that needs a failure to spawn, to make a pipe or to read output at the right moment.",
 ["src/localrunner.rs", "src/sync.rs"], "the loop of a local runner between two requests for work, and the tracker's send_started and send_finished")
prop("C17", "A remote transaction registers, starts, and finishes its own task once",
 "A task handed out over HTTP is registered as exactly one open transaction for that task, and the answer carries that transaction's id and the task's own command line and input. The start of a transaction is reported to the scheduler at most once, for its own task, with the host and pid in the request. /end closes only the transaction it names, and only for the slurm job that opened it. Every transaction that is removed, by /end, by a ping timeout or by soft cancellation, leads to exactly one finish report for its own task: with the request's status, output and values, or as disconnected.",
 ["inputs", "schedules", "histories"], "all requests in any order and multiplicity, from any runner, including repeated, late and foreign ones; all timeouts and cancellations",
 "Needs requests that the well-behaved runner never sends (a repeated /begun, an /end from another job) or that race with the reaper.",
 ["src/server.rs"], "the request handlers and the ping reaper: every insertion into and removal from the map of open transactions, and every report to the tracker")
prop("C29", "A request abandoned by its client loses no task and no report",
 "The server may drop a request at any suspension point when its client goes away. Nothing is lost then: there is no suspension point between claiming a task and registering it as an open transaction, and none between closing a transaction and handing its finish report to the scheduler, whose event channel is unbounded so that reporting does not suspend.",
 ["schedules", "crash points"], "every suspension point of every request handler and of the dispatch function",
 "The client must disappear within microseconds of one particular instruction.",
 ["src/server.rs", "src/sync.rs"], "the await points of the handlers, of start_request_impl and of ReadyTrackerClient::recv")
prop("C16", "A request without the run's token has no effect and gets no work",
 "Apart from GET /status and unknown paths, no handler of the main server uses the shared state (hands out a task, reports, renews a timer, closes a transaction, marks a job) unless the bearer token of the request equals the run's secret, and it answers a request without it with an error. /status and the fallback change nothing. The secret is made from random bits at the start of a run, never changes, and is the same for the server and for the provisioner that passes it on to the runners.",
 ["inputs", "histories"], "all requests with any header, body and path, at any time",
 "A missing or weakened check on one of the endpoints is invisible to tests, all of which send the right token.",
 ["src/server.rs", "src/execgraph.rs"], "every route of the main server's router; State::new; the environment given to the provisioner in execute()")
prop("C18", "A remote runner that stops pinging is given up, one that pings is not",
 "Every open transaction has one live timer, armed for its own id; a ping for it cancels that timer and arms a new one, stored in the transaction. The reaper turns the timer wheel by one slot per tick and ends only when it is told to stop. A timer goes into the slot its id names, is cancelled there, and expires no earlier than one ping interval and no later than one turn of the wheel after it was armed.",
 ["inputs", "schedules", "histories"], "all sequences of requests; all positions of the wheel; the constants of the tree",
 "A stale timer strikes half a minute after a ping, at a particular position of the wheel; tests neither ping nor wait that long.",
 ["src/server.rs", "src/time/timewheel.rs", "src/constants.rs"], "start_request_impl, ping_handler, reap_pings_forever, and TimeWheel's insert, cancel, tick and tick_duration")
prop("C19", "A slurm job marked as cancelled is given no work",
 "A job id marked through /mark-slurm-job-cancelation becomes a cancelled job exactly when no open transaction belongs to it, and the answer lists exactly the ids that became cancelled by this request. Ids are never removed from the set. Every request for a task over HTTP (to /start, or carried by /end) is first looked up by the slurm job id of the request, and a cancelled job is told to shut down instead of being handed a task; the transaction that is opened remembers that same job id. The lookup and the opening of the transaction should be one step under the lock of the set, so that a job cannot be marked in between (on the pinned tree they are not: known finding).",
 ["inputs", "schedules", "histories"], "all sequences and interleavings of mark, start, begun and end requests",
 "A job is killed with a task in its hands only when the mark lands inside a window between two steps of another request.",
 ["src/server.rs"], "mark_slurm_job_cancelation, start_request_impl and the set of cancelled job ids")
prop("C34", "No lock is held across a suspension point or taken in a deadlocking order",
 "No task of the run holds a blocking lock (a mutex or rwlock guard, a reference into a concurrent map, a watch borrow) while it is suspended, except while it hands an event to the scheduler's unbounded channel; no code takes a lock whose guard it already holds, changes a concurrent map while it walks it, or takes two locks in an order that is reversed elsewhere. So the server, the scheduler and the runners cannot block each other for ever on a lock.",
 ["schedules"], "all paths of all async functions and request handlers, all interleavings",
 "A deadlock on a lock needs two tasks at two particular instructions, or two keys that fall in one shard of a map.",
 ["src/server.rs", "src/sync.rs", "src/admin_server.rs", "src/time/timewheel.rs", "src/fancy_cancellation_token.rs"], "every acquisition of a Mutex, RwLock, DashMap shard or watch borrow and every await point")
prop("C10", "What is loaded from a log is what was written to it",
 "Every entry that is written changes the in-memory record of tasks as loading that entry from the log does: Ready (re)sets the task's record to its run count and storage root whatever it was; Started needs a Ready record and Finished a Started one, and both keep run count and storage root; a task is recorded as successful exactly when its status is 0; header and backref entries leave the record of tasks alone, and the header kept is the one written last. A write that reports success has appended exactly that entry and a newline to the file; no write error is swallowed. Whether a task succeeded or failed, and its run count, are answered from that record.",
 ["inputs", "histories", "crash points"], "all entries in all orders, including logs of many runs",
 "The two copies of the state machine (writing and loading) can drift apart for one entry in one state; a test sees it only if it reruns from exactly that log.",
 ["src/logfile2.rs"], "LogFile::write, the loading of a log by both constructors, has_success, has_failure")
prop("C13", "A log is opened by one run at a time, as a whole, and only when it fits",
 "A log is opened for writing only after an exclusive lock was taken on a lock file whose path depends on nothing but the log's path and which is still the file at that path; it is never truncated by opening it, and the lock is held as long as the log is open: the lock file is removed before the lock is released. A log opened for reading takes no lock and cannot be written. All of a log is loaded, from its start to its end, and new entries follow its last one. A header is accepted only with the current version and the workflow key of the headers before it. A log is cut only where its last line is not an entry, to exactly the lines before it.",
 ["inputs", "crash points", "schedules"], "all contents of a log, including one cut short by a crash; all interleavings of processes that open it",
 "Needs two processes opening or closing a log at the same moment, or a log torn by a crash at a particular byte.",
 ["src/logfile2.rs"], "LogFile's constructors, the loading of run counts, the repair of a torn last line, and LogFile's Drop")
prop("C32", "add_task adds the given task once, and a rejected one leaves no trace",
 "Adding a task whose key is already in the graph changes nothing and gives the index of the task that has the key. Otherwise a call that succeeds adds exactly one task, the one given, with an edge from each of the given dependencies to it, and gives its index; a call that fails (no command line, a dependency that does not exist, the task itself as dependency) leaves the graph and the key map as they were. So edges lead only from earlier to later tasks and the graph has no cycle. Nothing else changes the tasks and edges of the graph, or a task apart from its priority.",
 ["inputs", "histories"], "all sequences of calls with all commands and lists of dependencies",
 "A task half added by a call that failed shows only when the caller goes on after the error, with the right later calls.",
 ["src/execgraph.rs"], "ExecGraph::add_task and every use of petgraph's mutating methods on the graph of commands")
prop("C11", "A run executes exactly the tasks that still need to run",
 "A run leaves out a task only for one of these reasons: it is neither the target nor a direct or indirect dependency of it; the log has its success; it was completed earlier in this session and the log has no failure of it; the log has its failure, and reruns were not asked for or it failed in this session; or it depends, directly or indirectly, on a task left out because it failed. A task to which none of these applies is run, with all its edges to other tasks that are run. Exactly those tasks left out for a success or failure of an earlier session get a backref in the log, one each, and count as completed.",
 ["inputs", "histories"], "all graphs, targets, logs and sequences of runs in one session",
 "The selection combines a log, the session's history, a target and the rerun flag; tests try a few of the combinations on graphs of a few nodes.",
 ["src/execgraph.rs"], "get_subgraph: its filters over the graph, the set of failed tasks and the backref loop; LogFile::has_success and has_failure")
prop("C12", "A rerun task gets a fresh run count unless it never started or succeeded",
 "The run count given for a key, by logfile_runcount and to a task that is added, is 0 when the log has no record of it; the recorded one when it was only ready, or succeeded; and one more than the recorded one when it was started and not finished, or failed. A directory is given exactly for a key that succeeded: the recorded storage root (below the log's directory if relative), key.runcount. So a run never reuses the work directory of one that started and did not succeed.",
 ["inputs", "histories"], "all logs and keys",
 "A run whose count is not raised after a crash overwrites or mixes with the files of the run that died; a test sees it only if it crashes a run and looks at the run count of the next.",
 ["src/pylib.rs", "src/logfile2.rs"], "PyExecGraph::logfile_runcount and add_task, LogFile::storage_root and runcount",
 note="the run count at the time the task is added")
prop("C35", "The Python interface hands on exactly what it was given",
 "Making an ExecGraph writes exactly one header: with the log's workflow key if it has one, else newkeyfn's result, else the default, and the given storage roots in order with $KEY replaced; num_parallel and failures_allowed are kept (negative: the number of CPUs; 0: no limit). add_task makes the task of exactly its arguments. execute runs the graph with the given target, provisioner and rate limit and the object's numbers and flags, and returns its result or error. write_logfile writes each entry once, in order, and flushes; load_logfile returns what its mode names.",
 ["inputs"], "all arguments of the Python methods",
 "Two arguments of one type swapped, an edge value (0, negative, empty) mapped wrongly, or a header left out on the second opening show only for unusual arguments.",
 ["src/pylib.rs", "src/logfile2.rs"], "PyExecGraph::new, add_task, execute; load_logfile, write_logfile")

prop("C25", "No task a run has started outlives it",
 "ExecGraph::execute (and each task it spawns) waits, before it ends on any path that does not panic, for every task it has spawned: no handle of a spawned task is dropped, forgotten, or awaited in a way that can end earlier (a timeout, a select, the first error). While such tasks are alive execute awaits only them and futures whose panic it catches, and keeps the tracker and the graph. The ready queues are closed and the token is hard-cancelled before it joins. No other function of the library spawns a task that holds the run's data, or changes the lifetime of a reference to it.",
 ["schedules", "failures"], "all paths of execute and of the coroutines it spawns, errors and panics of the scheduler included",
 "The tasks hold references whose lifetime was forced to 'static: a task that outlives execute reads freed memory, only on an error path or in an unlucky schedule.",
 ["src/execgraph.rs", "src/admin_server.rs", "src/server.rs"], "ExecGraph::execute: spawn, join_all, extend_graph_lifetime, transmute_lifetime")

prop("C33", "execute runs the requested subgraph and reports it",
 "execute takes the subgraph of its own graph, completed set and log for the given target and rerun flag, and runs it with the given limits. Nothing is run only if the subgraph is empty, and (0, []) is returned then. Otherwise one local runner is started for each of num_parallel and, if that is positive, one console runner; with a provisioner also the server, the admin server and the provisioner. Ok means that the scheduler ended without an error and that, after the drain, the log was flushed without one; it carries the number of failed tasks after the drain and the keys of the finished tasks, each once and in order, and these keys have all been put into the object's completed set.",
 ["inputs", "failures"], "all arguments of execute, all results of the scheduler and of the flush",
 "A swallowed scheduler error, a count read before the drain, or a key left out of the completed set shows only for unusual runs (errors, late events, a second execute on the same object).",
 ["src/execgraph.rs"], "ExecGraph::execute")

prop("C22", "A task's process gets its command line and pipes, and cannot deadlock its runner",
 "Both runners start a task's process with the first element of its command line as program and the others, in order, as arguments, with null stdin and captured stdout and stderr (the console queue: the runner's own), and change neither its environment nor its directory; the local runner's process dies when the runner drops it. The process gets descriptor 3 (write end of a new pipe) and, exactly when the task has an fd_input, the descriptor it names (read end of another), both blocking. "
 "However much the process writes to any of stdout, stderr and descriptor 3, whenever and in whatever order, and however little of its input it reads, runner and process never wait for each other: the runner drops its copies of the process's ends right after the start, reads all three to their end and writes the whole input at the same time, and closes the input after it. It goes on only when the process has exited and everything has been read, or on an error.",
 ["schedules", "all inputs"], "all paths from receiving a task to the end of its process, in the local and in the remote runner",
 "A deadlock needs a process that fills one pipe before it reads or closes another; tests use small outputs.",
 ["src/localrunner.rs", "src/bin/execgraph-remote.rs"], "run_local_process_loop; make_pipes; set_blocking; write_all_input; wait_with_output; execgraph-remote run_command")

prop("C23", "Cancellation only gets stronger and hits what it is meant for",
 "Whatever the order of requests, the cancellation state after cancel is the stronger of the state before and the one requested (hard over soft; of two soft ones the earlier cutoff), in one atomic step that wakes the waiters if it changed anything; nothing else writes the state. soft_cancelled(time) ends, with the state it saw, exactly when that is hard or soft with a cutoff before time; hard_cancelled exactly when it is hard; neither can miss a change. On a soft state the server drops exactly the connections begun after the cutoff. A soft cutoff is now minus a fixed positive time, and a local task's start is read after the task was received.",
 ["schedules", "histories"], "all current and requested states with every order of their times; all paths of the waiters and of the reaper",
 "A soft request that overwrites a hard one, a change lost between check and wait, or a flipped cutoff hangs or kills a run only when the requests come in one order.",
 ["src/fancy_cancellation_token.rs", "src/server.rs", "src/sync.rs", "src/localrunner.rs"], "CancellationToken; State::reap_pings_forever; background_serve; run_local_process_loop")

prop("C24", "No wakeup is lost, and pollers are told what was true when they were told",
 "AsyncFlag::wait and AsyncCounter::wait return only once the flag is true or the counter above the given value, and a change made before, while or after they start to listen is never missed; set and incr wake every waiter. Whenever the scheduler raises num_ready it increments, before it takes the next event, the counter that /status polls wait for; the flag of a finished task's event is set once its successors are ready, before the next event. get_queuestate waits for the etag at most the timeout, never answers before timemin, and its etag was read before the queues it reports. An /end that asks for a next task first waits for that flag or a hard cancellation.",
 ["schedules"], "all interleavings of waiters with set and incr; all paths of the scheduler's loop, of get_queuestate and of end_handler",
 "A lost wakeup needs a notification in a window of a few instructions; a stale etag shows only when a task becomes ready during the poll.",
 ["src/async_flag.rs", "src/sync.rs", "src/server.rs"], "AsyncFlag; AsyncCounter; add_to_ready_queue; _finished_bookkeeping; get_queuestate; end_handler")

prop("C37", "What a task's process did is reported unchanged and under its own task",
 "A task's reported stdout, stderr and descriptor-3 bytes are everything its process wrote to that stream, the status is its exit code or, if a signal ended it, the negated signal. The values are one map for each line of the descriptor-3 output, in order, that splits into shell words (none for another line), with key and value around the first '=' of each word that has one (no other words); none at all if it is not UTF-8. "
 "The local runner reports this under the task it received; a task whose process could not be started or waited for is reported as failed. The remote runner sends the same under the transaction it was given (stderr may be prefixed; a nonzero status when it has no output), and the server passes on an /end's status, stdout, stderr and values under the task removed with its transaction, a /begun's host and pid under the task of its transaction. Each report enters the scheduler's channel once, unchanged.",
 ["inputs"], "all outputs and exit statuses of a process; all paths from its end to the scheduler's event",
 "Two swapped strings of one type, a value with two '=' or none, an empty line, a signal or a negative status show only for unusual processes.",
 ["src/localrunner.rs", "src/bin/execgraph-remote.rs", "src/server.rs", "src/sync.rs"], "wait_with_output; ChildOutput; run_local_process_loop; run_command; end_handler; begun_handler; ReadyTrackerClient::send_started and send_finished")

prop("C28", "Tasks are handed out no faster than the launch rate allows",
 "Every task that is handed out, to a local or a remote runner, has its own permit of the run's one limiter, waited for to its end before the task is taken from a ready queue. A permit moves the limiter's next arrival time (which never lies behind the clock when a permit is given) on by 1 s / rate, is given exactly if it then lies at most 1 s ahead of the clock, and is taken in one atomic step in which no other permit is lost; a refused request takes nothing and sleeps just until its permit can be due. Rate 0 never waits. A new rate replaces the old one at once and starts with an empty bucket. The tracker's constructor and set_ratelimit pass on the rate they are given, and get_launch_ratelimit gives the rate in force.",
 ["inputs", "schedules"], "all rates up to 10^9 per second, clock readings and interleavings of requests, with the clock going forward",
 "A permit that two runners share, or a refused request that still uses up the rate, shows only as a rate that is slightly off under contention; no test measures it.",
 ["src/time/gcra.rs", "src/sync.rs"], "RateLimiter; ReadyTrackerClient::recv, set_ratelimit and get_launch_ratelimit; new_ready_tracker",
 note="the arithmetic is evaluated symbolically per path and compared at every order and boundary of tau, tat and the clock")

prop("C20", "The remote runner keeps to its transaction and notices a lost server",
 "For each transaction, which is the one handed on by the previous /end or else one it asks for with a single /start, the remote runner sends /begun and then /end, each at most once, with that transaction's id, and /end only after an answered /begun. It goes on to the next task only when both were answered without an error, with exactly the start response that the /end's reply carries, and it takes every one that it was given; otherwise it stops. It asks for another task exactly when still_accepting_tasks says so, never when it is being killed. "
 "All the time a ping with the transaction's id is sent at every ping interval; a ping that fails, or no answer for longer than the interval, cancels the transaction's token, nothing else does, and every wait for /begun, for the process and for the last /end ends then with an error. Every request has a path, method and body that a route of the server takes.",
 ["schedules", "histories", "failures"], "all paths of the remote runner and its background tasks, all outcomes of requests, of starting the process and of cancellation",
 "A start response that is dropped, a ping failure that nobody sees or an /end after a lost /begun needs a network fault at one step of the protocol.",
 ["src/bin/execgraph-remote.rs", "src/server.rs"], "execgraph-remote's main and run_command with the tasks it spawns; the router of the main server")

prop("C31", "A task's preamble and postamble run once each, with the right arguments",
 "For every task that a local or a remote runner is handed, that task's own preamble is called exactly once, and before its process is started, its transaction is registered, or anything is reported for it (also when it then cannot be started). For every task that is recorded as finished, that task's own postamble is called exactly once, told whether the task exited with code 0, the task's run count and the number of tasks in the graph (the preamble is told no success, 0 and 0). "
 "A task without a capsule has nothing called. The capsule's own function gets the capsule's context, success as 0 or 1, the run count, 0 and the number of tasks, and is called only if the object is a capsule with the expected name. If it is not, or the function gives a code other than 0, the call does not return normally.",
 ["inputs", "schedules"], "all outcomes of every task, local and remote; all tasks with and without either capsule; all codes",
 "The hooks hold users' accounting: a second call on an error path, success told for a lost task or a swapped argument of the same type shows only for unusual tasks.",
 ["src/execgraph.rs", "src/localrunner.rs", "src/server.rs", "src/sync.rs"], "run_local_process_loop; start_request_impl; _finished_bookkeeping_1; Cmd::call_preamble; Cmd::call_postamble; Capsule::call")

prop("C30", "The admin socket does exactly what is asked, and only it can be asked",
 "A request to the admin socket's /ratelimit sets the launch rate to exactly its per_second, one to /provisioner_info stores exactly its provisioner_info, and one to /shutdown triggers a soft shutdown if it says soft and else cancels the run outright: each does this once and nothing else of these, also when it is repeated, and /status does none of them. No request to the server that runners use over the network has such an effect, and the admin handlers are served on a unix socket only. "
 "An old file at the socket's path is removed before it is bound; the socket is served until the run is cancelled outright and its file is then removed. Cleaning up the directory removes only sockets with an admin socket's name whose process does not exist.",
 ["inputs", "histories"], "all requests to all routes of both servers, all contents of the socket directory",
 "Who may stop a run is a question about every route and listener; a clean-up that removes a live run's socket needs several runs of one user at once.",
 ["src/admin_server.rs", "src/server.rs", "src/execgraph.rs"], "admin_router and its handlers; run_admin_service_forever; clean_up_socket_dir; the router of the main server")

prop("C36", "What GET /status reports, and the statistics behind it, are true",
 "A status request waits for exactly the etag, minimum and maximum time it carries (none without a body), and the reply reports every queue of the tracker under its own key with its own num_ready and num_inflight, the etag that goes with them, and the tracker's own launch rate, rate limit, mean run time, number of tasks of the graph, number of unready tasks and the provisioner's info. "
 "The number of unready tasks starts as the number of all tasks and goes down by one for each task that becomes ready, once. The run time of a task is recorded once, as the time since it started, if it succeeded and had started, and never otherwise. A launch is counted once for each task that is handed out, and not for attempts that hand out nothing. The launch rate is the exponentially decaying estimate: 1/tau added per launch, decayed by e^(-dt/tau), over 1 - e^(-age/tau).",
 ["inputs", "schedules"], "all status requests, all outcomes of all tasks, all sequences of launches; the rate formulas on sampled values",
 "Provisioners start and stop machines by these numbers; a counter that drifts on a rare path (a failed task, a claim lost to another runner) shows only in long runs.",
 ["src/server.rs", "src/sync.rs", "src/time/ratecounter.rs", "src/simpleringbuffer.rs"], "status_handler; ReadyTrackerServer::add_to_ready_queue, _finished_bookkeeping_1; ReadyTrackerClient::recv; RateCounter")

prop("C38", "What is shown to the user is shown whole, once",
 "A write to the output shared by the console and log.txt that reports success has given the whole buffer to the console once and, if a file is set, to the file once; a flush that reports success has flushed both. The file is opened for appending, created if missing, and never truncated. No other write of execgraph may lose the part that a partial write did not take. "
 "Each task that the service loop learns to be finished has exactly one status line, which names its own command and, if it failed, the description of its own status, its key and its run count, and its own captured stdout and stderr are each shown exactly once unless they are empty; only after a soft shutdown may a failed task be passed over.",
 ["inputs", "schedules"], "all buffers and outcomes of partial or failing writes; all statuses, outputs and histories of finished tasks",
 "The printed record is what a user reads after a night's run; a line shown twice, output under another task's name or a tail lost on a partial write depends on the console and on the outcome of one task.",
 ["src/logging.rs", "src/sync.rs"], "the Write implementation in logging.rs and the functions that open log.txt; ReadyTrackerServer's service loop")

prop("C14", "What is logged reaches the file, and a log that fails is not passed over",
 "While a run goes on, the service loop always also waits for a timer with an interval of at most a second, and each time it fires both the task log and the output shown to the user are flushed before the loop waits again. execute() returns Ok only when every entry written to the log by then, by itself, the service loop or the drain, has been flushed, also when there was nothing to run. "
 "Wherever an entry is written to the log or the log is flushed (service loop, drain, execute, the Python constructor and write_logfile), a failure is not passed over: before the function waits, makes that call again or returns, the result is known to be Ok, or else the function fails.",
 ["failures", "schedules", "crash points"], "all paths of every function that writes or flushes the log, all outcomes of writing and flushing",
 "The log decides after a crash what is run again; entries that stay in a buffer, or a write error that is dropped, show only when the process is killed or the disk is full.",
 ["src/sync.rs", "src/execgraph.rs", "src/pylib.rs", "src/logfile2.rs"], "ReadyTrackerServer::background_serve and drain; ExecGraph::execute; every caller of LogFile::write and LogFile::flush")
