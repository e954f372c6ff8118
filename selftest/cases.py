"""(name, properties that must report it | None for a behaviour-preserving edit, edits)"""
S = "src/sync.rs"
CASES = []
def mut(name, props, *edits, **kw):
    CASES.append(dict(name=name, props=props.split(), edits=[(e if len(e) == 3 else (S,) + e) for e in edits], **kw))
def same(name, *edits, **kw):
    CASES.append(dict(name="eq-" + name, props=None, edits=[(e if len(e) == 3 else (S,) + e) for e in edits], **kw))

mut("poison-not-success", "C01", ("if is_success {\n                    if !status.poisoned", "if !matches!(e.status, ExitStatus::Disconnected) {\n                    if !status.poisoned"))
mut("is-success-nonneg", "C01", ("matches!(self, ExitStatus::Code(0))", "matches!(self, ExitStatus::Code(0 | 3))"))
mut("unmet-le-1", "C01 C02", ("if status.n_unmet_deps == 0 {", "if status.n_unmet_deps <= 1 {"))
mut("init-unique", "C01", ("g.edges_directed(i, Direction::Incoming).count()", "g.neighbors_undirected(i).count()"))
mut("init-outgoing", "C01", ("g.edges_directed(i, Direction::Incoming).count()", "g.edges_directed(i, Direction::Outgoing).count()"))
mut("init-dedup", "C01", ("g.edges_directed(i, Direction::Incoming).count()", "g.edges_directed(i, Direction::Incoming).filter(|e| g[e.source()].runcount == 0).count()"))
mut("init-lt-2", "C01 C02", ("if v.n_unmet_deps == 0 { Some(*k) }", "if v.n_unmet_deps < 2 { Some(*k) }"))
mut("init-skip", "C02", ("if v.n_unmet_deps == 0 { Some(*k) }", "if v.n_unmet_deps == 0 && self.g[*k].priority > 0 { Some(*k) }"))
mut("dec-2", "C01 C02", ("status.n_unmet_deps -= 1;", "status.n_unmet_deps = status.n_unmet_deps.saturating_sub(2);"))
mut("dec-all", "C01 C02", ("status.n_unmet_deps -= 1;", "status.n_unmet_deps = 0;"))
mut("take-edges", "C02", (".edges_directed(e.id, Direction::Outgoing)\n            .filter_map", ".edges_directed(e.id, Direction::Outgoing)\n            .take(64)\n            .filter_map"))
mut("skip-duplicate", "C02", ("let downstream_id = edge.target();", "let downstream_id = edge.target();\n                if downstream_id == e.id { return None; }"))
mut("poison-on-success", "C02", ("status.n_unmet_deps -= 1;", "status.n_unmet_deps -= 1; if !e.stderr.is_empty() { status.poisoned = true; }"))
mut("ready-truncate", "C02", ("for index in ready.into_iter() {", "for index in ready.into_iter().take(1000) {"))
mut("one-flag-per-queue", "C03", ("taken: taken.clone(),", "taken: Arc::new(AtomicBool::new(false)),"))
mut("shared-flag-all", "C03", ("            let taken = Arc::new(AtomicBool::new(false));\n", ""), ("        for index in ready.into_iter() {", "        let taken = Arc::new(AtomicBool::new(false));\n        for index in ready.into_iter() {"))
mut("load-store", "C03", ("if !task.taken.fetch_or(true, SeqCst) {", "if !task.taken.load(SeqCst) {\n                task.taken.store(true, SeqCst);"))
mut("claim-await", "C03", ("                let mut x = self.queuestate", "                tokio::task::yield_now().await;\n                let mut x = self.queuestate"))
mut("claim-inverted", "C03", ("if !task.taken.fetch_or(true, SeqCst) {", "if !task.taken.fetch_and(true, SeqCst) {"))
mut("claim-drop", "C03", ("                self.ratecounter_launch.update(std::time::Instant::now());\n", "                self.ratecounter_launch.update(std::time::Instant::now());\n                if receiver.is_closed() { return Err(ReadyTrackerClientError::SoftShutdown); }\n"))

same("claim-swap", ("if !task.taken.fetch_or(true, SeqCst) {", "let already = task.taken.swap(true, SeqCst);\n            if already {\n                continue;\n            }\n            {"))
same("claim-cas", ("if !task.taken.fetch_or(true, SeqCst) {", "if task.taken.load(SeqCst) { continue; }\n            if task.taken.compare_exchange(false, true, SeqCst, SeqCst).is_ok() {"))
FOR = '''        let is_success = e.status.is_success();
        let mut ready = Vec::new();
        for edge in self.g.edges_directed(e.id, Direction::Outgoing) {
            let downstream_id = edge.target();
            let status = self.statuses.get_mut(&downstream_id).expect("key doesn't exist");
            if !is_success {
                status.poisoned = true;
                continue;
            }
            if status.poisoned {
                continue;
            }
            status.n_unmet_deps -= 1;
            if status.n_unmet_deps == 0 {
                ready.push(downstream_id);
            }
        }
'''
OLDF = open("/repo/src/sync.rs").read()
OLDF = OLDF[OLDF.index("        let is_success = e.status.is_success();\n        let statuses = &mut"):OLDF.index("        self.add_to_ready_queue(ready).await?;\n        Ok(())")]
same("succ-for-loop", (OLDF, FOR))
mut("succ-for-loop-break", "C02", (OLDF, FOR.replace("if status.poisoned {\n                continue;", "if status.poisoned {\n                break;")))
same("succ-early-return", (OLDF, FOR.replace("        let mut ready", "        let succ: Vec<_> = self.g.neighbors_directed(e.id, Direction::Outgoing).collect();\n        let mut ready").replace("for edge in self.g.edges_directed(e.id, Direction::Outgoing) {", "for downstream_id in succ {").replace("            let downstream_id = edge.target();\n", "")))
same("succ-no-poison-check", (OLDF, FOR.replace("            if status.poisoned {\n                continue;\n            }\n", "")))
same("init-loop", ("""        self.add_to_ready_queue(
            self.statuses
                .iter()
                .filter_map(|(k, v)| if v.n_unmet_deps == 0 { Some(*k) } else { None })
                .collect(),
        )""", """        let mut initial = Vec::new();
        for (k, v) in self.statuses.iter() {
            if v.n_unmet_deps > 0 {
                continue;
            }
            initial.push(*k);
        }
        self.add_to_ready_queue(initial)"""))
same("init-filter-map", ("""                .filter_map(|(k, v)| if v.n_unmet_deps == 0 { Some(*k) } else { None })""", """                .filter(|(_, v)| v.n_unmet_deps == 0)
                .map(|(k, _)| *k)"""))
same("init-statuses-loop", ("""    let statuses: HashMap<NodeIndex, TaskStatus> = g
        .node_indices()
        .map(|i| {
            (
                i,
                TaskStatus {
                    n_unmet_deps: g.edges_directed(i, Direction::Incoming).count(),
                    poisoned: false,
                },
            )
        })
        .collect();""", """    let mut statuses: HashMap<NodeIndex, TaskStatus> = HashMap::with_capacity(g.node_count());
    for i in g.node_indices() {
        let n = g.neighbors_directed(i, Direction::Incoming).count();
        statuses.insert(i, TaskStatus { n_unmet_deps: n, poisoned: false });
    }"""))
same("queue-helper", ("""            let taken = Arc::new(AtomicBool::new(false));

            for i in cmd.affinity.iter_ones() {
                inserts[i].push((
                    TaskItem {
                        id: index,
                        taken: taken.clone(),
                        affinity: cmd.affinity,
                    },
                    priority,
                ));
            }
""", """            let item = TaskItem { id: index, taken: Arc::new(AtomicBool::new(false)), affinity: cmd.affinity };
            cmd.affinity.iter_ones().for_each(|i| inserts[i].push((item.clone(), priority)));
"""))
same("noop", ("        let now = Instant::now();\n        let elapsed = ", "        let now = Instant::now();\n        let _ = 1 + 1;\n        let elapsed = "))

mut("succ-collected-partial", "C02", (OLDF, FOR.replace("        let mut ready", "        let succ: Vec<_> = self.g.neighbors_directed(e.id, Direction::Outgoing).filter(|n| self.g[*n].priority > 0).collect();\n        let mut ready").replace("for edge in self.g.edges_directed(e.id, Direction::Outgoing) {", "for downstream_id in succ {").replace("            let downstream_id = edge.target();\n", "")))
mut("succ-collected-unwalked", "C02", (OLDF, FOR.replace("        let mut ready", "        let succ: Vec<_> = self.g.neighbors_directed(e.id, Direction::Outgoing).collect();\n        let mut ready").replace("for edge in self.g.edges_directed(e.id, Direction::Outgoing) {", "for downstream_id in succ { if self.n_fizzled > 0 { break; }").replace("            let downstream_id = edge.target();\n", "")))

FOR2 = FOR[:FOR.index("            if !is_success {")] + """            status.n_unmet_deps -= 1;
            if !is_success {
                status.poisoned = true;
            }
            if status.n_unmet_deps == 0 && !status.poisoned {
                ready.push(downstream_id);
            }
        }
"""
same("succ-count-all", (OLDF, FOR2))
same("succ-count-all-or", (OLDF, FOR2.replace("            if !is_success {\n                status.poisoned = true;\n            }\n", "            status.poisoned |= !is_success;\n")))
mut("succ-count-all-clear", "C01", (OLDF, FOR2.replace("            if !is_success {\n                status.poisoned = true;\n            }\n", "            status.poisoned = !is_success;\n")))
mut("succ-count-all-nocheck", "C01", (OLDF, FOR2.replace(" && !status.poisoned", "")))
mut("succ-count-all-nomark", "C01", (OLDF, FOR2.replace("status.poisoned = true;", "status.poisoned = !e.stderr.is_empty();")))

# ---- C04
L = "src/localrunner.rs"
mut("aff-next", "C04", ("inserts[i].push((", "inserts[(i + 1) % NUM_RUNNER_TYPES].push(("))
mut("aff-console-too", "C04", ("inserts[i].push((", "inserts[if i > 1 { 2 } else { i }].push(("))
mut("chan-skip", "C04", ("for (i, ready) in inserts.into_iter().enumerate() {", "for (i, ready) in inserts.into_iter().skip(1).enumerate() {"))
mut("chan-skip2", "C04", ("for (i, ready) in inserts.into_iter().enumerate() {", "for (i, ready) in inserts.into_iter().enumerate().take(8) {"))
mut("chan-long-only", "C04", ("            if !ready.is_empty() {\n                if let", "            if ready.len() > 1 {\n                if let"))
mut("chan-break", "C04", ("error!(\"Perhaps TOCTOU? {}\", e);", "error!(\"Perhaps TOCTOU? {}\", e);\n                    break;"))
mut("chan-rev", "C04", ("for (i, ready) in inserts.into_iter().enumerate() {", "for (i, ready) in inserts.into_iter().rev().enumerate() {"))
mut("recv-any", "C04", (".get(runnertypeid as usize)", ".get((runnertypeid as usize).min(NUM_RUNNER_TYPES - 1))"))
mut("recv-u8", "C04", (".get(runnertypeid as usize)", ".get(runnertypeid as u8 as usize)"))
mut("pair-rev", "C04", ("r: ready_r.try_into().unwrap(),", "r: { ready_r.reverse(); ready_r.try_into().unwrap() },"))
mut("console-zero", "C04", (L, "LocalQueueType::ConsoleQueue => 1,", "LocalQueueType::ConsoleQueue => 0,"))
same("chan-zip", ("for (i, ready) in inserts.into_iter().enumerate() {", "for (channel, ready) in channels.iter().zip(inserts.into_iter()) {"), ("channels[i].sendv", "channel.sendv"))
same("chan-range", ("for (i, ready) in inserts.into_iter().enumerate() {", "for i in 0..NUM_RUNNER_TYPES {\n            let ready = std::mem::take(&mut inserts[i]);"))
same("chan-continue", ("            if !ready.is_empty() {\n                if let Err(e) = channels[i].sendv(ready.into_iter().peekable()).await {\n                    error!(\"Perhaps TOCTOU? {}\", e);\n                }\n            }", "            if ready.is_empty() {\n                continue;\n            }\n            let result = channels[i].sendv(ready.into_iter().peekable()).await;\n            if let Err(e) = result {\n                error!(\"Perhaps TOCTOU? {}\", e);\n            }"))
same("aff-local", ("for i in cmd.affinity.iter_ones() {", "let affinity = cmd.affinity;\n            for i in affinity.iter_ones() {"), ("                        affinity: cmd.affinity,\n", "                        affinity,\n"))
same("aff-item-first", ("                inserts[i].push((\n                    TaskItem {\n                        id: index,\n                        taken: taken.clone(),\n                        affinity: cmd.affinity,\n                    },\n                    priority,\n                ));", "                let item = TaskItem { id: index, taken: taken.clone(), affinity: cmd.affinity };\n                let list = &mut inserts[i];\n                list.push((item, priority));"))
same("recv-index", ("        let receiver = self\n            .r\n            .get(runnertypeid as usize)\n            .ok_or(ReadyTrackerClientError::NoSuchRunnerType)?;", "        let t = runnertypeid as usize;\n        if t >= self.r.len() {\n            return Err(ReadyTrackerClientError::NoSuchRunnerType);\n        }\n        let receiver = &self.r[t];"))
same("local-if", (L, "    let runnertypeid = match &local_queue_type {\n        LocalQueueType::NormalLocalQueue => 0,\n        LocalQueueType::ConsoleQueue => 1,\n    };", "    let runnertypeid = if matches!(local_queue_type, LocalQueueType::ConsoleQueue) { 1 } else { 0 };"))

# ---- the ledger: C06 C07 C08 C09 C26 C27
mut("nri-twice-fail", "C06", ("            self.n_failed += 1;\n            let fizzled", "            self.n_failed += 1;\n            if matches!(e.status, ExitStatus::Disconnected) { self.n_ready_or_inflight = self.n_ready_or_inflight.saturating_sub(1); }\n            let fizzled"))
mut("nri-skip-cancelled", "C06", ("            self.n_ready_or_inflight = self.n_ready_or_inflight.saturating_sub(1);\n            let mut v", "            if !matches!(e.status, ExitStatus::Cancelled) { self.n_ready_or_inflight = self.n_ready_or_inflight.saturating_sub(1); }\n            let mut v"))
mut("nri-up-plus", "C06", ("u32::try_from(ready.len()).expect(\"arithmetic overflow\")\n", "u32::try_from(ready.len() + 1).expect(\"arithmetic overflow\")\n"))
mut("nri-started", "C06", ("assert!(self.inflight.insert(e.id, Instant::now()).is_none());", "assert!(self.inflight.insert(e.id, Instant::now()).is_none());\n                            self.n_ready_or_inflight = self.n_ready_or_inflight.saturating_sub(1);"))
mut("nri-le-1", "C06", ("if self.n_ready_or_inflight == 0 ||", "if (self.n_ready_or_inflight == 0 && self.n_failed == 0) ||"))
mut("break-open", "C06", ("                                self.ready = None;\n                                debug!(\"background_serve breaking on n_failed", "                                if self.n_failed > 0 { self.ready = None; }\n                                debug!(\"background_serve breaking on n_failed"))
mut("cancel-open", "C06", ("background_serve breaking on token cancellation\");\n                    self.ready = None;", "background_serve breaking on token cancellation\");"))
mut("recv-noflight", "C07", ("                x.num_inflight += 1;\n", "                if x.num_ready > 0 { x.num_inflight += 1; }\n"))
mut("recv-before-claim", "C07", ("            if !task.taken.fetch_or(true, SeqCst) {\n                let mut x = self.queuestate.get_mut(&task.affinity.data).expect(\"bar\");\n", "            let mut x = self.queuestate.get_mut(&task.affinity.data).expect(\"bar\");\n            x.num_inflight += 1;\n            if !task.taken.fetch_or(true, SeqCst) {\n"), ("                x.num_inflight += 1;\n                self.rate", "                self.rate"))
mut("recv-key", "C07", ("self.queuestate.get_mut(&task.affinity.data).expect(\"bar\")", "self.queuestate.get_mut(&(1u64 << runnertypeid)).expect(\"bar\")"))
mut("recv-underflow", "C07", ("x.num_ready = x.num_ready.saturating_sub(1);", "x.num_ready -= 1;"))
mut("inflight-not-cancelled", "C07", ("            v.value_mut().num_inflight = v.value().num_inflight.checked_sub(1).expect(\"Underflow\");", "            if !matches!(e.status, ExitStatus::Disconnected) { v.value_mut().num_inflight = v.value().num_inflight.checked_sub(1).expect(\"Underflow\"); }"))
mut("ready-up-once", "C07", ("                .num_ready += 1;", "                .num_ready = 1;"))
mut("ready-or-insert", "C07", ("                    num_ready: 0,\n                    num_inflight: 0,\n                })\n                .num_ready += 1;", "                    num_ready: 1,\n                    num_inflight: 0,\n                });"))
mut("no-fake-start", "C08", ("if self.inflight.remove(&e.id).is_none() {", "if self.inflight.remove(&e.id).is_none() && e.status.as_i32() != -1 {"))
mut("start-unconditional", "C08", ("if inflight.remove(&e.id).is_none() {", "inflight.remove(&e.id);\n                    {"))
mut("start-after-fin", "C08", ("                            self.logfile.write(LogEntry::new_finished(\n                                &cmd.key,\n                                e.status.as_i32(),\n                                e.values,\n                            ))?;\n\n", ""), ("                            if self.inflight.remove(&e.id).is_none() {", "                            self.logfile.write(LogEntry::new_finished(\n                                &cmd.key,\n                                e.status.as_i32(),\n                                std::mem::take(&mut e.values),\n                            ))?;\n                            if self.inflight.remove(&e.id).is_none() {"))
mut("fin-not-cancelled", "C08", ("                            self.logfile.write(LogEntry::new_finished(\n                                &cmd.key,\n                                e.status.as_i32(),\n                                e.values,\n                            ))?;\n\n", "                            if self.shutdown_state == ShutdownState::Normal || e.status.is_success() { self.logfile.write(LogEntry::new_finished(\n                                &cmd.key,\n                                e.status.as_i32(),\n                                e.values,\n                            ))?; }\n\n"))
mut("ready-priority-only", "C08", ("                cmd.runcount,\n                &cmd.display(),", "                cmd.runcount.saturating_sub(1),\n                &cmd.display(),"))
mut("drain-clear-first", "C08", ("        let mut inflight = self.inflight.clone();", "        let mut inflight = std::mem::take(&mut self.inflight);\n        let keep = inflight.len();\n        if keep > 1024 { inflight.clear(); }"))
mut("drain-break", "C08", ("            let e = FinishedEvent::new_disconnected(k.to_owned(), \"\".to_owned());", "            if cmd.runcount == u32::MAX { break; }\n            let e = FinishedEvent::new_disconnected(k.to_owned(), \"\".to_owned());"))
mut("status-abs", "C09", ("ExitStatus::Cancelled => -10,", "ExitStatus::Cancelled => 0,"))
mut("status-same", "C09", ("ExitStatus::Cancelled => -10,", "ExitStatus::Cancelled => -1,"))
mut("status-mod", "C09", ("ExitStatus::Code(c) => *c,", "ExitStatus::Code(c) => *c & 0xff,"))
mut("failed-not-cancelled", "C09", ("            self.n_failed += 1;\n", "            if !matches!(e.status, ExitStatus::Cancelled) { self.n_failed += 1; }\n"))
mut("order-success-only", "C09", ("self.finished_order.push(e.id);", "if e.status.as_i32() >= 0 { self.finished_order.push(e.id); }"))
mut("values-dropped", "C09", ("                        e.status.as_i32(),\n                        e.values,\n                    ))?;\n                }\n                Err(_)", "                        e.status.as_i32(),\n                        ValueMaps::new(),\n                    ))?;\n                }\n                Err(_)"))
mut("soft-open", "C26", ("                    debug!(\"Background serve received soft_shutdown_trigger\");\n                    self.ready = None;", "                    debug!(\"Background serve received soft_shutdown_trigger\");\n                    if !self.inflight.is_empty() { self.ready = None; }"))
mut("soft-state", "C26", ("                    self.shutdown_state = ShutdownState::SoftShutdown;\n                    self.soft_shutdown_trigger.unset();", "                    self.soft_shutdown_trigger.unset();"))
mut("soft-cont", "C26", ("(self.shutdown_state == ShutdownState::SoftShutdown && self.inflight.is_empty())", "(self.shutdown_state == ShutdownState::SoftShutdown && self.inflight.is_empty() && self.n_fizzled > 0)"))
mut("soft-reset", "C26", ("self.soft_shutdown_trigger.unset();", "self.soft_shutdown_trigger.unset();\n                    if self.inflight.is_empty() { self.shutdown_state = ShutdownState::Normal; }"))
mut("fizz-gt", "C27", ("if self.n_fizzled >= self.fizzles_allowed {", "if self.n_fizzled > self.fizzles_allowed {"))
mut("fizz-all", "C27", ("matches!(elapsed, Some(elapsed) if elapsed < FIZZLED_TIME_CUTOFF)", "elapsed.map_or(true, |elapsed| elapsed < FIZZLED_TIME_CUTOFF)"))
mut("fizz-only-code", "C27", ("            if fizzled {\n", "            if fizzled && matches!(e.status, ExitStatus::Code(c) if c > 0) {\n"))
mut("fizz-no-close", "C27", ("                                token.cancel(CancellationState::CancelledAfterTime(Instant::now() - FIZZLED_TIME_CUTOFF));\n                                self.ready = None;", "                                token.cancel(CancellationState::CancelledAfterTime(Instant::now() - FIZZLED_TIME_CUTOFF));\n                                if self.n_fizzled == self.fizzles_allowed { self.ready = None; }"))
mut("fizz-hard", "C27 C26", ("CancellationState::CancelledAfterTime(Instant::now() - FIZZLED_TIME_CUTOFF)", "CancellationState::HardCancelled"))
same("led-remove-early", ("                            if self.inflight.remove(&e.id).is_none() {\n", "                            let known = self.inflight.remove(&e.id).is_some();\n                            if !known {\n"))
same("led-match-remove", ("                            if self.inflight.remove(&e.id).is_none() {\n", "                            if let None = self.inflight.remove(&e.id) {\n"))
same("led-helper-finish", ("                            self.logfile.write(LogEntry::new_finished(\n                                &cmd.key,\n                                e.status.as_i32(),\n                                e.values,\n                            ))?;\n\n", "                            let status = e.status.as_i32();\n                            self.log_finished(&cmd.key, status, e.values)?;\n\n"), ("    async fn _finished_bookkeeping_2", "    fn log_finished(&mut self, key: &str, status: i32, values: ValueMaps) -> Result<()> {\n        let entry = LogEntry::new_finished(key, status, values);\n        self.logfile.write(entry)?;\n        Ok(())\n    }\n\n    async fn _finished_bookkeeping_2"))
same("led-nri-each", ("        self.n_ready_or_inflight = self.n_ready_or_inflight.checked_add(\n            u32::try_from(ready.len()).expect(\"arithmetic overflow\")\n        ).expect(\"arithmetic overflow\");\n", ""), ("            let priority = cmd.priority;\n", "            let priority = cmd.priority;\n            self.n_ready_or_inflight += 1;\n"))
same("led-failed-early-return", ("            self.n_failed += 1;\n            let fizzled = matches!(elapsed, Some(elapsed) if elapsed < FIZZLED_TIME_CUTOFF);\n            if fizzled {\n                self.n_fizzled += 1;\n            }\n", "            let fizzled = match elapsed { Some(d) => d < FIZZLED_TIME_CUTOFF, None => false };\n            self.n_fizzled += fizzled as u32;\n            self.n_failed += 1;\n"))
same("led-close-method", ("    async fn _finished_bookkeeping_2", "    fn shut(&mut self) {\n        drop(self.ready.take());\n    }\n\n    async fn _finished_bookkeeping_2"), ("                    debug!(\"Background serve received soft_shutdown_trigger\");\n                    self.ready = None;", "                    debug!(\"Background serve received soft_shutdown_trigger\");\n                    self.shut();"))
same("led-done-helper", ("if self.n_ready_or_inflight == 0 || (self.shutdown_state == ShutdownState::SoftShutdown && self.inflight.is_empty()) {", "let stopping = self.shutdown_state == ShutdownState::SoftShutdown;\n                            let done = self.n_ready_or_inflight == 0 || (stopping && self.inflight.len() == 0);\n                            if done {"))
same("led-recv-counter-helper", ("                let mut x = self.queuestate.get_mut(&task.affinity.data).expect(\"bar\");\n", "                self.count_launch(&task);\n                return Ok(task.id);\n            }\n        }\n    }\n\n    fn count_launch(&self, task: &TaskItem) {\n        let key = task.affinity.data;\n        {\n            let mut x = self.queuestate.get_mut(&key).expect(\"bar\");\n"), ("                self.ratecounter_launch.update(std::time::Instant::now());\n                return Ok(task.id);\n            }\n        }\n", "        }\n        self.ratecounter_launch.update(std::time::Instant::now());\n"))
same("led-drain-into-iter", ("        for (k, _) in inflight.iter() {\n            let cmd = self.g[*k];\n            let e = FinishedEvent::new_disconnected(k.to_owned(), \"\".to_owned());", "        for k in inflight.into_keys() {\n            let cmd = self.g[k];\n            let e = FinishedEvent::new_disconnected(k, String::new());"))
same("led-drain-while-let", ("        loop {\n            match self.completed.try_recv() {\n                Ok(Event::Started(e)) => {", "        while let Ok(event) = self.completed.try_recv() {\n            match event {\n                Event::Started(e) => {"), ("                Ok(Event::Finished(e)) => {\n                    let cmd = self.g[e.id];\n                    self._fin", "                Event::Finished(e) => {\n                    let cmd = self.g[e.id];\n                    self._fin"), ("                Err(_) => {\n                    break;\n                }\n            }\n        }\n\n        self.inflight.clear();", "            }\n        }\n\n        self.inflight.clear();"))

# ---------------------------------------------------------------- C05 local runner
L = "src/localrunner.rs"
mut("lr-unable-continue", "C05", (L, "                send_unable_to_start(tracker, subgraph_node_id, cmd, &hostname, e).await;\n                continue;", "                debug!(\"{}\", e);\n                continue;"))
mut("lr-unable-no-start", "C05", (L, "    tracker\n        .send_started(subgraph_node_id, cmd, hostname, 0, \"\".to_string())\n        .await;\n    tracker\n", "    tracker\n"))
mut("lr-unable-unwrap", "C05", (L, "        let child = match maybe_child {\n            Ok(child) => child,\n            Err(e) => {\n                send_unable_to_start(tracker, subgraph_node_id, cmd, &hostname, e).await;\n                continue;\n            }\n        };", "        let child = maybe_child.unwrap();"))
mut("lr-finish-before", "C05", (L, "        tracker\n            .send_started(subgraph_node_id, cmd, &hostname, pid, \"\".to_string())\n            .await;\n\n        let output", "        let output"), (L, "        tracker.send_finished(event).await;\n", "        tracker.send_finished(event).await;\n        tracker\n            .send_started(subgraph_node_id, cmd, &hostname, pid, \"\".to_string())\n            .await;\n"))
mut("lr-cancel-silent", "C05", (L, "if let CancellationState::CancelledAfterTime(_) = cancel {", "if let CancellationState::HardCancelled = cancel {"))
mut("lr-err-break", "C05", (L, "        let event = match output {\n            Ok(output) => output.to_event(subgraph_node_id),\n", "        let event = match output {\n            Ok(output) => output.to_event(subgraph_node_id),\n            Err(ChildProcessError::IoError(_)) => break,\n"))
mut("lr-args-2", "C05", (L, "                .args(&cmd.cmdline[1..])\n                .kill_on_drop(true)\n                .stdin(Stdio::inherit())", "                .args(&cmd.cmdline[2..])\n                .kill_on_drop(true)\n                .stdin(Stdio::inherit())"))
mut("lr-args-none", "C05", (L, "                .args(&cmd.cmdline[1..])\n                .kill_on_drop(true)\n                .stdin(Stdio::inherit())", "                .kill_on_drop(true)\n                .stdin(Stdio::inherit())"))
mut("lr-retry-spawn", "C05", (L, "        .and_then(|command| command.spawn().map_err(anyhow::Error::from));", "        .and_then(|command| command.spawn().or_else(|_| command.spawn()).map_err(anyhow::Error::from));"))
mut("lr-signal-nofinish", "C05", (L, "        tracker.send_finished(event).await;\n    }", "        if !matches!(event.status, ExitStatus::Code(-9)) {\n            tracker.send_finished(event).await;\n        }\n    }"))
mut("lr-started-swap", "C05", ("                host: host.to_string(),\n                pid,\n                slurm_jobid,", "                host: slurm_jobid.clone(),\n                pid,\n                slurm_jobid,"))
mut("lr-send-if-open", "C05", ("        let r = self.s.send(Event::Finished(event)).await;\n        if r.is_err() {\n            debug!(\"send_finished: cannot send to channel: {:#?}\", r);\n        };", "        if self.s.is_empty() {\n            let _ = self.s.send(Event::Finished(event)).await;\n        }"))
same("lr-loop", (L, "    while let Ok(subgraph_node_id) = tracker.recv(runnertypeid).await {\n", "    loop {\n        let subgraph_node_id = match tracker.recv(runnertypeid).await {\n            Ok(id) => id,\n            Err(_) => break,\n        };\n"))
same("lr-split-first", (L, "        let mut command = Command::new(&cmd.cmdline[0]);", "        let (program, args) = cmd.cmdline.split_first().expect(\"empty command line\");\n        let mut command = Command::new(program);"), (L, "                .args(&cmd.cmdline[1..])\n                .kill_on_drop(true)\n                .stdin(Stdio::inherit())", "                .args(args)\n                .kill_on_drop(true)\n                .stdin(Stdio::inherit())"))
same("lr-one-loop-fn", (L, "        tracing::debug!(\"Finished cmd\");\n        let event = match output {\n            Ok(output) => output.to_event(subgraph_node_id),\n            Err(e) => FinishedEvent::new_error(\n                subgraph_node_id,\n                -1,\n                format!(\"Unable to wait for {:#?}: {:#?}\", &cmd.cmdline[0], e),\n            ),\n        };\n        tracker.send_finished(event).await;\n", "        report(tracker, subgraph_node_id, cmd, output).await;\n"), (L, "/// Report a task whose process could not be started as a failed one", "async fn report(tracker: &ReadyTrackerClient, id: NodeIndex, cmd: &Cmd, output: Result<ChildOutput, ChildProcessError>) {\n    let event = match output {\n        Ok(output) => output.to_event(id),\n        Err(e) => FinishedEvent::new_error(id, -1, format!(\"Unable to wait for {:#?}: {:#?}\", &cmd.cmdline[0], e)),\n    };\n    tracker.send_finished(event).await;\n}\n\n/// Report a task whose process could not be started as a failed one"))
same("lr-inherit-match", (L, "                if let CancellationState::CancelledAfterTime(_) = cancel {\n                    // if we were soft canceled, send a finished notification.\n                    tracker\n                        .send_finished(FinishedEvent::new_cancelled(subgraph_node_id))\n                        .await;\n                }\n", "                let event = FinishedEvent::new_cancelled(subgraph_node_id);\n                match cancel {\n                    CancellationState::HardCancelled => {}\n                    _ => tracker.send_finished(event).await,\n                }\n"))
same("lr-stdio-helper", (L, "        let maybe_child = match &local_queue_type {\n            LocalQueueType::NormalLocalQueue => command\n                .args(&cmd.cmdline[1..])\n                .kill_on_drop(true)\n                .stdin(Stdio::null())\n                .stdout(Stdio::piped())\n                .stderr(Stdio::piped()),\n            LocalQueueType::ConsoleQueue => command\n                .args(&cmd.cmdline[1..])\n                .kill_on_drop(true)\n                .stdin(Stdio::inherit())\n                .stdout(Stdio::inherit())\n                .stderr(Stdio::inherit()),\n        }\n        .fd_mappings", "        command.args(cmd.cmdline.iter().skip(1)).kill_on_drop(true);\n        match &local_queue_type {\n            LocalQueueType::NormalLocalQueue => {\n                command.stdin(Stdio::null()).stdout(Stdio::piped()).stderr(Stdio::piped());\n            }\n            LocalQueueType::ConsoleQueue => {\n                command.stdin(Stdio::inherit()).stdout(Stdio::inherit()).stderr(Stdio::inherit());\n            }\n        }\n        let maybe_child = command.fd_mappings"))

# ---------------------------------------------------------------- C17, C29 remote transactions
V = "src/server.rs"
mut("tx-end-remove", "C17", (V, ".remove_if(&request.transaction_id, |_, cstate| {\n                cstate.slurm_jobid == runner_slurm_jobid\n            })", ".remove(&request.transaction_id)"))
mut("tx-end-or", "C17", (V, "cstate.slurm_jobid == runner_slurm_jobid\n            })", "cstate.slurm_jobid == runner_slurm_jobid || runner_slurm_jobid.is_empty()\n            })"))
mut("tx-reap-take", "C17", (V, "for cstate in expired {", "for cstate in expired.into_iter().take(64) {"))
mut("tx-reap-nopush", "C17", (V, "                    if let Some((_, cstate)) = self.connections.remove(&key) {\n                        expired.push(cstate);\n                    }", "                    if let Some((_, cstate)) = self.connections.remove(&key) {\n                        if !cstate.begun { expired.push(cstate); }\n                    }"))
mut("tx-reap-continue", "C17", (V, "            for cstate in expired {\n", "            for cstate in expired {\n                if cstate.disconnect_error_message.is_empty() { continue; }\n"))
mut("tx-stdout-stderr", "C17", (V, "stdout: request.stdout,\n                stderr: request.stderr,", "stdout: request.stderr,\n                stderr: request.stdout,"))
mut("tx-begun-twice", "C17", (V, "    if std::mem::replace(&mut cstate.begun, true) {\n        return Err(AppError::BadRequest);\n    }\n", "    cstate.begun = true;\n"))
mut("tx-begun-first-unset", "C17", (V, "    if std::mem::replace(&mut cstate.begun, true) {", "    if cstate.begun {"))
mut("tx-answer-err", "C17", (V, "    Ok(StartResponse {\n        transaction_id,", "    if state.token.is_soft_cancelled().is_some() {\n        return Err(AppError::Shutdown);\n    }\n\n    Ok(StartResponse {\n        transaction_id,"))
mut("tx-claim-check", "C17", (V, "    let cmd = state.subgraph[node_id];\n    cmd.call", "    if state.token.is_soft_cancelled().is_some() {\n        return Err(AppError::Shutdown);\n    }\n    let cmd = state.subgraph[node_id];\n    cmd.call"))
mut("tx-reap-status", "C17", (V, "FinishedEvent::new_disconnected(\n                            cstate.node_id,\n                            cstate.disconnect_error_message,\n                        ),", "FinishedEvent::new_error(\n                            cstate.node_id,\n                            0,\n                            cstate.disconnect_error_message,\n                        ),"))
mut("tx-end-code", "C17", (V, "status: ExitStatus::Code(request.status),", "status: ExitStatus::Code(request.status & 0xff),"))
mut("tx-retain", "C17", (V, "            for cstate in expired {", "            self.connections.retain(|_, c| c.start_time_approx.elapsed() < Duration::from_secs(86400));\n            for cstate in expired {"))
mut("tx-yield-claimed", "C29", (V, "    let transaction_id = rand::random::<u32>();", "    tokio::task::yield_now().await;\n    let transaction_id = rand::random::<u32>();"))
mut("tx-preamble-await", "C29", (V, "    cmd.call_preamble();\n    let transaction_id", "    let pre = cmd.clone();\n    let _ = tokio::task::spawn_blocking(move || drop(pre)).await;\n    let transaction_id"))
mut("tx-yield-removed", "C29", (V, "    let flag = AsyncFlag::new();\n", "    let flag = AsyncFlag::new();\n    tokio::task::yield_now().await;\n"))
mut("tx-bounded", "C29", ("async_channel::unbounded", "async_channel::bounded"), ("async_channel::bounded()", "async_channel::bounded(1024)")) if False else None
same("tx-reap-direct", (V, "                    if let Some((_, cstate)) = self.connections.remove(&key) {\n                        expired.push(cstate);\n                    }\n                }\n            }\n", "                    if let Some((_, cstate)) = self.connections.remove(&key) {\n                        self.tracker.send_finished(FinishedEvent::new_disconnected(cstate.node_id, cstate.disconnect_error_message)).await;\n                    }\n                }\n            }\n"))
same("tx-reap-extend", (V, "                for (_, transaction_id) in ticked.drain() {\n                    if let Some((_, cstate)) = self.connections.remove(&transaction_id) {\n                        expired.push(cstate);\n                    }\n                }", "                expired.extend(ticked.drain().filter_map(|(_, id)| self.connections.remove(&id)).map(|(_, c)| c));"))
same("tx-reap-helper", (V, "            for cstate in expired {\n                self.tracker\n                    .send_finished(\n                        FinishedEvent::new_disconnected(\n                            cstate.node_id,\n                            cstate.disconnect_error_message,\n                        ),\n                    )\n                    .await;\n            }\n", "            self.report_lost(expired).await;\n"), (V, "    pub async fn reap_pings_forever", "    async fn report_lost(&self, mut lost: Vec<ConnectionState>) {\n        while let Some(cstate) = lost.pop() {\n            let event = FinishedEvent::new_disconnected(cstate.node_id, cstate.disconnect_error_message);\n            self.tracker.send_finished(event).await;\n        }\n    }\n\n    pub async fn reap_pings_forever"))
same("tx-response-first", (V, "    state.connections.insert(\n", "    let response = StartResponse {\n        transaction_id,\n        cmdline: cmd.cmdline.clone(),\n        fd_input: cmd.fd_input.clone(),\n        ping_interval_msecs: PING_INTERVAL_MSECS,\n    };\n    state.connections.insert(\n"), (V, "    Ok(StartResponse {\n        transaction_id,\n        cmdline: cmd.cmdline.clone(),\n        fd_input: cmd.fd_input.clone(),\n        ping_interval_msecs: PING_INTERVAL_MSECS,\n    })", "    Ok(response)"))
JOB = '''    let runner_slurm_jobid = match headers.get("X-EXECGRAPH-SLURM-JOB-ID") {
        Some(headervalue) => match headervalue.to_str() {
            Ok(jobid) => jobid.to_owned(),
            Err(_) => {
                return Err(AppError::BadRequest);
            }
        },
        None => return Err(AppError::BadRequest),
    };
'''
JOB2 = "    let runner_slurm_jobid = slurm_jobid(&headers)?;\n"
same("tx-jobid-helper", (V, JOB, JOB2), (V, JOB, JOB2), (V, JOB, JOB2), (V, "// GET /start\n", "fn slurm_jobid(headers: &axum::http::header::HeaderMap) -> Result<String, AppError> {\n    headers\n        .get(\"X-EXECGRAPH-SLURM-JOB-ID\")\n        .and_then(|v| v.to_str().ok())\n        .map(str::to_owned)\n        .ok_or(AppError::BadRequest)\n}\n\n// GET /start\n"))
same("tx-register-helper", (V, "    let transaction_id = rand::random::<u32>();\n\n    let timer_id = state.timeouts.insert(\n        std::time::Duration::from_millis(PING_TIMEOUT_MSECS),\n        transaction_id,\n    );\n\n    state.connections.insert(\n        transaction_id,\n        ConnectionState {\n            start_time_approx: std::time::Instant::now(),\n            timer_id,\n            cmd: cmd.clone(),\n            node_id,\n            disconnect_error_message: request.disconnect_error_message,\n            slurm_jobid: runner_slurm_jobid,\n            begun: false,\n        },\n    );\n", "    let transaction_id = state.open(node_id, request.disconnect_error_message, runner_slurm_jobid);\n"), (V, "    pub async fn reap_pings_forever", "    fn open(&self, node_id: NodeIndex, disconnect_error_message: String, slurm_jobid: String) -> u32 {\n        let cmd = self.subgraph[node_id].clone();\n        let id = rand::random::<u32>();\n        let timer_id = self.timeouts.insert(Duration::from_millis(PING_TIMEOUT_MSECS), id);\n        let c = ConnectionState { start_time_approx: Instant::now(), timer_id, cmd, node_id, disconnect_error_message, slurm_jobid, begun: false };\n        self.connections.insert(id, c);\n        id\n    }\n\n    pub async fn reap_pings_forever"))
same("tx-begun-if", (V, "    if std::mem::replace(&mut cstate.begun, true) {\n        return Err(AppError::BadRequest);\n    }\n", "    if cstate.begun {\n        return Err(AppError::BadRequest);\n    }\n    cstate.begun = true;\n"))
same("tx-select-claim", (V, "        Some(start_request) => {\n            tokio::select! {\n            _ = state.token.hard_cancelled() => {}\n            _ = flag.wait() => {}\n            };\n            let resp = start_request_impl(state, start_request, runner_slurm_jobid).await?;\n            Ok(Postcard(EndResponse {\n                start_response: Some(resp),\n            }))\n        }\n        None => Ok(Postcard(EndResponse {\n            start_response: None,\n        })),\n    }", "        Some(start_request) => {\n            tokio::select! {\n                _ = flag.wait() => {}\n                _ = state.token.hard_cancelled() => {}\n            };\n            let start_response = Some(start_request_impl(state, start_request, runner_slurm_jobid).await?);\n            Ok(Postcard(EndResponse { start_response }))\n        }\n        None => Ok(Postcard(EndResponse { start_response: None })),\n    }"))

# ---------------------------------------------------------------- C16
X = "src/execgraph.rs"
AUTH = "    if authorization.token() != state.authorization_token {\n        return Err(AppError::Unauthorized);\n    };\n"
PINGH = "    Postcard(request): Postcard<Ping>,\n) -> Result<Response, AppError> {\n"
mut("auth-ping-none", "C16", (V, PINGH + AUTH, PINGH))
mut("auth-ping-token-prefix", "C16", (V, PINGH + AUTH, PINGH + AUTH.replace("authorization.token() != state.authorization_token", "!state.authorization_token.starts_with(authorization.token())")))
mut("auth-ping-len", "C16", (V, PINGH + AUTH, PINGH + AUTH.replace("authorization.token() != state.authorization_token", "authorization.token().len() != state.authorization_token.len()")))
mut("auth-begun-late", "C16", (V, "    if authorization.token() != state.authorization_token {\n        return Err(AppError::Unauthorized);\n    };\n    let mut cstate = state\n        .connections\n        .get_mut(&request.transaction_id)\n        .ok_or(AppError::NoSuchTransaction)?;\n", "    let mut cstate = state\n        .connections\n        .get_mut(&request.transaction_id)\n        .ok_or(AppError::NoSuchTransaction)?;\n    cstate.begun = true;\n    if authorization.token() != state.authorization_token {\n        return Err(AppError::Unauthorized);\n    };\n"))
mut("auth-mark-cond", "C16", (V, AUTH + "\n    let mut reply_jobids", AUTH.replace("state.authorization_token {", "state.authorization_token && !request.jobids.is_empty() {") + "\n    let mut reply_jobids"))
mut("auth-end-ok", "C16", (V, "    // check auth token\n" + AUTH + "\n    // extract required slurm jobid\n    let runner_slurm_jobid = match headers.get(\"X-EXECGRAPH-SLURM-JOB-ID\") {\n        Some(headervalue) => match headervalue.to_str() {\n            Ok(jobid) => jobid.to_owned(),\n            Err(_) => {\n                return Err(AppError::BadRequest);\n            }\n        },\n        None => return Err(AppError::BadRequest),\n    };\n\n    // If the RPC", "    if authorization.token() != state.authorization_token && request.start_request.is_some() {\n        return Err(AppError::Unauthorized);\n    };\n    let runner_slurm_jobid = headers.get(\"X-EXECGRAPH-SLURM-JOB-ID\").and_then(|h| h.to_str().ok()).unwrap_or(\"\").to_owned();\n\n    // If the RPC"))
mut("auth-secret-fixed", "C16", (X, "b64.encode(rand::random::<u128>().to_le_bytes())", "b64.encode((std::process::id() as u128).to_le_bytes())"))
mut("auth-secret-other", "C16", (X, "                    authorization_token,\n                )\n                .await\n                {", "                    b64.encode(rand::random::<u128>().to_le_bytes()),\n                )\n                .await\n                {"))
mut("auth-status-close", "C16", (V, "    let (etag, snapshot) = state\n        .tracker", "    if request.timeout_ms > 600_000 { state.token.cancel(CancellationState::HardCancelled); }\n    let (etag, snapshot) = state\n        .tracker"))
same("auth-helper", (V, PINGH + AUTH, PINGH + "    authorize(authorization.token(), &state)?;\n"), (V, "// POST /ping\n", "fn authorize(token: &str, state: &State<'static>) -> Result<(), AppError> {\n    if token == state.authorization_token.as_str() {\n        Ok(())\n    } else {\n        Err(AppError::Unauthorized)\n    }\n}\n\n// POST /ping\n"))
same("auth-order", (V, "    // check auth token\n" + AUTH + "\n    // extract required slurm jobid\n    let runner_slurm_jobid = match headers.get(\"X-EXECGRAPH-SLURM-JOB-ID\") {\n        Some(headervalue) => match headervalue.to_str() {\n            Ok(jobid) => jobid.to_owned(),\n            Err(_) => {\n                return Err(AppError::BadRequest);\n            }\n        },\n        None => return Err(AppError::BadRequest),\n    };\n", "    let runner_slurm_jobid = match headers.get(\"X-EXECGRAPH-SLURM-JOB-ID\") {\n        Some(headervalue) => match headervalue.to_str() {\n            Ok(jobid) => jobid.to_owned(),\n            Err(_) => {\n                return Err(AppError::BadRequest);\n            }\n        },\n        None => return Err(AppError::BadRequest),\n    };\n" + AUTH))
same("auth-let", (V, PINGH + AUTH, PINGH + "    let authorized = state.authorization_token == authorization.token();\n    let conns = &state.connections;\n    if !authorized {\n        tracing::debug!(\"ping without the token\");\n        return Err(AppError::Unauthorized);\n    }\n    let _ = conns;\n"))

# ---------------------------------------------------------------- C18
W8 = "src/time/timewheel.rs"
PING = "    cstate.value_mut().timer_id = {\n        state.timeouts.cancel(cstate.value().timer_id);\n        state.timeouts.insert(\n            std::time::Duration::from_millis(PING_TIMEOUT_MSECS),\n            request.transaction_id,\n        )\n    };\n"
mut("hb-no-cancel", "C18", (V, "        state.timeouts.cancel(cstate.value().timer_id);\n        state.timeouts.insert(", "        state.timeouts.insert("))
mut("hb-not-stored", "C18", (V, PING, "    let _ = &mut cstate;\n    state.timeouts.cancel(cstate.value().timer_id);\n    state.timeouts.insert(\n        std::time::Duration::from_millis(PING_TIMEOUT_MSECS),\n        request.transaction_id,\n    );\n"))
mut("hb-begun-only", "C18", (V, PING, "    if !cstate.begun {\n        return Ok((StatusCode::OK, \"\").into_response());\n    }\n" + PING))
mut("hb-pid", "C18", (V, "            request.transaction_id,\n        )\n    };\n", "            cstate.node_id.index() as u32,\n        )\n    };\n"))
mut("hb-reg-other", "C18", (V, "        std::time::Duration::from_millis(PING_TIMEOUT_MSECS),\n        transaction_id,\n    );\n", "        std::time::Duration::from_millis(PING_TIMEOUT_MSECS),\n        node_id.index() as u32,\n    );\n"))
mut("hb-timeout-interval", "C18", ("src/constants.rs", "2 * PING_INTERVAL_MSECS + 5000", "PING_INTERVAL_MSECS"))
mut("hb-timeout-over", "C18", (V, "const TIMEWHEEL_DURATION_MSECS: u64 = PING_TIMEOUT_MSECS + 1;", "const TIMEWHEEL_DURATION_MSECS: u64 = 30_000;"))
mut("hb-short-first", "C18", (V, "        std::time::Duration::from_millis(PING_TIMEOUT_MSECS),\n        transaction_id,\n    );\n", "        std::time::Duration::from_millis(PING_INTERVAL_MSECS),\n        transaction_id,\n    );\n"))
mut("hb-tick-old", "C18", (W8, "let index = old.wrapping_add(1u8) as usize;", "let index = old.wrapping_add(2u8) as usize;"))
mut("hb-tick-2", "C18", (W8, "self.current.fetch_add(1u8,", "self.current.fetch_add(2u8,"))
mut("hb-cancel-current", "C18", (W8, "        let index = slot as usize;\n        let mut guard", "        let index = slot.wrapping_add(1) as usize;\n        let mut guard"))
mut("hb-slot-current", "C18", (W8, "                slot: pos,", "                slot: self.current.load(Ordering::SeqCst).wrapping_add(step),"))
mut("hb-step-256", "C18", (W8, "/ self.duration.as_nanos() as u64) as u8;", "/ (2 * self.duration.as_nanos() as u64)) as u8;"), (V, "PING_TIMEOUT_MSECS + 1", "2 * PING_TIMEOUT_MSECS"))
mut("hb-reaper-period", "C18", (V, "let tick_time = self.timeouts.tick_duration();", "let tick_time = Duration::from_millis(100);"))
mut("hb-reaper-soft-stop", "C18", (V, "                _ = &mut stop => {return;}\n", "                _ = &mut stop => {return;}\n                _ = self.token.hard_cancelled() => {return;}\n"))
mut("hb-reaper-skip", "C18", (V, "            let ticked = self.timeouts.tick();", "            let ticked = if self.connections.is_empty() { None } else { self.timeouts.tick() };"))
same("hb-helper", (V, PING, "    let old = cstate.timer_id;\n    let fresh = state.arm(request.transaction_id);\n    cstate.timer_id = fresh;\n    state.timeouts.cancel(old);\n"), (V, "    let timer_id = state.timeouts.insert(\n        std::time::Duration::from_millis(PING_TIMEOUT_MSECS),\n        transaction_id,\n    );\n", "    let timer_id = state.arm(transaction_id);\n"), (V, "    pub async fn reap_pings_forever", "    fn arm(&self, transaction_id: u32) -> TimerID {\n        self.timeouts.insert(Duration::from_millis(PING_TIMEOUT_MSECS), transaction_id)\n    }\n\n    pub async fn reap_pings_forever"))
same("hb-replace", (V, PING, "    let fresh = state.timeouts.insert(\n        std::time::Duration::from_millis(PING_TIMEOUT_MSECS),\n        request.transaction_id,\n    );\n    let old = std::mem::replace(&mut cstate.timer_id, fresh);\n    state.timeouts.cancel(old);\n"))
same("hb-iflet", (V, "    let mut cstate = match state.connections.get_mut(&request.transaction_id) {\n        Some(cstate) => cstate,\n        None => return Ok((StatusCode::OK, \"\").into_response()),\n    };\n\n" + PING, "    if let Some(mut cstate) = state.connections.get_mut(&request.transaction_id) {\n        state.timeouts.cancel(cstate.timer_id);\n        cstate.timer_id = state.timeouts.insert(\n            std::time::Duration::from_millis(PING_TIMEOUT_MSECS),\n            request.transaction_id,\n        );\n    }\n"))
same("hb-wheel", (W8, "        if guard.is_none() {\n            let bucket = Some(SlotMap::with_key());\n            *guard = bucket;\n        }\n        if let Some(ref mut bucket) = *guard {\n            TimerID {\n                key: bucket.insert(e),\n                slot: pos,\n            }\n        } else {\n            unreachable!();\n        }", "        let bucket = guard.get_or_insert_with(SlotMap::with_key);\n        let key = bucket.insert(e);\n        TimerID { key, slot: pos }"), (W8, "        let old = self.current.fetch_add(1u8, Ordering::SeqCst);\n        let index = old.wrapping_add(1u8) as usize;\n        let mut guard = self.slots[index].lock().unwrap();\n        guard.take()", "        let index = self.current.fetch_add(1u8, Ordering::SeqCst).wrapping_add(1u8);\n        let slot = &self.slots[index as usize];\n        std::mem::take(&mut *slot.lock().unwrap())"), (W8, "        let TimerID { key, slot } = k;\n        let index = slot as usize;\n        let mut guard = self.slots[index].lock().unwrap();\n        if let Some(ref mut bucket) = *guard {\n            bucket.remove(key);\n        }", "        let mut guard = self.slots[k.slot as usize].lock().unwrap();\n        if let Some(bucket) = guard.as_mut() {\n            bucket.remove(k.key);\n        }"))
same("hb-reaper-order", (V, "            tokio::select! {\n                _ = interval.tick() => {},\n                _ = &mut stop => {return;}\n            };\n", "            let stopped = tokio::select! {\n                _ = &mut stop => true,\n                _ = interval.tick() => false,\n            };\n            if stopped {\n                break;\n            }\n"))

# ---------------------------------------------------------------- C19
CHK = "    {\n        let cancelled_slurm_jobids = state.cancelled_slurm_jobids.read().unwrap();\n        if cancelled_slurm_jobids.contains(&runner_slurm_jobid) {\n            return Err(AppError::Shutdown);\n        }\n    }\n"
mut("sl-no-check", "C19", (V, CHK, ""))
mut("sl-check-inverse", "C19", (V, CHK, CHK.replace("if cancelled", "if !cancelled_slurm_jobids.is_empty() && !cancelled")))
mut("sl-check-only-big", "C19", (V, CHK, CHK.replace("if cancelled", "if request.runnertypeid == 0 && cancelled")))
mut("sl-check-other", "C19", (V, CHK, CHK.replace("contains(&runner_slurm_jobid)", "contains(&request.disconnect_error_message)")))
mut("sl-end-unchecked", "C19", (V, CHK, ""), (V, "    Ok(Postcard(\n        start_request_impl(state", CHK + "    Ok(Postcard(\n        start_request_impl(state"))
mut("sl-mark-all", "C19", (V, "        if !running_jobids.contains(&jobid) {\n            reply_jobids.push(jobid.clone());\n            cancelled_slurm_jobids.insert(jobid);\n        }", "        if !running_jobids.contains(&jobid) {\n            reply_jobids.push(jobid.clone());\n        }\n        cancelled_slurm_jobids.insert(jobid);"))
mut("sl-reply-all", "C19", (V, "        if !running_jobids.contains(&jobid) {\n            reply_jobids.push(jobid.clone());\n            cancelled_slurm_jobids.insert(jobid);\n        }", "        reply_jobids.push(jobid.clone());\n        if !running_jobids.contains(&jobid) {\n            cancelled_slurm_jobids.insert(jobid);\n        }"))
mut("sl-running-begun", "C19", (V, "            reply_jobids.push(jobid.clone());\n            cancelled_slurm_jobids.insert(jobid);", "            if cancelled_slurm_jobids.insert(jobid.clone()) { reply_jobids.push(jobid); }")) if False else None
mut("sl-running-wrong", "C19", (V, ".map(|c| c.slurm_jobid.clone())", ".map(|c| c.disconnect_error_message.clone())"))
mut("sl-prune", "C19", (V, "    // Add the requested slurm", "    cancelled_slurm_jobids.retain(|j| running_jobids.contains(j));\n    // Add the requested slurm"))
mut("sl-reg-other", "C19", (V, "            slurm_jobid: runner_slurm_jobid,", "            slurm_jobid: format!(\"{}\", request.runnertypeid),"))
same("sl-mark-filter", (V, "    for jobid in request.jobids.into_iter() {\n        if !running_jobids.contains(&jobid) {\n            reply_jobids.push(jobid.clone());\n            cancelled_slurm_jobids.insert(jobid);\n        }\n    }", "    for jobid in request.jobids {\n        if running_jobids.contains(&jobid) {\n            continue;\n        }\n        cancelled_slurm_jobids.insert(jobid.clone());\n        reply_jobids.push(jobid);\n    }"))
# (taking the lock after the snapshot is not an equivalent edit: left out)
same("sl-check-helper", (V, CHK, "    if state.is_cancelled(&runner_slurm_jobid) {\n        return Err(AppError::Shutdown);\n    }\n"), (V, "    pub async fn reap_pings_forever", "    fn is_cancelled(&self, jobid: &str) -> bool {\n        self.cancelled_slurm_jobids.read().unwrap().contains(jobid)\n    }\n\n    pub async fn reap_pings_forever"))
mut("sl-snapshot-begun", "C19", (V, "        .connections\n        .iter()\n        .map(|c| c.slurm_jobid.clone())", "        .connections\n        .iter()\n        .filter(|c| c.begun)\n        .map(|c| c.slurm_jobid.clone())"))
same("sl-snapshot-loop", (V, "    let running_jobids = state\n        .connections\n        .iter()\n        .map(|c| c.slurm_jobid.clone())\n        .collect::<HashSet<String>>();", "    let mut running_jobids = HashSet::new();\n    for c in state.connections.iter() {\n        running_jobids.insert(c.value().slurm_jobid.clone());\n    }"))

# ---------------------------------------------------------------- C34
BEG = "    let mut cstate = state\n        .connections\n        .get_mut(&request.transaction_id)\n        .ok_or(AppError::NoSuchTransaction)?;\n"
mut("lk-order", "C34", (V, BEG, BEG + "    if state.cancelled_slurm_jobids.read().unwrap().contains(&cstate.slurm_jobid) {\n        return Err(AppError::Shutdown);\n    }\n"))
mut("lk-ping-sleep", "C34", (V, PING, PING.replace("    cstate", "    tokio::time::sleep(std::time::Duration::from_millis(1)).await;\n    cstate", 1)))
mut("lk-reap-iter", "C34", (V, "                        keys_to_remove.push(*entry.key());\n", "                        keys_to_remove.push(*entry.key());\n                        if let Some((_, c)) = self.connections.remove(entry.key()) { expired.push(c); }\n"))
mut("lk-end-get", "C34", (V, "        let (_transaction_id, cstate) = state\n", "        let known = state.connections.get(&request.transaction_id);\n        if known.is_none() { return Err(AppError::NoSuchTransaction); }\n        let (_transaction_id, cstate) = state\n"))
mut("lk-qs-await", "C34", (S, "        let channels = self\n            .ready\n            .as_mut()", "        let _q = self.queuestate.get(&0);\n        let channels = self\n            .ready\n            .as_mut()"))
mut("lk-qs-entry", "C34", (S, "            let taken = Arc::new(AtomicBool::new(false));\n", "            let _e = self.queuestate.get(&cmd.affinity.data);\n            self.queuestate.shrink_to_fit();\n            let taken = Arc::new(AtomicBool::new(false));\n"))
same("lk-end-scoped", (V, "        let (_transaction_id, cstate) = state\n", "        {\n            let known = state.connections.get(&request.transaction_id);\n            if known.is_none() { return Err(AppError::NoSuchTransaction); }\n        }\n        let (_transaction_id, cstate) = state\n"))
same("lk-end-contains", (V, "        let (_transaction_id, cstate) = state\n", "        let who = state.connections.get(&request.transaction_id).map(|c| c.slurm_jobid.clone());\n        let known = state.connections.get(&request.transaction_id);\n        drop(known);\n        if who.is_none() || !state.connections.contains_key(&request.transaction_id) { return Err(AppError::NoSuchTransaction); }\n        let (_transaction_id, cstate) = state\n"))
same("lk-reap-collect", (V, "                let mut keys_to_remove = vec![];\n                for entry in self.connections.iter() {\n                    let cstate = entry.value();\n                    if cstate.start_time_approx > t {\n                        keys_to_remove.push(*entry.key());\n                    }\n                }\n", "                let keys_to_remove: Vec<u32> = self.connections.iter().filter(|e| e.value().start_time_approx > t).map(|e| *e.key()).collect();\n"))
same("lk-qs-guard", (S, "            self.queuestate\n                .entry(cmd.affinity.data)\n                .or_insert_with(|| Snapshot {\n                    num_ready: 0,\n                    num_inflight: 0,\n                })\n                .num_ready += 1;\n", "            {\n                let mut q = self.queuestate.entry(cmd.affinity.data).or_insert(Snapshot { num_ready: 0, num_inflight: 0 });\n                q.num_ready += 1;\n            }\n"))

# ---------------------------------------------------------------- C10
L = "src/logfile2.rs"
WR = "self.runcounts.insert(\n                        f.key.clone(),\n                        RuncountStatus::Finished {\n                            runcount: c,\n                            storage_root: srt,\n                            success: f.status == 0,\n                        },\n                    );"
LD = "runcounts.insert(\n                            f.key,\n                            RuncountStatus::Finished {\n                                runcount: c,\n                                storage_root: srt,\n                                success: f.status == 0,\n                            },\n                        );"
WS = "                let r = self\n                    .runcounts\n                    .remove(&s.key)\n                    .expect(\"I see a Started entry, but no Ready entry\");\n                if let RuncountStatus::Ready {\n                    runcount: c,\n                    storage_root: srt,\n                } = r\n                {\n                    self.runcounts.insert(\n                        s.key.clone(),\n                        RuncountStatus::Started {\n                            runcount: c,\n                            storage_root: srt,\n                        },\n                    );\n                } else {\n                    panic!(\"Malformed?\");\n                }\n"
WF = "        serde_json::to_writer(&mut self.f, &e)?;\n        self.f.write_all(&[b'\\n'])?;\n"
LREADY = "                    runcounts.insert(\n                        r.key,\n                        RuncountStatus::Ready {\n                            runcount: r.runcount,\n                            storage_root: r.storage_root,\n                        },\n                    );\n"
mut("rec-w-success", "C10", (L, WR, WR.replace("== 0", "<= 0")))
mut("rec-l-success", "C10", (L, LD, LD.replace("f.status == 0", "f.status >= 0")))
mut("rec-l-success-mask", "C10", (L, LD, LD.replace("f.status == 0", "f.status & 0xff == 0")))
mut("rec-l-root", "C10", (L, LD, LD.replace("storage_root: srt", "storage_root: 0")))
mut("rec-l-ready-keep", "C10", (L, LREADY, "                    runcounts.entry(r.key).or_insert(RuncountStatus::Ready { runcount: r.runcount, storage_root: r.storage_root });\n"))
mut("rec-l-ready-nofinished", "C10", (L, LREADY, "                    if let Some(RuncountStatus::Finished { success: true, .. }) = runcounts.get(&r.key) { continue; }\n" + LREADY))
mut("rec-w-runcount", "C10", (L, WS, WS.replace("runcount: c,\n                            storage", "runcount: c + 1,\n                            storage")))
mut("rec-w-lossy-started", "C10", (L, WS, "                if let Some(RuncountStatus::Ready { runcount: c, storage_root: srt }) = self.runcounts.remove(&s.key) {\n                    self.runcounts.insert(s.key.clone(), RuncountStatus::Started { runcount: c, storage_root: srt });\n                }\n"))
mut("rec-w-newline", "C10", (L, WF, "        serde_json::to_writer(&mut self.f, &e)?;\n        if !e.is_header() { self.f.write_all(&[b'\\n'])?; }\n"))
mut("rec-w-swallow", "C10", (L, WF, "        if serde_json::to_writer(&mut self.f, &e).is_ok() {\n            self.f.write_all(&[b'\\n'])?;\n        }\n"))
mut("rec-w-skip-backref", "C10", (L, WF, "        if e.is_backref() { return Ok(()); }\n" + WF))
mut("rec-w-header", "C10", (L, "self.header = Some(h.clone())", "if self.header.is_none() { self.header = Some(h.clone()) }"))
mut("rec-failure-any", "C10", (L, "RuncountStatus::Finished { success, .. } => !(*success),\n                _ => false,", "RuncountStatus::Finished { success, .. } => !(*success),\n                _ => true,"))
mut("rec-success-started", "C10", (L, "RuncountStatus::Finished { success, .. } => *success,\n                _ => false,", "RuncountStatus::Finished { success, .. } => *success,\n                RuncountStatus::Started { runcount, .. } => *runcount > 0,\n                _ => false,"))
same("rec-inplace", (L, WS, "                let r = self\n                    .runcounts\n                    .get_mut(&s.key)\n                    .expect(\"I see a Started entry, but no Ready entry\");\n                match *r {\n                    RuncountStatus::Ready { runcount, storage_root } => {\n                        *r = RuncountStatus::Started { runcount, storage_root };\n                    }\n                    _ => panic!(\"Malformed?\"),\n                }\n"))
same("rec-success-match", (L, WR, WR.replace("f.status == 0", "matches!(f.status, 0)")), (L, LD, LD.replace("f.status == 0", "if f.status != 0 { false } else { true }")))
same("rec-write-vec", (L, WF, "        let mut line = serde_json::to_vec(&e)?;\n        line.push(b'\\n');\n        self.f.write_all(&line)?;\n"))
same("rec-write-ln", (L, WF, "        writeln!(self.f, \"{}\", serde_json::to_string(&e)?)?;\n"))
same("rec-lines", (L, "        loop {\n            line.clear();\n            let nbytes = reader.read_line(&mut line)?;\n            if nbytes == 0 {\n                break;\n            }\n            let len = line.trim_end_matches(&['\\r', '\\n'][..]).len();\n            line.truncate(len);\n", "        for l in reader.lines() {\n            line = l?;\n"), (L, "        let mut reader = std::io::BufReader::new(f);\n        let mut line = String::new();\n        let mut iline", "        let reader = std::io::BufReader::new(f);\n        let mut line: String;\n        let mut iline"))
same("rec-helper", (L, LREADY, "                    mark_ready(&mut runcounts, r);\n"), (L, "/// If the process that wrote the log was killed", "fn mark_ready(m: &mut HashMap<String, RuncountStatus>, r: ReadyEntry) {\n    let ReadyEntry { key, runcount, storage_root, .. } = r;\n    let status = RuncountStatus::Ready { runcount, storage_root };\n    m.insert(key, status);\n}\n\n/// If the process that wrote the log was killed"))
same("rec-answer-matches", (L, "        self.runcounts\n            .get(key)\n            .map(|status| match status {\n                RuncountStatus::Finished { success, .. } => !(*success),\n                _ => false,\n            })\n            .unwrap_or(false)", "        matches!(self.runcounts.get(key), Some(RuncountStatus::Finished { success: false, .. }))"), (L, "        self.runcounts\n            .get(key)\n            .map(|status| match status {\n                RuncountStatus::Finished { success, .. } => *success,\n                _ => false,\n            })\n            .unwrap_or(false)", "        if let Some(RuncountStatus::Finished { success, .. }) = self.runcounts.get(key) {\n            return *success;\n        }\n        false"))

# ---------------------------------------------------------------- C13
mut("op-shared", "C13", (L, "lockf.try_lock(FileLockMode::Exclusive)?;", "lockf.try_lock(FileLockMode::Shared)?;"))
mut("op-ignored", "C13", (L, "lockf.try_lock(FileLockMode::Exclusive)?;", "if let Err(e) = lockf.try_lock(FileLockMode::Exclusive) { tracing::warn!(\"{}\", e); }"))
mut("op-late", "C13", (L, "        lockf.try_lock(FileLockMode::Exclusive)?;\n", ""), (L, "        let (runcounts, header) = LogFile::<LogFileRO>::load_runcounts(&mut f)?;\n        Ok(LogFile {\n            f: BufReaderWriter::new_reader(f),\n            path: path.as_ref().to_path_buf().canonicalize()?,\n            header,\n            runcounts,\n            lockf: Some(", "        let (runcounts, header) = LogFile::<LogFileRO>::load_runcounts(&mut f)?;\n        lockf.get_ref().try_lock(FileLockMode::Exclusive)?;\n        Ok(LogFile {\n            f: BufReaderWriter::new_reader(f),\n            path: path.as_ref().to_path_buf().canonicalize()?,\n            header,\n            runcounts,\n            lockf: Some("))
mut("op-pid", "C13", (L, 'with_file_name(".wrk.lock")', 'with_file_name(format!(".wrk.lock.{}", whoami::username()))'))
mut("op-noino", "C13", (L, "            Ok(m) if m.ino() == lockf.metadata()?.ino() => {}\n", "            Ok(m) if m.ino() != 0 => {}\n"))
mut("op-trunc", "C13", (L, "            .create(true)\n            .write(true)\n            .open(&path)?;\n        remove", "            .create(true)\n            .write(true)\n            .truncate(std::env::var_os(\"EXECGRAPH_FRESH\").is_some())\n            .open(&path)?;\n        remove"))
mut("op-version-newer", "C13", (L, "if h.version != LOGFILE_VERSION {", "if h.version > LOGFILE_VERSION {"))
mut("op-version-first", "C13", (L, "if h.version != LOGFILE_VERSION {", "if header.is_none() && h.version != LOGFILE_VERSION {"))
mut("op-key-never", "C13", (L, "if existing != &h.workflow_key {", "if !existing.is_empty() && existing != &h.workflow_key {"))
mut("op-cut-complete", "C13", (L, "    if serde_json::from_slice::<LogEntry>(&line).is_ok() {\n        f.write_all(b\"\\n\")?;\n    } else if", "    if"))
mut("op-seek", "C13", (L, "    f.seek(std::io::SeekFrom::Start(0))?;\n", ""))
mut("op-seek-after", "C13", (L, "        Ok((runcounts, header))", "        reader.seek(std::io::SeekFrom::Start(0))?;\n        Ok((runcounts, header))"))
mut("op-stop-early", "C13", (L, "            let len = line.trim_end", "            if line.trim().is_empty() { break; }\n            let len = line.trim_end"))
mut("op-drop-first", "C13", (L, "if let Some((_f, lockf_path)) = self.lockf.as_ref() {", "if let Some((_f, lockf_path)) = self.lockf.take() {\n            drop(_f);\n            let lockf_path = &lockf_path;"))
mut("op-nolock-kept", "C13", (L, "            lockf: Some((lockf, lockf_path)),", "            lockf: None,"))
same("op-helper", (L, "        lockf.try_lock(FileLockMode::Exclusive)?;\n", "        take_lock(&lockf)?;\n"), (L, "/// If the process that wrote the log was killed", "fn take_lock(f: &std::fs::File) -> Result<()> {\n    f.try_lock(FileLockMode::Exclusive)?;\n    Ok(())\n}\n\n/// If the process that wrote the log was killed"))
same("op-version-early", (L, "if h.version != LOGFILE_VERSION {\n                        return Err(LogfileError::MismatchedVersion { current: LOGFILE_VERSION, found: h.version });\n                    }", "match h.version {\n                        LOGFILE_VERSION => {}\n                        found => return Err(LogfileError::MismatchedVersion { current: LOGFILE_VERSION, found }),\n                    }"))
same("op-opts", (L, "        let mut f = std::fs::OpenOptions::new()\n            .read(true)\n            .create(true)\n            .write(true)\n            .open(&path)?;\n", "        let mut opts = std::fs::OpenOptions::new();\n        opts.read(true).write(true);\n        opts.create(true);\n        let mut f = opts.open(path.as_ref())?;\n"))
same("op-key-if", (L, "                        Some(ref existing) => {\n                            if existing != &h.workflow_key {\n                                return Err(LogfileError::WorkflowKeyMismatch);\n                            }\n                        }\n", "                        Some(ref existing) if existing == &h.workflow_key => {}\n                        Some(_) => return Err(LogfileError::WorkflowKeyMismatch),\n"))
mut("op-cut-len", "C13", (L, "complete += line.len() as u64;", "complete = line.len() as u64;"))
mut("op-cut-len2", "C13", (L, "        if line.last() != Some(&b'\\n') {\n            break;\n        }\n        complete += line.len() as u64;", "        complete += line.len() as u64;\n        if line.last() != Some(&b'\\n') {\n            break;\n        }"))
same("op-cut-count", (L, "        complete += line.len() as u64;\n", "        let n = line.len() as u64;\n        complete = n + complete;\n"))
# ---- C32
mut("add-norollback", "C32", (X, "                self.deps.remove_node(new_node);\n", ""))
mut("add-self", "C32", (X, "if dep == new_node || self.deps.node_weight(dep).is_none() {", "if self.deps.node_weight(dep).is_none() {"))
mut("add-dir", "C32", (X, "self.deps.add_edge(dep, new_node, ());", "self.deps.add_edge(new_node, dep, ());"))
mut("add-skipdep", "C32", (X, "            self.deps.add_edge(dep, new_node, ());", "            if self.deps.edges(dep).next().is_none() { self.deps.add_edge(dep, new_node, ()); }"))
mut("add-break", "C32", (X, "                self.deps.remove_node(new_node);\n                return Err(anyhow!(\"Invalid dependency index\"));", "                break;"))
mut("add-skip1", "C32", (X, "dependencies.iter().map(|&i| NodeIndex::from(i))", "dependencies.iter().skip(1).map(|&i| NodeIndex::from(i))"))
mut("add-norecord", "C32", (X, "        self.key_to_nodeid.insert(key, new_node);\n", "        if !key.is_empty() { self.key_to_nodeid.insert(key, new_node); }\n"))
mut("add-record-early", "C32", (X, "        self.key_to_nodeid.insert(key, new_node);\n", ""), (X, "        let new_node = self.deps.add_node(cmd);\n", "        let new_node = self.deps.add_node(cmd);\n        self.key_to_nodeid.insert(key, new_node);\n"))
mut("add-dup", "C32", (X, "        if let Some(index) = self.key_to_nodeid.get(&cmd.key) {", "        if let (Some(index), false) = (self.key_to_nodeid.get(&cmd.key), cmd.key.is_empty()) {"))
mut("add-emptyafter", "C32", (X, "        if cmd.cmdline.is_empty() {\n            return Err(anyhow!(\"cmd={:?}: cmdline size == 0\", cmd));\n        }\n", ""), (X, "        let new_node = self.deps.add_node(cmd);\n", "        let empty = cmd.cmdline.is_empty();\n        let new_node = self.deps.add_node(cmd);\n        if empty {\n            return Err(anyhow!(\"cmdline size == 0\"));\n        }\n"))
mut("add-elsewhere", "C32", (X, "        self.deps.node_weight(NodeIndex::from(id)).cloned()", "        self.deps.node_weight(NodeIndex::from(id)).cloned()\n    }\n\n    pub fn forget(&mut self, id: u32) {\n        self.deps.remove_node(NodeIndex::from(id));"))
same("add-index-loop", (X, "        for dep in dependencies.iter().map(|&i| NodeIndex::from(i)) {\n", "        for i in dependencies {\n            let dep = NodeIndex::from(i);\n"))
same("add-validate-first", (X, "        let new_node = self.deps.add_node(cmd);\n", "        for &d in dependencies.iter() {\n            if self.deps.node_weight(NodeIndex::from(d)).is_none() {\n                return Err(anyhow!(\"Invalid dependency index\"));\n            }\n        }\n        let new_node = self.deps.add_node(cmd);\n"), (X, "            if dep == new_node || self.deps.node_weight(dep).is_none() {\n                self.deps.remove_node(new_node);\n                return Err(anyhow!(\"Invalid dependency index\"));\n            }\n", ""))
same("add-any", (X, "        let new_node = self.deps.add_node(cmd);\n", "        if dependencies.iter().any(|&d| (d as usize) >= self.deps.node_count()) {\n            return Err(anyhow!(\"Invalid dependency index\"));\n        }\n        let new_node = self.deps.add_node(cmd);\n"), (X, "            if dep == new_node || self.deps.node_weight(dep).is_none() {\n                self.deps.remove_node(new_node);\n                return Err(anyhow!(\"Invalid dependency index\"));\n            }\n", ""))
same("add-helper", (X, "            if dep == new_node || self.deps.node_weight(dep).is_none() {", "            if !self.is_valid(dep, new_node) {"), (X, "    pub fn task_keys(&self)", "    fn is_valid(&self, dep: NodeIndex<u32>, new: NodeIndex<u32>) -> bool {\n        dep != new && self.deps.node_weight(dep).is_some()\n    }\n\n    pub fn task_keys(&self)"))
same("add-contains", (X, "        if let Some(index) = self.key_to_nodeid.get(&cmd.key) {\n            return Ok(index.index().try_into().unwrap());\n        }\n", "        if self.key_to_nodeid.contains_key(&cmd.key) {\n            return Ok(self.key_to_nodeid[&cmd.key].index().try_into().unwrap());\n        }\n"))
same("add-lt", (X, "if dep == new_node || self.deps.node_weight(dep).is_none() {", "if dep >= new_node {"))
same("add-record-before-edges", (X, "        self.key_to_nodeid.insert(key, new_node);\n        trace!", "        trace!"), (X, "        for dep in dependencies.iter().map(|&i| NodeIndex::from(i)) {\n", "        let valid = |i: &u32| (*i as usize) < new_node.index();\n        if !dependencies.iter().all(valid) {\n            self.deps.remove_node(new_node);\n            return Err(anyhow!(\"Invalid dependency index\"));\n        }\n        self.key_to_nodeid.insert(key, new_node);\n        for dep in dependencies.iter().map(|&i| NodeIndex::from(i)) {\n"), (X, "            if dep == new_node || self.deps.node_weight(dep).is_none() {\n                self.deps.remove_node(new_node);\n                return Err(anyhow!(\"Invalid dependency index\"));\n            }\n", ""))
mut("add-slice", "C32", (X, "for dep in dependencies.iter().map(", "for dep in dependencies[dependencies.len() / 64..].iter().map("))
# ---- C11
mut("sub-notself", "C11", (X, "            relevant.insert(NodeIndex::from(target_index));\n", ""))
mut("sub-dir", "C11", (X, "            reversed.reverse();\n", ""))
mut("sub-done", "C11", (X, "if completed.contains(&w.key) && !logfile.has_failure(&w.key) {", "if completed.contains(&w.key) {"))
mut("sub-done2", "C11", (X, "if completed.contains(&w.key) && !logfile.has_failure(&w.key) {", "if completed.contains(&w.key) && w.runcount > 0 && !logfile.has_failure(&w.key) {"))
mut("sub-rerun", "C11", (X, "(!rerun_failures || completed.contains(&w.key))", "(!rerun_failures || w.runcount > 0)"))
mut("sub-rerun-only", "C11", (X, "logfile.has_failure(&w.key) && (!rerun_failures || completed.contains(&w.key))", "logfile.has_failure(&w.key) && !rerun_failures"))
mut("sub-fail-completed", "C11", (X, "logfile.has_failure(&w.key) && (!rerun_failures || completed.contains(&w.key))", "logfile.has_failure(&w.key) && (!rerun_failures && !completed.contains(&w.key) || completed.contains(&w.key) && rerun_failures)"))
mut("sub-down-first", "C11", (X, "for e in tc.edges_directed(n, Direction::Incoming) {", "for e in tc.edges_directed(n, Direction::Incoming).take(1) {"))
mut("sub-down-dir", "C11", (X, "for e in tc.edges_directed(n, Direction::Incoming) {\n                    if failures.contains(&e.source()) {", "for e in tc.edges_directed(n, Direction::Outgoing) {\n                    if failures.contains(&e.target()) {"))
mut("sub-down-direct", "C11", (X, "let tc = transitive_closure_dag(&filtered_subgraph)?;", "let tc = filtered_subgraph.clone();"))
mut("sub-backref-none", "C11", (X, "                    if !completed.contains(&w.key) {\n                        reused_old_keys.insert(w.key.clone());\n                    }\n", ""))
mut("sub-backref-always", "C11", (X, "                    if !completed.contains(&w.key) {\n                        reused_old_keys.insert(w.key.clone());\n                    }\n", "                    reused_old_keys.insert(w.key.clone());\n"))
mut("sub-backref-all", "C11", (X, "            trace!(\"Retaining {} because it has not been run before\", w.key);\n", "            if !logfile.has_failure(&w.key) && completed.contains(&w.key) { reused_old_keys.insert(w.key.clone()); }\n            reused_old_keys.insert(w.key.clone());\n"))
mut("sub-backref-skip", "C11", (X, "        logfile.write(LogEntry::new_backref(&key))?;\n        completed.insert(key);", "        if !completed.insert(key.clone()) { continue; }\n        if !logfile.has_failure(&key) { logfile.write(LogEntry::new_backref(&key))?; }"))
mut("sub-completed-miss", "C11", (X, "        logfile.write(LogEntry::new_backref(&key))?;\n        completed.insert(key);", "        logfile.write(LogEntry::new_backref(&key))?;\n        if logfile.has_success(&key) { completed.insert(key); }"))
mut("sub-edge-drop", "C11", (X, "        |_e, &w| Some(w),\n    );\n\n    // Tasks that failed", "        |e, &w| if e.index() > 1 << 20 { None } else { Some(w) },\n    );\n\n    // Tasks that failed"))
mut("sub-success-noskip", "C11", (X, "if logfile.has_success(&w.key) {", "if logfile.has_success(&w.key) && !w.key.is_empty() {"))
mut("sub-rerun-done", "C11", (X, "    if !failures.is_empty() {\n", "    if failures.len() > 1 {\n"))
same("sub-down-any", (X, "                for e in tc.edges_directed(n, Direction::Incoming) {\n                    if failures.contains(&e.source()) {\n                        trace!(\n                            \"Skipping {} because it's downstream of a task that previously failed.\",\n                            w.key\n                        );\n                        return None;\n                    }\n                }\n\n                Some(w)", "                if tc.edges_directed(n, Direction::Incoming).any(|e| failures.contains(&e.source())) {\n                    None\n                } else {\n                    Some(w)\n                }"))
same("sub-neighbors", (X, "                for e in tc.edges_directed(n, Direction::Incoming) {\n                    if failures.contains(&e.source()) {", "                for src in tc.neighbors_directed(n, Direction::Incoming) {\n                    if failures.contains(&src) {"))
same("sub-always-filter", (X, "    if !failures.is_empty() {\n", "    {\n"))
same("sub-fail-loop", (X, "    let failures = filtered_subgraph\n        .node_indices()\n        .filter(|&n| {\n            let w = filtered_subgraph[n];\n            logfile.has_failure(&w.key) && (!rerun_failures || completed.contains(&w.key))\n        })\n        .collect::<HashSet<NodeIndex>>();\n", "    let mut failures: HashSet<NodeIndex> = HashSet::new();\n    for n in filtered_subgraph.node_indices() {\n        let key = &filtered_subgraph[n].key;\n        if !logfile.has_failure(key) {\n            continue;\n        }\n        if rerun_failures && !completed.contains(key) {\n            continue;\n        }\n        failures.insert(n);\n    }\n"))
same("sub-success-first", (X, "            if logfile.has_success(&w.key) {", "            let known = logfile.has_success(&w.key);\n            if known {"))
same("sub-helper", (X, "            if completed.contains(&w.key) && !logfile.has_failure(&w.key) {", "            if is_done(completed, logfile, w) {"), (X, "#[tracing::instrument(skip(deps, completed, logfile))]\nfn get_subgraph", "fn is_done(completed: &HashSet<String>, logfile: &LogFile<LogFileRW>, w: &Cmd) -> bool {\n    if !completed.contains(&w.key) {\n        return false;\n    }\n    !logfile.has_failure(&w.key)\n}\n\n#[tracing::instrument(skip(deps, completed, logfile))]\nfn get_subgraph"))
same("sub-target-if", (X, "                |n, w| match relevant.contains(&n) {\n                    true => Some(w),\n                    false => None,\n                },", "                |n, w| if !relevant.contains(&n) { None } else { Some(w) },"))
same("sub-relevant-loop", (X, "            let mut relevant = tc\n                .edges_directed(NodeIndex::from(target_index), Direction::Outgoing)\n                .map(|e| e.target())\n                .collect::<HashSet<NodeIndex>>();\n            relevant.insert(NodeIndex::from(target_index));\n", "            let mut relevant = HashSet::new();\n            relevant.insert(NodeIndex::from(target_index));\n            for e in tc.edges_directed(NodeIndex::from(target_index), Direction::Outgoing) {\n                relevant.insert(e.target());\n            }\n"))
same("sub-backref-order", (X, "        logfile.write(LogEntry::new_backref(&key))?;\n        completed.insert(key);", "        let entry = LogEntry::new_backref(&key);\n        completed.insert(key);\n        logfile.write(entry)?;"))

# ---- C12, C35
Y = "src/pylib.rs"
mut("rc-started-same", "C12", (Y, "Started { runcount, .. }) => (runcount + 1, None)", "Started { runcount, .. }) => (runcount, None)"))
mut("rc-ready-next", "C12", (Y, "Ready { runcount, .. }) => (runcount, None)", "Ready { runcount, .. }) => (runcount + 1, None)"))
mut("rc-failed-same", "C12", (Y, "            Some(logfile2::RuncountStatus::Finished { runcount, .. }) => (runcount + 1, None),", "            Some(logfile2::RuncountStatus::Finished { runcount, storage_root, .. }) => (if storage_root > 0 { runcount } else { runcount + 1 }, None),"))
mut("rc-success-next", "C12", (Y, "            }) if success => (\n                runcount,", "            }) if success => (\n                runcount.max(1),"))
mut("rc-dir-order", "C12", (Y, 'format!("{}.{}", key, runcount)', 'format!("{}.{}", runcount, key)'))
mut("rc-dir-root0", "C12", (Y, ".storage_root(storage_root)", ".storage_root(storage_root.min(1))"))
mut("rc-relative", "C12", (L, "                if p.is_absolute() {", "                if p.has_root() || p.starts_with(\".\") {"))
mut("rc-add-failure", "C12", (Y, "        let runcount = self.logfile_runcount(&key as &str).0;", "        let runcount = if self.g.logfile.has_failure(&key) { 0 } else { self.logfile_runcount(&key as &str).0 };"))
mut("rc-add-display", "C12", (Y, "        let runcount = self.logfile_runcount(&key as &str).0;", "        let runcount = self.logfile_runcount(display.as_deref().unwrap_or(&key)).0;"))
same("rc-let", (Y, "        let runcount = self.logfile_runcount(&key as &str).0;", "        let (n, _dir) = self.logfile_runcount(&key);\n        let runcount = n;"))
same("rc-rewrite", (Y, "            Some(logfile2::RuncountStatus::Finished { runcount, .. }) => (runcount + 1, None),", "            Some(logfile2::RuncountStatus::Finished { runcount, .. }) => {\n                let next = 1 + runcount;\n                (next, None)\n            }"))
same("rc-root-join", (L, "                if p.is_absolute() {\n                    p.clone()\n                } else {\n                    self.path.parent().unwrap().join(p)\n                }", "                if !p.is_absolute() {\n                    return self.path.parent().unwrap().join(p);\n                }\n                p.to_path_buf()"))
mut("py-swap-ambles", "C35", (Y, "preamble: preamble.map(crate::execgraph::Capsule::new),\n            postamble: postamble.map", "preamble: postamble.map(crate::execgraph::Capsule::new),\n            postamble: preamble.map"))
mut("py-display-dropped", "C35", (Y, "            display,\n", "            display: display.filter(|d| !d.is_empty()),\n"))
mut("py-fd-default", "C35", (Y, "fd_input.map(|(fd, buf)| (fd,", "fd_input.map(|(fd, buf)| (fd.max(3),"))
mut("py-fa-0", "C35", (Y, "                u32::MAX\n", "                i32::MAX as u32\n"))
mut("py-np-le", "C35", (Y, "if num_parallel < 0 {", "if num_parallel <= 0 {"))
mut("py-key-lower", "C35", (Y, "            Some(key) => key,\n", "            Some(key) => key.trim().to_owned(),\n"))
mut("py-newkey-first", "C35", (Y, """        let key = match log.workflow_key() {
            Some(key) => key,
            None => match newkeyfn {
                Some(newkeyfn) => newkeyfn.call(py, (), None)?.extract(py)?,
                None => "default-key-value".to_owned(),
            },
        };""", """        let key = match newkeyfn {
            Some(newkeyfn) => newkeyfn.call(py, (), None)?.extract(py)?,
            None => log.workflow_key().unwrap_or_else(|| "default-key-value".to_owned()),
        };"""))
mut("py-roots-skip", "C35", (Y, "                .iter()\n                .map(|s| PathBuf", "                .iter()\n                .filter(|s| s.as_os_str() != \"$KEY\")\n                .map(|s| PathBuf"))
mut("py-roots-key", "C35", (Y, '.replace("$KEY", &key)', '.replacen("$KEY", &key, 1)'))
mut("py-no-header-again", "C35", (Y, "        log.write(LogEntry::new_header(", "        if log.header_version().is_none() { log.write(LogEntry::new_header("), (Y, "                .collect(),\n        )?)?;", "                .collect(),\n        )?)?; }"))
mut("py-exec-target", "C35", (Y, "                        target,\n                        self.num_parallel", "                        target.filter(|t| *t > 0),\n                        self.num_parallel"))
mut("py-exec-info", "C35", (Y, "            info: remote_provisioner_info,", "            info: remote_provisioner_info.filter(|i| !i.is_empty()),"))
mut("py-write-noflush", "C35", (Y, "    log.flush()?;\n    Ok(())", "    let _ = log.flush();\n    Ok(())"))
mut("py-write-skip", "C35", (Y, "    for item in v {\n", "    for item in v.into_iter().skip_while(|e| e.is_backref()) {\n"))
mut("py-load-swap", "C35", (Y, '"outdated" => pythonize::pythonize(py, &log.read_current_and_outdated()?.1)', '"outdated" => pythonize::pythonize(py, &log.read()?)'))
same("py-write-tryfor", (Y, "    for item in v {\n        log.write(item)?;\n    }\n    log.flush()?;\n    Ok(())", "    v.into_iter().try_for_each(|item| log.write(item))?;\n    log.flush()?;\n    Ok(())"))
same("py-load-helper", (Y, '        "current" => pythonize::pythonize(py, &log.read_current_and_outdated()?.0),\n        "outdated" => pythonize::pythonize(py, &log.read_current_and_outdated()?.1),', '        "current" | "outdated" => {\n            let (current, outdated) = log.read_current_and_outdated()?;\n            let chosen = if mode == "current" { current } else { outdated };\n            pythonize::pythonize(py, &chosen)\n        }'))
same("py-fa-match", (Y, """            failures_allowed: (if failures_allowed == 0 {
                u32::MAX
            } else {
                failures_allowed
            }),""", """            failures_allowed: match failures_allowed {
                0 => u32::MAX,
                n => n,
            },"""))
same("py-roots-loop", (Y, """        log.write(LogEntry::new_header(
            &key,
            storage_roots
                .iter()
                .map(|s| PathBuf::from(s.as_os_str().to_string_lossy().replace("$KEY", &key)))
                .collect(),
        )?)?;""", """        let mut roots = Vec::with_capacity(storage_roots.len());
        for s in &storage_roots {
            roots.push(PathBuf::from(s.as_os_str().to_string_lossy().replace("$KEY", &key)));
        }
        log.write(LogEntry::new_header(&key, roots)?)?;"""))
same("py-exec-if", (Y, """        let x = remote_provisioner_cmd.map(|cmd| RemoteProvisionerSpec {
            cmd,
            info: remote_provisioner_info,
        });""", """        let x = match remote_provisioner_cmd {
            None => None,
            Some(cmd) => Some(RemoteProvisionerSpec {
                info: remote_provisioner_info,
                cmd,
            }),
        };"""))
same("py-add-inline", (Y, "fd_input: fd_input.map(|(fd, buf)| (fd, buf.extract::<Vec<u8>>().unwrap())),", "fd_input: match fd_input {\n                Some((fd, buf)) => Some((fd, buf.extract::<Vec<u8>>().unwrap())),\n                None => None,\n            },"))

# ---- C25
mut("sp-join-after-q", "C25", (X, """        join_all(handles).await;
        served.unwrap_or_else(|panic| resume_unwind(panic))?;""", """        served.unwrap_or_else(|panic| resume_unwind(panic))?;
        join_all(handles).await;"""))
mut("sp-close-after", "C25", (X, """        servicer.close();
        token.cancel(CancellationState::HardCancelled);

""", """        token.cancel(CancellationState::HardCancelled);

"""), (X, """        join_all(handles).await;
        served""", """        join_all(handles).await;
        servicer.close();
        served"""))
mut("sp-soft", "C25", (X, """        servicer.close();
        token.cancel(CancellationState::HardCancelled);""", """        servicer.close();
        token.cancel(CancellationState::CancelledAfterTime(std::time::Instant::now()));"""))
mut("sp-timeout", "C25", (X, "        join_all(handles).await;", "        let _ = tokio::time::timeout(std::time::Duration::from_secs(5), join_all(handles)).await;"))
mut("sp-unguarded", "C25", (X, """AssertUnwindSafe(servicer.background_serve(token.clone()))
            .catch_unwind()
            .await;""", """std::thread::Result::Ok(servicer.background_serve(token.clone()).await);"""))
mut("sp-provision-loose", "C25", (X, "            handles.push(tokio::spawn(run_admin_service_forever(state2, token3)));", "            tokio::spawn(run_admin_service_forever(state2, token3));"))
mut("sp-truncate", "C25", (X, """        join_all(handles).await;""", """        handles.truncate(num_parallel as usize);
        join_all(handles).await;"""))
mut("sp-select", "C25", (X, """        join_all(handles).await;""", """        tokio::select! {
            _ = join_all(handles) => {}
            _ = tokio::time::sleep(std::time::Duration::from_secs(30)) => {}
        }"""))
mut("sp-reaper-loose", "C25", (X, """                jh.await.unwrap();
""", """                drop(jh);
"""))
mut("sp-select-all", "C25", (X, """        join_all(handles).await;""", """        if !handles.is_empty() {
            futures::future::select_all(handles).await;
        }"""))
mut("sp-try-join", "C25", (X, """        join_all(handles).await;""", """        let _ = futures::future::try_join_all(handles).await;"""))
mut("sp-break", "C25", (X, """        join_all(handles).await;""", """        for h in handles {
            if h.await.is_err() {
                break;
            }
        }"""))
same("sp-loop", (X, """        join_all(handles).await;""", """        for h in handles {
            let _ = h.await;
        }"""))
same("sp-while-pop", (X, """        join_all(handles).await;""", """        while let Some(h) = handles.pop() {
            let _ = h.await;
        }"""))
same("sp-helper", (X, """        join_all(handles).await;""", """        join_everything(handles).await;"""), (X, """#[tracing::instrument(skip_all)]
async fn spawn_and_wait_for""", """async fn join_everything(handles: Vec<tokio::task::JoinHandle<()>>) {
    join_all(handles).await;
}

#[tracing::instrument(skip_all)]
async fn spawn_and_wait_for"""))
same("sp-order", (X, """        servicer.close();
        token.cancel(CancellationState::HardCancelled);
""", """        token.cancel(CancellationState::HardCancelled);
        servicer.close();
"""))
same("sp-build-loop", (X, """            if num_parallel > 0 {
                local
                    .chain(std::iter::once({
                        let subgraph = extend_graph_lifetime(subgraph.clone());
                        let token = token.clone();
                        tokio::spawn(run_local_process_loop(
                            subgraph,
                            transmute_lifetime(&tracker),
                            token,
                            LocalQueueType::ConsoleQueue, // 1 for console queue
                        ))
                    }))
                    .collect()
            } else {
                local.collect()
            }""", """            let mut v: Vec<_> = local.collect();
            if num_parallel > 0 {
                let subgraph = extend_graph_lifetime(subgraph.clone());
                let token = token.clone();
                v.push(tokio::spawn(run_local_process_loop(
                    subgraph,
                    transmute_lifetime(&tracker),
                    token,
                    LocalQueueType::ConsoleQueue, // 1 for console queue
                )));
            }
            v"""))
same("sp-keep-results", (X, """        join_all(handles).await;
        served""", """        let results = join_all(handles).await;
        debug!("joined {}", results.len());
        served"""))
same("sp-match", (X, """        served.unwrap_or_else(|panic| resume_unwind(panic))?;""", """        match served {
            Ok(r) => r?,
            Err(panic) => resume_unwind(panic),
        }"""))

# ---- C33
mut("ex-err-swallowed", "C33", (X, "served.unwrap_or_else(|panic| resume_unwind(panic))?;", "if let Err(e) = served.unwrap_or_else(|panic| resume_unwind(panic)) {\n            error!(\"{}\", e);\n        }"))
mut("ex-flush-ignored", "C33", (X, "        self.logfile.flush()?;\n        Ok((n_failed, completed))", "        let _ = self.logfile.flush();\n        Ok((n_failed, completed))"))
mut("ex-nfailed-early", "C33", (X, "        servicer.drain().expect(\"failed to drain queue\");\n\n        let n_failed = servicer.n_failed;", "        let n_failed = servicer.n_failed;\n        servicer.drain().expect(\"failed to drain queue\");\n"))
mut("ex-completed-skip", "C33", (X, "        for item in completed.iter() {\n            self.completed.insert(item.clone());\n        }", "        for item in completed.iter().skip(n_failed as usize) {\n            self.completed.insert(item.clone());\n        }"))
mut("ex-completed-cond", "C33", (X, "        for item in completed.iter() {\n            self.completed.insert(item.clone());\n        }", "        if n_failed == 0 {\n            for item in completed.iter() {\n                self.completed.insert(item.clone());\n            }\n        }"))
mut("ex-range-incl", "C33", (X, "let local = (0..num_parallel).map(|_| {", "let local = (0..=num_parallel).map(|_| {"))
mut("ex-range-one", "C33", (X, "let local = (0..num_parallel).map(|_| {", "let local = (0..num_parallel - u32::from(num_parallel > 1)).map(|_| {"))
mut("ex-console-gt1", "C33", (X, "            if num_parallel > 0 {\n                local", "            if num_parallel > 1 {\n                local"))
mut("ex-console-normal", "C33", (X, "LocalQueueType::ConsoleQueue, // 1 for console", "LocalQueueType::NormalLocalQueue, // 1 for console"))
mut("ex-list-rev", "C33", (X, "            .iter()\n            .map(|&n| subgraph[n].key.clone())", "            .iter()\n            .rev()\n            .map(|&n| subgraph[n].key.clone())"))
mut("ex-list-deps", "C33", (X, "            .map(|&n| subgraph[n].key.clone())", "            .map(|&n| self.deps[n].key.clone())"))
mut("ex-no-admin", "C33", (X, "            handles.push(tokio::spawn(run_admin_service_forever(state2, token3)));", "            if num_parallel == 0 {\n                handles.push(tokio::spawn(run_admin_service_forever(state2, token3)));\n            }"))
mut("ex-short-few", "C33", (X, "if subgraph.raw_nodes().is_empty() {", "if subgraph.raw_nodes().is_empty() || subgraph.raw_edges().is_empty() && num_parallel == 0 {"))
mut("ex-rerun-swap", "C33", (X, "            target,\n            rerun_failures,\n        )?);", "            target,\n            !rerun_failures,\n        )?);"))
mut("ex-ratelimit", "C33", (X, "            failures_allowed,\n            ratelimit_per_second,\n        );\n\n        // Run local", "            failures_allowed,\n            ratelimit_per_second.max(1),\n        );\n\n        // Run local"))
same("ex-extend", (X, "        for item in completed.iter() {\n            self.completed.insert(item.clone());\n        }", "        self.completed.extend(completed.iter().cloned());"))
same("ex-one-loop", (X, """        let completed: Vec<String> = servicer
            .finished_order
            .iter()
            .map(|&n| subgraph[n].key.clone())
            .collect();

        for item in completed.iter() {
            self.completed.insert(item.clone());
        }""", """        let mut completed: Vec<String> = Vec::new();
        for &n in &servicer.finished_order {
            let key = &subgraph[n].key;
            self.completed.insert(key.clone());
            completed.push(key.clone());
        }"""))
same("ex-spawn-loop", (X, """            let local = (0..num_parallel).map(|_| {
                let subgraph = extend_graph_lifetime(subgraph.clone());
                let token = token.clone();
                tokio::spawn(run_local_process_loop(
                    subgraph,
                    transmute_lifetime(&tracker),
                    token,
                    LocalQueueType::NormalLocalQueue, // 0 for local queue
                ))
            });
            if num_parallel > 0 {
                local
                    .chain(std::iter::once({
                        let subgraph = extend_graph_lifetime(subgraph.clone());
                        let token = token.clone();
                        tokio::spawn(run_local_process_loop(
                            subgraph,
                            transmute_lifetime(&tracker),
                            token,
                            LocalQueueType::ConsoleQueue, // 1 for console queue
                        ))
                    }))
                    .collect()
            } else {
                local.collect()
            }""", """            let mut v = Vec::new();
            for _ in 0..num_parallel {
                v.push(tokio::spawn(run_local_process_loop(
                    extend_graph_lifetime(subgraph.clone()),
                    transmute_lifetime(&tracker),
                    token.clone(),
                    LocalQueueType::NormalLocalQueue,
                )));
            }
            if num_parallel != 0 {
                v.push(tokio::spawn(run_local_process_loop(
                    extend_graph_lifetime(subgraph.clone()),
                    transmute_lifetime(&tracker),
                    token.clone(),
                    LocalQueueType::ConsoleQueue,
                )));
            }
            v"""))
same("ex-count", (X, "if subgraph.raw_nodes().is_empty() {", "if subgraph.node_count() == 0 {"))
same("ex-match-flush", (X, "        self.logfile.flush()?;\n        Ok((n_failed, completed))", "        match self.logfile.flush() {\n            Ok(()) => Ok((n_failed, completed)),\n            Err(e) => Err(e.into()),\n        }"))

# C23
T = "src/fancy_cancellation_token.rs"
R = "src/localrunner.rs"
mut("tok-cutoff-flip", "C23", (T, "if new_time > existing_time =>", "if new_time < existing_time =>"))
mut("tok-soft-over-hard", "C23", (T, "                    Some(CancellationState::HardCancelled) => {\n                        // if we're already hard canceled, don't override it with a new soft cancel\n                        return false;\n                    }\n", ""))
mut("tok-untold", "C23", (T, "            *existing = Some(state);\n            true", "            let told = existing.is_none();\n            *existing = Some(state);\n            told"))
mut("tok-keep-first", "C23", (T, "Some(CancellationState::CancelledAfterTime(existing_time))\n                        if new_time > existing_time =>", "Some(CancellationState::CancelledAfterTime(_)) =>"))
mut("tok-toctou", "C23", (T, "        self.inner.sender.send_if_modified(|existing| {", "        if let (CancellationState::CancelledAfterTime(_), Some(CancellationState::HardCancelled)) = (&state, self.is_soft_cancelled()) {\n            return;\n        }\n        let _ = self.inner.sender.send(Some(state.clone()));\n        self.inner.sender.send_if_modified(|existing| {"))
mut("tok-wait-once", "C23", (T, "        loop {\n            {\n                let s = r.borrow_and_update();\n                if let Some(CancellationState::HardCancelled) = *s {\n                    return;\n                }\n            }\n            r.changed().await.expect(\"Sender cannot have been dropped\");\n        }", "        if let Some(CancellationState::HardCancelled) = *r.borrow_and_update() {\n            return;\n        }\n        r.changed().await.expect(\"Sender cannot have been dropped\");"))
mut("tok-other-receiver", "C23", (T, "                let s = r.borrow_and_update();\n                if let Some(CancellationState::HardCancelled) = *s {\n                    return;\n                }\n            }\n            r.changed()", "                let s = r.borrow_and_update();\n                if let Some(CancellationState::HardCancelled) = *s {\n                    return;\n                }\n            }\n            let mut r = self.inner.sender.subscribe();\n            r.changed()"))
mut("tok-soft-ge", "C23", (T, "if time > cancel_time =>", "if time >= cancel_time =>"))
mut("tok-soft-ignores-hard", "C23", (T, "                    Some(CancellationState::HardCancelled) => {\n                        return s.as_ref().unwrap().clone();\n                    }\n", ""))
mut("tok-hard-any", "C23", (T, "if let Some(CancellationState::HardCancelled) = *s {", "if s.is_some() {"))
mut("reap-flip", "C23", (V, "if cstate.start_time_approx > t {", "if cstate.start_time_approx < t {"))
mut("reap-all", "C23", (V, "if cstate.start_time_approx > t {", "if cstate.start_time_approx > t || cstate.slurm_jobid.is_empty() {"))
mut("reap-first", "C23", (V, "                    keys_to_remove.push(*entry.key());\n", "                    keys_to_remove.push(*entry.key());\n                        break;\n"))
mut("reap-take", "C23", (V, "for key in keys_to_remove {", "for key in keys_to_remove.into_iter().take(32) {"))
mut("soft-now", "C23", (S, "CancellationState::CancelledAfterTime(Instant::now() - FIZZLED_TIME_CUTOFF)", "CancellationState::CancelledAfterTime(Instant::now())"))
mut("start-hoisted", "C23", (R, "        let start_time = std::time::Instant::now();\n", ""), (R, "    while let Ok(", "    let start_time = std::time::Instant::now();\n    while let Ok("))
same("tok-if-let", (T, """                match *existing {
                    Some(CancellationState::CancelledAfterTime(existing_time))
                        if new_time > existing_time =>
                    {
                        // if the existing time is older than the new time, no need to do anything
                        return false;
                    }
                    Some(CancellationState::HardCancelled) => {
                        // if we're already hard canceled, don't override it with a new soft cancel
                        return false;
                    }
                    _ => {}
                }""", """                if let Some(CancellationState::HardCancelled) = existing {
                    return false;
                }
                if let Some(CancellationState::CancelledAfterTime(t)) = existing {
                    if *t <= new_time {
                        return false;
                    }
                }"""))
same("tok-helper", (T, "    pub fn cancel(&self", "    fn weaker(a: &CancellationState, b: &CancellationState) -> bool {\n        match (a, b) {\n            (CancellationState::CancelledAfterTime(_), CancellationState::HardCancelled) => true,\n            (CancellationState::CancelledAfterTime(x), CancellationState::CancelledAfterTime(y)) => x > y,\n            _ => false,\n        }\n    }\n\n    pub fn cancel(&self"),
  (T, """            if let CancellationState::CancelledAfterTime(new_time) = state {
                // if we're trying to do a soft cancel, check the current state
                match *existing {
                    Some(CancellationState::CancelledAfterTime(existing_time))
                        if new_time > existing_time =>
                    {
                        // if the existing time is older than the new time, no need to do anything
                        return false;
                    }
                    Some(CancellationState::HardCancelled) => {
                        // if we're already hard canceled, don't override it with a new soft cancel
                        return false;
                    }
                    _ => {}
                }
            }
""", """            if matches!(existing.as_ref(), Some(e) if Self::weaker(&state, e)) {
                return false;
            }
"""))
same("tok-while", (T, """        loop {
            {
                let s = r.borrow_and_update();
                if let Some(CancellationState::HardCancelled) = *s {
                    return;
                }
            }
            r.changed().await.expect("Sender cannot have been dropped");
        }""", """        while !matches!(*r.borrow_and_update(), Some(CancellationState::HardCancelled)) {
            r.changed().await.expect("Sender cannot have been dropped");
        }"""))
same("tok-subscribe", (T, "    pub async fn soft_cancelled(&self, time: Instant) -> CancellationState {\n        let mut r = self.inner.receiver.clone();", "    pub async fn soft_cancelled(&self, time: Instant) -> CancellationState {\n        let mut r = self.inner.sender.subscribe();"))
same("tok-soft-clone", (T, """                let s = r.borrow_and_update();
                match *s {
                    Some(CancellationState::CancelledAfterTime(cancel_time))
                        if time > cancel_time =>
                    {
                        return s.as_ref().unwrap().clone();
                    }
                    Some(CancellationState::HardCancelled) => {
                        return s.as_ref().unwrap().clone();
                    }
                    _ => {}
                }""", """                let s = r.borrow_and_update().clone();
                if let Some(s) = s {
                    let hit = match s {
                        CancellationState::CancelledAfterTime(cancel_time) => cancel_time < time,
                        CancellationState::HardCancelled => true,
                    };
                    if hit {
                        return s;
                    }
                }"""))
same("reap-filter", (V, """                let mut keys_to_remove = vec![];
                for entry in self.connections.iter() {
                    let cstate = entry.value();
                    if cstate.start_time_approx > t {
                        keys_to_remove.push(*entry.key());
                    }
                }
""", """                let keys_to_remove: Vec<u32> = self
                    .connections
                    .iter()
                    .filter(|e| t < e.start_time_approx)
                    .map(|e| *e.key())
                    .collect();
"""))
same("reap-continue", (V, """                    if cstate.start_time_approx > t {
                        keys_to_remove.push(*entry.key());
                    }
""", """                    if cstate.start_time_approx <= t {
                        continue;
                    }
                    keys_to_remove.push(*entry.key());
"""))
same("soft-let", (S, "                                token.cancel(CancellationState::CancelledAfterTime(Instant::now() - FIZZLED_TIME_CUTOFF));", "                                let cutoff = Instant::now() - FIZZLED_TIME_CUTOFF;\n                                token.cancel(CancellationState::CancelledAfterTime(cutoff));"))

# C24
A = "src/async_flag.rs"
mut("flag-check-before-listen", "C24", (A, """            // Check the flag again after creating the listener.
            if self.inner.value.load(Ordering::SeqCst) {
                break;
            }
""", ""))
mut("counter-ge-second", "C24", (A, """            // Check the flag again after creating the listener.
            let value = self.inner.value.load(Ordering::SeqCst);
            if value > from {""", """            // Check the flag again after creating the listener.
            let value = self.inner.value.load(Ordering::SeqCst);
            if value > from + 1 {"""))
mut("counter-notify-one", "C24", (A, "        self.inner.value.fetch_add(1, Ordering::SeqCst);\n        self.inner.event.notify(usize::MAX);", "        self.inner.value.fetch_add(1, Ordering::SeqCst);\n        self.inner.event.notify(1);"))
mut("counter-notify-before", "C24", (A, "        self.inner.value.fetch_add(1, Ordering::SeqCst);\n        self.inner.event.notify(usize::MAX);", "        self.inner.event.notify(usize::MAX);\n        self.inner.value.fetch_add(1, Ordering::SeqCst);"))
mut("flag-set-once", "C24", (A, "        self.inner.value.store(true, Ordering::SeqCst);\n        self.inner.event.notify(usize::MAX);", "        if !self.inner.value.swap(true, Ordering::SeqCst) {\n            self.inner.event.notify(1);\n        }"))
mut("counter-wait-ge", "C24", (A, "            if value > from {", "            if value >= from {"))
mut("flag-wait-once", "C24", (A, "            // Wait for a notification and continue the loop.\n            listener.await;", "            // Wait for a notification and continue the loop.\n            listener.await;\n            break;"))
mut("incr-per-channel", "C24", ("        self.ready_or_inflight_increased_event.incr(); // fire an event\n", ""), ("                if let Err(e) = channels[i].sendv(ready.into_iter().peekable()).await {\n                    error!(\"Perhaps TOCTOU? {}\", e);\n                }", "                if let Err(e) = channels[i].sendv(ready.into_iter().peekable()).await {\n                    error!(\"Perhaps TOCTOU? {}\", e);\n                } else {\n                    self.ready_or_inflight_increased_event.incr();\n                }"))
mut("incr-before-raise", "C24", ("        self.ready_or_inflight_increased_event.incr(); // fire an event\n", ""), ("        let mut inserts = vec![vec![]; NUM_RUNNER_TYPES];\n", "        let mut inserts = vec![vec![]; NUM_RUNNER_TYPES];\n        self.ready_or_inflight_increased_event.incr();\n"))
mut("flag-before-successors", "C24", ("        let out = self._finished_bookkeeping_2(e).await;\n        if let Some(ref mut flag) = &mut e.flag {\n            flag.set();\n        }\n        out", "        if let Some(ref mut flag) = &mut e.flag {\n            flag.set();\n        }\n        self._finished_bookkeeping_2(e).await"))
mut("flag-only-success", "C24", ("        if let Some(ref mut flag) = &mut e.flag {\n            flag.set();", "        if let (Some(ref mut flag), true) = (&mut e.flag, e.status.is_success()) {\n            flag.set();"))
mut("flag-not-in-soft", "C24", ("        self._finished_bookkeeping_1(e)?;\n        let out", "        self._finished_bookkeeping_1(e)?;\n        if self.shutdown_state == ShutdownState::SoftShutdown {\n            return Ok(());\n        }\n        let out"))
mut("etag-after", "C24", ("        (\n            etag_new,\n            self.queuestate\n                .iter()\n                .map(|r| (*r.key(), r.value().clone()))\n                .collect::<HashMap<_, _>>(),\n        )", "        let queues = self.queuestate\n                .iter()\n                .map(|r| (*r.key(), r.value().clone()))\n                .collect::<HashMap<_, _>>();\n        (self.ready_or_inflight_increased_event.load().max(etag_new), queues)"))
mut("timemin-skip", "C24", ("        if elapsed < timemin {", "        if elapsed < timemin && etag_new <= etag {"))
mut("etag-given", "C24", ("                Err(_elapsed) => self.ready_or_inflight_increased_event.load(),", "                Err(_elapsed) => etag,"))
mut("queues-nonempty", "C24", (".map(|r| (*r.key(), r.value().clone()))\n                .collect", ".filter(|r| r.num_ready > 0)\n                .map(|r| (*r.key(), r.value().clone()))\n                .collect"))
mut("end-unwaited", "C24", (V, "            tokio::select! {\n            _ = state.token.hard_cancelled() => {}\n            _ = flag.wait() => {}\n            };\n", ""))
mut("end-alone", "C24", (V, "            tokio::select! {\n            _ = state.token.hard_cancelled() => {}\n            _ = flag.wait() => {}\n            };\n", "            flag.wait().await;\n"))
mut("end-other-flag", "C24", (V, "flag: Some(flag.clone()),", "flag: Some(AsyncFlag::new()),"))
mut("counter-two", "C24", ("        ready_or_inflight_increased_event: ready_or_inflight_increased_event.clone(),\n        count_offset,", "        ready_or_inflight_increased_event: AsyncCounter::new(),\n        count_offset,"))
same("flag-while", (A, """        loop {
            // Check the flag.
            if self.inner.value.load(Ordering::SeqCst) {
                break;
            }

            // Start listening for events.
            let listener = self.inner.event.listen();

            // Check the flag again after creating the listener.
            if self.inner.value.load(Ordering::SeqCst) {
                break;
            }

            // Wait for a notification and continue the loop.
            listener.await;
        }""", """        while !self.inner.value.load(Ordering::SeqCst) {
            let listener = self.inner.event.listen();
            if !self.inner.value.load(Ordering::SeqCst) {
                listener.await;
            }
        }"""))
same("counter-helper", (A, """        loop {
            // Check the flag.
            let value = self.inner.value.load(Ordering::SeqCst);
            if value > from {
                return value;
            }

            // Start listening for events.
            let listener = self.inner.event.listen();

            // Check the flag again after creating the listener.
            let value = self.inner.value.load(Ordering::SeqCst);
            if value > from {
                return value;
            }

            listener.await;
        }
    }
""", """        loop {
            if let Some(value) = self.above(from) {
                return value;
            }
            let listener = self.inner.event.listen();
            if let Some(value) = self.above(from) {
                return value;
            }
            listener.await;
        }
    }

    fn above(&self, from: u64) -> Option<u64> {
        let value = self.load();
        (value > from).then_some(value)
    }
"""))
same("counter-listen-first", (A, """            // Check the flag.
            let value = self.inner.value.load(Ordering::SeqCst);
            if value > from {
                return value;
            }

            // Start listening for events.
            let listener = self.inner.event.listen();
""", """            // Start listening for events.
            let listener = self.inner.event.listen();
"""))
same("flag-raise-helper", (A, "        self.inner.value.store(true, Ordering::SeqCst);\n        self.inner.event.notify(usize::MAX);\n    }\n\n    pub fn unset", "        self.put(true);\n    }\n\n    fn put(&self, v: bool) {\n        self.inner.value.store(v, Ordering::SeqCst);\n        self.inner.event.notify(usize::MAX);\n    }\n\n    pub fn unset"))
same("queuestate-loop", ("        (\n            etag_new,\n            self.queuestate\n                .iter()\n                .map(|r| (*r.key(), r.value().clone()))\n                .collect::<HashMap<_, _>>(),\n        )", "        let mut queues = HashMap::new();\n        for r in self.queuestate.iter() {\n            queues.insert(*r.key(), r.value().clone());\n        }\n        (etag_new, queues)"))
same("queuestate-sleep", ("            tokio::time::sleep_until(clock_start + timemin).await;", "            tokio::time::sleep(timemin - elapsed).await;"))
same("queuestate-elapsed", ("        let elapsed = tokio::time::Instant::now() - clock_start;\n        if elapsed < timemin {\n            tokio::time::sleep_until(clock_start + timemin).await;", "        if clock_start.elapsed() < timemin {\n            tokio::time::sleep_until(clock_start + timemin).await;"))
same("end-iflet", (V, """    match request.start_request {
        Some(start_request) => {
            tokio::select! {
            _ = state.token.hard_cancelled() => {}
            _ = flag.wait() => {}
            };
            let resp = start_request_impl(state, start_request, runner_slurm_jobid).await?;
            Ok(Postcard(EndResponse {
                start_response: Some(resp),
            }))
        }
        None => Ok(Postcard(EndResponse {
            start_response: None,
        })),
    }""", """    let mut start_response = None;
    if let Some(start_request) = request.start_request {
        tokio::select! {
            _ = flag.wait() => {}
            _ = state.token.hard_cancelled() => {}
        };
        start_response = Some(start_request_impl(state, start_request, runner_slurm_jobid).await?);
    }
    Ok(Postcard(EndResponse { start_response }))"""))
same("flag-take", ("        if let Some(ref mut flag) = &mut e.flag {\n            flag.set();\n        }\n        out", "        if let Some(flag) = e.flag.as_ref() {\n            flag.set();\n        }\n        out"))

# ---------------------------------------------------------------- C22
B_ = "src/bin/execgraph-remote.rs"
mut("fd3-not-closed", "C22", (R, "        drop(fd3_write_pipe);\n        drop(fd4_read_pipe);\n", "        drop(fd4_read_pipe);\n"), (R, "        let event = match output {", "        drop(fd3_write_pipe);\n        let event = match output {"))
mut("fd4-read-not-closed", "C22", (R, "        drop(fd4_read_pipe);\n", "        let keep = fd4_read_pipe;\n"), (R, "        let event = match output {", "        drop(keep);\n        let event = match output {"))
mut("remote-fd3-not-closed", "C22", (B_, "    drop(write_fd3);\n", ""), (B_, "    let t_finished = std::time::Instant::now();\n", "    drop(write_fd3);\n    let t_finished = std::time::Instant::now();\n"))
mut("input-before-read", "C22", (R, "        let write_input = async move {\n            if let", "        {\n            if let"), (R, "write_all_input(p, buf).await;\n            }\n        };", "write_all_input(p, buf).await;\n            }\n        }"),
    (R, "(_, output) = futures::future::join(write_input, wait_with_output(child, fd3_read_pipe)) =>", "output = wait_with_output(child, fd3_read_pipe) =>"))
mut("remote-input-before-read", "C22", (B_, "std::pin::pin!(futures::future::join(write_input, wait_with_output(child, read_fd3)))", "std::pin::pin!(async move {\n            write_input.await;\n            ((), wait_with_output(child, read_fd3).await)\n        })"))
same("wait-after-read", (R, "    let (status, stdout, stderr, fd3bytes) =\n        futures::future::try_join4(child.wait(), f1, f2, f3).await?;", "    let (stdout, stderr, fd3bytes) = futures::future::try_join3(f1, f2, f3).await?;\n    let status = child.wait().await?;"))
mut("read-then-fd3", "C22", (R, "    let (status, stdout, stderr, fd3bytes) =\n        futures::future::try_join4(child.wait(), f1, f2, f3).await?;", "    let (status, stdout, stderr) = futures::future::try_join3(child.wait(), f1, f2).await?;\n    let fd3bytes = f3.await?;"))
mut("wait-then-read", "C22", (R, "    let (status, stdout, stderr, fd3bytes) =\n        futures::future::try_join4(child.wait(), f1, f2, f3).await?;", "    let status = child.wait().await?;\n    let (stdout, stderr, fd3bytes) = futures::future::try_join3(f1, f2, f3).await?;"))
mut("nonblocking-fd3", "C22", (R, "    set_blocking(&fd3_write)?;\n", ""))
mut("nonblocking-input", "C22", (R, "        set_blocking(&read)?;\n", ""))
mut("blocking-wrong-end", "C22", (R, "        set_blocking(&read)?;\n", "        set_blocking(&write)?;\n"))
mut("blocking-own-too", "C22", (R, "    set_blocking(&fd3_write)?;\n", "    set_blocking(&fd3_write)?;\n    set_blocking(&fd3_read)?;\n"))
mut("blocking-flags", "C22", (R, "flags & !libc::O_NONBLOCK)", "flags | libc::O_NONBLOCK)"))
mut("no-kill-on-drop", "C22", (R, "                .kill_on_drop(true)\n                .stdin(Stdio::null())", "                .kill_on_drop(false)\n                .stdin(Stdio::null())"))
mut("no-kill-console", "C22", (R, "                .kill_on_drop(true)\n                .stdin(Stdio::inherit())", "                .stdin(Stdio::inherit())"))
mut("args-from-0", "C22", (R, "                .args(&cmd.cmdline[1..])\n                .kill_on_drop(true)\n                .stdin(Stdio::inherit())", "                .args(&cmd.cmdline[0..])\n                .kill_on_drop(true)\n                .stdin(Stdio::inherit())"))
mut("args-skip-2", "C22", (B_, ".args(&start.cmdline[1..])", ".args(start.cmdline.iter().skip(2))"))
mut("stdin-inherit", "C22", (R, ".stdin(Stdio::null())", ".stdin(Stdio::inherit())"))
mut("stderr-null", "C22", (B_, ".stderr(std::process::Stdio::piped())", ".stderr(std::process::Stdio::null())"))
mut("console-piped", "C22", (R, ".stderr(Stdio::inherit())", ".stderr(Stdio::piped())"))
mut("fd-number", "C22", (B_, "child_fd: start.fd_input.as_ref().unwrap().0,", "child_fd: 4,"))
mut("fd3-number", "C22", (R, "child_fd: 3,", "child_fd: 4,"))
mut("map-write-end", "C22", (R, "        if fd4_read_pipe.is_some() {\n            fd_mapping.push(FdMapping {\n                parent_fd: fd4_read_pipe.as_ref().unwrap().as_raw_fd(),", "        if fd4_read_pipe.is_some() {\n            fd_mapping.push(FdMapping {\n                parent_fd: fd4_write_pipe.as_ref().unwrap().as_raw_fd(),"))
mut("input-not-flushed", "C22", (R, "        Ok(()) => writer.flush().await,\n", "        Ok(()) => Ok(()),\n"))
mut("input-partial", "C22", (R, "writer.write_all(buf).await {\n        Ok(()) => writer.flush().await,", "writer.write(buf).await {\n        Ok(_) => writer.flush().await,"))
mut("input-pipe-kept", "C22", (R, "pub async fn write_all_input(pipe: PipeWrite, buf: &[u8]) {\n    let mut writer = tokio::io::BufWriter::new(pipe);", "pub async fn write_all_input(mut pipe: PipeWrite, buf: &[u8]) {\n    let mut writer = tokio::io::BufWriter::new(&mut pipe);"),
    (R, '        debug!("The task did not read all of its input: {}", e);\n    }\n', '        debug!("The task did not read all of its input: {}", e);\n    }\n    std::mem::forget(pipe);\n'))
mut("input-empty-skipped", "C22", (R, "            if let Some(p) = fd4_write_pipe {\n                let (_fd, buf) = cmd.fd_input.as_ref().unwrap();\n                write_all_input(p, buf).await;", "            if let Some(p) = fd4_write_pipe {\n                let (_fd, buf) = cmd.fd_input.as_ref().unwrap();\n                write_all_input(p, &buf[1..]).await;"))
mut("stderr-not-read", "C22", (R, "futures::future::try_join4(child.wait(), f1, f2, f3).await?", "futures::future::try_join4(child.wait(), f1, async { drop(f2); Ok(Vec::new()) }, f3).await?"))
mut("task-env", "C22", (R, "Command::new(&cmd.cmdline[0]);", "Command::new(&cmd.cmdline[0]);\n        command.env_remove(\"TMPDIR\");"))
same("runner-statements", (R, """        let maybe_child = match &local_queue_type {
            LocalQueueType::NormalLocalQueue => command
                .args(&cmd.cmdline[1..])
                .kill_on_drop(true)
                .stdin(Stdio::null())
                .stdout(Stdio::piped())
                .stderr(Stdio::piped()),
            LocalQueueType::ConsoleQueue => command
                .args(&cmd.cmdline[1..])
                .kill_on_drop(true)
                .stdin(Stdio::inherit())
                .stdout(Stdio::inherit())
                .stderr(Stdio::inherit()),
        }
        .fd_mappings(fd_mapping)
        .map_err(anyhow::Error::from)
        .and_then(|command| command.spawn().map_err(anyhow::Error::from));
""", """        command.args(&cmd.cmdline[1..]);
        command.kill_on_drop(true);
        if matches!(local_queue_type, LocalQueueType::NormalLocalQueue) {
            command.stdin(Stdio::null());
            command.stderr(Stdio::piped());
            command.stdout(Stdio::piped());
        } else {
            command
                .stdin(Stdio::inherit())
                .stdout(Stdio::inherit())
                .stderr(Stdio::inherit());
        }
        let maybe_child = match command.fd_mappings(fd_mapping) {
            Ok(c) => c.spawn().map_err(anyhow::Error::from),
            Err(e) => Err(e.into()),
        };
"""))
same("runner-split-first", (R, "Command::new(&cmd.cmdline[0]);", "Command::new(cmd.cmdline.first().unwrap());"), (B_, ".args(&start.cmdline[1..])", ".args(start.cmdline.iter().skip(1))"))
same("runner-scope", (R, "        let mut fd_mapping = vec![\n            // Map the pipe as FD 3 in the child process.\n            FdMapping {\n                parent_fd: fd3_write_pipe.as_raw_fd(),\n                child_fd: 3,\n            },\n        ];\n        if fd4_read_pipe.is_some() {\n            fd_mapping.push(FdMapping {\n                parent_fd: fd4_read_pipe.as_ref().unwrap().as_raw_fd(),\n                child_fd: cmd.fd_input.as_ref().unwrap().0,\n            })\n        }\n",
     "        let mut fd_mapping = Vec::with_capacity(2);\n        fd_mapping.push(FdMapping { parent_fd: fd3_write_pipe.as_raw_fd(), child_fd: 3 });\n        if let (Some(p), Some((fd, _))) = (&fd4_read_pipe, &cmd.fd_input) {\n            fd_mapping.push(FdMapping { parent_fd: p.as_raw_fd(), child_fd: *fd });\n        }\n"))
same("runner-join5", (R, "futures::future::join(write_input, wait_with_output(child, fd3_read_pipe)) =>", "futures::future::join(wait_with_output(child, fd3_read_pipe), write_input) =>"), (R, "            (_, output) = ", "            (output, _) = "))
same("wait-status-last", (R, "    let (status, stdout, stderr, fd3bytes) =\n        futures::future::try_join4(child.wait(), f1, f2, f3).await?;", "    let (fd3bytes, stderr, stdout, status) =\n        futures::future::try_join4(f3, f2, f1, child.wait()).await?;"))
same("wait-match", (R, "        let mut buf = Vec::new();\n        if let Some(pipe) = pipe {\n            pipe.read_to_end(&mut buf).await?;\n        }\n        Ok(buf)", "        match pipe {\n            None => Ok(vec![]),\n            Some(p) => {\n                let mut bytes = Vec::with_capacity(4096);\n                let _n = p.read_to_end(&mut bytes).await?;\n                Ok(bytes)\n            }\n        }"))
same("input-unbuffered", (R, "    let mut writer = tokio::io::BufWriter::new(pipe);\n    let r = match writer.write_all(buf).await {\n        Ok(()) => writer.flush().await,\n        Err(e) => Err(e),\n    };\n    if let Err(e) = r {", "    let mut pipe = pipe;\n    if let Err(e) = pipe.write_all(buf).await {"))
same("make-pipes-flat", (R, """    if has_input {
        let (read, write) = tokio_pipe::pipe()?;
        set_blocking(&read)?;
        Ok(((fd3_read, fd3_write), (Some(read), Some(write))))
    } else {
        Ok(((fd3_read, fd3_write), (None, None)))
    }""", """    let input = if has_input {
        let p = tokio_pipe::pipe()?;
        set_blocking(&p.0)?;
        (Some(p.0), Some(p.1))
    } else {
        (None, None)
    };
    Ok(((fd3_read, fd3_write), input))"""))

# ---- C37
mut("wait-swap", "C37", (R, "    Ok(ChildOutput {\n        status,\n        stdout,\n        stderr,", "    Ok(ChildOutput {\n        status,\n        stdout: stderr,\n        stderr: stdout,"))
mut("wait-swap-pipes", "C37", (R, "    let f2 = read_to_end(&mut stderr_pipe);\n    let f3 = read_to_end(&mut fd);", "    let f3 = read_to_end(&mut stderr_pipe);\n    let f2 = read_to_end(&mut fd);"))
mut("wait-trim", "C37", (R, "    Ok(ChildOutput {\n        status,\n        stdout,", "    let mut stdout = stdout;\n    if stdout.last() == Some(&b'\\n') {\n        stdout.pop();\n    }\n    Ok(ChildOutput {\n        status,\n        stdout,"))
mut("event-swap", "C37", (R, "            stdout: self.stdout_str(),\n            stderr: self.stderr_str(),\n            values: self.fd3_values(),\n            flag: None,", "            stdout: self.stderr_str(),\n            stderr: self.stdout_str(),\n            values: self.fd3_values(),\n            flag: None,"))
mut("event-novalues", "C37", (R, "            values: self.fd3_values(),\n            flag: None,", "            values: if self.status.success() { self.fd3_values() } else { ValueMaps::new() },\n            flag: None,"))
mut("stderr-str-stdout", "C37", (R, "        String::from_utf8_lossy(&self.stderr).to_string()", "        String::from_utf8_lossy(&self.stdout).to_string()"))
mut("stdout-str-trim", "C37", (R, "        String::from_utf8_lossy(&self.stdout).to_string()", "        String::from_utf8_lossy(&self.stdout).trim_end().to_string()"))
mut("code-128", "C37", (R, "None => -self.status.signal()", "None => 128 + self.status.signal()"))
mut("code-pos", "C37", (R, "None => -self.status.signal()", "None => self.status.signal()"))
mut("code-default", "C37", (R, "        let code = match self.status.code() {\n            Some(code) => code,\n            None => -self.status.signal().expect(\"No exit code and no signal?\"),\n        };\n        ExitStatus::Code(code)", "        ExitStatus::Code(self.status.code().unwrap_or_default())"))
mut("code-raw", "C37", (R, "None => -self.status.signal().expect(\"No exit code and no signal?\"),", "None => self.status.into_raw(),"))
mut("start-status0", "C37", (R, "        .send_finished(FinishedEvent::new_error(\n            subgraph_node_id,\n            -1,", "        .send_finished(FinishedEvent::new_error(\n            subgraph_node_id,\n            0,"))
mut("wait-status0", "C37", (R, "            Err(e) => FinishedEvent::new_error(\n                subgraph_node_id,\n                -1,", "            Err(e) => FinishedEvent::new_error(\n                subgraph_node_id,\n                0,"))
mut("fd3-rfind", "C37", (R, "s.find('=')", "s.rfind('=')"))
mut("fd3-pos", "C37", (R, "s[pos + 1..].to_string()", "s[pos..].to_string()"))
mut("fd3-colon", "C37", (R, "s.find('=')", "s.find(':')"))
mut("fd3-nonempty", "C37", (R, "                        s.find('=')\n", "                        s.find('=')\n                            .filter(|pos| pos + 1 < s.len())\n"))
mut("fd3-skip1", "C37", (R, "                s.lines()\n                    .filter_map", "                s.lines()\n                    .skip(1)\n                    .filter_map"))
mut("fd3-rev", "C37", (R, "                s.lines()\n                    .filter_map", "                s.lines()\n                    .rev()\n                    .filter_map"))
mut("fd3-dropempty", "C37", (R, ".filter_map(|line| parse_line(line).ok())", ".filter_map(|line| parse_line(line).ok())\n                    .filter(|m| !m.is_empty())"))
mut("fd3-emptymap", "C37", (R, ".filter_map(|line| parse_line(line).ok())", ".map(|line| parse_line(line).unwrap_or_default())"))
mut("fd3-stop", "C37", (R, ".filter_map(|line| parse_line(line).ok())", ".map_while(|line| parse_line(line).ok())"))
mut("fd3-whitespace", "C37", (R, "            shell_words::split(line).map(|fields| {", "            Ok::<Vec<String>, shell_words::ParseError>(line.split_whitespace().map(|x| x.to_string()).collect()).map(|fields| {"))
mut("fd3-trim", "C37", (R, "s[pos + 1..].to_string()", "s[pos + 1..].trim().to_string()"))
mut("local-other-id", "C37", (R, "            Ok(output) => output.to_event(subgraph_node_id),", "            Ok(output) => output.to_event(NodeIndex::new(runnertypeid as usize)),"))
mut("remote-values", "C37", (B_, "        values: output.fd3_values(),", "        values: if output.status.success() { output.fd3_values() } else { vec![] },"))
mut("remote-stdout", "C37", (B_, "        stdout: output.stdout_str(),", "        stdout: output.stderr_str(),"))
mut("remote-stderr-only-prefix", "C37", (B_, "            stderr_prefix.unwrap_or(\"\".to_string()),\n            output.stderr_str()\n", "            stderr_prefix.clone().unwrap_or(\"\".to_string()),\n            if stderr_prefix.is_some() { String::new() } else { output.stderr_str() }\n"))
mut("remote-status-bool", "C37", (B_, "        status: output.code().as_i32(),", "        status: !output.status.success() as i32,"))
mut("remote-status-raw", "C37", (B_, "        status: output.code().as_i32(),", "        status: output.status.code().unwrap_or(1),"))
mut("remote-nostart0", "C37", (B_, "                    status: 13,", "                    status: 0,"))
mut("remote-sigterm0", "C37", (B_, "                        status: -15,", "                        status: 0,"))
mut("end-swap", "C37", (V, "                stdout: request.stdout,\n                stderr: request.stderr,", "                stdout: request.stderr,\n                stderr: request.stdout,"))
mut("end-abs", "C37", (V, "status: ExitStatus::Code(request.status),", "status: ExitStatus::Code(request.status.max(0)),"))
mut("end-novalues", "C37", (V, "                values: request.values,\n", "                values: request.values.into_iter().filter(|m| !m.is_empty()).collect(),\n"))
mut("begun-pid", "C37", (V, "            &request.host,\n            request.pid,", "            &request.host,\n            request.transaction_id,"))
mut("begun-host", "C37", (V, "            &request.host,\n            request.pid,", "            &runner_slurm_jobid.clone(),\n            request.pid,"))
mut("send-twice", "C37", (S, "        if r.is_err() {\n            debug!(\"send_started: cannot", "        let r = if r.is_ok() && pid == 0 {\n            self.s.send(Event::Started(StartedEvent { id: v, host: host.to_string(), pid, slurm_jobid: String::new() })).await\n        } else {\n            r\n        };\n        if r.is_err() {\n            debug!(\"send_started: cannot"))
mut("send-not-ok", "C37", (S, "        let r = self.s.send(Event::Finished(event)).await;\n", "        if self.s.is_full() {\n            return;\n        }\n        let r = self.s.send(Event::Finished(event)).await;\n"))
mut("send-started-host", "C37", (S, "                host: host.to_string(),\n                pid,\n                slurm_jobid,", "                host: slurm_jobid.clone(),\n                pid,\n                slurm_jobid,"))
mut("send-started-pid0", "C37", (S, "                host: host.to_string(),\n                pid,\n                slurm_jobid,", "                host: host.to_string(),\n                pid: if slurm_jobid.is_empty() { pid } else { 0 },\n                slurm_jobid,"))
same("fd3-loops", (R, """            shell_words::split(line).map(|fields| {
                fields
                    .iter()
                    .flat_map(|s| {
                        s.find('=')
                            .map(|pos| (s[..pos].to_string(), s[pos + 1..].to_string()))
                    })
                    .collect::<HashMap<String, String>>()
            })
        }

        std::str::from_utf8(&self.fd3bytes)
            .map(|s| {
                s.lines()
                    .filter_map(|line| parse_line(line).ok())
                    .collect::<ValueMaps>()
            })
            .unwrap_or_default()""", """            let mut map = HashMap::new();
            for word in shell_words::split(line)? {
                if let Some((k, v)) = word.split_once('=') {
                    map.insert(k.to_string(), v.to_string());
                }
            }
            Ok(map)
        }

        let text = match std::str::from_utf8(&self.fd3bytes) {
            Ok(t) => t,
            Err(_) => return ValueMaps::new(),
        };
        let mut values = ValueMaps::new();
        for line in text.lines() {
            if let Ok(m) = parse_line(line) {
                values.push(m);
            }
        }
        values"""))
same("fd3-split-once", (R, """                    .flat_map(|s| {
                        s.find('=')
                            .map(|pos| (s[..pos].to_string(), s[pos + 1..].to_string()))
                    })""", """                    .filter_map(|s| s.split_once('='))
                    .map(|(k, v)| (k.to_owned(), v.to_owned()))"""))
same("fd3-flatten", (R, ".filter_map(|line| parse_line(line).ok())", ".map(parse_line)\n                    .flatten()"))
same("fd3-iflet", (R, """                        s.find('=')
                            .map(|pos| (s[..pos].to_string(), s[pos + 1..].to_string()))
""", """                        if let Some(pos) = s.find("=") {
                            let (key, value) = s.split_at(pos);
                            Some((key.to_string(), value[1..].to_string()))
                        } else {
                            None
                        }
"""))
same("code-ifelse", (R, "        let code = match self.status.code() {\n            Some(code) => code,\n            None => -self.status.signal().expect(\"No exit code and no signal?\"),\n        };\n        ExitStatus::Code(code)", "        if let Some(code) = self.status.code() {\n            return ExitStatus::Code(code);\n        }\n        let signal = self.status.signal().expect(\"No exit code and no signal?\");\n        ExitStatus::Code(-signal)"))
same("code-unwrap-or-else", (R, "        let code = match self.status.code() {\n            Some(code) => code,\n            None => -self.status.signal().expect(\"No exit code and no signal?\"),\n        };\n        ExitStatus::Code(code)", "        ExitStatus::Code(self.status.code().unwrap_or_else(|| {\n            -self.status.signal().expect(\"No exit code and no signal?\")\n        }))"))
same("event-destructure", (R, """        FinishedEvent {
            id,
            status: self.code(),
            stdout: self.stdout_str(),""", """        let stdout = self.stdout_str();
        let status = self.code();
        FinishedEvent {
            id,
            status,
            stdout,"""))
same("str-into-owned", (R, "        String::from_utf8_lossy(&self.stdout).to_string()", "        String::from_utf8_lossy(&self.stdout).into_owned()"), (R, "        String::from_utf8_lossy(&self.stderr).to_string()", "        match String::from_utf8_lossy(&self.stderr) {\n            std::borrow::Cow::Borrowed(s) => s.to_owned(),\n            std::borrow::Cow::Owned(s) => s,\n        }"))
same("end-vars", (V, """        .send_finished(
            FinishedEvent {
                id: cstate.node_id,
                status: ExitStatus::Code(request.status),
                stdout: request.stdout,
                stderr: request.stderr,
                values: request.values,
                flag: Some(flag.clone()),
            },
        )
""", """        .send_finished(finished_event(cstate.node_id, request.status, (request.stdout, request.stderr), request.values, &flag))
"""), (V, "async fn end_handler(", """fn finished_event(
    id: petgraph::graph::NodeIndex,
    code: i32,
    (stdout, stderr): (String, String),
    values: crate::logfile2::ValueMaps,
    flag: &AsyncFlag,
) -> FinishedEvent {
    let status = ExitStatus::Code(code);
    FinishedEvent { id, status, stdout, stderr, values, flag: Some(flag.clone()) }
}

async fn end_handler("""))
same("begun-vars", (V, "            &request.host,\n            request.pid,\n            runner_slurm_jobid,", "            request.host.as_str(),\n            pid,\n            runner_slurm_jobid,"), (V, "    // a transaction begins once\n", "    let BegunRequest { pid, .. } = request;\n    // a transaction begins once\n"))
same("remote-end-vars", (B_, """        stderr: format!(
            "{}{}",
            stderr_prefix.unwrap_or("".to_string()),
            output.stderr_str()
        ),""", """        stderr: match stderr_prefix {
            Some(prefix) => prefix + &output.stderr_str(),
            None => output.stderr_str(),
        },"""))
same("send-event-helper", (S, "        let r = self.s.send(Event::Finished(event)).await;\n        if r.is_err() {\n            debug!(\"send_finished: cannot send to channel: {:#?}\", r);\n        };\n", "        if let Err(e) = self.s.send(Event::Finished(event)).await {\n            debug!(\"send_finished: cannot send to channel: {:#?}\", e);\n        }\n"))

# -- C28 the rate limiter
G = "src/time/gcra.rs"
mut("rate-not-waited", "C28", (S, "        self.ratelimiter_launch.until_ready().await;\n", "        if self.queuestate.len() > 1 {\n            self.ratelimiter_launch.until_ready().await;\n        }\n"))
mut("rate-future-dropped", "C28", (S, "        self.ratelimiter_launch.until_ready().await;\n", "        let _ = tokio::time::timeout(std::time::Duration::from_secs(1), self.ratelimiter_launch.until_ready()).await;\n"))
mut("rate-store-not-cas", "C28", (G, """            if self
                .tat
                .compare_exchange(
                    tat,
                    new_tat,
                    std::sync::atomic::Ordering::SeqCst,
                    std::sync::atomic::Ordering::SeqCst,
                )
                .is_ok()
            {
                return retry_in;
            }
""", """            if self.tat.load(std::sync::atomic::Ordering::SeqCst) == tat {
                self.tat.store(new_tat, std::sync::atomic::Ordering::SeqCst);
                return retry_in;
            }
"""))
mut("rate-cas-ignored", "C28", (G, "                .is_ok()\n", "                .map_or_else(|_| retry_in.is_zero(), |_| true)\n"))
mut("rate-refusal-takes", "C28", (G, "            (tat, Duration::from_nanos(allow_at - now))", "            (new_tat, Duration::from_nanos(allow_at - now))"))
mut("rate-no-max", "C28", (G, "        let tat = std::cmp::max(tat, now);\n", "        let tat = if tat + burst_offset < now { now } else { tat };\n"))
mut("rate-sleep-short", "C28", (G, "            (tat, Duration::from_nanos(allow_at - now))", "            (tat, Duration::from_nanos((allow_at - now) / 2 + 1))"))
mut("rate-one-sleep", "C28", (G, """        loop {
            let retry_in = self.compute(1);
            if retry_in.is_zero() {
                return;
            }
            tokio::time::sleep(retry_in).await;
        }""", """        let retry_in = self.compute(1);
        if !retry_in.is_zero() {
            tokio::time::sleep(retry_in).await;
        }"""))
mut("rate-boundary", "C28", (G, "        if allow_at > now {", "        if allow_at > now + tau {"))
mut("rate-millis", "C28", (G, "            if retry_in.is_zero() {", "            if retry_in.as_millis() == 0 {"))
mut("rate-reset-tat-only", "C28", (G, "        self.tau.store(tau, std::sync::atomic::Ordering::SeqCst);\n", "        if tau != 0 {\n            self.tau.store(tau, std::sync::atomic::Ordering::SeqCst);\n        }\n"))
mut("rate-reset-full-bucket", "C28", (G, """        let tat = now() + tau * rate_per_second;
        self.tau.store""", """        let tat = now();
        self.tau.store"""))
mut("rate-set-u16", "C28", (S, "        self.ratelimiter_launch.reset(per_second.into())", "        self.ratelimiter_launch.reset((per_second as u16).into())"))
mut("rate-set-min1", "C28", (S, "        self.ratelimiter_launch.reset(per_second.into())", "        self.ratelimiter_launch.reset(per_second.max(1).into())"))
mut("rate-get-plus", "C28", (S, "        self.ratelimiter_launch.rate_per_second() as u32", "        self.ratelimiter_launch.rate_per_second() as u8 as u32"))
same("rate-while", (G, """        loop {
            let retry_in = self.compute(1);
            if retry_in.is_zero() {
                return;
            }
            tokio::time::sleep(retry_in).await;
        }""", """        let mut wait = self.compute(1);
        while wait != Duration::ZERO {
            tokio::time::sleep(wait).await;
            wait = self.compute(1);
        }"""))
same("rate-interval-helper", (G, """        let tau = if rate_per_second == 0 {
            0
        } else {
            PERIOD / rate_per_second
        };
        let tat = now() + tau * rate_per_second;
        self.tau.store""", """        let (tau, tat) = Self::initial(rate_per_second);
        self.tau.store"""), (G, "    pub fn reset(", "    fn initial(rate: u64) -> (u64, u64) {\n        let tau = PERIOD.checked_div(rate).unwrap_or(0);\n        (tau, now() + tau * rate)\n    }\n\n    pub fn reset("))
same("rate-option-retry", (G, """            (tat, Duration::from_nanos(allow_at - now))
        } else {
            (new_tat, Duration::from_nanos(0))
        }""", """            let wait = allow_at - now;
            return (tat, Duration::from_nanos(wait));
        }
        (new_tat, Duration::ZERO)"""))
same("rate-compute-match", (G, """            if self
                .tat
                .compare_exchange(
                    tat,
                    new_tat,
                    std::sync::atomic::Ordering::SeqCst,
                    std::sync::atomic::Ordering::SeqCst,
                )
                .is_ok()
            {
                return retry_in;
            }
""", """            use std::sync::atomic::Ordering::SeqCst;
            match self.tat.compare_exchange(tat, new_tat, SeqCst, SeqCst) {
                Ok(_) => return retry_in,
                Err(_) => continue,
            }
"""))
same("rate-refusal-untouched", (G, """        let tat = std::cmp::max(tat, now);

        let new_tat = tat + increment;""", """        let new_tat = tat.max(now) + increment;"""))
same("rate-wait-in-recv-helper", (S, "        // wait for the rate limiter\n        self.ratelimiter_launch.until_ready().await;\n", "        self.permit().await;\n"), (S, "    pub async fn recv(&self, runnertypeid", "    async fn permit(&self) {\n        self.ratelimiter_launch.until_ready().await;\n    }\n\n    pub async fn recv(&self, runnertypeid"))

# -- C20 the remote runner
ENDQ = "        start_request: still_accepting_tasks(opt).then(make_start_request),\n    };\n    tokio::select! {"
mut("rr-more-always", "C20", (B_, ENDQ, ENDQ.replace("still_accepting_tasks(opt).then(make_start_request)", "Some(make_start_request())")))
mut("rr-more-never", "C20", (B_, ENDQ, ENDQ.replace("still_accepting_tasks(opt).then(make_start_request)", "None")))
mut("rr-more-inverted", "C20", (B_, "                    start_request: still_accepting_tasks(opt).then(make_start_request),", "                    start_request: (!still_accepting_tasks(opt)).then(make_start_request),"))
mut("rr-gasp-asks", "C20", (B_, "                        start_request: None,", "                        start_request: Some(make_start_request()),"))
mut("rr-end-status", "C20", (B_, '                    .error_for_status().context("Receiving from /end")?\n', ""))
mut("rr-begun-status", "C20", (B_, "            value?.error_for_status()?;\n", "            let _ = value?;\n"))
mut("rr-begun-failed-spawn-skipped", "C20", (B_, '                    value.context("Unable to pose to /begun")?\n                    .error_for_status()\n                    .context("Receiving from /begun")?;', '                    if let Err(e) = value.context("Unable to pose to /begun") {\n                        warn!("{}", e);\n                    }'))
mut("rr-token-clone-new", "C20", (B_, "    let token2 = token.clone();\n    let token3", "    let token2 = CancellationToken::new();\n    let token3"))
mut("rr-child-token", "C20", (B_, "    let token1 = token.clone();\n", "    let token1 = token.child_token();\n"))
mut("rr-guard-dropped", "C20", (B_, "    let _drop_guard = token.drop_guard();\n", "    let _ = token.drop_guard();\n"))
mut("rr-guard-missing", "C20", (B_, "    let _drop_guard = token.drop_guard();\n", "    let _unused = token;\n"))
mut("rr-ping-slow", "C20", (B_, "            tokio::time::interval_at(tokio::time::Instant::now() + ping_interval, ping_interval);", "            tokio::time::interval_at(tokio::time::Instant::now() + ping_interval, ping_timeout);"))
mut("rr-timeout-short", "C20", (B_, "    let ping_timeout = 2 * ping_interval;", "    let ping_timeout = ping_interval / 2;"))
mut("rr-ping-any-status", "C20", (B_, "                            Ok(r) if r.status() == StatusCode::OK => {", "                            Ok(r) if r.status() != StatusCode::UNAUTHORIZED => {"))
mut("rr-ping-error-ignored", "C20", (B_, '                                warn!("Ping endpoint response error: {:#?}", e);\n                                token2.cancel();', '                                warn!("Ping endpoint response error: {:#?}", e);'))
mut("rr-late-ignored", "C20", (B_, '                        warn!("No pong response received without timeout");\n                        token2.cancel();\n                        break;', '                        warn!("No pong response received without timeout");\n                        break;'))
mut("rr-pong-not-sent", "C20", (B_, "                                if pongs_tx.send(()).await.is_err() {\n                                    token2.cancel();\n                                }", "                                if pongs_tx.is_closed() {\n                                    token2.cancel();\n                                }"))
mut("rr-loop-restart", "C20", (B_, "                start_response = this_start_response;\n                if start_response.is_none() {\n                    break;\n                }", "                start_response = this_start_response;"))
mut("rr-loop-drop", "C20", (B_, "                if start_response.is_none() {\n                    break;\n                }", "                if start_response.is_none() || !still_accepting_tasks(&opt) {\n                    break;\n                }"))
mut("rr-loop-same", "C20", (B_, "            start_response,\n            SigtermChild", "            None,\n            SigtermChild"))
mut("rr-loop-error-goes-on", "C20", (B_, '                tracing::info!("Finishing loop due to {:#?}", e);\n                break;', '                tracing::info!("Finishing loop due to {:#?}", e);\n                if matches!(e, RemoteError::Sigterm) {\n                    break;\n                }\n                start_response = None;'))
mut("rr-end-unguarded", "C20", (B_, """        _ = token3.cancelled() => {
            Err(RemoteError::PingTimeout("Failed to receive server pong (420)".to_owned()))
        }""", """        _ = std::future::pending::<()>() => {
            Err(RemoteError::PingTimeout("Failed to receive server pong (420)".to_owned()))
        }"""))
mut("rr-wait-unguarded", "C20", (B_, """            _ = token3.cancelled() => {
                return Err(RemoteError::PingTimeout("Failed to receive server pong (343)".to_owned()));
            },
""", ""))
mut("rr-begun-route", "C20", (B_, '    let begun_route = base.join("begun")?;', '    let begun_route = base.join("ping")?;'))
mut("rr-route-renamed", "C20", (V, '        .route("/begun", post(begun_handler))', '        .route("/begin", post(begun_handler))'))
mut("rr-start-type", "C20", (B_, "        runnertypeid: opt.runnertypeid,", "        runnertypeid: opt.runnertypeid.min(1),"))
mut("rr-resp-dropped", "C20", (B_, "                    n_commands: 1,\n                }, r.start_response))", "                    n_commands: 1,\n                }, r.start_response.filter(|_| still_accepting_tasks(opt))))"))
mut("rr-timeout-gives-up-ok", "C20", (B_, """        _ = token3.cancelled() => {
            Err(RemoteError::PingTimeout("Failed to receive server pong (420)".to_owned()))
        }""", """        _ = token3.cancelled() => {
            Ok((TimingInfo::default(), None))
        }"""))
mut("rr-ping-tx", "C20", (B_, "                        .postcard(&Ping{transaction_id})", "                        .postcard(&Ping{transaction_id: transaction_id & 0xffff_ffff})"))
mut("rr-tick-skips", "C20", (B_, "                _ = interval.tick() => {\n", "                _ = interval.tick() => {\n                    if pongs_tx.is_full() {\n                        continue;\n                    }\n"))
same("rr-if-more", (B_, ENDQ, ENDQ.replace("still_accepting_tasks(opt).then(make_start_request)", "if still_accepting_tasks(opt) { Some(make_start_request()) } else { None }")))
same("rr-loop-while", (B_, """                start_response = this_start_response;
                if start_response.is_none() {
                    break;
                }""", """                match this_start_response {
                    Some(next) => start_response = Some(next),
                    None => break,
                }"""))
same("rr-token-one-clone", (B_, "    let token1 = token.clone();\n    let token2 = token.clone();\n    let token3 = token.clone();\n", "    let token3 = token.clone();\n    let (token1, token2) = (token3.clone(), token3.clone());\n"))
same("rr-ping-if", (B_, """                        match request.await {
                            Ok(r) if r.status() == StatusCode::OK => {
                                // add to the pongs channel, but if the channel
                                // has been dropped that's okay, just break
                                if pongs_tx.send(()).await.is_err() {
                                    token2.cancel();
                                }
                            }
                            e => {
                                warn!("Ping endpoint response error: {:#?}", e);
                                token2.cancel();
                            }
                        }""", """                        let reply = request.await;
                        let answered = match &reply {
                            Ok(r) => r.status() == StatusCode::OK,
                            Err(_) => false,
                        };
                        if !answered {
                            warn!("Ping endpoint response error: {:#?}", reply);
                            token2.cancel();
                            return;
                        }
                        if let Err(_) = pongs_tx.send(()).await {
                            token2.cancel();
                        }"""))
same("rr-start-helper", (B_, """        None => client
            .get(start_route)
            .postcard(&make_start_request())?
            .send()
            .await
            .context("Unable to send /start")?
            .error_for_status()?
            .postcard::<StartResponse>()
            .await
            .context("Unable to receive /start")?,
""", """        None => ask(client, start_route, &make_start_request()).await?,
"""), (B_, "fn still_accepting_tasks(", """async fn ask(client: &reqwest::Client, route: reqwest::Url, request: &StartRequest) -> Result<StartResponse, RemoteError> {
    let reply = client.get(route).postcard(request)?.send().await.context("Unable to send /start")?;
    let reply = reply.error_for_status()?;
    Ok(reply.postcard::<StartResponse>().await.context("Unable to receive /start")?)
}

fn still_accepting_tasks("""))
same("rr-watch-helper", (B_, """    tokio::spawn(async move {
        loop {
            tokio::select! {
                to = tokio::time::timeout(ping_timeout, pongs_rx.recv()) => {
                    if to.is_err() {
                        warn!("No pong response received without timeout");
                        token2.cancel();
                        break;
                    }
                }
                _ = token2.cancelled() => {
                    break;
                }
            }
        }
    });
""", """    tokio::spawn(watch_pongs(pongs_rx, ping_timeout, token2));
"""), (B_, "fn still_accepting_tasks(", """async fn watch_pongs(pongs: async_channel::Receiver<()>, patience: Duration, token: CancellationToken) {
    while !token.is_cancelled() {
        tokio::select! {
            late = tokio::time::timeout(patience, pongs.recv()) => {
                if late.is_ok() {
                    continue;
                }
                warn!("No pong response received without timeout");
                token.cancel();
            }
            _ = token.cancelled() => {}
        }
    }
}

fn still_accepting_tasks("""))
same("rr-routes", (B_, '    let ping_route = base.join("ping")?;\n    let begun_route = base.join("begun")?;\n    let end_route = base.join("end")?;\n', '    let [ping_route, begun_route] = [base.join("ping")?, base.join("begun")?];\n    let end_route = base.join("end")?;\n'))

# ---------------------------------------------------------------- C31 preamble and postamble
PRE_L = "        let cmd = subgraph[subgraph_node_id];\n        cmd.call_preamble();\n"
PRE_R = "    let cmd = state.subgraph[node_id];\n    cmd.call_preamble();\n"
mut("amble-local-none", "C31", (R, PRE_L, "        let cmd = subgraph[subgraph_node_id];\n"))
mut("amble-local-console-only", "C31", (R, PRE_L, "        let cmd = subgraph[subgraph_node_id];\n        if runnertypeid == 1 || cmd.fd_input.is_none() {\n            cmd.call_preamble();\n        }\n"))
mut("amble-local-after-spawn", "C31", (R, PRE_L, "        let cmd = subgraph[subgraph_node_id];\n"),
    (R, "        let start_time = std::time::Instant::now();\n        let child = match maybe_child {", "        cmd.call_preamble();\n        let start_time = std::time::Instant::now();\n        let child = match maybe_child {"))
mut("amble-local-twice", "C31", (R, "        let start_time = std::time::Instant::now();\n        let child = match maybe_child {", "        if maybe_child.is_err() {\n            cmd.call_preamble();\n        }\n        let start_time = std::time::Instant::now();\n        let child = match maybe_child {"))
mut("amble-local-other", "C31", (R, PRE_L, "        let cmd = subgraph[subgraph_node_id];\n        subgraph[petgraph::graph::NodeIndex::new(0)].call_preamble();\n"))
mut("amble-remote-none", "C31", (V, PRE_R, "    let cmd = state.subgraph[node_id];\n"))
mut("amble-remote-before-claim", "C31", (V, PRE_R, "    let cmd = state.subgraph[node_id];\n    if request.disconnect_error_message.is_empty() {\n        cmd.call_preamble();\n    }\n"))
mut("amble-remote-after-insert", "C31", (V, PRE_R, "    let cmd = state.subgraph[node_id];\n"), (V, "    Ok(StartResponse {\n        transaction_id,\n", "    cmd.call_preamble();\n    Ok(StartResponse {\n        transaction_id,\n"))
mut("amble-post-inverted", "C31", (S, "            is_success,\n            cmd.runcount,", "            !is_success,\n            cmd.runcount,"))
mut("amble-post-runcount", "C31", (S, "            is_success,\n            cmd.runcount,", "            is_success,\n            cmd.runcount + 1,"))
mut("amble-post-ntasks", "C31", (S, "            self.g.node_count() as u64,", "            self.n_remaining_for_selftest() as u64,"),
    (S, "    fn _finished_bookkeeping_1(", "    fn n_remaining_for_selftest(&self) -> usize {\n        self.g.edge_count()\n    }\n\n    fn _finished_bookkeeping_1("))
mut("amble-post-success-only", "C31", (S, "        cmd.call_postamble(\n            is_success,\n            cmd.runcount,\n            self.g.node_count() as u64,\n        );\n", "        if is_success {\n            cmd.call_postamble(\n                is_success,\n                cmd.runcount,\n                self.g.node_count() as u64,\n            );\n        }\n"))
mut("amble-pre-error-ignored", "C31", (X, "                        panic!(\"Invalid preamble in cmd `{}`: {}\", self.display(), e);", "                        debug!(\"Invalid preamble in cmd `{}`: {}\", self.display(), e);"))
mut("amble-post-negative-ignored", "C31", (X, "                    Ok(i) if i != 0 => {\n                        panic!(\"Postamble", "                    Ok(i) if i > 0 => {\n                        panic!(\"Postamble"))
mut("amble-post-calls-pre", "C31", (X, "        match &self.postamble {\n            Some(postamble) => {", "        match &self.preamble {\n            Some(postamble) => {"))
mut("amble-post-only-when-pre", "C31", (X, "        match &self.postamble {\n            Some(postamble) => {", "        match &self.postamble {\n            Some(postamble) if self.preamble.is_some() || success => {"),
    (X, "                        panic!(\"Invalid postamble in cmd `{}`: {}\", self.display(), e);\n                    }\n                };\n            }\n            None => {}", "                        panic!(\"Invalid postamble in cmd `{}`: {}\", self.display(), e);\n                    }\n                };\n            }\n            _ => {}"))
mut("amble-pre-success", "C31", (X, "preamble.call(false, 0, 0)", "preamble.call(true, 0, 0)"))
mut("amble-post-runcount-zero", "C31", (X, "postamble.call(success, runcount, ntasks)", "postamble.call(success, runcount.saturating_sub(1), ntasks)"))
mut("amble-capsule-swapped", "C31", (X, "Ok(f(ctx, success_u32, runcount, signaled_or_lost, ntasks))", "Ok(f(ctx, success_u32, signaled_or_lost, runcount, ntasks))"))
mut("amble-capsule-unchecked", "C31", (X, "                && (pyo3::ffi::PyCapsule_IsValid(pyobj, capsule_name_ptr) > 0)\n", "                || (pyo3::ffi::PyCapsule_IsValid(pyobj, capsule_name_ptr) > 0)\n"))
mut("amble-capsule-valid-ge", "C31", (X, "PyCapsule_IsValid(pyobj, capsule_name_ptr) > 0)", "PyCapsule_IsValid(pyobj, capsule_name_ptr) >= 0)"))
mut("amble-capsule-inverted", "C31", (X, "let success_u32 = success as u32;", "let success_u32 = (!success) as u32;"))
mut("amble-capsule-result", "C31", (X, "Ok(f(ctx, success_u32, runcount, signaled_or_lost, ntasks))", "f(ctx, success_u32, runcount, signaled_or_lost, ntasks);\n                Ok(0)"))
same("amble-iflet", (X, """        match &self.postamble {
            Some(postamble) => {
                match postamble.call(success, runcount, ntasks) {
                    Ok(i) if i != 0 => {
                        panic!("Postamble failed with error code {}", i);
                    }
                    Ok(_) => {}
                    Err(e) => {
                        panic!("Invalid postamble in cmd `{}`: {}", self.display(), e);
                    }
                };
            }
            None => {}
        };
""", """        let postamble = match self.postamble.as_ref() {
            Some(p) => p,
            None => return,
        };
        let code = postamble
            .call(success, runcount, ntasks)
            .unwrap_or_else(|e| panic!("Invalid postamble in cmd `{}`: {}", self.display(), e));
        if code == 0 {
            return;
        }
        panic!("Postamble failed with error code {}", code);
"""))
same("amble-shared-helper", (X, """        match &self.preamble {
            Some(preamble) => {
                match preamble.call(false, 0, 0) {
                    Ok(i) if i != 0 => {
                        panic!("Preamble failed with error code {}", i);
                    }
                    Ok(_) => {}
                    Err(e) => {
                        panic!("Invalid preamble in cmd `{}`: {}", self.display(), e);
                    }
                };
            }
            None => {}
        };
""", """        if let Some(preamble) = &self.preamble {
            self.check_hook("preamble", preamble.call(false, 0, 0));
        }
"""), (X, "    pub fn call_preamble(&self) {", """    fn check_hook(&self, what: &str, result: Result<i32>) {
        match result {
            Ok(0) => {}
            Ok(i) => panic!("{} failed with error code {}", what, i),
            Err(e) => panic!("Invalid {} in cmd `{}`: {}", what, self.display(), e),
        }
    }

    pub fn call_preamble(&self) {"""))
same("amble-capsule-early-return", (X, "            if (pyo3::ffi::PyCapsule_CheckExact(pyobj) > 0)\n                && (pyo3::ffi::PyCapsule_IsValid(pyobj, capsule_name_ptr) > 0)\n            {", "            let exact = pyo3::ffi::PyCapsule_CheckExact(pyobj);\n            if exact <= 0 {\n                return Err(anyhow!(\"Not a capsule!\"));\n            }\n            if pyo3::ffi::PyCapsule_IsValid(pyobj, capsule_name_ptr) != 0 {"),
     (X, "let success_u32 = success as u32;", "let success_u32 = u32::from(success);"))
same("amble-local-helper", (R, PRE_L, "        let cmd = prepared(&subgraph, subgraph_node_id);\n"),
     (R, "pub async fn run_local_process_loop(", "fn prepared<'a>(g: &DiGraph<&'a Cmd, ()>, id: NodeIndex<u32>) -> &'a Cmd {\n    let cmd: &'a Cmd = g[id];\n    cmd.call_preamble();\n    cmd\n}\n\npub async fn run_local_process_loop("))
same("amble-remote-moved", (V, PRE_R, ""), (V, "    let transaction_id = rand::random::<u32>();\n\n    let timer_id", "    let transaction_id = rand::random::<u32>();\n    let cmd = state.subgraph[node_id];\n    cmd.call_preamble();\n\n    let timer_id"))
same("amble-post-locals", (S, "        cmd.call_postamble(\n            is_success,\n            cmd.runcount,\n            self.g.node_count() as u64,\n        );\n", "        let (runcount, ntasks) = (cmd.runcount, self.statuses.len() as u64);\n        cmd.call_postamble(is_success, runcount, ntasks);\n"))
mut("aff-two-lowest", "C04 C02", (S, "for i in cmd.affinity.iter_ones() {", "for i in cmd.affinity.iter_ones().take(2) {"))
mut("aff-skips-one", "C04 C02", (S, "            for i in cmd.affinity.iter_ones() {\n", "            for i in cmd.affinity.iter_ones() {\n                if i == 63 && cmd.runcount > 0 {\n                    continue;\n                }\n"))
mut("aff-break", "C04 C02", (S, "                    priority,\n                ));\n            }\n        }\n", "                    priority,\n                ));\n                if i > 1 && priority == 0 {\n                    break;\n                }\n            }\n        }\n"))
same("aff-range", (S, "            for i in cmd.affinity.iter_ones() {\n", "            for i in 0..NUM_RUNNER_TYPES {\n                if !cmd.affinity[i] {\n                    continue;\n                }\n"))
mut("aff-range-short", "C04 C02", (S, "            for i in cmd.affinity.iter_ones() {\n", "            for i in 0..NUM_RUNNER_TYPES - 1 {\n                if !cmd.affinity[i] {\n                    continue;\n                }\n"))
mut("aff-range-inverted", "C04", (S, "            for i in cmd.affinity.iter_ones() {\n", "            for i in 0..NUM_RUNNER_TYPES {\n                if cmd.affinity[i] {\n                    continue;\n                }\n"))
same("aff-foreach", (S, "            for i in cmd.affinity.iter_ones() {\n                inserts[i].push((", "            cmd.affinity.iter_ones().for_each(|i| {\n                inserts[i].push(("), (S, "                    priority,\n                ));\n            }\n        }\n", "                    priority,\n                ));\n            });\n        }\n"))

# ---------------------------------------------------------------- C30 admin socket
D_ = "src/admin_server.rs"
mut("admin-rate-capped", "C30", (D_, "set_ratelimit(payload.per_second)", "set_ratelimit(payload.per_second.max(1))"))
mut("admin-rate-twice", "C30", (D_, "    state.tracker.set_ratelimit(payload.per_second);\n", "    if payload.per_second > 0 {\n        state.tracker.set_ratelimit(payload.per_second);\n    }\n"))
mut("admin-info-lost", "C30", (D_, "guard.info = payload.provisioner_info.clone();", "if guard.info.is_none() {\n            guard.info = payload.provisioner_info.clone();\n        }"))
mut("admin-info-cleared", "C30", (D_, "guard.info = payload.provisioner_info.clone();", "guard.info = payload.provisioner_info.clone().filter(|s| !s.is_empty());"))
mut("admin-shutdown-both", "C30", (D_, "    } else {\n        state.token.cancel(CancellationState::HardCancelled);\n    }\n", "    }\n    state.token.cancel(CancellationState::HardCancelled);\n"))
mut("admin-shutdown-inverted", "C30", (D_, "    if payload.soft {\n        state", "    if !payload.soft {\n        state"))
mut("admin-shutdown-user", "C30", (D_, "    if payload.soft {\n        state", "    if payload.soft || payload.username.is_empty() {\n        state"))
mut("admin-status-shutdown", "C30", (V, "    let request = match payload {\n        None => StatusRequest {", "    if payload.as_ref().map_or(false, |p| p.etag == u64::MAX) {\n        state.tracker.trigger_soft_shutdown();\n    }\n    let request = match payload {\n        None => StatusRequest {"))
mut("admin-tcp", "C30", (D_, "    let uds = tokio::net::UnixListener::bind(path.clone()).unwrap();\n    let stream = UnixListenerStream::new(uds);\n    let acceptor = hyper::server::accept::from_stream(stream);\n    let server = Server::builder(acceptor).serve(service);\n", "    let server = Server::bind(&std::net::SocketAddr::from(([127, 0, 0, 1], 0))).serve(service);\n"), (D_, "    use tokio_stream::wrappers::UnixListenerStream;\n", ""))
mut("admin-merged", "C30", (D_, "fn admin_router(", "pub fn admin_router("), (X, "let service = router(state.clone()).into_make_service();", "let service = router(state.clone()).nest(\"/admin\", crate::admin_server::admin_router(state.clone())).into_make_service();"))
mut("admin-socket-left", "C30", (D_, "    if let Err(err) = graceful.await {\n        error!(\"Server error: {}\", err);\n    }\n", "    if let Err(err) = graceful.await {\n        error!(\"Server error: {}\", err);\n        return;\n    }\n"))
mut("admin-socket-stale", "C30", (D_, "    let _ = std::fs::remove_file(&path);\n", "    if std::env::var(\"SLURM_JOBID\").is_err() {\n        let _ = std::fs::remove_file(&path);\n    }\n"))
mut("admin-clean-alive", "C30", (D_, "if !system.refresh_process(Pid::from(pid)) {", "if !system.refresh_process(Pid::from(pid)) || pid != std::process::id() as usize {"))
mut("admin-clean-files", "C30", (D_, "if entry.file_type()?.is_socket() && captures.is_some() {", "if (entry.file_type()?.is_socket() || entry.file_type()?.is_file()) && captures.is_some() {"))
mut("admin-route-main", "C30", (V, "        .route(\"/ping\", post(ping_handler))\n", "        .route(\"/ping\", post(ping_handler))\n        .route(\"/rate\", post(rate_handler))\n"),
    (V, "// POST /ping\n", "async fn rate_handler(\n    TypedHeader(authorization): TypedHeader<axum::headers::Authorization<Bearer>>,\n    Extension(state): Extension<Arc<State<'static>>>,\n    Postcard(request): Postcard<Ping>,\n) -> Result<Response, AppError> {\n    if authorization.token() != state.authorization_token {\n        return Err(AppError::Unauthorized);\n    };\n    state.tracker.set_ratelimit(request.transaction_id);\n    Ok((StatusCode::OK, \"\").into_response())\n}\n\n// POST /ping\n"))
same("admin-shutdown-helper", (D_, "    if payload.soft {\n        state.tracker.trigger_soft_shutdown();\n    } else {\n        state.token.cancel(CancellationState::HardCancelled);\n    }\n", "    stop(&state, payload.soft);\n"),
     (D_, "fn admin_router(", "fn stop(state: &State<'static>, soft: bool) {\n    match soft {\n        false => state.token.cancel(CancellationState::HardCancelled),\n        true => state.tracker.trigger_soft_shutdown(),\n    }\n}\n\nfn admin_router("))
same("admin-destructured", (D_, "    payload: Json<UpdateRatelimitRequest>,\n) -> Result<Json<StatusReply>, AppError> {\n    state.tracker.set_ratelimit(payload.per_second);", "    Json(request): Json<UpdateRatelimitRequest>,\n) -> Result<Json<StatusReply>, AppError> {\n    let UpdateRatelimitRequest { per_second, .. } = request;\n    state.tracker.set_ratelimit(per_second);"),
     (D_, "    payload: Json<UpdateRemoteProvisionerInfoRequest>,\n) -> Result<Json<StatusReply>, AppError> {\n    {\n        let mut guard = state.provisioner.write().unwrap();\n        guard.info = payload.provisioner_info.clone();\n    }", "    Json(payload): Json<UpdateRemoteProvisionerInfoRequest>,\n) -> Result<Json<StatusReply>, AppError> {\n    let info = payload.provisioner_info;\n    state.provisioner.write().unwrap().info = info;"))
same("admin-clean-guards", (D_, "            if entry.file_type()?.is_socket() && captures.is_some() {\n                let captures = captures.unwrap();\n", "            if !entry.file_type()?.is_socket() {\n                continue;\n            }\n            if let Some(captures) = captures {\n"))
same("admin-serve-split", (D_, "    let graceful = server.with_graceful_shutdown(token.hard_cancelled());\n    if let Err(err) = graceful.await {\n        error!(\"Server error: {}\", err);\n    }\n    std::fs::remove_file(path).unwrap();\n", "    let over = token.hard_cancelled();\n    let result = server.with_graceful_shutdown(over).await;\n    std::fs::remove_file(&path).unwrap();\n    if let Err(err) = result {\n        error!(\"Server error: {}\", err);\n    }\n"))
mut("admin-shutdown-softcancel", "C30", (D_, "state.token.cancel(CancellationState::HardCancelled);", "state.token.cancel(CancellationState::CancelledAfterTime(std::time::Instant::now()));"))

# ---------------------------------------------------------------- C36 status and statistics
RC = "src/time/ratecounter.rs"
RB = "src/simpleringbuffer.rs"
mut("stat-swapped-counters", "C36", (V, "                    num_ready: queue.num_ready,\n                    num_inflight: queue.num_inflight,", "                    num_ready: queue.num_inflight,\n                    num_inflight: queue.num_ready,"))
mut("stat-timeouts-swapped", "C36", (V, "            Duration::from_millis(request.timemin_ms),\n            Duration::from_millis(request.timeout_ms),", "            Duration::from_millis(request.timeout_ms),\n            Duration::from_millis(request.timemin_ms),"))
mut("stat-timeout-secs", "C36", (V, "Duration::from_millis(request.timeout_ms)", "Duration::from_secs(request.timeout_ms)"))
mut("stat-etag-request", "C36", (V, "        queues: resp,\n        etag,", "        queues: resp,\n        etag: etag.max(request.etag),"))
mut("stat-etag-default", "C36", (V, "            timemin_ms: 0,\n            etag: 0,", "            timemin_ms: 0,\n            etag: u64::MAX,"))
mut("stat-timeout-default", "C36", (V, "            timeout_ms: 0,\n", "            timeout_ms: 60_000,\n"))
mut("stat-queues-filtered", "C36", (V, "    let resp = snapshot\n        .into_iter()\n", "    let resp = snapshot\n        .into_iter()\n        .filter(|(_, q)| q.num_ready > 0)\n"))
mut("stat-unready-total", "C36", (V, "num_unready_tasks: state.tracker.get_num_unready_tasks()", "num_unready_tasks: state.tracker.get_num_total_tasks()"))
mut("stat-rate-limit", "C36", (V, "ratelimit: state.tracker.get_launch_ratelimit()", "ratelimit: state.tracker.get_launch_rate() as u32"))
mut("stat-info-lost", "C36", (V, "provisioner_info: state.provisioner.read().unwrap().info.clone()", "provisioner_info: None"))
mut("stat-unready-not-sub", "C36", (S, "        checked_sub(&self.n_unready_tasks_approximate_for_eta_purposes_only, ready.len());\n", "        if ready.len() > 1 {\n            checked_sub(&self.n_unready_tasks_approximate_for_eta_purposes_only, ready.len());\n        }\n"))
mut("stat-unready-twice", "C36", (S, "            let cmd = self.g[index];\n            let priority", "            if ready_is_last(index) {\n                checked_sub(&self.n_unready_tasks_approximate_for_eta_purposes_only, 1);\n            }\n            let cmd = self.g[index];\n            let priority"), (S, "/// Decrement the value of an AtomicU32", "fn ready_is_last(index: NodeIndex) -> bool {\n    index.index() == usize::MAX\n}\n\n/// Decrement the value of an AtomicU32"))
mut("stat-unready-at-start", "C36", (S, "store(self.statuses.len().try_into().expect(\"Overflow\"), SeqCst)", "store(self.n_ready_or_inflight, SeqCst)"))
mut("stat-unready-own", "C36", (S, "ReadOnlyAtomicU32::new(&server.n_unready_tasks_approximate_for_eta_purposes_only)", "ReadOnlyAtomicU32::new(&Arc::new(AtomicU32::new(n_total_tasks)))"))
mut("stat-total-edges", "C36", (S, "        n_total_tasks,\n", "        n_total_tasks: g_edges,\n"), (S, "    let n_total_tasks = statuses", "    let g_edges = g.edge_count() as u32;\n    let n_total_tasks: u32 = statuses"))
mut("stat-runtime-failed", "C36", (S, "            if is_success {\n\t            self.recently", "            if is_success || elapsed.as_secs() > 60 {\n\t            self.recently"))
mut("stat-runtime-short", "C36", (S, "            if is_success {\n\t            self.recently", "            if is_success && elapsed.as_millis() > 0 {\n\t            self.recently"))
mut("stat-runtime-twice", "C36", (S, "self.recently_inflight_elapsed_time.push(elapsed);", "self.recently_inflight_elapsed_time.push(elapsed);\n                if cmd.runcount > 0 {\n                    self.recently_inflight_elapsed_time.push(elapsed);\n                }"))
mut("stat-launch-tombstone", "C36", (S, "            if !task.taken.fetch_or(true, SeqCst) {\n", "            self.ratecounter_launch.update(std::time::Instant::now());\n            if !task.taken.fetch_or(true, SeqCst) {\n"), (S, "                self.ratecounter_launch.update(std::time::Instant::now());\n                return Ok", "                return Ok"))
mut("stat-launch-some", "C36", (S, "                self.ratecounter_launch.update(std::time::Instant::now());\n                return", "                if x.num_inflight > 1 {\n                    self.ratecounter_launch.update(std::time::Instant::now());\n                }\n                return"))
mut("stat-rate-order", "C36", (RC, "        let dur = (now - inner.t_last).as_secs_f64();\n", "        inner.t_last = now;\n        let dur = (now - inner.t_last).as_secs_f64();\n"))
mut("stat-rate-nodecay", "C36", (RC, "let numerator = (-self.k * (now - inner.t_last).as_secs_f64()).exp() * inner.lambda_last;", "let numerator = inner.lambda_last;"))
mut("stat-rate-millis", "C36", (RC, "let dur = (now - inner.t_last).as_secs_f64();", "let dur = (now - inner.t_last).as_secs() as f64;"))
mut("stat-rate-tau", "C36", (RC, "k: 1.0 / tau,", "k: tau,"))
mut("stat-rate-tlast", "C36", (RC, "        inner.t_last = now;\n", "        if dur > 0.001 {\n            inner.t_last = now;\n        }\n"))
mut("stat-rate-denominator", "C36", (RC, "(-self.k * (now - self.t0).as_secs_f64()).exp();", "(-self.k * (now - inner.t_last).as_secs_f64()).exp();"))
same("stat-handler-loop", (V, "    let resp = snapshot\n        .into_iter()\n        .map(|(name, queue)| {\n            (\n                name,\n                StatusQueueReply {\n                    num_ready: queue.num_ready,\n                    num_inflight: queue.num_inflight,\n                },\n            )\n        })\n        .collect::<HashMap<u64, StatusQueueReply>>();\n",
     "    let mut resp = HashMap::new();\n    for (name, queue) in snapshot {\n        let reply = StatusQueueReply {\n            num_ready: queue.num_ready,\n            num_inflight: queue.num_inflight,\n        };\n        resp.insert(name, reply);\n    }\n"))
same("stat-handler-map-or", (V, "    let request = match payload {\n        None => StatusRequest {\n            timeout_ms: 0,\n            timemin_ms: 0,\n            etag: 0,\n        },\n        Some(Json(r)) => r,\n    };\n\n    let (etag, snapshot) = state\n        .tracker\n        .get_queuestate(\n            request.etag,\n            Duration::from_millis(request.timemin_ms),\n            Duration::from_millis(request.timeout_ms),\n        )\n        .await;\n",
     "    let (etag, timemin, timeout) = payload.map_or((0, 0, 0), |Json(r)| (r.etag, r.timemin_ms, r.timeout_ms));\n    let tracker = &state.tracker;\n    let (etag, snapshot) = tracker.get_queuestate(etag, Duration::from_millis(timemin), Duration::from_millis(timeout)).await;\n"))
same("stat-reply-locals", (V, "    Ok(Json(StatusReply {\n        queues: resp,\n        etag,\n", "    let provisioner_info = state.provisioner.read().unwrap().info.clone();\n    let average = state.tracker.get_average_recent_task_runtime();\n    Ok(Json(StatusReply {\n        queues: resp,\n        etag,\n"),
     (V, "state.tracker.get_average_recent_task_runtime().as_secs_f32()", "average.as_secs_f32()"), (V, "provisioner_info: state.provisioner.read().unwrap().info.clone(),", "provisioner_info,"))
same("stat-unready-fetch-sub", (S, "    let old_value = x.load(SeqCst);\n    let other_32 = u32::try_from(other).expect(\"arithmetic overflow\");\n    let new_value = old_value.checked_sub(other_32).expect(\"arithmetic overflow\");\n    x.compare_exchange(old_value, new_value, SeqCst, SeqCst).expect(\"Some kind of race\");\n", "    let other_32 = u32::try_from(other).expect(\"arithmetic overflow\");\n    let old_value = x.fetch_sub(other_32, SeqCst);\n    assert!(old_value >= other_32, \"arithmetic overflow\");\n"))
same("stat-unready-each", (S, "        checked_sub(&self.n_unready_tasks_approximate_for_eta_purposes_only, ready.len());\n", ""), (S, "        for index in ready.into_iter() {\n", "        for index in ready.into_iter() {\n            checked_sub(&self.n_unready_tasks_approximate_for_eta_purposes_only, 1);\n"))
same("stat-runtime-match", (S, "        let elapsed = self.inflight.get(&e.id).map(|&started| now - started);\n\n        // Keep track of the runtime of the 100 most recent successful tasks\n        if let Some(elapsed) = elapsed {\n            if is_success {\n\t            self.recently_inflight_elapsed_time.push(elapsed);\n            }\n        }\n",
     "        let elapsed = match self.inflight.get(&e.id) {\n            Some(started) => Some(now.duration_since(*started)),\n            None => None,\n        };\n        match (is_success, elapsed) {\n            (true, Some(d)) => self.recently_inflight_elapsed_time.push(d),\n            _ => {}\n        }\n"))
same("stat-rate-helper", (RC, "        let dur = (now - inner.t_last).as_secs_f64();\n        inner.lambda_last = self.k + (-self.k * dur).exp() * inner.lambda_last;\n", "        inner.lambda_last = self.k + self.decay(inner.t_last, now) * inner.lambda_last;\n"),
     (RC, "        let numerator = (-self.k * (now - inner.t_last).as_secs_f64()).exp() * inner.lambda_last;\n        let denomenator = 1.0 - (-self.k * (now - self.t0).as_secs_f64()).exp();\n\n        if denomenator > 0.0 {\n            numerator / denomenator\n        } else {\n            0.\n        }\n    }\n",
      "        let weight = 1.0 - self.decay(self.t0, now);\n        if weight <= 0.0 {\n            return 0.0;\n        }\n        self.decay(inner.t_last, now) * inner.lambda_last / weight\n    }\n\n    fn decay(&self, from: std::time::Instant, to: std::time::Instant) -> f64 {\n        (-((to - from).as_secs_f64() * self.k)).exp()\n    }\n"))
same("stat-recv-late", (S, "                self.ratecounter_launch.update(std::time::Instant::now());\n                return Ok(task.id);", "                drop(x);\n                let now = std::time::Instant::now();\n                self.ratecounter_launch.update(now);\n                return Ok(task.id);"))

# ---------------------------------------------------------------- C38 what is shown
LG = "src/logging.rs"
WR = "        // either of the two may take only a part of buf, so that no count below buf.len() is right for both\n        let mut guard = self.0.lock().unwrap();\n        guard.1.write_all(buf)?;\n        if let Some(f) = guard.0.as_mut() {\n            f.write_all(buf)?;\n        }\n        Ok(buf.len())\n"
mut("show-unfixed", "C38", (LG, WR, "        let mut guard = self.0.lock().unwrap();\n        guard.1.write(buf)?;\n        match guard.0.as_mut() {\n            Some(f) => f.write(buf),\n            None => Ok(0),\n        }\n"))
mut("show-console-partial", "C38", (LG, "        guard.1.write_all(buf)?;\n", "        let _n = guard.1.write(buf)?;\n"))
mut("show-file-partial", "C38", (LG, "            f.write_all(buf)?;\n        }\n        Ok(buf.len())", "            return f.write(buf);\n        }\n        Ok(buf.len())"))
mut("show-file-long", "C38", (LG, "            f.write_all(buf)?;\n", "            if buf.len() < 1 << 20 {\n                f.write_all(buf)?;\n            }\n"))
mut("show-truncated", "C38", (LG, "            guard.0.replace(std::io::BufWriter::new(\n                std::fs::OpenOptions::new()\n                    .append(true)\n", "            guard.0.replace(std::io::BufWriter::new(\n                std::fs::OpenOptions::new()\n                    .write(true)\n                    .truncate(true)\n"))
mut("show-flush-file", "C38", (LG, "            Some(f) => f.flush(),\n", "            Some(f) if f.buffer().len() > 64 => f.flush(),\n            Some(_) => Ok(()),\n"))
mut("show-flush-console", "C38", (LG, "        guard.1.flush()?;\n        match guard.0.as_mut() {\n            Some(f) => f.flush(),\n            None => Ok(()),\n", "        match guard.0.as_mut() {\n            Some(f) => f.flush(),\n            None => guard.1.flush(),\n"))
mut("show-stderr-on-failure", "C38", (S, "            if !e.stderr.is_empty() {\n                rawlog!", "            if !e.stderr.is_empty() && !is_success {\n                rawlog!"))
mut("show-stdout-for-stderr", "C38", (S, "                rawlog!(\"{}\", e.stderr)?;", "                rawlog!(\"{}\", e.stdout)?;"))
mut("show-stdout-trimmed", "C38", (S, "                rawlog!(\"{}\", e.stdout)?;", "                rawlog!(\"{}\\n\", e.stdout.trim_end())?;"))
mut("show-stdout-short", "C38", (S, "            if !e.stdout.is_empty() {", "            if e.stdout.len() > 1 {"))
mut("show-either", "C38", (S, "            if !e.stderr.is_empty() {\n                rawlog!", "            else if !e.stderr.is_empty() {\n                rawlog!"))
mut("show-fizzled-unsaid", "C38", (S, "            if self.shutdown_state != ShutdownState::SoftShutdown {\n                rawlog!(\n", "            if self.shutdown_state != ShutdownState::SoftShutdown && !fizzled {\n                rawlog!(\n"))
mut("show-cancelled-quiet", "C38", (S, "            if self.shutdown_state != ShutdownState::SoftShutdown {\n                rawlog!(\n", "            if self.shutdown_state != ShutdownState::SoftShutdown && !matches!(e.status, ExitStatus::Cancelled) {\n                rawlog!(\n"))
mut("show-success-quiet", "C38", (S, "            self.n_success += 1;\n            rawlog!(\n                \"[{}/{}] {}\\n\",\n                self.n_success + self.n_failed + self.count_offset,\n                total + self.count_offset,\n                cmd.display()\n            )?;\n",
    "            self.n_success += 1;\n            if self.shutdown_state != ShutdownState::SoftShutdown {\n                rawlog!(\n                    \"[{}/{}] {}\\n\",\n                    self.n_success + self.n_failed + self.count_offset,\n                    total + self.count_offset,\n                    cmd.display()\n                )?;\n            }\n"))
mut("show-other-key", "C38", (S, "                    FAIL_COMMAND_PREFIX,\n                    cmd.key,\n                    cmd.runcount,", "                    FAIL_COMMAND_PREFIX,\n                    self.g[self.finished_order[0]].key,\n                    cmd.runcount,"))
same("show-guards", (S, "        if self.shutdown_state != ShutdownState::SoftShutdown {\n            if !e.stdout.is_empty() {\n                rawlog!(\"{}\", e.stdout)?;\n            }\n            if !e.stderr.is_empty() {\n                rawlog!(\"{}\", e.stderr)?;\n            }\n        }\n\n        Ok(())\n",
     "        if self.shutdown_state == ShutdownState::SoftShutdown {\n            return Ok(());\n        }\n        let (out, err) = (e.stdout.as_str(), e.stderr.as_str());\n        if out.len() > 0 {\n            rawlog!(\"{}\", out)?;\n        }\n        if err.len() >= 1 {\n            rawlog!(\"{}\", err)?;\n        }\n        Ok(())\n"))
same("show-helper", (S, "            if !e.stdout.is_empty() {\n                rawlog!(\"{}\", e.stdout)?;\n            }\n            if !e.stderr.is_empty() {\n                rawlog!(\"{}\", e.stderr)?;\n            }\n", "            show(&e.stdout)?;\n            show(&e.stderr)?;\n"),
     (S, "/// Decrement the value of an AtomicU32", "fn show(text: &str) -> Result<()> {\n    if !text.is_empty() {\n        rawlog!(\"{}\", text)?;\n    }\n    Ok(())\n}\n\n/// Decrement the value of an AtomicU32"))
same("show-both", (S, "            if !e.stdout.is_empty() {\n                rawlog!(\"{}\", e.stdout)?;\n            }\n            if !e.stderr.is_empty() {\n                rawlog!(\"{}\", e.stderr)?;\n            }\n", "            rawlog!(\"{}{}\", e.stdout, e.stderr)?;\n"))
same("show-sink-destructured", (LG, WR, "        let mut guard = self.0.lock().unwrap();\n        let (file, console) = &mut *guard;\n        if let Some(f) = file {\n            f.write_all(buf)?;\n        }\n        console.write_all(buf)?;\n        Ok(buf.len())\n"))
same("show-open-helper", (LG, "            guard.0.replace(std::io::BufWriter::new(\n                std::fs::OpenOptions::new()\n                    .append(true)\n                    .create(true)\n                    .open(path)\n                    .unwrap(),\n            ));\n", "            let f = open_log(path);\n            guard.0.replace(f);\n"),
     (LG, "impl<'a> tracing_subscriber::fmt::writer::MakeWriter", "fn open_log(path: &std::path::Path) -> std::io::BufWriter<std::fs::File> {\n    let mut options = std::fs::OpenOptions::new();\n    options.create(true).append(true);\n    std::io::BufWriter::new(options.open(path).unwrap())\n}\n\nimpl<'a> tracing_subscriber::fmt::writer::MakeWriter"))

# C14: what is logged reaches the file
mut("log-tick-noconsole", "C14", ("                    logging::flush_logging()?;\n", ""))
mut("log-tick-nolog", "C14", ("                    self.logfile.flush()?;\n                    logging", "                    logging"))
mut("log-tick-ignored", "C14", ("                    self.logfile.flush()?;\n                    logging", "                    let _ = self.logfile.flush();\n                    logging"))
mut("log-tick-ok", "C14", ("                    self.logfile.flush()?;\n                    logging", "                    self.logfile.flush().ok();\n                    logging"))
mut("log-tick-slow", "C14", ("std::time::Duration::from_millis(100));", "std::time::Duration::from_secs(100));"))
mut("log-tick-idle", "C14", ("                    self.logfile.flush()?;\n                    logging", "                    if self.inflight.is_empty() {\n                        self.logfile.flush()?;\n                    }\n                    logging"))
mut("log-tick-sleep", "C14", ("_ = flush_ticker.tick() => {", "_ = tokio::time::sleep(std::time::Duration::from_millis(100)) => {"), ("        let mut flush_ticker = tokio::time::interval(std::time::Duration::from_millis(100));\n", ""))
mut("log-started-ignored", "C14", ("                                e.slurm_jobid,\n                            ))?;", "                                e.slurm_jobid,\n                            )).unwrap_or_else(|err| debug!(\"{}\", err));"))
mut("log-drain-ignored", "C14", ("            self._finished_bookkeeping_1(&e)?;\n            self.logfile.write(LogEntry::new_finished(\n                &cmd.key,\n                e.status.as_i32(),\n                e.values,\n            ))?;", "            self._finished_bookkeeping_1(&e)?;\n            let _ = self.logfile.write(LogEntry::new_finished(\n                &cmd.key,\n                e.status.as_i32(),\n                e.values,\n            ));"))
mut("log-backref-ignored", "C14", ("src/execgraph.rs", "        logfile.write(LogEntry::new_backref(&key))?;\n        completed.insert(key);", "        if logfile.write(LogEntry::new_backref(&key)).is_ok() {\n            completed.insert(key);\n        }"))
mut("log-exec-noflush", "C14", ("src/execgraph.rs", "        self.logfile.flush()?;\n        Ok((n_failed, completed))", "        Ok((n_failed, completed))"))
mut("log-exec-flush-failed", "C14", ("src/execgraph.rs", "        self.logfile.flush()?;\n        Ok((n_failed, completed))", "        if n_failed == 0 {\n            self.logfile.flush()?;\n        }\n        Ok((n_failed, completed))"))
mut("log-exec-empty-noflush", "C14", ("src/execgraph.rs", "            self.logfile.flush()?;\n            return Ok((0, vec![]));", "            return Ok((0, vec![]));"))
mut("log-header-ignored", "C14", ("src/pylib.rs", "                .collect(),\n        )?)?;", "                .collect(),\n        )?).unwrap_or_default();"))
mut("log-pywrite-ignored", "C14", ("src/pylib.rs", "        log.write(item)?;", "        let _ = log.write(item);"))
same("log-tick-join", ("                    self.logfile.flush()?;\n                    logging::flush_logging()?;\n", "                    let a = self.logfile.flush();\n                    let b = logging::flush_logging();\n                    a?;\n                    b?;\n"))
same("log-tick-order", ("                    self.logfile.flush()?;\n                    logging::flush_logging()?;\n", "                    logging::flush_logging()?;\n                    if let Err(err) = self.logfile.flush() {\n                        return Err(err.into());\n                    }\n"))
same("log-tick-helper", ("                    self.logfile.flush()?;\n                    logging::flush_logging()?;\n", "                    self.flush_all()?;\n"), ("    /// Stop giving out tasks\n", "    fn flush_all(&mut self) -> Result<()> {\n        self.logfile.flush().context(\"flushing the log\")?;\n        logging::flush_logging()\n    }\n\n    /// Stop giving out tasks\n"))
same("log-tick-faster", ("std::time::Duration::from_millis(100));", "FLUSH_EVERY);"), ("impl<'a> ReadyTrackerServer<'a> {\n    #[tracing", "const FLUSH_EVERY: std::time::Duration = std::time::Duration::from_millis(80);\n\nimpl<'a> ReadyTrackerServer<'a> {\n    #[tracing"))
same("log-started-match", ("                            self.logfile.write(LogEntry::new_started(\n                                &cmd.key,\n                                &e.host,\n                                e.pid,\n                                e.slurm_jobid,\n                            ))?;", "                            let entry = LogEntry::new_started(&cmd.key, &e.host, e.pid, e.slurm_jobid);\n                            match self.logfile.write(entry) {\n                                Ok(()) => {}\n                                Err(err) => return Err(err.into()),\n                            }"))
same("log-helper", ("            self._finished_bookkeeping_1(&e)?;\n            self.logfile.write(LogEntry::new_finished(\n                &cmd.key,\n                e.status.as_i32(),\n                e.values,\n            ))?;", "            self._finished_bookkeeping_1(&e)?;\n            self.log_end(&cmd.key, e)?;"), ("    /// Stop giving out tasks\n", "    fn log_end(&mut self, key: &str, e: FinishedEvent) -> std::result::Result<(), logfile2::LogfileError> {\n        let entry = LogEntry::new_finished(key, e.status.as_i32(), e.values);\n        self.logfile.write(entry)\n    }\n\n    /// Stop giving out tasks\n"))
same("log-exec-flush-map", ("src/execgraph.rs", "        self.logfile.flush()?;\n        Ok((n_failed, completed))", "        self.logfile.flush().map(|_| (n_failed, completed)).map_err(|e| e.into())"))
same("log-exec-helper", ("src/execgraph.rs", "        self.logfile.flush()?;\n        Ok((n_failed, completed))", "        self.sync_log()?;\n        Ok((n_failed, completed))"), ("src/execgraph.rs", "            self.logfile.flush()?;\n            return Ok((0, vec![]));", "            self.sync_log()?;\n            return Ok((0, vec![]));"), ("src/execgraph.rs", "    #[tracing::instrument(skip(self))]\n    pub async fn execute(", "    fn sync_log(&mut self) -> Result<()> {\n        Ok(self.logfile.flush()?)\n    }\n\n    #[tracing::instrument(skip(self))]\n    pub async fn execute("))
same("log-backref-try", ("src/execgraph.rs", "    for key in reused_old_keys {\n        trace!(\"Writing backref for key={}\", key);\n        logfile.write(LogEntry::new_backref(&key))?;\n        completed.insert(key);\n    }", "    reused_old_keys.into_iter().try_for_each(|key| -> Result<()> {\n        logfile.write(LogEntry::new_backref(&key))?;\n        completed.insert(key);\n        Ok(())\n    })?;"))
same("log-pywrite-try", ("src/pylib.rs", "    for item in v {\n        log.write(item)?;\n    }\n    log.flush()?;\n    Ok(())", "    v.into_iter().try_for_each(|item| log.write(item))?;\n    Ok(log.flush()?)"))

# C21: the snapshot reader
L = "src/logfile2.rs"
SN_READ = '''        loop {
            line.clear();
            let nbytes = reader.read_line(&mut line)?;
            if nbytes == 0 {
                break;
            }
            let len = line.trim_end_matches(&['\\r', '\\n'][..]).len();
            line.truncate(len);
            match serde_json::from_str(&line) {
                Ok(value) => v.push(value),
                Err(e) if e.is_data() => {}
                Err(e) => {
                    tracing::error!("{}", e);
                }
            };
        }
        Ok(v)
    }
}

#[derive(Debug, Error)]'''
SN_W1 = '''        for item in rev_iter.by_ref() {
            match &item {
                LogEntry::Header(_) => {
                    header = Some(item);
                    break;
                }
                LogEntry::Backref(b) => {
                    pending_backrefs.insert(b.key.clone());
                }
                _ => {
                    result_current.push(item);
                }
            };
        }
'''
SN_W2 = '''            match &item {
                LogEntry::Ready(v) => {
                    if pending_backrefs.contains(&v.key) {
                        assert!(pending_backrefs.remove(&v.key));
                        result_current.push(item);
                    } else {
                        result_outdated.push(item);
                    }
                }
                LogEntry::Started(v) => {
                    if pending_backrefs.contains(&v.key) {
                        result_current.push(item);
                    } else {
                        result_outdated.push(item);
                    }
                }
                LogEntry::Finished(v) => {
                    if pending_backrefs.contains(&v.key) {
                        result_current.push(item);
                    } else {
                        result_outdated.push(item);
                    }
                }
                _ => {
                    result_outdated.push(item);
                }
            }
'''
SN_BREAK = '''            if pending_backrefs.is_empty() {
                break;
            }
        }

        // put'''
SN_REV = '''        let current: Vec<LogEntry> = result_current.into_iter().rev().collect();
        let outdated: Vec<LogEntry> = result_outdated.into_iter().rev().collect();
'''
SN_KEYS = '''        let current_keys = current
            .iter()
            .filter_map(|x| match x {
                LogEntry::Header(_v) => None,
                LogEntry::Ready(v) => Some(&v.key),
                LogEntry::Started(v) => Some(&v.key),
                LogEntry::Finished(v) => Some(&v.key),
                LogEntry::Backref(v) => Some(&v.key),
            })
            .collect::<HashSet<&String>>();
'''
SN_FILT = '''        let outdated_filtered = outdated
            .into_iter()
            .filter(|x| match x {
                LogEntry::Header(_v) => true,
                LogEntry::Ready(v) => !current_keys.contains(&v.key),
                LogEntry::Started(v) => !current_keys.contains(&v.key),
                LogEntry::Finished(v) => !current_keys.contains(&v.key),
                LogEntry::Backref(v) => !current_keys.contains(&v.key),
            })
            .collect::<Vec<LogEntry>>();

        Ok((current, outdated_filtered))'''
SN_HDR = '''        if let Some(header) = header {
            result_current.push(header);
        }
'''
mut("snap-header-outdated", "C21", (L, SN_HDR, SN_HDR.replace("current", "outdated")), (L, "result_outdated: Vec<LogEntry> = vec![];\n", "result_outdated: Vec<LogEntry> = vec![];\n"))
mut("snap-header-lost", "C21", (L, SN_HDR, ""), (L, "nbackrefs == count", "nbackrefs <= count"))
mut("snap-contains-only", "C21", (L, "                        assert!(pending_backrefs.remove(&v.key));\n", ""))
mut("snap-started-ends", "C21", (L, SN_W2, SN_W2.replace("                        assert!(pending_backrefs.remove(&v.key));\n", "").replace("Started(v) => {\n                    if pending_backrefs.contains", "Started(v) => {\n                    if pending_backrefs.remove")))
mut("snap-finished-ends", "C21", (L, SN_W2, SN_W2.replace("                        assert!(pending_backrefs.remove(&v.key));\n", "").replace("Finished(v) => {\n                    if pending_backrefs.contains", "Finished(v) => {\n                    if pending_backrefs.remove")))
mut("snap-finished-current", "C21", (L, SN_W2, SN_W2.replace("LogEntry::Finished(v) => {\n                    if pending_backrefs.contains(&v.key) {", "LogEntry::Finished(_) => {\n                    if true {")))
mut("snap-started-outdated", "C21", (L, SN_W2, SN_W2.replace("Started(v) => {\n                    if pending_backrefs.contains(&v.key)", "Started(v) => {\n                    if pending_backrefs.contains(&v.key) && v.slurm_jobid.is_empty()")))
mut("snap-older-backref", "C21", (L, SN_W2, SN_W2.replace("                _ => {\n", "                LogEntry::Backref(b) => {\n                    pending_backrefs.insert(b.key.clone());\n                    result_outdated.push(item);\n                }\n                _ => {\n")))
mut("snap-break-one", "C21", (L, SN_BREAK, SN_BREAK.replace("is_empty()", "len() <= 1")))
mut("snap-current-reversed", "C21", (L, "result_current.into_iter().rev()", "result_current.into_iter()"))
mut("snap-outdated-reversed", "C21", (L, "result_outdated.into_iter().rev()", "result_outdated.into_iter()"))
mut("snap-keys-finished", "C21", (L, SN_KEYS, SN_KEYS.replace("Ready(v) => Some(&v.key)", "Ready(_v) => None")))
mut("snap-filter-finished", "C21", (L, SN_FILT, SN_FILT.replace("Finished(v) => !current_keys.contains(&v.key)", "Finished(_v) => true")))
mut("snap-filter-backref", "C21", (L, SN_FILT, SN_FILT.replace("Backref(v) => !current_keys.contains(&v.key)", "Backref(_v) => true")))
mut("snap-filter-header", "C21", (L, SN_FILT, SN_FILT.replace("Header(_v) => true", "Header(_v) => false")))
mut("snap-filter-negated", "C21", (L, SN_FILT, SN_FILT.replace("Ready(v) => !current_keys", "Ready(v) => current_keys")))
mut("snap-nofilter", "C21", (L, SN_FILT, SN_FILT.replace("|x| match x", "|x| current_keys.len() == 0 || match x")))
mut("snap-header-in-loop", "C21", (L, SN_W1, SN_W1.replace("header = Some(item);", "result_current.push(item);")), (L, SN_HDR, ""))
mut("snap-tail-lost", "C21", (L, "result_outdated.extend(rev_iter);", "result_outdated.extend(rev_iter.filter(|x| !x.is_header()));"), (L, "nbackrefs == count", "nbackrefs <= count"))
mut("snap-walk-skip", "C21", (L, "all_entries.into_iter().rev();", "all_entries.into_iter().skip(1).rev();"), (L, "nbackrefs == count", "nbackrefs <= count"))
mut("snap-walk-forward", "C21", (L, "all_entries.into_iter().rev();", "all_entries.into_iter();"))
mut("snap-swap", "C21", (L, "Ok((current, outdated_filtered))", "Ok((outdated_filtered, current))"))
mut("snap-backref-listed", "C21", (L, SN_W1, SN_W1.replace("pending_backrefs.insert(b.key.clone());", "pending_backrefs.insert(b.key.clone());\n                    result_current.push(item);")), (L, "current.len() + outdated.len() + nbackrefs == count", "current.len() + outdated.len() == count"))
mut("snap-read-stop", "C21", (L, SN_READ, SN_READ.replace('tracing::error!("{}", e);', 'tracing::error!("{}", e);\n                    break;')))
mut("snap-read-short", "C21", (L, SN_READ, SN_READ.replace("nbytes == 0", "nbytes <= 1")))
mut("snap-read-noseek", "C21", (L, "        self.f.seek(std::io::SeekFrom::Start(0))?;\n        let mut reader = std::io::BufReader::new(&self.f);\n        let mut v", "        let mut reader = std::io::BufReader::new(&self.f);\n        let mut v"))
mut("snap-read-noclear", "C21", (L, SN_READ, SN_READ.replace("            line.clear();\n", "")))
mut("snap-read-dedup", "C21", (L, SN_READ, SN_READ.replace("match serde_json::from_str(&line) {\n                Ok(value) => v.push(value),", "match serde_json::from_str::<LogEntry>(&line) {\n                Ok(value) if value.is_header() && v.len() == 1 => {}\n                Ok(value) => v.push(value),")))
same("snap-while", (L, SN_W1, SN_W1.replace("for item in rev_iter.by_ref()", "while let Some(item) = rev_iter.next()")))
same("snap-nobreak", (L, SN_BREAK, "        }\n\n        // put"))
same("snap-merged", (L, SN_W2, '''            let key = match &item {
                LogEntry::Ready(v) => Some(&v.key),
                LogEntry::Started(v) => Some(&v.key),
                LogEntry::Finished(v) => Some(&v.key),
                _ => None,
            };
            let wanted = key.map_or(false, |k| pending_backrefs.contains(k));
            if wanted {
                if let LogEntry::Ready(r) = &item {
                    pending_backrefs.remove(&r.key);
                }
                result_current.push(item);
            } else {
                result_outdated.push(item);
            }
'''))
same("snap-remove", (L, SN_W2, SN_W2.replace("if pending_backrefs.contains(&v.key) {\n                        assert!(pending_backrefs.remove(&v.key));", "if pending_backrefs.remove(&v.key) {")))
same("snap-helper", (L, SN_W2, "            if wanted(&item, &mut pending_backrefs) {\n                result_current.push(item);\n            } else {\n                result_outdated.push(item);\n            }\n"), (L, "impl LogFileSnapshotReader {\n", '''fn wanted(item: &LogEntry, pending: &mut HashSet<String>) -> bool {
    match item {
        LogEntry::Ready(r) => pending.remove(&r.key),
        LogEntry::Started(s) => pending.contains(&s.key),
        LogEntry::Finished(f) => pending.contains(&f.key),
        LogEntry::Header(_) | LogEntry::Backref(_) => false,
    }
}

impl LogFileSnapshotReader {
'''))
same("snap-reverse-in-place", (L, SN_REV, '''        let mut current: Vec<LogEntry> = result_current;
        current.reverse();
        let mut outdated: Vec<LogEntry> = result_outdated;
        outdated.reverse();
'''))
same("snap-keys-loop", (L, SN_KEYS, '''        let mut current_keys: HashSet<&String> = HashSet::new();
        for x in current.iter() {
            match x {
                LogEntry::Header(_) => {}
                LogEntry::Ready(v) => {
                    current_keys.insert(&v.key);
                }
                LogEntry::Started(v) => {
                    current_keys.insert(&v.key);
                }
                LogEntry::Finished(v) => {
                    current_keys.insert(&v.key);
                }
                LogEntry::Backref(v) => {
                    current_keys.insert(&v.key);
                }
            }
        }
'''))
same("snap-key-helper", (L, SN_KEYS, "        let current_keys: HashSet<&String> = current.iter().filter_map(key_of).collect();\n"), (L, SN_FILT, '''        let outdated_filtered = outdated
            .into_iter()
            .filter(|x| key_of(x).map_or(true, |k| !current_keys.contains(k)))
            .collect::<Vec<LogEntry>>();

        Ok((current, outdated_filtered))'''), (L, "impl LogFileSnapshotReader {\n", '''fn key_of(x: &LogEntry) -> Option<&String> {
    match x {
        LogEntry::Header(_) => None,
        LogEntry::Ready(v) => Some(&v.key),
        LogEntry::Started(v) => Some(&v.key),
        LogEntry::Finished(v) => Some(&v.key),
        LogEntry::Backref(v) => Some(&v.key),
    }
}

impl LogFileSnapshotReader {
'''))
same("snap-filter-loop", (L, SN_FILT, '''        let mut kept = vec![];
        for x in outdated {
            let keep = match &x {
                LogEntry::Header(_v) => true,
                LogEntry::Ready(v) => !current_keys.contains(&v.key),
                LogEntry::Started(v) => !current_keys.contains(&v.key),
                LogEntry::Finished(v) => !current_keys.contains(&v.key),
                LogEntry::Backref(v) => !current_keys.contains(&v.key),
            };
            if keep {
                kept.push(x);
            }
        }
        Ok((current, kept))'''))
same("snap-tail-loop", (L, "result_outdated.extend(rev_iter);", "for item in rev_iter {\n            result_outdated.push(item);\n        }"))
same("snap-header-first", (L, SN_HDR, ""), (L, "        let nbackrefs = pending_backrefs.len();\n", "        let nbackrefs = pending_backrefs.len();\n        let nheader = header.is_some() as usize;\n"), (L, SN_REV, '''        let mut current: Vec<LogEntry> = header.into_iter().collect();
        current.extend(result_current.into_iter().rev());
        let outdated: Vec<LogEntry> = result_outdated.into_iter().rev().collect();
        let _ = nheader;
'''))
same("snap-read-lines", (L, "        let mut reader = std::io::BufReader::new(&self.f);\n        let mut v = Vec::new();\n        let mut line", "        let reader = std::io::BufReader::new(&self.f);\n        let mut v = Vec::new();\n        let mut line"), (L, SN_READ, '''        for line in reader.lines() {
            let line = line?;
            match serde_json::from_str(&line) {
                Ok(value) => v.push(value),
                Err(e) if e.is_data() => {}
                Err(e) => {
                    tracing::error!("{}", e);
                }
            };
        }
        let _ = &mut line;
        Ok(v)
    }
}

#[derive(Debug, Error)]'''))
same("snap-read-while", (L, SN_READ, SN_READ.replace('''        loop {
            line.clear();
            let nbytes = reader.read_line(&mut line)?;
            if nbytes == 0 {
                break;
            }
''', '''        while reader.read_line(&mut line)? > 0 {
''').replace('''            };
        }
        Ok(v)''', '''            };
            line.clear();
        }
        Ok(v)''')))
same("snap-read-rewind", (L, "        self.f.seek(std::io::SeekFrom::Start(0))?;\n        let mut reader = std::io::BufReader::new(&self.f);\n        let mut v", "        self.f.rewind()?;\n        let mut reader = std::io::BufReader::new(&self.f);\n        let mut v"))
