"""Planted bugs for the language level: (edits, scenario, what it needs, what it breaks)."""
from dsl import *
P, J, R, B, SM, VM = "src/process.rs", "src/project.rs", "src/runtime.rs", "src/bytecode.rs", "src/slotmap.rs", "src/vecmap.rs"
SEEDS = {}
def seed(id, prop, edits, case, needs, breaks): SEEDS[id] = dict(property=prop, edits=edits, case=case, needs=needs, what_it_breaks=breaks)

stage = lambda *scripts, **kw: ent("stage", *scripts, **kw)

seed("s01-lifo-backlog", "S01", [(J, "None => match self.context_queue.pop_front() {", "None => match self.context_queue.pop_back() {")],
     case([stage(script(net("m", "x"), rep(3, log(V("x")))))], [act(0, netin("m", x=1)), act(0, netin("m", x=2)), act(0, netin("m", x=3))]),
     "two or more messages of one type waiting while their handler is still busy", "the backlog of a busy handler is worked off newest first instead of in arrival order")
seed("s01-backlog-cap", "S01", [(J, "PartialProcContext { locals, state, barrier: None, reply_key: reply_key.clone(), local_message: None }, usize::MAX);", "PartialProcContext { locals, state, barrier: None, reply_key: reply_key.clone(), local_message: None }, 16);")],
     case([stage(script(net("m", "x"), sleep(N(0.2)), log(V("x"))))], [act(0, netin("m", x=i)) for i in range(24)], segs=900),
     "more than 16 messages of one type arriving while their handler sleeps", "messages beyond a fixed backlog are silently dropped")

seed("s02-case-insensitive", "S02", [(J, "if recv_type.as_deref().map(|x| x == msg_type).unwrap_or(true) {", "if recv_type.as_deref().map(|x| x.eq_ignore_ascii_case(&msg_type)).unwrap_or(true) {")],
     case([stage(script(FLAG, bcast(S("go"))), script(local("go"), log(S("go"))), script(local("Go"), log(S("Go"))))], [act(0, START)]),
     "two messages whose names differ only in letter case", "a broadcast also restarts scripts of a differently spelled message")
seed("s02-first-of-list", "S02", [(P, "Value::List(x) => x.borrow().iter().map(Value::as_entity).collect::<Result<_,_>>()?,", "Value::List(x) => { let x = x.borrow(); x.iter().enumerate().filter(|(i, _)| !wait || *i + 1 == x.len() || *i == 0).map(|x| x.1.as_entity()).collect::<Result<_,_>>()? }")],
     case([stage(script(FLAG, bcast(S("go"), ls(E("a"), E("b"), E("c")), wait=True), log(S("done"))))] + [ent(n, script(local("go"), log(S(n)))) for n in "abc"], [act(0, START)]),
     "broadcast-and-wait to a list of three or more receivers", "the receivers in the middle of the list are skipped")

seed("s03-barrier-kept-on-error", "S03", [(P, """            self.pos = usize::MAX;
            self.barrier = None;
            self.reply_key = None;""", """            self.pos = usize::MAX;
            if res.is_ok() { self.barrier = None; }
            self.reply_key = None;""")],
     case([stage(script(FLAG, bcast(S("go"), wait=True), log(S("after")))), ent("a", script(local("go"), throw(S("bad"))))], [act(0, START)], keep=True),
     "a receiver that fails while the host keeps the failed process for diagnosis", "a broadcast-and-wait hangs because a failed receiver still holds its barrier")
seed("s03-fork-blocks-waiter", "S03", [(J, "let state = C::ProcessState::from(ProcessKind { entity, dispatcher: Some(proc) });\n                    let proc = Process::new(ProcContext { global_context: self.state.global_context, entity, state, start_pos: pos, locals, barrier: None,",
      "let barrier = proc.get_barrier();\n                    let state = C::ProcessState::from(ProcessKind { entity, dispatcher: Some(proc) });\n                    let proc = Process::new(ProcContext { global_context: self.state.global_context, entity, state, start_pos: pos, locals, barrier,"),
      (P, "    /// Gets a reference to the current call stack.\n", "    pub(crate) fn get_barrier(&self) -> Option<Barrier> { self.barrier.clone() }\n    /// Gets a reference to the current call stack.\n")],
     case([stage(script(FLAG, bcast(S("go"), wait=True), log(S("after")))), ent("a", script(local("go"), fork(clo([], [], rep(5, log(S("launched"))))), log(S("received"))))], [act(0, START)]),
     "a receiver that launches a longer-running closure", "the waiting script resumes only when the launched script has ended, too")

seed("s04-handler-warp", "S04", [(P, "                self.warp_counter = *warp_counter;\n                self.call_stack.drain(*call_stack_size..);", "                let _ = warp_counter;\n                self.call_stack.drain(*call_stack_size..);")],
     case([stage(script(FLAG, try_([warp(rep(2, log(S("w"))), throw(S("bad")))], "log2", [log(S("caught"))]), rep(3, log(S("a")))), script(FLAG, rep(5, log(S("b")))))], [act(0, START)], globals={"log2": 0}),
     "an error raised inside a warp block and caught outside it", "the script stays uninterruptible after the error was caught outside the warp block")
seed("s04-return-warp", "S04", [(P, "                self.warp_counter = *warp_counter;\n                self.value_stack.drain(value_stack_size..);", "                if self.call_stack.len() == 1 { self.warp_counter = *warp_counter; }\n                self.value_stack.drain(value_stack_size..);")],
     case([stage(script(FLAG, do(call("f")), rep(3, log(S("a")))), script(FLAG, rep(5, log(S("b")))))], [act(0, START)], funcs=[func("f", [], warp(log(S("w")), ret(N(1))))]),
     "returning from a custom block from within a warp block", "the caller stays uninterruptible after the return")

seed("s05-myothers-turn", "S05", [(J, "self.state.processes.retain_mut(|k, v| k == proc_key || !Gc::ptr_eq(entity, v.get_call_stack().first().unwrap().entity));\n                        self.state.process_queue.push_front(proc_key);", "self.state.processes.retain_mut(|k, v| k == proc_key || !Gc::ptr_eq(entity, v.get_call_stack().first().unwrap().entity));\n                        self.state.process_queue.push_back(proc_key);")],
     case([stage(script(FLAG, log(S("a1")), stop("MyOthers"), log(S("a2")))), ent("b", script(FLAG, rep(3, log(S("b")))))], [act(0, START)]),
     "'stop other scripts in sprite' while scripts of other sprites are runnable", "the script that runs the block loses its turn in the middle of it")

seed("s06-last-entity", "S06", [(J, "self.state.processes.retain_mut(|k, v| k == proc_key || !Gc::ptr_eq(entity, v.get_call_stack().first().unwrap().entity));", "self.state.processes.retain_mut(|k, v| k == proc_key || !Gc::ptr_eq(entity, v.get_call_stack().last().unwrap().entity));")],
     case([stage(script(FLAG, do(callc(clo([], [], rep(6, log(S("on behalf")))), ent=E("b"))), log(S("end")))), ent("b", script(FLAG, log(S("x")), stop("MyOthers"), log(S("y"))))], [act(0, START)]),
     "a script of another sprite that is just running a closure on behalf of the stopping sprite", "'stop other scripts in sprite' also ends a script that belongs to another sprite")
seed("s06-others-drop-backlog", "S06", [(J, "                        self.state.processes.retain_mut(|k, _| k == proc_key);\n", "                        self.state.processes.retain_mut(|k, _| k == proc_key);\n                        for script in self.scripts.iter_mut() { script.context_queue.clear(); }\n")],
     case([stage(script(net("m", "x"), rep(4, log(V("x")))), script(custom("k"), stop("Others"), log(S("stopped"))))], [act(0, netin("m", x=1)), act(0, netin("m", x=2)), act(0, netin("m", x=3)), act(4, fire("k"))]),
     "'stop all but this script' while messages wait for a busy handler", "messages waiting for scripts that may run again are lost")

seed("s07-key-queued", "S07", [(J, "PartialProcContext { state, locals: Default::default(), barrier:None, reply_key: None, local_message: None }, 0);", "PartialProcContext { state, locals: Default::default(), barrier:None, reply_key: None, local_message: None }, 1);")],
     case([stage(script(key("a"), rep(3, log(S("k")))))], [act(0, press("a")), act(2, press("a")), act(3, press("a"))]),
     "a key pressed again while its script is still running", "the second press is queued instead of ignored")
seed("s07-stop-keeps-backlog", "S07", [(J, """                for script in self.scripts.iter_mut() {
                    script.stop_all(&mut self.state);
                }
                self.state.processes.clear();
                self.state.process_queue.clear();
            }
            Input::KeyDown""", """                for script in self.scripts.iter_mut() {
                    script.process = None;
                    if script.context_queue.len() > 1 { script.context_queue.pop_front(); } else { script.context_queue.clear(); }
                }
                self.state.processes.clear();
                self.state.process_queue.clear();
            }
            Input::KeyDown""")],
     case([stage(script(net("m", "x"), rep(4, log(V("x")))))], [act(0, netin("m", x=1)), act(0, netin("m", x=2)), act(0, netin("m", x=3)), act(0, netin("m", x=4)), act(6, STOP)]),
     "the stop button while at least two messages wait for a busy handler", "some of the messages waiting at the stop are handled after it")

seed("s08-drop-oldest", "S08", [(J, "        if self.context_queue.len() > max_queue {\n            self.context_queue.pop_back();", "        if self.context_queue.len() > max_queue {\n            self.context_queue.pop_front();")],
     case([stage(script(custom("e", "x"), rep(3, log(V("x")))))], [act(0, fire("e", x=i, maxq=2)) for i in range(1, 5)]),
     "a custom event that exceeds the queue limit of a busy script", "the oldest waiting run is dropped instead of the new one")
seed("s08-interrupt-keeps-queue", "S08", [(J, "if interrupt { self.scripts[i].stop_all(&mut self.state); }", "if interrupt { if let Some(p) = self.scripts[i].process.take() { self.state.processes.remove(p); } }")],
     case([stage(script(custom("e", "x"), rep(3, log(V("x")))))], [act(0, fire("e", x=1)), act(0, fire("e", x=2)), act(0, fire("e", x=3)), act(2, fire("e", x=9, interrupt=True))]),
     "an interrupting custom event while earlier runs are queued", "the runs queued before the interruption are still executed")

seed("s09-stale-handler", "S09", [(P, "                self.handler_stack.drain(handler_stack_size..);\n                debug_assert_eq!(self.value_stack.len(), *value_stack_size);\n                debug_assert_eq!(self.handler_stack.len(), *handler_stack_size);", "                if self.call_stack.len() == 1 { self.handler_stack.drain(handler_stack_size..); }\n                debug_assert_eq!(self.value_stack.len(), *value_stack_size);")],
     case([stage(script(FLAG, try_([do(call("f")), throw(S("outer"))], "g", [log(S("outer handler"), V("g"))])))], [act(0, START)], globals={"g": 0}, funcs=[func("f", [], decl("e"), try_([ret(N(1))], "e", [log(S("inner handler"))]))], show=("log", "error")),
     "returning from a custom block from within a try block and failing later", "a later error is caught by the handler of a try block that was already left")
seed("s09-pending-values", "S09", [(P, "                self.value_stack.drain(*value_stack_size..);\n                debug_assert_eq!(self.call_stack.len(), *call_stack_size);\n                debug_assert_eq!(self.value_stack.len(), *value_stack_size);", "                if self.call_stack.len() == 1 && *value_stack_size == 0 { self.value_stack.clear(); }\n                debug_assert_eq!(self.call_stack.len(), *call_stack_size);")],
     case([stage(script(FLAG, rep(3, try_([log(op("Get", V("l"), S("zz")))], "g", [log(S("caught"))]), log(S("round"))), log(S("end"))))], [act(0, START)], globals={"g": 0, "l": [1, 2]}, segs=60, show=("log", "error")),
     "an error in the middle of an expression, caught inside a counted loop", "values of the failed expression stay behind and corrupt the loop counter")

seed("s10-stale-error", "S10", [(P, """                        if let Some(last_err) = last_err { *last_err = None }
                        match (last_ok, stack) {""", """                        if let (Some(last_err), Some(_)) = (last_err, &last_ok) { *last_err = None }
                        match (last_ok, stack) {""")],
     case([stage(script(FLAG, let("g", rpc("s", "f")), log(RPCERR), let("g", rpc("s", "f")), log(RPCERR)))], [act(0, START)], globals={"g": 0}, soft=True, outcomes=[out(0, "Err"), out(0, "Num")]),
     "a failed remote call in soft mode followed by a successful one", "the last error is still reported after a later success")
seed("s10-answer-shared", "S10", [(P, "            last_answer: None,\n            last_message: context.local_message", "            last_answer: context.dispatch_answer,\n            last_message: context.local_message"),
      (P, "    #[collect(require_static)] pub local_message: Option<Text>,\n}", "    #[collect(require_static)] pub local_message: Option<Text>,\n                               pub dispatch_answer: Option<Value<'gc, C, S>>,\n}"),
      (P, "    /// Gets a reference to the current call stack.\n", "    pub(crate) fn get_answer(&self) -> Option<Value<'gc, C, S>> { self.last_answer.clone() }\n    /// Gets a reference to the current call stack.\n"),
      (J, "locals: context.locals, barrier: context.barrier, reply_key: context.reply_key, local_message: context.local_message });", "locals: context.locals, barrier: context.barrier, reply_key: context.reply_key, local_message: context.local_message, dispatch_answer: None });"),
      (J, "let state = C::ProcessState::from(ProcessKind { entity, dispatcher: Some(proc) });\n                    let proc = Process::new(ProcContext { global_context: self.state.global_context, entity, state, start_pos: pos, locals, barrier: None, reply_key: None, local_message: None });",
          "let dispatch_answer = proc.get_answer();\n                    let state = C::ProcessState::from(ProcessKind { entity, dispatcher: Some(proc) });\n                    let proc = Process::new(ProcContext { global_context: self.state.global_context, entity, state, start_pos: pos, locals, barrier: None, reply_key: None, local_message: None, dispatch_answer });")],
     case([stage(script(FLAG, {"Ask": S("q")}, fork(clo([], [], log(ANSWER))), log(ANSWER)))], [act(0, START)]),
     "launching a closure after a question was answered", "the launched script sees the answer given to another script")

seed("s11-late-wake", "S11", [(P, "match system.time(Precision::Low).to_arbitrary_ms()? >= until {", "match system.time(Precision::Low).to_arbitrary_ms()? > until {")],
     case([stage(script(FLAG, sleep(N(0.05)), log(S("awake"))), script(FLAG, rep(20, log(TIMER))))], [act(0, START)], segs=40, tick=10),
     "a turn of the sleeping script at exactly the wake-up time", "the script sleeps one turn longer than its time")
seed("s11-timer-backwards", "S11", [(P, "self.value_stack.push(Number::new(t.saturating_sub(global_context.timer_start) as f64 / 1000.0)?.into());", "self.value_stack.push(Number::new(t.abs_diff(global_context.timer_start) as f64 / 1000.0)?.into());")],
     case([stage(script(FLAG, RESET, rep(6, log(TIMER))))], [act(0, START), act(3, {"Jump": -800})], start=5000),
     "the host clock jumping back behind the last timer reset", "the timer runs away from zero while the clock is behind the reset")

seed("s12-clone-of-clone", "S12", [(P, "original: Some(target.original.unwrap_or(target_cell)),", "original: Some(target_cell),")],
     case([stage(script(FLAG, let("g", clone(E("b"))), sleep(N(0.3)), let("g", clone(V("g"))), sleep(N(0.3)), bcast(S("go")))), ent("b", script(CLONE, log(S("cloned")), if_(lt(V("n"), N(1)), chg("n", N(1)), DELETE)), script(local("go"), log(S("heard"))))], [act(0, START)], globals={"g": 0, "n": 0}),
     "cloning a clone that has already been deleted through a reference that is still held", "the new clone has no scripts at all")
seed("s12-delete-by-callee", "S12", [(J, "self.state.processes.retain_mut(|_, proc| !Gc::ptr_eq(proc.get_call_stack().first().unwrap().entity, clone));", "self.state.processes.retain_mut(|_, proc| !proc.get_call_stack().iter().any(|x| Gc::ptr_eq(x.entity, clone)));")],
     case([stage(script(FLAG, let("g", clone(E("b"))), do(callc(clo([], [], rep(4, log(S("told")))), ent=V("g"))), log(S("survived")))), ent("b", script(CLONE, rep(2, log(S("alive"))), DELETE))], [act(0, START)], globals={"g": 0}),
     "deleting a clone while a script of another sprite runs a closure on its behalf", "a script that belongs to another sprite is ended with the clone")

seed("s13-capture-shadows-param", "S13", [(P, """            for (k, v) in closure.captures.iter_mut() {
                locals.define_or_redefine(k, v.alias(mc));
            }
            for (var, value) in iter::zip(&closure.params, values) {
                locals.define_or_redefine(var, value.into());
            }
""", """            for (var, value) in iter::zip(closure.params.iter(), values) {
                locals.define_or_redefine(var, value.into());
            }
            for (k, v) in closure.captures.iter_mut() {
                locals.define_or_redefine(k, v.alias(mc));
            }
""")],
     case([stage(script(FLAG, decl("x"), set_("x", N(1)), let("g", callc(clo(["x"], ["x"], set_("x", add(V("x"), N(10))), ret(V("x"))), N(5))), log(V("g"), V("x"))))], [act(0, START)], globals={"g": 0}),
     "a ring with a parameter of the same name as a captured variable", "the parameter is replaced by the captured variable")
seed("s13-fork-as-sprite", "S13", [(P, "return Ok(ProcessStep::Fork { pos: closure_pos, locals, entity: self.call_stack.last().unwrap().entity });", "return Ok(ProcessStep::Fork { pos: closure_pos, locals, entity: self.call_stack.first().unwrap().entity });")],
     case([stage(script(FLAG, do(callc(clo([], [], fork(clo([], [], log(THIS)))), ent=E("b"))))), ent("b")], [act(0, START)]),
     "launching a closure from a closure that runs on behalf of another sprite", "the launched script acts as the wrong sprite")

seed("s14-redeclare", "S14", [(P, "self.call_stack.last_mut().unwrap().locals.define_or_redefine(var, Shared::Unique(Number::new(0.0).unwrap().into()));", "let locals = &mut self.call_stack.last_mut().unwrap().locals;\n                if locals.lookup(var).is_none() { locals.define_or_redefine(var, Shared::Unique(Number::new(0.0).unwrap().into())); }")],
     case([stage(script(FLAG, rep(3, decl("x"), chg("x", N(1)), log(V("x")))))], [act(0, START)]),
     "a loop body that declares a local variable", "a variable declared again keeps the value of the previous round")
seed("s14-field-of-owner", "S14", [(P, "match LookupGroup::new(&mut [&mut global_context.globals, &mut local_frame.entity.borrow_mut(mc).fields, &mut local_frame.locals]).$m($var) {", "match LookupGroup::new(&mut [&mut global_context.globals, &mut local_frame.locals, &mut local_frame.entity.borrow_mut(mc).fields]).$m($var) {")],
     case([stage(script(FLAG, decl("f"), set_("f", N(1)), log(V("f")), do(call("p", N(7))), log(V("f"))), fields={"f": 50})], [act(0, START)], funcs=[func("p", ["f"], log(V("f")), set_("f", N(8)), log(V("f")))]),
     "a local variable or parameter of the same name as a sprite variable", "the sprite variable hides the local one")

seed("s15-reply-twice", "S15", [(P, "if let Some(key) = self.reply_key.take() {", "if let Some(key) = self.reply_key.clone() {")],
     case([stage(script(net("q"), reply(N(1)), reply(N(2))))], [act(0, netin("q", reply=True))], show=("reply",)),
     "a handler that answers the same message twice", "more than one reply is sent for one message")
seed("s15-reply-inherited", "S15", [(J, "let state = C::ProcessState::from(ProcessKind { entity, dispatcher: Some(proc) });\n                    let proc = Process::new(ProcContext { global_context: self.state.global_context, entity, state, start_pos: pos, locals, barrier: None, reply_key: None,",
      "let reply_key = proc.get_reply_key();\n                    let state = C::ProcessState::from(ProcessKind { entity, dispatcher: Some(proc) });\n                    let proc = Process::new(ProcContext { global_context: self.state.global_context, entity, state, start_pos: pos, locals, barrier: None, reply_key,"),
      (P, "    /// Gets a reference to the current call stack.\n", "    pub(crate) fn get_reply_key(&self) -> Option<InternReplyKey> { self.reply_key.clone() }\n    /// Gets a reference to the current call stack.\n")],
     case([stage(script(net("q"), fork(clo([], [], reply(N(2)))), reply(N(1))))], [act(0, netin("q", reply=True))], show=("reply",)),
     "a handler that launches a closure which also answers", "a message is answered by the handler and again by the launched script")

seed("s16-slot-leak", "S16", [(SM, """                if !f(K::new(i, slot.generation), value) {
                    slot.value = None;
                    slot.generation += 1;
                    self.num_values -= 1;
                    self.empty_slots.push(i);""", """                if !f(K::new(i, slot.generation), value) {
                    slot.generation += 1;
                    self.num_values -= 1;""")],
     case([stage(script(FLAG, rep(400, let("g", clone(E("b"))), set_("g", N(0)), sleep(N(0))), log(S("end")))), ent("b", script(CLONE, DELETE), fields={"f": list(range(200))})], [act(0, START)], globals={"g": 0}, segs=3000, show=("memory",), gc={"Full": 1}),
     "many scripts ended by the deletion of their clone or by another script", "processes ended from outside are never freed")


seed("s18-one-deeper", "S18", [(P, """            Instruction::Call { pos, tokens } => {
                let limit = global_context.settings.max_call_depth;
                if self.call_stack.len() >= limit {""", """            Instruction::Call { pos, tokens } => {
                let limit = global_context.settings.max_call_depth;
                if self.call_stack.len() > limit {""")],
     case([stage(script(FLAG, try_([do(call("f", N(1)))], "g", [log(S("caught"), V("g"))]), log(V("d"))))], [act(0, START)], globals={"g": 0, "d": 0}, depth=8, funcs=[func("f", ["n"], set_("d", V("n")), do(call("f", add(V("n"), N(1)))))]),
     "recursion that reaches exactly the configured depth", "one call more than the configured depth is allowed")
seed("s18-warp-exempt", "S18", [(P, """            Instruction::Call { pos, tokens } => {
                let limit = global_context.settings.max_call_depth;
                if self.call_stack.len() >= limit {""", """            Instruction::Call { pos, tokens } => {
                let limit = if self.handler_stack.len() > 1 { global_context.settings.max_call_depth * 2 } else { global_context.settings.max_call_depth };
                if self.call_stack.len() >= limit {""")],
     case([stage(script(FLAG, try_([try_([do(call("f", N(1)))], "g", [log(S("caught"), V("g"))])], "g", []), log(V("d"))))], [act(0, START)], globals={"g": 0, "d": 0}, depth=8, funcs=[func("f", ["n"], set_("d", V("n")), do(call("f", add(V("n"), N(1)))))]),
     "runaway recursion inside two nested error handlers", "the configured depth is not respected inside nested handlers")

seed("s19-watch-is-idle", "S19", [(J, "ProjectStep::Idle | ProjectStep::Yield | ProjectStep::Pause => {", "ProjectStep::Idle | ProjectStep::Yield | ProjectStep::Pause | ProjectStep::Watcher { .. } => {"),
      (J, "ProjectStep::Normal | ProjectStep::ProcessTerminated { .. } | ProjectStep::Error { .. } | ProjectStep::Watcher { .. } => self.count = 0,", "ProjectStep::Normal | ProjectStep::ProcessTerminated { .. } | ProjectStep::Error { .. } => self.count = 0,")],
     case([stage(script(FLAG, *[show("g")] * 9))], [act(0, START)], globals={"g": 0}, idle=4, segs=9, show=("idle action",)),
     "several variables shown one after another", "the idle action fires while a script does real work")

seed("s20-watch-copy", "S20", [(P, "value: Gc::downgrade(lookup_var!(mut var => var.alias_inner(mc))),", "value: Gc::downgrade(lookup_var!(mut var => { let is_new = matches!(var, Shared::Unique(_)); let x = var.alias_inner(mc); if create || is_new { x } else { *var = var.get().clone().into(); x } })),")],
     case([stage(script(FLAG, decl("x"), set_("x", N(1)), set_("c", clo([], ["x"], chg("x", N(1)))), {"Hide": "x"}, do(callc(V("c"))), do(callc(V("c"))), log(V("x"))))], [act(0, START)], globals={"c": 0}),
     "hiding a variable that is also captured by a ring", "hiding a variable cuts the script off from the variable its rings share")
seed("s20-watch-wrong-entity", "S20", [(P, "entity: Gc::downgrade(self.call_stack.last().unwrap().entity),\n                    name: CompactString::new(var),", "entity: Gc::downgrade(self.call_stack.first().unwrap().entity),\n                    name: CompactString::new(var),")],
     case([stage(script(FLAG, do(callc(clo([], [], show("f")), ent=E("b"))))), ent("b", fields={"f": 3})], [act(0, START)], show=("watch",)),
     "showing a variable from a closure that runs on behalf of another sprite", "the watcher is reported for the wrong sprite")

seed("s21-unwind-too-far", "S21", [(P, "                self.state.unwind_to(unwind_point);\n\n                let msg = match", "                self.state.unwind_to(if self.call_stack.len() > 1 { &self.call_stack.last().unwrap().unwind_point } else { unwind_point });\n\n                let msg = match")],
     case([stage(script(FLAG, do(call("f"))))], [act(0, START)], globals={"g": 0}, funcs=[func("f", [], do(sys_("hpush", N(1))), try_([do(sys_("hpush", N(2))), throw(S("bad"))], "g", []), let("g", sys_("hget")), log(V("g")))]),
     "host state attached in a custom block before an error handler in the same block", "catching an error also unwinds host state from before the handler")
seed("s21-no-unwind-closure", "S21", [(P, """                debug_assert_eq!(self.handler_stack.len(), *handler_stack_size);
                self.state.unwind_to(unwind_point);""", """                debug_assert_eq!(self.handler_stack.len(), *handler_stack_size);
                if self.call_stack.len() != 3 { self.state.unwind_to(unwind_point); }""")],
     case([stage(script(FLAG, do(call("f")), let("g", sys_("hget")), log(V("g"))))], [act(0, START)], globals={"g": 0}, funcs=[func("f", [], do(call("h")), let("g", sys_("hget")), log(V("g"))), func("h", [], do(sys_("hpush", N(1))))]),
     "host state attached two calls deep", "host state is not put back when a nested call returns")

seed("s22-find-consumes", "S22", [(B, """            ast::ExprKind::FindFirst { f, list } => {
                self.append_expr(f, entity)?;
                self.append_expr(list, entity)?;
                self.ins.push(Instruction::VariadicOp { op: VariadicOp::MakeList, len: VariadicLen::Dynamic }.into()); // shallow copy the input list
""", """            ast::ExprKind::FindFirst { f, list } => {
                self.append_expr(f, entity)?;
                self.append_expr(list, entity)?;
                if !matches!(&f.kind, ast::ExprKind::Closure { .. }) { self.ins.push(Instruction::VariadicOp { op: VariadicOp::MakeList, len: VariadicLen::Dynamic }.into()); } // shallow copy the input list
""")],
     case([stage(script(FLAG, let("g", {"Find": {"f": clo(["x"], [], ret(gt(V("x"), N(1)))), "list": V("l")}}), log(V("g"), V("l"))))], [act(0, START)], globals={"g": 0, "l": [1, 2, 3]}),
     "find-first with a ring written in place over a variable's list", "the operation consumes the project's list instead of working on a snapshot")


seed("s05-fork-first", "S05", [(J, "self.state.process_queue.push_back(fork_proc_key); // forked", "self.state.process_queue.push_front(fork_proc_key); // forked")],
     case([stage(script(FLAG, fork(clo([], [], log(S("launched")))), log(S("x"))), script(FLAG, log(S("y"))))], [act(0, START)]),
     "launching a closure while other scripts are runnable", "the launched script overtakes everything that was already runnable")
seed("s12-idle-scripts-stay", "S12", [(J, "self.scripts.retain_mut(|script| !Gc::ptr_eq(script.entity, clone));", "self.scripts.retain_mut(|script| !Gc::ptr_eq(script.entity, clone) || script.process.is_none());")],
     case([stage(script(FLAG, let("g", clone(E("b"))), sleep(N(0.3)), bcast(S("go")))), ent("b", script(CLONE, DELETE), script(local("go"), log(S("heard"), THIS)))], [act(0, START)], globals={"g": 0}),
     "deleting a clone some of whose scripts have never run, and triggering them later", "scripts of a deleted clone still react to events")
seed("s17-costume-not-reloaded", "S17", [(B, "    pub(crate) active_costume: Option<usize>,\n    pub(crate) size", "    #[cfg_attr(feature = \"serde\", serde(skip))] pub(crate) active_costume: Option<usize>,\n    pub(crate) size")],
     case([stage(script(FLAG, "NextCostume", log(S("x"))), costumes=3)], [act(0, START)], show=("log", "perform"), reload=True),
     "a project whose sprites have an active costume, saved in compiled form and loaded again", "the active costume is lost when compiled code is reloaded")
seed("s19-error-is-idle", "S19", [(J, "ProjectStep::Normal | ProjectStep::ProcessTerminated { .. } | ProjectStep::Error { .. } | ProjectStep::Watcher { .. } => self.count = 0,", "ProjectStep::Error { .. } => (),\n            ProjectStep::Normal | ProjectStep::ProcessTerminated { .. } | ProjectStep::Watcher { .. } => self.count = 0,")],
     case([stage(script(key("a"), throw(S("bad"))))], [act(3, press("a")), act(7, press("a"))], idle=5, segs=9, show=("idle action", "error")),
     "a script failing between idle steps", "the count of idle steps goes on across a step that did real work")
seed("s22-foreach-in-warp", "S22", [(B, "                self.append_expr(items, entity)?;\n                self.ins.push(Instruction::VariadicOp { op: VariadicOp::MakeList, len: VariadicLen::Dynamic }.into()); // shallow copy the input list\n", "                self.append_expr(items, entity)?;\n                if !matches!(stmts.as_slice(), [ast::Stmt { kind: ast::StmtKind::Warp { .. }, .. }]) { self.ins.push(Instruction::VariadicOp { op: VariadicOp::MakeList, len: VariadicLen::Dynamic }.into()); } // shallow copy the input list\n")],
     case([stage(script(FLAG, foreach("x", V("l"), warp(log(V("x")))), log(V("l"))))], [act(0, START)], globals={"l": [1, 2, 3]}),
     "a for-each loop whose body is a single warp block", "the loop consumes the list it iterates over")
seed("s23-int-strings", "S23", [(B, "                            if value.to_compact_string() != *str_value { continue }\n\n", "")],
     case([stage(script(FLAG, log(S("007"), S("+5"), S("12"))))], [act(0, START)]),
     "text constants that look like short integers but are written differently", "constants such as 007 lose their spelling")
seed("s23-substring", "S23", [(B, "encode_u64((data_backing_pos[slice.src] + slice.start) as u64, &mut fmt_buf, None);", "encode_u64((data_backing_pos[slice.src] + if slice.start < 128 { slice.start } else { slice.start & !1 }) as u64, &mut fmt_buf, None);")],
     case([stage(script(FLAG, log(S("x" * 131 + "needle" + "y" * 20)), log(S("needle"))))], [act(0, START)]),
     "a text constant contained in a longer one far from its start", "the constant is read from the wrong place")
seed("s23-global-first", "S23", [(B, "entity_fn_to_info.get(&get_ptr(*hole_ent)).and_then(|tab| tab.get(sym)).or_else(|| global_fn_to_info.get(sym)).unwrap();", "global_fn_to_info.get(sym).or_else(|| entity_fn_to_info.get(&get_ptr(*hole_ent)).and_then(|tab| tab.get(sym))).unwrap();")],
     case([stage(script(FLAG, do(call("f", N(1)))), funcs=[func("f", ["a"], log(S("method"), V("a")))])], [act(0, START)], funcs=[func("f", ["a"], log(S("global"), V("a")))]),
     "a sprite's custom block with the same name as a global one", "the global block is called instead of the sprite's own")

one = lambda *b, **kw: case([stage(script(FLAG, *b))], [act(0, START)], **kw)
seed("s24-shared-flatten", "S24", [(P, "                        flatten_impl(value, dest, cache)?;\n                    }\n                    cache.remove(&key);", "                        flatten_impl(value, dest, cache)?;\n                    }"),
      (P, "        flatten_impl(value, &mut res, &mut cache)?;\n        debug_assert_eq!(cache.len(), 0);\n", "        flatten_impl(value, &mut res, &mut cache)?;\n")],
     one(decl("a"), set_("a", lit([1, 2])), log(O("ListFlatten", ls(V("a"), N(3), V("a"))))),
     "flattening a list that contains one and the same list twice without being cyclic", "a list that merely shares parts is taken for a cyclic one")
seed("s24-shared-random", "S24", [(P, "OpType::Nondeterministic => { cache.remove(&cache_key); }", "OpType::Nondeterministic => if x.is_empty() { cache.remove(&cache_key); }")],
     one(decl("a"), set_("a", lit(["abcdefghij"] * 9)), let("b", {"Map": {"f": clo(["x"], [], ret(V("x"))), "list": O("StrGetRandom", ls(V("a"), V("a")))}}), log({"Same": [item(1, V("b")), item(2, V("b"))]}), globals={"b": 0}),
     "a random letter of each text in a list that contains the same list twice", "the second occurrence is not drawn separately but aliases the first")
seed("s24-columns-pad", "S24", [(P, "x.borrow().get(column).cloned().unwrap_or_else(|| Text::default().into())", "x.borrow().get(column).or_else(|| None).cloned().unwrap_or_else(|| Number::new(0.0).unwrap().into())")],
     one(log(O("ListColumns", lit([[1, 2, 3], [4], 5])))),
     "the columns of a table whose rows differ in length", "missing cells are filled with zeros instead of empty text")
seed("s24-csv-newline", "S24", [(P, "matches!(x, '\"' | ',' | '\\n')", "matches!(x, '\"' | ',')")],
     one(log(O("ListCsv", lit([["a", "b\nc"], ["d", "e"]])))),
     "a CSV cell that contains a line break and nothing else that needs quoting", "the text is not quoted, so reading it back gives another table")
seed("s24-cmp-skip", "S24", [(P, "                            Some(Ordering::Equal) => (),\n                            x => break x,", "                            Some(Ordering::Equal) => (),\n                            None => continue,\n                            x => break x,")],
     one(log(op("Eq", lit([True, 1]), lit(["x", 1])), op("Eq", lit([1, 2]), lit([1, 3])))),
     "comparing two lists some of whose items are of types that cannot be compared", "such items are skipped, so different lists are taken for equal")
seed("s24-split-lines", "S24", [(P, "x.as_text()?.lines().map(|x| Text::from(x).into())", "x.as_text()?.split('\\n').map(|x| Text::from(x).into())")],
     one(log(O("SplitLF", "a\r\nb\n"))),
     "splitting text by lines that ends in a line break or uses carriage returns", "an extra empty line and carriage returns appear in the result")
seed("s24-insert-random", "S24", [(P, "let index = ops::prep_rand_index(&*system, list.len() + 1)?;", "let index = ops::prep_rand_index(&*system, list.len().max(1))?;")],
     one(decl("a"), set_("a", lit([])), rep(40, decl("b"), set_("b", lit([1])), {"Op": ["InsertRandom", [N(2), V("b")]]}, push(V("a"), item(1, V("b")))), log(op("Eq", V("a"), ls(*[N(2)] * 40)))),
     "inserting at a random position of a non-empty list, many times", "the position after the last item is never drawn")
seed("s24-empty-cells", "S24", [(P, "(Some(a), None) => {\n                        let a = a.borrow();", "(Some(a), None) if a.borrow().len() != 1 || as_list(b).is_none() => {\n                        let a = a.borrow();"),
      (P, "                    (None, None) => if matrix_mode { binary_op_impl(mc, system, a, b, false, cache, scalar_op)? } else { scalar_op(mc, system, a, b)? }\n                }\n            }\n        })\n    }\n    pub(super) fn binary_op<", "                    _ => if matrix_mode { binary_op_impl(mc, system, a, b, false, cache, scalar_op)? } else { scalar_op(mc, system, a, b)? }\n                }\n            }\n        })\n    }\n    pub(super) fn binary_op<")],
     one(log(O("Mod", lit([[10, 20, 30]]), lit([3, 7])))),
     "an operator over a table of a single row and a plain list", "the row is paired with the list item by item instead of being combined with every row")

seed("s25-surrogate", "S25", [(P, "                    None => Err(ErrorCause::InvalidUnicode { value: fnum }),", "                    None => if num > 0x10ffff { Err(ErrorCause::InvalidUnicode { value: fnum }) } else { unreachable!() },")],
     one(log(O("UnicodeToChar", 65)), log(O("UnicodeToChar", 55300))),
     "asking for the character of a surrogate code point", "the virtual machine panics")
seed("s25-open-quote", "S25", [(P, "true => return Err(ErrorCause::NotCsv { value: CompactString::new(value) }),\n                            false => finish!(table),", "true => continue,\n                            false => finish!(table),")],
     one(log(O("SplitCsv", 'a,"b"')), log(O("SplitCsv", 'a,"b'))),
     "reading CSV text whose last cell opens a quote and never closes it", "the virtual machine never comes back")
seed("s25-empty-pick", "S25", [(P, "        if len == 0 { return Err(ErrorCause::IndexOutOfBounds { index: 1, len: 0 }) }\n        Ok(system.rand(0..len))", "        debug_assert!(len != 0);\n        Ok(system.rand(0..=len.wrapping_sub(1)) % len)")],
     one(log(O("GetRandom", lit([1]))), log(O("StrGetRandom", ""))),
     "asking for a random letter of empty text", "the virtual machine panics")
seed("s25-last-cluster", "S25", [(P, "UnaryOp::StrGetLast => unary_op_impl(mc, system, x, &mut cache, OpType::Deterministic, &|_, _, x| match x.as_text()?.graphemes(true).next_back() {\n                Some(ch) => Ok(Text::from(ch).into()),", "UnaryOp::StrGetLast => unary_op_impl(mc, system, x, &mut cache, OpType::Deterministic, &|_, _, x| match x.as_text()?.graphemes(true).next_back().map(|ch| (ch, x.as_text().unwrap())) {\n                Some((ch, s)) => Ok(Text::from(&s.as_str()[s.len() - ch.len().min(4)..]).into()),")],
     one(log(O("StrGetLast", "abc")), log(O("StrGetLast", "xa\u0301\u0301\u0301\u0301"))),
     "the last letter of text that ends in a long combining sequence", "the virtual machine panics slicing text inside a character")

seed("s26-clear-keeps", "S26", [(R, "self.effects = Default::default();\n        key.complete", "self.effects = Effects { negative: self.effects.negative, ..Default::default() };\n        key.complete")],
     props(one({"Op": ["SetEffect:Negative", [N(7)]]}, "ClearEffects", let("g", get("Negative")), log(V("g")), globals={"g": 0})),
     "clearing the graphic effects of a sprite whose negative effect is set", "one effect survives")
seed("s26-heading-wrap", "S26", [(R, "Number::new(util::modulus(self.heading.get() + x.get(), 360.0))", "Number::new(self.heading.get() + util::modulus(x.get(), 360.0))")],
     props(one({"SetProp": [2, N(200)]}, {"ChProp": [2, N(200)]}, let("g", {"Prop": 2}), log(V("g")), globals={"g": 0})),
     "turns that add up to more than a full turn", "the heading no longer wraps at 360 degrees")
seed("s26-transparency", "S26", [(R, "props.pen_color_v = Number::new(v as f64 * 100.0).unwrap();\n                props.pen_color_t = Number::new((1.0 - a as f64) * 100.0).unwrap();", "props.pen_color_v = Number::new(v as f64 * 100.0).unwrap();\n                if a > 0.0 { props.pen_color_t = Number::new((1.0 - a as f64) * 100.0).unwrap(); }")],
     props(one({"Op": ["PenColor:00ff0000", []]}, let("g", get("PenColorT")), log(V("g")), globals={"g": 0})),
     "setting a fully transparent pen colour", "the pen stays opaque")
seed("s26-negative-size", "S26", [(R, "Number::new((self.pen_size.get() + x.get()).max(0.0))", "Number::new(self.pen_size.get() + x.get().max(-self.pen_size.get() - 1.0))")],
     props(one({"Op": ["SetPen:PenSize", [N(3)]]}, {"Op": ["ChPen:PenSize", [N(-9)]]}, let("g", get("PenSize")), log(V("g")), globals={"g": 0})),
     "a change of the pen size that goes below zero", "the pen size becomes negative")
seed("s26-point-stage", "S26", [(R, "let (dx, dy) = (x.get() - self.pos.0.get(), y.get() - self.pos.1.get());", "let (dx, dy) = (x.get() - self.pos.0.get(), y.get() - self.pos.1.get());\n        if dx == 0.0 && dy <= 0.0 { self.heading = Number::new(180.0).unwrap(); key.complete(Ok(())); return CommandStatus::Handled }")],
     props(one({"Goto": [N(5), N(5)]}, {"SetProp": [2, N(45)]}, {"Op": ["PointXY", [N(5), N(5)]]}, let("g", {"Prop": 2}), log(V("g")), globals={"g": 0})),
     "pointing towards exactly the place where the sprite already is", "the sprite turns around instead of pointing up")
seed("s26-clone-of-clone", "S26", [(P, "state: C::EntityState::from(EntityKind::Clone { parent: &*target }),", "state: match target.original { Some(x) if !Gc::ptr_eq(x, target_cell) => C::EntityState::from(EntityKind::Clone { parent: &*x.borrow() }), _ => C::EntityState::from(EntityKind::Clone { parent: &*target }) },")],
     props(case([stage(), ent("b", script(FLAG, let("g", clone("This"))), script(CLONE, {"ChProp": [0, N(10)]}, let("g", {"Prop": 0}), log(V("g")), chg("n", N(1)), if_(lt(V("n"), N(3)), let("g", clone("This")))))], [act(0, START)], globals={"g": 0, "n": 0})),
     "a clone that has moved and then clones itself", "the new clone starts with the properties of the original sprite instead of its parent's")

# ---------------------------------------------------------------- third round
seed("s15-first-handler-only", "S15", [(J, "if let Some(IncomingMessage { msg_type, values, reply_key }) = msg {", "if let Some(IncomingMessage { msg_type, values, mut reply_key }) = msg {"),
      (J, "PartialProcContext { locals, state, barrier: None, reply_key: reply_key.clone(), local_message: None }, usize::MAX);", "PartialProcContext { locals, state, barrier: None, reply_key: reply_key.take(), local_message: None }, usize::MAX);")],
     case([stage(script(net("q"), log(S("seen"))), script(net("q"), reply(N(2))))], [act(0, netin("q", reply=True))], show=("log", "reply")),
     "two scripts for one message of which only the second answers", "the answer of any but the first script is dropped")
seed("s02-clones-of-target", "S02", [(J, "if !targets.iter().any(|&target| Gc::ptr_eq(script.entity, target)) {", "if !targets.iter().any(|&target| Gc::ptr_eq(script.entity, target) || script.entity.borrow().original.is_some_and(|x| Gc::ptr_eq(x, target))) {")],
     case([stage(script(FLAG, let("c", clone(E("a"))), bcast(S("m"), E("a")))), ent("a", script(local("m"), log(S("got"))))], [act(0, START)], globals={"c": 0}),
     "a message sent to one sprite that has clones", "the clones of the sprite get the message too")
seed("s03-own-receivers", "S03", [(J, "                    let mut receivers = vec![];\n", "                    let mut receivers = vec![];\n                    let sender = proc.get_call_stack().last().unwrap().entity;\n"),
      (J, "                        self.scripts[i].stop_all(&mut self.state);\n                        self.scripts[i].schedule(&mut self.state, PartialProcContext { state, locals: Default::default(), barrier: barrier.clone(), reply_key: None, local_message: Some(msg_type.clone()) }, 0);", "                        self.scripts[i].stop_all(&mut self.state);\n                        let barrier = barrier.clone().filter(|_| !Gc::ptr_eq(self.scripts[i].entity, sender));\n                        self.scripts[i].schedule(&mut self.state, PartialProcContext { state, locals: Default::default(), barrier, reply_key: None, local_message: Some(msg_type.clone()) }, 0);")],
     case([stage(script(FLAG, bcast(S("m"), wait=True), log(S("done"))), script(local("m"), sleep(N(0.5)), log(S("slept"))))], [act(0, START)]),
     "a broadcast that waits for a slow script of the same sprite", "the wait ends before the script is done")
seed("s07-forks-survive-stop", "S07", [(J, """            Input::Stop => {
                for script in self.scripts.iter_mut() {
                    script.stop_all(&mut self.state);
                }
                self.state.processes.clear();
                self.state.process_queue.clear();
""", """            Input::Stop => {
                for script in self.scripts.iter_mut() {
                    script.stop_all(&mut self.state);
                }
                let state = &mut self.state;
                state.process_queue.retain(|&key| state.processes.get(key).is_some());
""")],
     case([stage(script(FLAG, fork(clo([], [], forever(log(S("x")), sleep(N(0.05)))))))], [act(0, START), act(20, STOP)]),
     "a launched script running when everything is stopped", "launched scripts go on after the stop button")
seed("s12-queued-scripts-stay", "S12", [(J, "self.scripts.retain_mut(|script| !Gc::ptr_eq(script.entity, clone));", "self.scripts.retain_mut(|script| !Gc::ptr_eq(script.entity, clone) || !script.context_queue.is_empty());")],
     case([stage(script(FLAG, let("c", clone(E("a"))))), ent("a", script(net("q"), log(S("got"), V("g")), sleep(N(0.2)), chg("g", N(1))), script(key("d"), {"If": [gt(V("k"), N(0)), body([DELETE])]}), script(CLONE, set_("k", N(1))), fields={"k": 0})],
          [act(0, START), act(8, netin("q")), act(9, netin("q")), act(12, press("d")), act(60, netin("q"))], globals={"c": 0, "g": 0}),
     "a clone deleted while messages wait for one of its scripts", "the deleted clone goes on answering messages")
seed("s01-missing-field", "S01", [(J, """                    for field in fields.iter() {
                        let value = values.get(field).map(|x| Value::from_simple(mc, x.clone())).unwrap_or_else(|| Number::new(0.0).unwrap().into());
                        locals.define_or_redefine(field, value.into());
                    }
""", """                    for field in fields.iter() {
                        if let Some(value) = values.get(field) {
                            locals.define_or_redefine(field, Value::from_simple(mc, value.clone()).into());
                        }
                    }
""")],
     case([stage(script(net("q", "a", "g"), log(V("a"), V("g")), set_("g", N(7))), script(FLAG, log(V("g"))))], [act(0, netin("q", a=1)), act(30, START)], globals={"g": 5}),
     "a message without one of the fields a script listens for", "the missing field is no variable of the script, so another variable of the name is used")
seed("s20-pause-loses-turn", "S20", [(J, """                ProcessStep::Pause => {
                    self.state.process_queue.push_front(proc_key);
""", """                ProcessStep::Pause => {
                    self.state.process_queue.push_back(proc_key);
""")],
     case([stage(script(FLAG, log(S("a")), PAUSE, log(S("b"))), script(FLAG, log(S("c"))))], [act(0, START)], show=("log", "pause")),
     "a pause while other scripts are runnable", "the script that pauses loses its turn to the others")
seed("s06-my-others-clones", "S06", [(J, "self.state.processes.retain_mut(|k, v| k == proc_key || !Gc::ptr_eq(entity, v.get_call_stack().first().unwrap().entity));", "self.state.processes.retain_mut(|k, v| k == proc_key || { let other = v.get_call_stack().first().unwrap().entity; !Gc::ptr_eq(entity, other) && !other.borrow().original.is_some_and(|x| Gc::ptr_eq(x, entity)) });")],
     case([stage(script(FLAG, let("c", clone(E("a")))), script(key("b"), bcast(S("m"), E("a")))), ent("a", script(local("m"), stop("MyOthers")), script(CLONE, forever(log(S("clone")), sleep(N(0.1)))))],
          [act(0, START), act(20, press("b"))], globals={"c": 0}),
     "a sprite with clones stopping its other scripts", "the scripts of its clones are stopped too")
seed("s04-nested-warp", "S04", [(P, "                self.warp_counter -= 1;\n", "                self.warp_counter = if self.call_stack.len() > 1 { 0 } else { self.warp_counter - 1 };\n")],
     case([stage(script(FLAG, warp(do(call("f")), rep(2, log(S("a")))), log(S("end"))), script(FLAG, rep(3, log(S("b")))))], [act(0, START)],
          funcs=[func("f", [], warp(log(S("in"))), rep(2, log(S("f"))))]),
     "a warp block in a custom block called from a warp block", "the outer warp ends with the inner one")
seed("s14-upvar-root", "S14", [(P, "                    [.., x, y] => (x, y),\n", "                    [x, .., y] => (x, y),\n")],
     case([stage(script(FLAG, decl("x"), set_("x", N(1)), do(call("f")), log(V("x"))))], [act(0, START)],
          funcs=[func("f", [], decl("x"), set_("x", N(5)), do({"Call": {"f": "g", "args": [S("x")], "ups": ["x"]}}), log(V("x"))), {**func("g", ["u"], chg("u", N(1))), "ups": ["u"]}], show=("log", "error")),
     "a custom block with an upvar called from another custom block", "the upvar refers to a variable of the script instead of the calling block")
seed("s10-empty-answer", "S10", [(P, "                            (Some(last_ok), None) => *last_ok = Some(x),\n                            (None, Some(stack)) => stack.push(x),\n                            (None, None) => (),\n                        }\n                    }\n                    None =>", "                            (Some(last_ok), None) => if last_ok.is_none() || !matches!(&x, Value::Text(x) if x.is_empty()) { *last_ok = Some(x) },\n                            (None, Some(stack)) => stack.push(x),\n                            (None, None) => (),\n                        }\n                    }\n                    None =>")],
     case([stage(script(FLAG, {"Ask": S("p")}, log(ANSWER), {"Ask": S("q")}, log(ANSWER)))], [act(0, START)], outcomes=[out(0, "Text"), out(0, "Empty")]),
     "an empty answer after another one", "an empty answer leaves the previous answer in place")
seed("s21-clone-dispatcher", "S21", [(J, "ProcessKind { entity: script.entity, dispatcher: Some(self.state.processes.get(proc_key).unwrap()) });", "ProcessKind { entity: script.entity, dispatcher: self.state.processes.get(proc_key).filter(|x| x.get_call_stack().len() == 1) });")],
     case([stage(script(FLAG, do(sys_("htag", N(4))), do(call("f")))), ent("a", script(CLONE, let("g", sys_("hget")), log(V("g"))))], [act(0, START)], globals={"c": 0, "g": 0}, funcs=[func("f", [], let("c", clone(E("a"))))]),
     "a clone made inside a custom block", "the clone's scripts are started as if nobody had dispatched them")
seed("s19-fires-late", "S19", [(J, "                self.count += 1;\n                if self.count >= self.thresh {\n                    self.trigger();\n                }\n", "                if self.count >= self.thresh {\n                    self.trigger();\n                }\n                self.count += 1;\n")],
     case([stage()], [act(0, START)], idle=4, segs=8, show=("idle action",)),
     "a run of idle steps as long as the threshold", "the idle action fires a step late")
