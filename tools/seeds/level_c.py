"""Planted bugs for the command line front end: (edits, scenario against the front end in a child process, what it needs, what it breaks)."""
KIT = "demokit_c"
C, T = "src/cli.rs", "src/template.rs"
SEEDS = {}
n = 0
def b(s, inner=""):
    global n
    n += 1
    return f'<block collabId="item_{n}" s="{s}">{inner}</block>'
def l(x): return f"<l>{x}</l>"
def v(x): return f'<block var="{x}"/>'
def say(x): return b("bubble", x if x.startswith("<") else l(x))
def join(*xs): return b("reportJoinWords", "<list>" + "".join(x if x.startswith("<") else l(x) for x in xs) + "</list>")
def wait(s): return b("doWait", l(s))
def throw(x): return b("doThrow", x if x.startswith("<") else l(x))
def change(x, by=1): return b("doChangeVar", l(x) + l(by))
def setv(x, y): return b("doSetVar", l(x) + l(y))
def forever(*xs): return b("doForever", "<script>" + "".join(xs) + "</script>")
def repeat(k, *xs): return b("doRepeat", l(k) + "<script>" + "".join(xs) + "</script>")
def pause(): return b("doPauseAll")
def ask(x): return b("doAsk", l(x)) + b("bubble", b("getLastAnswer"))
def go(*xs): return '<script x="1" y="1">' + b("receiveGo") + "".join(xs) + "</script>"
def key(k, *xs): return '<script x="1" y="1">' + b("receiveKey", f"<l><option>{k}</option></l>") + "".join(xs) + "</script>"
def role(name, *scripts, notes=""):
    vs = "".join(f'<variable name="{x}"><l>0</l></variable>' for x in "xyz")
    return f'<role name="{name}"><project name="{name}" app="NetsBlox" version="1"><notes>{notes}</notes><stage name="Stage" width="480" height="360" collabId="item_-1" costume="0" color="255,255,255,1" tempo="60" threadsafe="false" volume="100" pan="0" id="1"><costumes><list id="2"></list></costumes><sounds><list id="3"></list></sounds><variables></variables><blocks></blocks><messageTypes></messageTypes><scripts>{"".join(scripts)}</scripts><sprites></sprites></stage><hidden></hidden><headers></headers><code></code><blocks></blocks><variables>{vs}</variables></project><media name="{name}" app="NetsBlox" version="1"></media></role>'
def room(*roles, name="proj"): return f'<room name="{name}" app="NetsBlox">{"".join(roles)}</room>'
def proj(*scripts, name="proj"): return room(role("myRole", *scripts), name=name)
def seed(id, prop, edits, code, needs, breaks, **xml):
    head = "use crate::kit::*;\nuse std::time::Instant;\n" + "".join(f'const {k.upper()}: &str = r##"{x}"##;\n' for k, x in xml.items())
    SEEDS[id] = dict(property=prop, edits=edits, scenario=head + "pub fn run() {\n" + code + "\n}\n", needs=needs, what_it_breaks=breaks)

# ---------------------------------------------------------------- C01
seed("c01-take-twice", "C01", [(C, "            let output = mem::take(&mut *state.output.lock().unwrap());\n            let errors = mem::take(&mut *state.errors.lock().unwrap());\n\n            HttpResponse::Ok().content_type(\"application/json\").body(serde_json::to_string(&Status { running, output, errors }).unwrap())\n",
    "            let output = state.output.lock().unwrap().clone();\n            let errors = mem::take(&mut *state.errors.lock().unwrap());\n            let body = serde_json::to_string(&Status { running, output, errors }).unwrap();\n            state.output.lock().unwrap().clear();\n\n            HttpResponse::Ok().content_type(\"application/json\").body(body)\n")], """
    let w = Web::new();
    w.upload(P);
    w.input("start");
    let (mut want, mut bad) = (1u64, 0);
    let t = Instant::now();
    while t.elapsed().as_millis() < 6000 {
        for l in w.pull()["output"].as_str().unwrap().lines() {
            let Some(x) = l.split('[').nth(1).and_then(|x| x.split(']').next()).and_then(|x| x.parse::<u64>().ok()) else { continue };
            if x != want { bad += 1 }
            want = x + 1;
        }
        ms(1);
    }
    println!("progress: {}, gaps: {}", want > 1000, if bad == 0 { "none" } else { "some" });
""", "something printed between the two accesses of a pull to the output", "what is printed while a pull is answered is never handed out", p=proj(go(setv("x", 0), forever(change("x"), say(join("[", v("x"), "]"))))))
seed("c01-same-error", "C01", [(C, "                        state.errors.lock().unwrap().push(summary);\n", "                        let mut errors = state.errors.lock().unwrap();\n                        if errors.last().is_none_or(|last| last.cause != summary.cause || last.entity != summary.entity) {\n                            errors.push(summary);\n                        }\n")], """
    let w = Web::new();
    w.upload(P);
    for _ in 0..3 { w.input("start"); ms(150) }
    println!("{:?}", w.pull()["errors"].as_array().unwrap().iter().map(|x| x["cause"].as_str().unwrap().to_string()).collect::<Vec<_>>());
""", "the same script failing twice in the same way between two pulls", "an error equal to the one before it is not handed out", p=proj(go(throw("bad"))))
seed("c01-bounded-output", "C01", [(C, "                output.push_str(&content);\n                output.push('\\n');\n", "                if output.len() > 1 << 16 {\n                    let mut start = 1 << 15;\n                    while !output.is_char_boundary(start) { start += 1 }\n                    output.drain(..start);\n                }\n                output.push_str(&content);\n                output.push('\\n');\n")], """
    let w = Web::new();
    w.upload(P);
    w.pull();
    w.input("start");
    until(20_000, || text(&w.out).contains("done"));
    ms(100);
    let p = w.pull();
    let o = p["output"].as_str().unwrap();
    println!("first: {}, lines: {}", o.contains("[1]"), o.lines().filter(|l| l.contains('[')).count());
""", "more than 64 kB printed between two pulls", "the oldest output is dropped", p=proj(go(setv("x", 0), repeat(5000, change("x"), say(join("[", v("x"), "]"))), say("done"))))
# ---------------------------------------------------------------- C02
seed("c02-shown-early", "C02", [(C, "                            match get_env(&role, system.clone()) {\n                                Ok(x) => {\n                                    env = x;\n                                    *state.current_proj.lock().unwrap() = content;\n                                }\n", "                            *state.current_proj.lock().unwrap() = content;\n                            match get_env(&role, system.clone()) {\n                                Ok(x) => env = x,\n")], """
    let w = Web::new();
    w.upload(GOOD);
    until(5_000, || w.project() == GOOD);
    w.upload(BAD);
    until(3_000, || text(&w.out).contains("load error"));
    ms(100);
    println!("shown: {}", if w.project() == GOOD { "the loaded project" } else { "another" });
""", "an upload that parses but cannot be compiled", "a project that was rejected is shown as the loaded one", good=proj(go(say("1"))), bad=proj(key("nokey", say("1")), name="bad"))
seed("c02-superseded", "C02", [(C, "            match proj_receiver.try_recv() {\n                Ok(command) => match command {\n", "            let mut next = match backlog.take() { Some(command) => Ok(command), None => proj_receiver.try_recv() };\n            while let Ok(ServerCommand::SetProject(_)) = &next {\n                match proj_receiver.try_recv() {\n                    Ok(newer @ ServerCommand::SetProject(_)) => next = Ok(newer),\n                    Ok(other) => { backlog = Some(other); break }\n                    Err(_) => break,\n                }\n            }\n            match next {\n                Ok(command) => match command {\n"), (C, "    'program: loop {\n        'input: loop {\n", "    let mut backlog = None;\n    'program: loop {\n        'input: loop {\n")], """
    let w = Web::new();
    let big = format!("{}{}", BIG, "");
    let big = big.replacen("<notes></notes>", &format!("<notes>{}</notes>", "x y &amp; ".repeat(4_000_000)), 1);
    w.upload(&big);
    w.upload(GOOD);
    w.upload(BAD);
    until(30_000, || text(&w.out).contains("load error"));
    w.input("start");
    ms(300);
    println!("{:?} {}", said(&text(&w.out)).into_iter().filter(|x| x.contains(" > ")).collect::<Vec<_>>(), w.project() == GOOD);
""", "a good upload and a bad one waiting while the server is busy loading another", "an upload followed closely by one that cannot be loaded is dropped", big=proj(go(say("big")), name="big"), good=proj(go(say("good")), name="good"), bad=proj(key("nokey", say("1")), name="bad"))
seed("c02-paused-deaf", "C02", [(C, "                    ServerCommand::Input(input) => {\n                        if let Input::Start = &input {\n", "                    ServerCommand::Input(Input::Stop) if !weak_state.upgrade().map(|state| state.running.load(MemoryOrder::Relaxed)).unwrap_or(true) => (),\n                    ServerCommand::Input(input) => {\n                        if let Input::Start = &input {\n")], """
    let w = Web::new();
    w.upload(P);
    w.input("start");
    ms(200);
    w.toggle();
    ms(100);
    w.input("stop");
    ms(100);
    w.pull();
    w.toggle();
    ms(300);
    println!("output after the stop: {}", !w.pull()["output"].as_str().unwrap().is_empty());
""", "a stop sent while the project is paused", "a stop is ignored while paused", p=proj(go(forever(say("1"), wait(0.02)))))
seed("c02-trimmed", "C02", [(C, "                Ok(content) => {\n                    state.proj_sender.lock().unwrap().send(ServerCommand::SetProject(content)).unwrap();\n", "                Ok(content) => {\n                    state.proj_sender.lock().unwrap().send(ServerCommand::SetProject(content.trim().into())).unwrap();\n")], """
    let w = Web::new();
    let x = format!("{P}\\r\\n");
    w.upload(&x);
    until(3_000, || text(&w.out).contains("loaded project"));
    ms(200);
    println!("unchanged: {}", w.project() == x);
""", "a project file that ends in a line break", "the project shown is not the one uploaded", p=proj(go(say("1"))))
seed("c02-lenient-input", "C02", [(C, "                Ok(input) => match input.as_str() {\n                    \"start\" =>", "                Ok(input) => match input.trim_matches(char::is_control) {\n                    \"start\" =>")], """
    let w = Web::new();
    w.upload(P);
    println!("{}", w.http("POST", "/input", b"start\\n").0);
    ms(300);
    println!("{:?}", said(w.pull()["output"].as_str().unwrap()));
""", "an input request with a control character around its text", "an ill-formed input request is obeyed", p=proj(go(say("1"))))

# ---------------------------------------------------------------- C03
seed("c03-late-pause", "C03", [(C, "                        state.running.store(false, MemoryOrder::Relaxed);\n                        break\n", "                        state.running.store(false, MemoryOrder::Relaxed);\n")], """
    let w = Web::new();
    w.upload(P);
    w.input("start");
    ms(300);
    println!("{:?}", said(w.pull()["output"].as_str().unwrap()));
""", "a script that has more to do in the round in which it pauses the project", "scripts go on for some steps after a pause block", p=proj(go(say("1"), pause(), say("2"))))
seed("c03-load-resumes", "C03", [(C, "                                Ok(x) => {\n                                    env = x;\n", "                                Ok(x) => {\n                                    env = x;\n                                    state.running.store(true, MemoryOrder::Relaxed);\n")], """
    let w = Web::new();
    w.upload(P);
    ms(200);
    w.toggle();
    println!("running: {}", w.pull()["running"]);
    w.upload(P);
    ms(300);
    println!("running: {}", w.pull()["running"]);
""", "an upload while paused", "loading a project resumes a paused server", p=proj(go(say("1"))))
seed("c03-error-hides-pause", "C03", [(C, "                        state.errors.lock().unwrap().push(summary);\n                    }\n                    ProjectStep::Pause =>", "                        state.errors.lock().unwrap().push(summary);\n                        failed = true;\n                    }\n                    ProjectStep::Pause if failed => failed = false,\n                    ProjectStep::Pause =>"),
    (C, "            let mut proj = env.proj.borrow_mut(mc);\n            for _ in 0..STEPS_PER_IO_ITER {\n                let res = proj.step(mc);\n                match &res {\n", "            let mut proj = env.proj.borrow_mut(mc);\n            let mut failed = false;\n            for _ in 0..STEPS_PER_IO_ITER {\n                let res = proj.step(mc);\n                match &res {\n")], """
    let w = Web::new();
    w.upload(P);
    w.input("start");
    ms(300);
    let p = w.pull();
    println!("running: {} {:?}", p["running"], said(p["output"].as_str().unwrap()));
""", "an error in the same round of steps as a later pause block", "a pause block is ignored if another script has just failed", p=proj(go(say("1"), throw("bad")), go(say("a"), say("b"), pause(), say("c"))))
seed("c03-stop-pauses", "C03", [(C, "                        if let Input::Start = &input {\n                            if let Some(state) = weak_state.upgrade() {\n                                state.running.store(true, MemoryOrder::Relaxed);\n", "                        if matches!(&input, Input::Start | Input::Stop) {\n                            if let Some(state) = weak_state.upgrade() {\n                                state.running.store(true, MemoryOrder::Relaxed);\n")], """
    let w = Web::new();
    w.upload(P);
    w.input("start");
    ms(200);
    w.toggle();
    println!("running: {}", w.pull()["running"]);
    w.input("stop");
    ms(300);
    println!("running: {}", w.pull()["running"]);
""", "a stop while paused", "a stop resumes a paused server", p=proj(go(say("1"))))

# ---------------------------------------------------------------- C04
seed("c04-last-asker", "C04", [(C, "if let Some((_, res_key)) = input_queries.borrow_mut().pop_front() {", "if let Some((_, res_key)) = input_queries.borrow_mut().pop_back() {")], """
    let mut t = Tty::new(P);
    ms(300);
    println!("{}", t.bottom());
    t.keys(&["a", "\\r"]);
    ms(200);
    println!("{}", t.bottom());
    t.keys(&["b", "\\r"]);
    ms(200);
    println!("{:?}", t.said());
""", "two scripts asking at once", "the answer goes to the script that asked last", p=proj(go(ask("first?")), go(wait(0.1), ask("second?"))))
seed("c04-narrow-backspace", "C04", [(C, "RawKeyCode::Backspace => if in_input_mode() && input_value.pop().is_some() { update_flag.set(true) }", "RawKeyCode::Backspace => if in_input_mode() && !input_value.is_empty() { input_value.truncate(input_value.len().saturating_sub(1)); update_flag.set(true) }")], """
    let mut t = Tty::new(P);
    ms(300);
    t.keys(&["a", "\\u{e9}", "\\x7f", "b", "\\r"]);
    ms(300);
    println!("{:?} ended: {:?}", t.said(), t.code(100));
""", "deleting a character that is not ASCII", "the program crashes when such a character is deleted", p=proj(go(ask("first?"))))
seed("c04-resize-clears", "C04", [(C, "                    term_size = (c, r);\n                    update_flag.set(true);\n", "                    if (c, r) != term_size { input_value.clear() }\n                    term_size = (c, r);\n                    update_flag.set(true);\n")], """
    let mut t = Tty::new(P);
    ms(300);
    t.keys(&["a"]);
    t.resize(100, 30);
    t.keys(&["b", "\\r"]);
    ms(300);
    println!("{:?}", t.said());
""", "a change of the terminal's size while something is being typed", "what has been typed is lost", p=proj(go(ask("first?"))))
seed("c04-stale-line", "C04", [(C, "RawKeyCode::Enter => if let Some((_, res_key)) = input_queries.borrow_mut().pop_front() {\n                        res_key.complete(Ok(SimpleValue::Text(mem::take(&mut input_value)).into()));\n                        update_flag.set(true);\n                    }", "RawKeyCode::Enter => {\n                        let answered = input_queries.borrow_mut().pop_front();\n                        if let Some((_, res_key)) = answered {\n                            res_key.complete(Ok(SimpleValue::Text(mem::take(&mut input_value)).into()));\n                            update_flag.set(!in_input_mode());\n                        }\n                    }")], """
    let mut t = Tty::new(P);
    ms(400);
    println!("{}", t.bottom());
    t.keys(&["\\r"]);
    ms(200);
    println!("{}", t.bottom());
""", "an answer while another question waits", "the question shown is one that has been answered", p=proj(go(b("doAsk", l("first?")), wait(20)), go(wait(0.1), b("doAsk", l("second?")))))
seed("c04-arrow-typed", "C04", [(C, "RawKeyCode::Left => if !in_input_mode() { input_sequence.push(Input::KeyDown { key: KeyCode::Left }) }", "RawKeyCode::Left => if input_value.is_empty() { input_sequence.push(Input::KeyDown { key: KeyCode::Left }) }")], """
    let mut t = Tty::new(P);
    ms(300);
    t.keys(&["\\x1b[D", "a", "\\r"]);
    ms(300);
    println!("{:?}", t.said());
""", "an arrow key while a question is shown and nothing has been typed yet", "a key meant for the question runs key scripts", p=proj(go(ask("first?")), key("left arrow", say("left"))))

# ---------------------------------------------------------------- C05
seed("c05-first-role", "C05", [(C, "            1 => parsed.roles.into_iter().next().unwrap(),\n            count =>", "            _ if parsed.roles.iter().any(|x| x.name == parsed.name) => { let name = parsed.name.clone(); parsed.roles.into_iter().find(|x| x.name == name).unwrap() }\n            1 => parsed.roles.into_iter().next().unwrap(),\n            count =>")], """
    let (code, out, err) = plain("run", Some(P.as_bytes()), None, 1500);
    println!("{code:?} {:?} {}", said(&out), !err.is_empty());
""", "a project of several roles, one of which bears the name of the project", "the program picks a role where none was chosen", p=room(role("a", go(say("1"))), role("proj", go(say("2"))), name="proj"))
seed("c05-role-prefix", "C05", [(C, "Some(role) => match parsed.roles.into_iter().find(|x| x.name == role) {", "Some(role) => match parsed.roles.into_iter().find(|x| x.name.trim() == role.trim()) {")], """
    for r in ["a", "a ", " b"] {
        let (code, out, err) = plain("run", Some(P.as_bytes()), Some(r), 1500);
        println!("{code:?} {:?} {}", said(&out), !err.is_empty());
    }
""", "role names that differ only in surrounding spaces", "a role other than the one asked for is run", p=room(role("a", go(say("1"))), role("b", go(say("2"))), name="proj"))
seed("c05-lossy", "C05", [(C, "    let mut s = String::new();\n    file.read_to_string(&mut s)?;\n    Ok(s)\n", "    let mut s = Vec::new();\n    file.read_to_end(&mut s)?;\n    Ok(String::from_utf8_lossy(&s).into_owned())\n")], """
    let mut p = P.as_bytes().to_vec();
    let i = P.find("note").unwrap() + 8;
    p.insert(i, 0xff);
    let (code, out, err) = plain("run", Some(&p), None, 1500);
    println!("{code:?} {:?} {}", said(&out), !err.is_empty());
""", "a project file with a byte that is no text", "a file that cannot be read as text is run", p=room(role("a", go(say("1")), notes="some text")))
seed("c05-quiet-errors", "C05", [(C, "                if let ProjectStep::Error { error, proc: _ } = &res {\n                    println!(\"\\n>>> runtime error: {:?}\\n\", error.cause);\n                }\n", "                if let ProjectStep::Error { error, proc: _ } = &res {\n                    let text = format!(\"\\n>>> runtime error: {:?}\\n\", error.cause);\n                    if text != last_error { println!(\"{text}\") }\n                    last_error = text;\n                }\n"),
    (C, "    env.mutate(|mc, env| env.proj.borrow_mut(mc).input(mc, Input::Start));\n\n    let mut next_collect = clock.read(Precision::Medium) + COLLECT_INTERVAL;\n    loop {\n", "    env.mutate(|mc, env| env.proj.borrow_mut(mc).input(mc, Input::Start));\n\n    let mut last_error = String::new();\n    let mut next_collect = clock.read(Precision::Medium) + COLLECT_INTERVAL;\n    loop {\n")], """
    let (_, out, _) = plain("run", Some(P.as_bytes()), None, 1500);
    println!("{}", out.matches("runtime error").count());
""", "two scripts failing in the same way one after the other", "an error equal to the one before it is not reported", p=proj(go(throw("bad")), go(wait(0.1), throw("bad"))))

# ---------------------------------------------------------------- terminal and compile errors, found by mutation
seed("c04-print-no-redraw", "C04", [(C, "                        print!(\"{entity:?} > {value:?}\\r\\n\");\n                        update_flag.set(true);\n", "                        print!(\"{entity:?} > {value:?}\\r\\n\");\n")], """
    let mut t = Tty::new(P);
    ms(1200);
    let all = text(&t.out);
    let drawn = all.rfind("\\x1b8").unwrap_or(0);
    println!("drawn after the print: {}", all.rfind("while").unwrap() < drawn);
    t.keys(&["a", "\\r"]);
    ms(200);
    println!("{:?}", t.said());
""", "something printed while a question waits and nothing else happens", "the question is scrolled away from the last row and not drawn again", p=proj(go(ask("first?")), go(wait(0.3), say("while"))))
seed("c04-no-flush", "C04", [(C, "            queue!(stdout(), cursor::RestorePosition).unwrap();\n            stdout().flush().unwrap();\n", "            queue!(stdout(), cursor::RestorePosition).unwrap();\n            if input_value.is_empty() { stdout().flush().unwrap(); }\n")], """
    let mut t = Tty::new(P);
    ms(400);
    t.keys(&["a", "b"]);
    ms(300);
    println!("{}", t.bottom());
    t.keys(&["\\r"]);
    ms(200);
    println!("{:?}", t.said());
""", "typing while nothing is printed", "what is typed does not appear until a line is printed", p=proj(go(ask("first?"))))
seed("c05-silent-uncompilable", "C05", [(C, "            println!(\">>> error loading project: {e:?}\");\n            return;\n", "            let _ = e;\n            return;\n")], """
    let (code, out, err) = plain("run", Some(P.as_bytes()), None, 1500);
    println!("{code:?} {:?} {}", said(&out), out.contains("error") || err.contains("error"));
""", "a project that parses but cannot be compiled, run without a terminal", "nothing tells the user why the program ends", p=proj(go(say("1")), key("nokey", say("1"))))
