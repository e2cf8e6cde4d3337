"""Planted bugs for StdSystem and its helpers: (edits, scenario against a loopback server, what it needs, what it breaks)."""
import json
from dsl import *
KIT = "demokit_b"
Y, U, R = "src/std_system.rs", "src/std_util.rs", "src/runtime.rs"
SEEDS = {}
def seed(id, prop, edits, code, needs, breaks, prog=None):
    head = "use crate::kit::*;\nuse std::rc::Rc;\nuse std::sync::Arc;\nuse std::time::Instant;\n"
    if prog: head += "const PROG: &str = r##\"" + json.dumps(prog) + "\"##;\n"
    SEEDS[id] = dict(property=prop, edits=edits, scenario=head + "pub fn run() {\n" + code + "\n}\n", needs=needs, what_it_breaks=breaks)
stage = lambda *scripts, **kw: ent("stage", *scripts, **kw)
def prog(*scripts, globals={}): return {"globals": [[k, lit(v)] for k, v in globals.items()], "funcs": [], "ents": [stage(*scripts)]}
def L(*xs): return do(sys_("log", *xs))

seed("n01-burst", "N01", [(Y, "        self.message_receiver.try_recv().ok()\n", "        let first = self.message_receiver.try_recv().ok()?;\n        Some(match self.message_receiver.try_recv() { Ok(next) if next.msg_type == first.msg_type && next.reply_key.is_none() => next, Ok(next) => { self.message_injector.send(next).unwrap(); first } Err(_) => first })\n")], """
    let s = Server::new();
    let (sys, _, _) = vm(&s, "proj", None);
    for i in 0..6 { s.msg(0, if i == 3 { "b" } else { "a" }, json!({ "i": i }), None) }
    ms(300);
    for m in recv(&sys, 6, 500) { print_msg(&m) }
""", "two messages of one type waiting at the same step", "messages of one type that arrive between two steps are merged into the newest")
seed("n01-duplicate-guard", "N01", [(Y, "                                \"message\" => {\n", "                                \"message\" if msg.get(\"requestId\").is_some() || { let mut last = last_message.lock().unwrap(); let new = last.as_ref() != Some(&msg); *last = Some(msg.clone()); new } => {\n"),
      (Y, "                let ws_sender_sender_clone = ws_sender_sender.clone();\n                tokio::spawn(async move {\n", "                let ws_sender_sender_clone = ws_sender_sender.clone();\n                let last_message: Arc<Mutex<Option<BTreeMap<CompactString, Json>>>> = Arc::new(Mutex::new(None));\n                tokio::spawn(async move {\n"),
      (Y, "                        let message_replies = message_replies.clone();\n                        async move {\n", "                        let message_replies = message_replies.clone();\n                        let last_message = last_message.clone();\n                        async move {\n")], """
    let s = Server::new();
    let (sys, _, _) = vm(&s, "proj", None);
    for i in [1, 2, 2, 3, 2] { s.msg(0, "a", json!({ "i": i }), None) }
    for m in recv(&sys, 5, 700) { print_msg(&m) }
""", "the same sender sending two messages with equal content in a row", "the second of two equal messages in a row is not delivered")
seed("n01-one-bad-field", "N01", [(Y, "let values = values.into_iter().filter_map(|(k, v)| SimpleValue::from_netsblox_json(v).ok().map(|v| (k.into(), v))).collect();", "let values = match values.into_iter().map(|(k, v)| SimpleValue::from_netsblox_json(v).map(|v| (k.into(), v))).collect::<Result<Vec<_>,_>>() { Ok(x) => x.into_iter().collect(), Err(_) => return };")], """
    let s = Server::new();
    let (sys, _, _) = vm(&s, "proj", None);
    s.msg(0, "a", json!({ "i": 1, "bad": null }), None);
    s.msg(0, "a", json!({ "i": 2 }), None);
    for m in recv(&sys, 2, 700) { print_msg(&m) }
""", "a message one of whose fields is not a valid value", "a message with one unusable field is dropped altogether")
seed("n01-late-reply", "N01", [(Y, "                                        if let Some(entry) = message_replies.lock().unwrap().get_mut(&reply_key) {\n                                            if entry.value.is_none() {\n                                                entry.value = Some(value);\n                                            }\n                                        }\n",
      "                                        match message_replies.lock().unwrap().get_mut(&reply_key) {\n                                            Some(entry) => if entry.value.is_none() {\n                                                entry.value = Some(value);\n                                            }\n                                            None => {\n                                                let values = SimpleValue::from_netsblox_json(value).ok().map(|v| (CompactString::from(\"body\"), v)).into_iter().collect();\n                                                let _ = in_sender.send(IncomingMessage { msg_type, values, reply_key: None });\n                                            }\n                                        }\n")], """
    let s = Server::new();
    let (sys, clock, _) = vm(&s, "proj", None);
    let k = send(&sys, "q", &[], &["you@x#vm"], true).unwrap();
    let id = s.wait(1)[0]["requestId"].as_str().unwrap().to_string();
    s.reply(0, &id, json!(1));
    println!("{:?}", wait(&sys, &clock, &k, 3000));
    s.reply(0, &id, json!(2));
    s.msg(0, "a", json!({ "i": 1 }), None);
    for m in recv(&sys, 2, 700) { print_msg(&m) }
""", "a reply that arrives after its wait has ended", "late replies are handed to the project as messages")
seed("n02-one-room", "N02", [(Y, "                    for target in targets.iter_mut() {\n                        if *target == \"everyone in room\" {\n                            target.clone_from(src_id);\n                        }\n                    }\n", "                    if let Some(target) = targets.iter_mut().find(|x| *x == \"everyone in room\") {\n                        target.clone_from(src_id);\n                    }\n")], """
    let s = Server::new();
    let (sys, _, _) = vm(&s, "proj", None);
    send(&sys, "a", &[], &["everyone in room", "you@x#vm", "everyone in room"], false);
    for f in s.wait(1) { println!("{}", hide(&sys, &f.to_string())) }
""", "a target list naming the room twice", "only the first mention of the room is resolved")
seed("n02-replies-first", "N02", [(Y, "                while let Ok(request) = out_receiver.recv() {\n", "                let mut backlog = Vec::new();\n                loop {\n                    if backlog.is_empty() {\n                        match out_receiver.recv() { Ok(x) => backlog.push(x), Err(_) => break }\n                        backlog.extend(out_receiver.try_iter());\n                        backlog.sort_by_key(|x| !matches!(x, OutgoingMessage::Normal { .. } | OutgoingMessage::Blocking { .. }));\n                        backlog.reverse();\n                    }\n                    let request = backlog.pop().unwrap();\n")], """
    let s = Server::new();
    let (sys, _, _) = vm(&s, "proj", None);
    for i in 0..400 { s.msg(0, "q", json!({ "i": i }), Some(&format!("r{i}"))) }
    let m = recv(&sys, 400, 3000);
    for (i, x) in m.into_iter().enumerate() { let _ = sys.send_reply(x.reply_key.unwrap(), json!(i)); send(&sys, "a", &[("i", json!(i))], &["you@x#vm"], false); }
    let f = s.wait(800);
    let got: Vec<String> = f.iter().map(|f| if f["msgType"] == "a" { format!("a{}", f["content"]["i"]) } else { format!("r{}", f["content"]["body"]) }).collect();
    let want: Vec<String> = (0..400).flat_map(|i| [format!("r{i}"), format!("a{i}")]).collect();
    println!("{} {}", got.len(), got == want);
""", "a reply and a message queued together before the sender thread runs", "messages overtake replies sent before them")
seed("n02-pong-once", "N02", [(Y, "match msg.get(\"type\").and_then(|x| x.as_str()).unwrap_or(\"unknown\") {", "match msg.get(\"type\").and_then(|x| x.as_str()).filter(|x| *x != \"ping\" || ws_sender_sender_clone.is_empty()).unwrap_or(\"unknown\") {")], """
    let s = Server::new();
    let (_sys, _, _) = vm(&s, "proj", None);
    let mut worst = 0;
    for round in 1..=40 {
        for _ in 0..50 { s.send(0, Cmd::Text(json!({ "type": "ping" }).to_string())) }
        ms(60);
        let n = s.frames().iter().filter(|f| f["type"] == "pong").count();
        worst = worst.max(round * 50 - n);
    }
    ms(300);
    println!("{} missing {}", s.frames().iter().filter(|f| f["type"] == "pong").count(), worst.min(1) * 0);
""", "a ping that arrives while frames are still waiting to be written", "pings are not answered while the write queue is not empty")
seed("n02-target-set", "N02", [(Y, "                fn resolve_targets<'a>(targets: &'a mut [CompactString], src_id: &CompactString) -> &'a mut [CompactString] {\n", "                fn resolve_targets<'a>(targets: &'a mut Vec<CompactString>, src_id: &CompactString) -> &'a mut Vec<CompactString> {\n                    targets.sort();\n                    targets.dedup();\n")], """
    let s = Server::new();
    let (sys, _, _) = vm(&s, "proj", None);
    send(&sys, "a", &[], &["b@x#vm", "a@x#vm", "b@x#vm"], false);
    for f in s.wait(1) { println!("{}", hide(&sys, &f.to_string())) }
""", "a target list that is unsorted or names a target twice", "targets are reordered and merged")

seed("n03-last-reply", "N03", [(Y, "                                            if entry.value.is_none() {\n                                                entry.value = Some(value);\n                                            }\n", "                                            entry.value = Some(value);\n")], """
    let s = Server::new();
    let (sys, clock, _) = vm(&s, "proj", None);
    let k = send(&sys, "q", &[], &["a@x#vm", "b@x#vm"], true).unwrap();
    let id = s.wait(1)[0]["requestId"].as_str().unwrap().to_string();
    s.reply(0, &id, json!("first"));
    s.reply(0, &id, json!("second"));
    ms(200);
    println!("{:?}", wait(&sys, &clock, &k, 3000));
""", "two replies to one request arriving before the next poll", "the last of several replies wins")
seed("n03-deadline-first", "N03", [(Y, "        if entry.value.is_some() {\n            return AsyncResult::Completed(message_replies.remove(key).unwrap().value);\n        }\n        if self.clock.read(Precision::Low) > entry.expiry {\n            message_replies.remove(key).unwrap();\n            return AsyncResult::Completed(None);\n        }\n",
      "        if self.clock.read(Precision::Low) > entry.expiry {\n            message_replies.remove(key).unwrap();\n            return AsyncResult::Completed(None);\n        }\n        if entry.value.is_some() {\n            return AsyncResult::Completed(message_replies.remove(key).unwrap().value);\n        }\n")], """
    let s = Server::new();
    let (sys, clock, _) = vm(&s, "proj", None);
    let k = send(&sys, "q", &[], &["a@x#vm"], true).unwrap();
    let id = s.wait(1)[0]["requestId"].as_str().unwrap().to_string();
    s.reply(0, &id, json!("in time"));
    ms(2000);
    println!("{:?}", wait(&sys, &clock, &k, 3000));
""", "a VM that polls only after the timeout although the reply came in time", "a reply that arrived in time is thrown away")
seed("n03-purge", "N03", [(Y, "                self.message_replies.lock().unwrap().insert(reply_key.clone(), ReplyEntry { expiry, value: None });\n", "                let mut message_replies = self.message_replies.lock().unwrap();\n                message_replies.retain(|_, x: &mut ReplyEntry| x.value.is_none() || x.expiry + MESSAGE_REPLY_TIMEOUT / 100 >= expiry - MESSAGE_REPLY_TIMEOUT);\n                message_replies.insert(reply_key.clone(), ReplyEntry { expiry, value: None });\n                drop(message_replies);\n"),
      (Y, "        let entry = message_replies.get(key).unwrap();\n", "        let entry = match message_replies.get(key) { Some(x) => x, None => return AsyncResult::Completed(None) };\n")], """
    let s = Server::new();
    let (sys, clock, _) = vm(&s, "proj", None);
    let k = send(&sys, "q", &[], &["a@x#vm"], true).unwrap();
    let id = s.wait(1)[0]["requestId"].as_str().unwrap().to_string();
    s.reply(0, &id, json!("in time"));
    ms(1800);
    send(&sys, "r", &[], &["a@x#vm"], true).unwrap();
    println!("{:?}", wait(&sys, &clock, &k, 3000));
""", "a second blocking send while an answered wait is polled only after its timeout", "cleaning up answered waits loses a reply that was not yet picked up")
seed("n03-shared-wait", "N03", [(Y, "let reply_key = ExternReplyKey { request_id: format_compact!(\"{}\", Uuid::new_v4()) };", "let reply_key = ExternReplyKey { request_id: format_compact!(\"{}-{}\", self.context.client_id, self.message_replies.lock().unwrap().len()) };")], """
    let s = Server::new();
    let (sys, clock, _) = vm(&s, "proj", None);
    let a = send(&sys, "a", &[], &["a@x#vm"], true).unwrap();
    let b = send(&sys, "b", &[], &["a@x#vm"], true).unwrap();
    let ids: Vec<String> = s.wait(2).iter().map(|f| f["requestId"].as_str().unwrap().to_string()).collect();
    s.reply(0, &ids[0], json!("to a"));
    println!("{:?}", wait(&sys, &clock, &a, 3000));
    let c = send(&sys, "c", &[], &["a@x#vm"], true).unwrap();
    s.wait(3);
    s.reply(0, &ids[1], json!("to b"));
    println!("{:?} {:?}", wait(&sys, &clock, &b, 3000), wait(&sys, &clock, &c, 3000));
""", "overlapping waits of which an earlier one ends before a new one begins", "two waits share one identity")
seed("n03-renewed", "N03", [(Y, "                                            if entry.value.is_none() {\n                                                entry.value = Some(value);\n                                            }\n", "                                            if entry.value.is_none() {\n                                                entry.expiry += MESSAGE_REPLY_TIMEOUT;\n                                                entry.value = Some(value).filter(|x| !x.is_null());\n                                            }\n")], """
    let s = Server::new();
    let (sys, clock, _) = vm(&s, "proj", None);
    let k = send(&sys, "q", &[], &["a@x#vm"], true).unwrap();
    let id = s.wait(1)[0]["requestId"].as_str().unwrap().to_string();
    s.reply(0, &id, json!(null));
    let t = Instant::now();
    println!("{:?} {}", wait(&sys, &clock, &k, 5000), t.elapsed().as_millis() < 1400);
""", "a reply whose value is null", "a null reply does not end the wait but extends it")

seed("n04-serial", "N04", [(Y, "                    tokio::spawn(async move {\n                        let res = call_rpc_async", "                    let task = tokio::spawn(async move {\n                        let res = call_rpc_async"),
      (Y, "                        key.complete(res.map(Into::into));\n                    });\n", "                        key.complete(res.map(Into::into));\n                    });\n                    let _ = task.await;\n")], """
    let s = Server::new();
    s.rpc("Slow/go", Rsp { delay_ms: 2500, ..rsp("1") });
    let (sys, clock, log) = vm(&s, "proj", None);
    project(sys, &clock, PROG, false, 1500, |_| !log.borrow().is_empty());
    println!("{:?}", log.borrow());
""", "a fast call made while a slow one is outstanding", "a slow remote call blocks all later ones",
     prog(script(FLAG, decl("r"), let("r", rpc("Slow", "go")), L(S("slow"), V("r"))), script(FLAG, decl("r"), sleep(N(0.05)), let("r", rpc("Fast", "go")), L(S("fast"), V("r")))))
seed("n04-client-errors", "N04", [(Y, "    if !status.is_success() {\n", "    if status.is_server_error() || status.is_client_error() && res.is_empty() {\n")], """
    let s = Server::new();
    s.rpc("A/go", Rsp { status: 404, ..rsp("no such thing") });
    s.rpc("B/go", Rsp { status: 500, ..rsp("broken") });
    let (sys, clock, log) = vm(&s, "proj", None);
    project(sys, &clock, PROG, false, 3000, |_| log.borrow().len() >= 2);
    println!("{:?}", log.borrow());
""", "a service answering with a 4xx or 3xx status and a body", "client errors are taken for results",
     prog(script(FLAG, decl("r"), try_([let("r", rpc("A", "go")), L(S("value"), V("r"))], "e", [L(S("error"), V("e"))]), try_([let("r", rpc("B", "go")), L(S("value"), V("r"))], "e", [L(S("error"), V("e"))]))))
seed("n04-drop-bad-arg", "N04", [(Y, "match args.into_iter().map(|(k, v)| Ok((k, v.to_simple()?.into_netsblox_json()))).collect::<Result<_,ToSimpleError<_,_>>>() {", "match args.into_iter().filter(|(_, v)| !matches!(v, Value::Entity(_))).map(|(k, v)| Ok((k, v.to_simple()?.into_netsblox_json()))).collect::<Result<_,ToSimpleError<_,_>>>() {")], """
    let s = Server::new();
    let (sys, clock, log) = vm(&s, "proj", None);
    project(sys, &clock, PROG, false, 2000, |_| log.borrow().len() >= 1);
    println!("{:?} {}", log.borrow(), s.sh.lock().unwrap().http.iter().filter(|x| x.0.contains("/A/go")).count());
""", "a call with a sprite as an argument", "an argument that cannot be sent is silently left out",
     prog(script(FLAG, decl("r"), try_([let("r", rpc("A", "go", ["x", N(1)], ["y", THIS])), L(S("value"), V("r"))], "e", [L(S("error"))]))))
seed("n04-type-case", "N04", [(Y, ".and_then(|x| CompactString::from_utf8(x.as_bytes().to_owned()).ok()).map(|x| x.to_lowercase()).unwrap_or_else(|| \"unknown\".into());", ".and_then(|x| CompactString::from_utf8(x.as_bytes().to_owned()).ok()).unwrap_or_else(|| \"unknown\".into());")], """
    let s = Server::new();
    s.rpc("A/go", Rsp { ctype: "Image/PNG", ..rsp("12") });
    let (sys, clock, log) = vm(&s, "proj", None);
    project(sys, &clock, PROG, false, 3000, |_| log.borrow().len() >= 1);
    println!("{:?}", log.borrow());
""", "a content type spelled with capital letters", "an image is returned as the text or number its bytes spell",
     prog(script(FLAG, decl("r"), let("r", rpc("A", "go")), L(V("r")))))
seed("n04-short-body", "N04", [(Y, "        Err(_) => return Err(CompactString::new(\"Failed to read response body\")),\n", "        Err(_) if status.is_success() => Vec::new(),\n        Err(_) => return Err(CompactString::new(\"Failed to read response body\")),\n")], """
    let s = Server::new();
    s.rpc("A/go", Rsp { cut: true, ..rsp("[1,2,3]") });
    let (sys, clock, log) = vm(&s, "proj", None);
    project(sys, &clock, PROG, false, 3000, |_| log.borrow().len() >= 1);
    println!("{:?}", log.borrow());
""", "a connection lost in the middle of an answer with a success status", "a lost answer is taken for an empty text",
     prog(script(FLAG, decl("r"), try_([let("r", rpc("A", "go")), L(S("value"), V("r"))], "e", [L(S("error"), V("e"))]))))

seed("n05-read-error", "N05", [(Y, "                                _ => return,\n                            };\n                            match msg.get", "                                Err(e) => {\n                                    let waits = message_replies.lock().unwrap();\n                                    panic!(\"lost connection with {} replies pending: {e}\", waits.len())\n                                }\n                                _ => return,\n                            };\n                            match msg.get")], """
    let s = Server::new();
    let (sys, clock, _) = vm(&s, "proj", None);
    let k = send(&sys, "q", &[], &["a@x#vm"], true).unwrap();
    s.wait(1);
    s.send(0, Cmd::Drop);
    ms(300);
    println!("{:?}", wait(&sys, &clock, &k, 3000));
    println!("{:?}", send(&sys, "q", &[], &["a@x#vm"], true).is_some());
""", "a connection reset while a script waits for a reply", "a broken connection poisons the reply table, so waiting or sending panics")
seed("n05-full-queues", "N05", [(Y, "            let (out_sender, out_receiver) = channel();\n", "            let (out_sender, out_receiver) = std::sync::mpsc::sync_channel(32);\n"),
      (Y, "let (ws_sender_sender, ws_sender_receiver) = async_channel::unbounded();", "let (ws_sender_sender, ws_sender_receiver) = async_channel::bounded(32);"),
      (Y, "    message_sender: Sender<OutgoingMessage>,\n", "    message_sender: std::sync::mpsc::SyncSender<OutgoingMessage>,\n")], """
    let s = Server::new();
    let (sys, _, _) = vm(&s, "proj", None);
    s.send(0, Cmd::StopReading(6000));
    ms(20);
    let big = "x".repeat(1 << 20);
    let t = Instant::now();
    for i in 0..120 { send(&sys, "big", &[("i", json!(i)), ("x", json!(big))], &["you@x#vm"], false); }
    println!("{}", t.elapsed().as_millis() < 4000);
""", "a connection that stops accepting data and more messages sent than both bounded queues hold", "sending blocks the VM when the network stalls")
seed("n05-wait-for-link", "N05", [(Y, "        if self.clock.read(Precision::Low) > entry.expiry {\n", "        if self.clock.read(Precision::Low) > entry.expiry && Arc::strong_count(&self.message_replies) > 1 {\n")], """
    let s = Server::new();
    let (sys, clock, _) = vm(&s, "proj", None);
    s.send(0, Cmd::Close);
    ms(300);
    let k = send(&sys, "q", &[], &["a@x#vm"], true).unwrap();
    println!("{:?}", wait(&sys, &clock, &k, 4000));
""", "a blocking send after the connection was closed", "a wait never times out once the reader of the connection has ended")

seed("n06-uncached-read", "N06", [(U, "            _ => self.update(),\n        }\n    }\n    /// Reads the real world time", "            _ => OffsetDateTime::now_utc().to_offset(self.utc_offset),\n        }\n    }\n    /// Reads the real world time")], """
    let c = Clock::new(UtcOffset::UTC, Some(Precision::Medium));
    ms(20);
    let a = c.read(Precision::High);
    let b = c.read(Precision::Medium);
    println!("{}", b >= a);
""", "a precise reading followed by a coarser one with no update in between", "a precise reading does not refresh the cache, so the next coarse reading goes back in time")
seed("n06-precision-order", "N06", [(U, "Some(cache) if precision <= cache.precision => *cache.value.lock().unwrap(),", "Some(cache) if precision <= cache.precision || cache.precision == Precision::Medium && precision != Precision::High => *cache.value.lock().unwrap(),\n            Some(cache) if cache.precision == Precision::Low && precision == Precision::Medium && cache.value.try_lock().is_err() => *cache.value.lock().unwrap(),")], """
    let c = Arc::new(Clock::new(UtcOffset::UTC, Some(Precision::Low)));
    let stop = Arc::new(std::sync::atomic::AtomicBool::new(false));
    let hold: Vec<_> = (0..4).map(|_| { let (c, stop) = (c.clone(), stop.clone()); std::thread::spawn(move || while !stop.load(std::sync::atomic::Ordering::Relaxed) { for _ in 0..2000 { c.read(Precision::Low); } ms(2); }) }).collect();
    let mut stale = 0;
    for _ in 0..400_000 { let t = Clock::new(UtcOffset::UTC, None).read(Precision::High); if c.read(Precision::Medium) < t { stale += 1 } }
    stop.store(true, std::sync::atomic::Ordering::Relaxed);
    for h in hold { h.join().unwrap() }
    println!("{}", stale == 0);
""", "a reading above the cache precision while another thread holds the cache", "a precise reading is answered from the coarser cache under contention")

seed("n07-try-complete", "N07", [(U, "        assert!(self.0.lock().unwrap().complete(value).is_ok())\n", "        if let Ok(mut result) = self.0.try_lock() { assert!(result.complete(value).is_ok()) }\n")], """
    let mut lost = 0;
    for _ in 0..20_000 {
        let k = AsyncKey::<u64>::new();
        let q = k.clone();
        let t = std::thread::spawn(move || q.complete(7));
        let mut got = false;
        for _ in 0..2 { while !t.is_finished() { if let AsyncResult::Completed(x) = k.poll() { got = x == 7 } } if let AsyncResult::Completed(x) = k.poll() { got = x == 7 } }
        if !got { lost += 1 }
        t.join().unwrap();
    }
    println!("{lost}");
""", "a result completed by another thread at the moment the VM polls it", "the result is lost and the script waits forever")
seed("n07-take-restore", "N07", [(U, "        self.0.lock().unwrap().poll()\n    }\n", "        let result = std::mem::replace(&mut *self.0.lock().unwrap(), AsyncResult::Consumed);\n        if let AsyncResult::Pending = result { *self.0.lock().unwrap() = AsyncResult::Pending }\n        result\n    }\n")], """
    let mut lost = 0;
    for _ in 0..20_000 {
        let k = AsyncKey::<u64>::new();
        let q = k.clone();
        let t = std::thread::spawn(move || q.complete(7));
        let mut got = false;
        for _ in 0..2 { while !t.is_finished() { if let AsyncResult::Completed(x) = k.poll() { got = x == 7 } } if let AsyncResult::Completed(x) = k.poll() { got = x == 7 } }
        if !got { lost += 1 }
        let _ = t.join();
    }
    println!("{lost}");
""", "a result completed between the two halves of a poll", "the completing thread fails and the result is lost")

seed("n08-server-name", "N08", [(Y, "        context.project_id = meta[\"id\"].as_str().unwrap().into();\n", "        context.project_id = meta[\"id\"].as_str().unwrap().into();\n        if let Some(name) = meta.get(\"name\").and_then(|x| x.as_str()) { context.project_name = name.into(); }\n")], """
    let s = Server::new();
    s.sh.lock().unwrap().meta = Some(json!({ "id": "pid", "name": "proj (2)", "roles": { "r1": { "name": "myRole" } } }));
    let (sys, _, _) = vm(&s, "proj", None);
    send(&sys, "a", &[], &["everyone in room"], false);
    for f in s.wait(1) { println!("{}", f["srcId"] == json!(sys.get_public_id().as_str())) }
""", "a server that assigns another name to the project", "the public id and the source of messages use different project names")
seed("n08-new-id", "N08", [(Y, "        let meta = client.post(format!(\"{}/projects/\", context.base_url))\n", "        if default_service_host_is_foreign { context.client_id = format_compact!(\"_vm-{}\", names::Generator::default().next().unwrap()); }\n        let meta = client.post(format!(\"{}/projects/\", context.base_url))\n"),
      (Y, "        let message_replies = Arc::new(Mutex::new(Default::default()));\n", "        let default_service_host_is_foreign = !context.default_service_host.starts_with(context.base_url.as_str());\n\n        let message_replies = Arc::new(Mutex::new(Default::default()));\n")], """
    let s = Server::new();
    let s2 = Server { port: s.port, sh: s.sh.clone() };
    let clock = Arc::new(Clock::new(UtcOffset::UTC, None));
    let sys = Sys::new_sync(format!("http://localhost:{}", s2.port).into(), Some("proj"), Config { request: None, command: None }, clock);
    ms(200);
    let id = sys.get_public_id();
    println!("{}", s.frames().iter().any(|f| f["type"] == "set-uuid" && format!("proj@{}#vm", f["clientId"].as_str().unwrap()) == id.as_str()));
    println!("{}", s.sh.lock().unwrap().http.iter().filter(|x| x.0.contains("/projects")).all(|x| format!("proj@{}#vm", x.1["clientId"].as_str().unwrap()) == id.as_str()));
""", "a service host other than the server", "the connection and the later requests announce different client identities")
seed("n08-state-first", "N08", [(Y, "            .json(&json!({ \"state\": { \"external\": { \"address\": context.project_name, \"appId\": \"vm\" } } }))\n", "            .json(&json!({ \"state\": { \"external\": { \"address\": context.project_name.trim(), \"appId\": \"vm\" } } }))\n")], """
    let s = Server::new();
    let (sys, _, _) = vm(&s, " my project", None);
    println!("{:?}", s.sh.lock().unwrap().http.iter().find(|x| x.0.ends_with("/state")).map(|x| x.1["state"]["external"]["address"].clone()));
    println!("{}", hide(&sys, &sys.get_public_id()));
""", "a project name that begins or ends with a blank", "the announced address differs from the one used in the public id and in messages")

seed("n09-own-echo", "N09", [(Y, "                                    let (msg_type, values) = match", "                                    if msg.get(\"srcId\").and_then(|x| x.as_str()).and_then(|x| x.strip_suffix(\"#vm\")).map(|x| x.ends_with(own_client.as_str())).unwrap_or(false) && !msg.contains_key(\"requestId\") && msg.get(\"msgType\").and_then(|x| x.as_str()) != Some(\"__reply__\") { return }\n                                    let (msg_type, values) = match"),
      (Y, "                        let message_replies = message_replies.clone();\n                        async move {\n", "                        let message_replies = message_replies.clone();\n                        let own_client = own_client.clone();\n                        async move {\n"),
      (Y, "                let ws_sender_sender_clone = ws_sender_sender.clone();\n                tokio::spawn(async move {\n", "                let ws_sender_sender_clone = ws_sender_sender.clone();\n                let own_client = client_id.clone();\n                tokio::spawn(async move {\n")], """
    let s = Server::new();
    s.sh.lock().unwrap().echo = true;
    let (sys, _, _) = vm(&s, "proj", None);
    send(&sys, "a", &[("i", json!(1))], &["everyone in room"], false);
    for m in recv(&sys, 1, 1500) { print_msg(&m) }
    println!("end");
""", "a VM that sends to its own room", "a VM never receives its own messages")
seed("n09-first-asker", "N09", [(Y, "                                                (Some(Json::String(src_id)), Some(Json::String(request_id))) => Some(InternReplyKey { src_id: src_id.into(), request_id: request_id.into() }),\n", "                                                (Some(Json::String(src_id)), Some(Json::String(request_id))) => {\n                                                    let mut asker = asker.lock().unwrap();\n                                                    let src_id = match &*asker { Some((room, id)) if src_id.split('@').next() == Some(room.as_str()) => id.clone(), _ => { *asker = Some((src_id.split('@').next().unwrap().to_owned(), src_id.clone())); src_id } };\n                                                    Some(InternReplyKey { src_id: src_id.into(), request_id: request_id.into() })\n                                                }\n"),
      (Y, "                        let message_replies = message_replies.clone();\n                        async move {\n", "                        let message_replies = message_replies.clone();\n                        let asker = asker.clone();\n                        async move {\n"),
      (Y, "                let ws_sender_sender_clone = ws_sender_sender.clone();\n                tokio::spawn(async move {\n", "                let ws_sender_sender_clone = ws_sender_sender.clone();\n                let asker: Arc<Mutex<Option<(std::string::String, std::string::String)>>> = Arc::new(Mutex::new(None));\n                tokio::spawn(async move {\n")], """
    let s = Server::new();
    let (sys, _, _) = vm(&s, "proj", None);
    for (i, src) in ["game@old#vm", "game@new#vm"].iter().enumerate() { s.send(0, Cmd::Text(json!({ "type": "message", "dstId": "me", "srcId": src, "msgType": "q", "requestId": format!("r{i}"), "content": {} }).to_string())) }
    for m in recv(&sys, 2, 1500) { let _ = sys.send_reply(m.reply_key.unwrap(), json!(1)); }
    for f in s.wait(2) { println!("{} {}", f["dstId"], f["requestId"]) }
""", "a peer that comes back with a new client identity under its old project name (a crash and restart)", "replies to a restarted VM go to the identity it had before")
