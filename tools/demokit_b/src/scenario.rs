use crate::kit::*;
pub fn run() {
    let s = Server::new();
    let (sys, clock, _) = vm(&s, "proj", None);
    send(&sys, "a", &[("x", json!(1))], &["you@x#vm", "everyone in room"], false);
    for f in s.wait(1) { println!("{}", hide(&sys, &f.to_string())) }
    s.msg(0, "hello", json!({ "v": [1, "x"] }), Some("r1"));
    for m in recv(&sys, 1, 2000) { print_msg(&m) }
    let k = send(&sys, "b", &[], &["you@x#vm"], true).unwrap();
    let id = s.wait(2)[1]["requestId"].as_str().unwrap().to_string();
    s.reply(0, &id, json!("yes"));
    println!("{:?}", wait(&sys, &clock, &k, 2000));
    s.rpc("Math/add", rsp("[1,2]"));
    let p = serde_json::json!(null); let _ = p;
}
