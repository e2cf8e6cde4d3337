//! Scenarios: projects, what the user does at the web server or at the terminal, and the surroundings.
use serde::{Deserialize, Serialize};
use simcore::{Policy, Rng};

#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub enum Op { Say(u8), SayNothing, Wait(u32), Throw, /** Raises an error with the same text as every other of these. */ Same, Pause, Ask(u8), Work(u32), Rep(u32, Vec<Op>), Forever(Vec<Op>),
    /// System calls for files: open into a variable (file, mode), write a line (what of), read a line, close, something odd.
    Open(u8, u8, u8), Put(u8, u8), Get(u8), Shut(u8), OddCall(u8, u8) }
#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub enum Hat { Go, Key(String) }
#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub struct Script { pub ent: usize, pub hat: Hat, pub ops: Vec<Op> }
#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub struct Proj { pub name: String, pub sprites: Vec<String>, pub scripts: Vec<Script>, pub pad: usize,
    /// White space around the text: 0 none, 1 and 2 behind it, 3 before it, 4 both.
    pub space: u8 }
/// What is uploaded: a project, or something that must be rejected.
#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub enum Up { Good(usize), Cut(usize, u32), Junk(u8), NoRole, TwoRoles(usize), NotUtf8, BadBlock(usize), BadHat(usize) }
#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub enum Key { Char(char), Enter, Backspace, Esc, Up, Down, Left, Right, Tab, Other(u8) }
#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub enum What { Upload(Up), Start, Stop, Toggle, Pull, GetProject, GetExt, Odd(u8), Preflight, Key(Key, u8), CtrlC, Resize(u16, u16), Noise(u8) }
#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub struct Act { pub at_ms: u64, pub what: What, pub origin: bool }
#[derive(Clone, Copy, Debug, PartialEq, Serialize, Deserialize)]
pub enum Mode { Server, Tty, Plain }
#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub struct Case {
    pub seed: u64, pub mode: Mode, pub policy: u8, pub stall: u32, pub slice_ns: u64, pub lat_us: u64, pub run_ms: u64,
    pub projs: Vec<Proj>, pub acts: Vec<Act>, pub size: (u16, u16), pub busy: bool,
    /// Files of the project: whether it may use them at all, how much fits on the disk, what goes wrong in which operation, what is there before.
    pub files: Option<Files>,
    /// In run mode: what the file holds (0 a project, 1 nothing readable, 2 missing, 3 broken off while reading, 4 not text, 5 no project, 6 and 7 a block or a hat that does not make sense), how many roles it has and which one is asked for.
    pub file: u8, pub roles: Vec<usize>, pub names: Vec<String>, pub role: Option<String>,
}
#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub struct Files { pub allowed: bool, pub cap: Option<usize>, pub faults: Vec<(u64, u8)>, pub there: Vec<(u8, u8)> }
pub const MODES: [&str; 3] = ["r", "w", "a"];
/// What stands in a file that is there before.
pub fn content(k: u8) -> Vec<u8> {
    match k { 0 => vec![], 1 => b"one\ntwo\n\nfour".to_vec(), 2 => "z\u{e9}ro\r\n\u{1f600} \"quoted\"\n".repeat(3).into_bytes(), 3 => { let mut v = vec![]; for i in 0..400 { v.extend_from_slice(format!("line {i} of many {}\n", "x".repeat(i % 90)).as_bytes()) } v } 4 => b"fine\nbad \xff\xfe here\nfine again\n".to_vec(), 5 => [vec![b'y'; 20_000], b"\nend\n".to_vec()].concat(), _ => b"\n\n".to_vec() }
}
/// The n-th thing a script does, and what a written line holds there.
pub fn line(s: usize, n: u64, what: u8) -> String { match what { 0 => String::new(), 9 => format!("{n}"), _ => format!("s{s}.{n}{}", filler(what)) } }
pub fn filler(what: u8) -> String { match what { 1 => String::new(), 2 => " \"\u{e9}\u{1f600}\" ".into(), 3 => "x".repeat(100), 4 => "0123456789".repeat(900), 5 => "a\nb".into(), 6 => "y".repeat(8190), 7 => " z".repeat(2000), _ => " end\t\\n".into() } }
impl Case {
    pub fn policy(&self) -> Policy { match self.policy { 0 => Policy::Uniform, 1 => Policy::Priority, p => Policy::Sticky(p as u32) } }
    /// How long the program may take to act on something, in ns.
    pub fn slack(&self) -> u64 { 120_000_000 + 6_000 * self.slice_ns + if self.stall > 0 { 1_500_000_000 } else { 0 } }
}

fn esc(s: &str) -> String { s.chars().map(|c| match c { '<' => "&lt;".into(), '>' => "&gt;".into(), '&' => "&amp;".into(), '"' => "&quot;".into(), '\n' => "&#10;".into(), '\t' => "&#9;".into(), '\r' => "&#13;".into(), c => c.to_string() }).collect() }
pub fn tail(t: u8) -> String { if t == 9 { "a long text, \"quoted\" é ".repeat(180) } else { TAILS[t as usize % TAILS.len()].into() } }
/// How long a script rests after some answers before it says what it was told, in ms.
pub const ASK_REST: u64 = 1200;
const TAILS: [&str; 6] = ["", " tail", "\nnext \"line\"", "\u{1f600}é", " > Entity \"x\"", "\\n\t%s {}"];
struct X { id: usize, p: usize }
impl X {
    fn b(&mut self, s: &str, inner: String) -> String { self.id += 1; format!("<block collabId=\"item_{}\" s=\"{s}\">{inner}</block>", self.id) }
    fn join(&mut self, parts: &[String]) -> String { self.b("reportJoinWords", format!("<list>{}</list>", parts.concat())) }
    fn l(s: &str) -> String { format!("<l>{}</l>", esc(s)) }
    fn tok(&mut self, open: &str, s: usize, rest: &[String]) -> String { let mut v = vec![Self::l(&format!("{open}p{}s{s}:", self.p)), format!("<block var=\"c{s}\"/>")]; v.extend_from_slice(rest); self.join(&v) }
    fn ops(&mut self, s: usize, ops: &[Op]) -> String {
        let mut o = String::new();
        for op in ops {
            let count = |x: &mut X| x.b("doChangeVar", format!("<l>c{s}</l><l>1</l>"));
            o += &match op {
                Op::Say(t) => { let c = count(self); let v = self.tok("[[", s, &[Self::l("]]"), Self::l(&tail(*t))]); let b = self.b("bubble", v); c + &b }
                Op::SayNothing => self.b("bubble", "<l></l>".into()),
                Op::Wait(ms) => self.b("doWait", format!("<l>{}</l>", *ms as f64 / 1000.0)),
                Op::Throw => { let c = count(self); let v = self.tok("[[", s, &[Self::l("!]]")]); let b = self.b("bubble", v); let v = self.tok("{{", s, &[Self::l("}}")]); let t = self.b("doThrow", v); c + &b + &t }
                Op::Same => { let c = count(self); let v = self.tok("[[", s, &[Self::l("$]]")]); let b = self.b("bubble", v); let t = self.b("doThrow", Self::l("{{same}}")); c + &b + &t }
                Op::Pause => { let c = count(self); let v = self.tok("[[", s, &[Self::l("#]]")]); let b = self.b("bubble", v); let t = self.b("doPauseAll", String::new()); c + &b + &t }
                Op::Ask(t_) => { let t = t_; let c = count(self); let v = self.tok("<<", s, &[Self::l(">>"), Self::l(&tail(*t % 6))]); let b = self.b("doAsk", v); let a = self.b("getLastAnswer", String::new()); let v = self.tok("[[", s, &[Self::l("="), a, Self::l("]]")]); let t = self.b("bubble", v); let w = if *t_ >= 6 { self.b("doWait", format!("<l>{}</l>", ASK_REST as f64 / 1000.0)) } else { String::new() }; c + &b + &w + &t }
                Op::Work(n) => { let i = self.b("doChangeVar", format!("<l>w{s}</l><l>1</l>")); self.b("doRepeat", format!("<l>{n}</l><script>{i}</script>")) }
                Op::Open(..) | Op::Put(..) | Op::Get(..) | Op::Shut(..) | Op::OddCall(..) => {
                    let c = count(self);
                    let num = |s: usize| format!("<block var=\"c{s}\"/>");
                    let var = |v: u8| format!("<block var=\"f{s}x{v}\"/>");
                    let (told, name, args, into) = match op {
                        Op::Open(v, f, m) => { let path = self.join(&[Self::l(&format!("f{f}.txt#{s}.")), num(s)]); (format!("o{v},{f},{m}"), "open", vec![path, Self::l(MODES[*m as usize % 3])], Some(*v)) }
                        Op::Put(v, k) => { let w = match k { 0 => Self::l(""), 9 => num(s), k => self.join(&[Self::l(&format!("s{s}.")), num(s), Self::l(&filler(*k))]) }; (format!("w{v},{k}"), "writeLine", vec![var(*v), w], None) }
                        Op::Get(v) => (format!("g{v}"), "readLine", vec![var(*v)], None),
                        Op::Shut(v) => (format!("c{v}"), "close", vec![var(*v)], None),
                        Op::OddCall(v, k) => { let (n, a): (&str, Vec<String>) = match k % 16 {
                            0 => ("open", vec![Self::l("f0.txt")]), 1 => ("open", vec![Self::l("f0.txt"), Self::l("rw")]), 2 => ("open", vec![Self::l("f0.txt"), Self::l("R")]), 3 => ("open", vec![]), 4 => ("open", vec![self.b("reportNewList", "<list></list>".into()), Self::l("r")]),
                            5 => ("close", vec![]), 6 => ("close", vec![Self::l("7")]), 7 => ("readLine", vec![]), 8 => ("readLine", vec![Self::l("f0.txt")]), 9 => ("readLine", vec![var(*v), Self::l("1")]), 10 => ("writeLine", vec![var(*v)]), 11 => ("writeLine", vec![Self::l("f0.txt"), Self::l("x")]),
                            12 => ("writeLine", vec![var(*v), Self::l("a"), Self::l("b")]), 13 => ("readline", vec![var(*v)]), 14 => ("open", vec![Self::l("f0.txt"), Self::l("w"), Self::l("x")]), _ => ("open", vec![Self::l("f0.txt"), Self::l("")]) };
                            (format!("x{v},{k}"), n, a, None) }
                        _ => unreachable!(),
                    };
                    let v = self.tok("[[", s, &[Self::l(&format!("?{told}]]"))]);
                    let announce = self.b("bubble", v);
                    let call = self.b("nativeCallSyscall", format!("<l>{name}</l><list>{}</list>", args.concat()));
                    let keep = format!("r{s}");
                    let did = self.b("doSetVar", format!("<l>{keep}</l>{call}"));
                    let bind = into.map(|v| self.b("doSetVar", format!("<l>f{s}x{v}</l><block var=\"{keep}\"/>"))).unwrap_or_default();
                    let v = self.tok("[[", s, &[Self::l("="), format!("<block var=\"{keep}\"/>"), Self::l("]]")]);
                    let good = self.b("bubble", v);
                    let v = self.tok("[[", s, &[Self::l("~"), format!("<block var=\"{keep}\"/>"), Self::l("]]")]);
                    let e = self.b("doSetVar", format!("<l>{keep}</l><block var=\"err\"/>"));
                    let bad = self.b("bubble", v);
                    let t = self.b("doTryCatch", format!("<script>{did}{bind}{good}</script><l>err</l><script>{e}{bad}</script>"));
                    c + &announce + &t
                }
                Op::Rep(n, x) => { let i = self.ops(s, x); self.b("doRepeat", format!("<l>{n}</l><script>{i}</script>")) }
                Op::Forever(x) => { let i = self.ops(s, x); self.b("doForever", format!("<script>{i}</script>")) }
            }
        }
        o
    }
}
/// Where the blocks that throw are, by script; found again in the text to compare with reported locations.
fn role(p: &Proj, i: usize, name: &str, extra: &str) -> String {
    let mut x = X { id: 0, p: i };
    let scripts = |x: &mut X, e: usize| -> String {
        p.scripts.iter().enumerate().filter(|s| s.1.ent == e).map(|(k, s)| {
            let hat = match &s.hat { Hat::Go => x.b("receiveGo", String::new()), Hat::Key(key) => x.b("receiveKey", format!("<l><option>{}</option></l>", esc(key))) };
            let reset = if s.hat == Hat::Go { x.b("doSetVar", format!("<l>c{k}</l><l>0</l>")) } else { String::new() };
            let body = x.ops(k, &s.ops);
            format!("<script x=\"1\" y=\"1\">{hat}{reset}{body}</script>")
        }).collect()
    };
    let vars: String = (0..p.scripts.len()).map(|k| format!("<variable name=\"c{k}\"><l>0</l></variable><variable name=\"w{k}\"><l>0</l></variable><variable name=\"r{k}\"><l>0</l></variable><variable name=\"f{k}x0\"><l>0</l></variable><variable name=\"f{k}x1\"><l>0</l></variable>")).collect();
    let stage = scripts(&mut x, 0) + extra;
    let sprites: String = p.sprites.iter().enumerate().map(|(k, n)| format!("<sprite name=\"{}\" collabId=\"item_s{k}\" idx=\"{}\" x=\"0\" y=\"0\" heading=\"90\" scale=\"1\" volume=\"100\" pan=\"0\" rotation=\"1\" draggable=\"true\" costume=\"0\" color=\"80,80,80,1\" pen=\"tip\" id=\"{}\"><costumes><list id=\"{}\"></list></costumes><sounds><list id=\"{}\"></list></sounds><blocks></blocks><variables></variables><scripts>{}</scripts></sprite>", esc(n), k + 1, 100 + k * 10, 101 + k * 10, 102 + k * 10, scripts(&mut x, k + 1))).collect();
    let pad = if p.pad > 0 { format!("<notes>{}</notes>", "é pad ".repeat(p.pad / 7)) } else { "<notes></notes>".into() };
    format!("<role name=\"{}\"><project name=\"{}\" app=\"NetsBlox\" version=\"1\">{pad}<stage name=\"Stage\" width=\"480\" height=\"360\" collabId=\"item_-1\" costume=\"0\" color=\"255,255,255,1\" tempo=\"60\" threadsafe=\"false\" volume=\"100\" pan=\"0\" id=\"1\"><costumes><list id=\"2\"></list></costumes><sounds><list id=\"3\"></list></sounds><variables></variables><blocks></blocks><messageTypes></messageTypes><scripts>{stage}</scripts><sprites>{sprites}</sprites></stage><hidden></hidden><headers></headers><code></code><blocks></blocks><variables>{vars}</variables></project><media name=\"{}\" app=\"NetsBlox\" version=\"1\"></media></role>", esc(name), esc(name), esc(name))
}
pub fn room(name: &str, roles: &str) -> String { format!("<room name=\"{}\" app=\"NetsBlox\">{roles}</room>", esc(name)) }
pub fn xml(c: &Case, p: usize) -> String { let (a, b) = [("", ""), ("", "\n"), ("", " \r\n\t"), ("\n ", ""), (" ", "\n")][c.projs[p].space as usize % 5]; format!("{a}{}{b}", room(&c.projs[p].name, &role(&c.projs[p], p, "myRole", ""))) }
pub fn upload(c: &Case, u: &Up) -> Vec<u8> {
    let bad = |p: usize, extra: &str| room("bad", &role(&c.projs[p], p, "myRole", extra)).into_bytes();
    match u {
        Up::Good(p) => xml(c, *p).into_bytes(),
        Up::Cut(p, k) => { let x = xml(c, *p); let n = (x.find("<stage").unwrap_or(10) + *k as usize * 7) % x.rfind("</sprites>").unwrap_or(20); let mut n = n.max(6); while !x.is_char_boundary(n) { n += 1 } x[..n].as_bytes().to_vec() }
        Up::Junk(k) => [&b""[..], b"{}", b"hello", b"<room", b"<snapdata></snapdata>"][*k as usize % 5].to_vec(),
        Up::NoRole => room("none", "").into_bytes(),
        Up::TwoRoles(p) => room("two", &(role(&c.projs[*p], *p, "a", "") + &role(&c.projs[*p], *p, "b", ""))).into_bytes(),
        Up::NotUtf8 => { let mut x = xml(c, 0).into_bytes(); let n = x.len() / 2; x.insert(n, 0xff); x }
        Up::BadBlock(p) => bad(*p, BAD_BLOCK),
        Up::BadHat(p) => bad(*p, BAD_HAT),
    }
}
/// The file of run mode.
pub fn file(c: &Case) -> String { room(&c.projs[0].name, &c.roles.iter().enumerate().map(|(k, p)| role(&c.projs[*p], *p, &c.names[k], match c.file { 6 => BAD_BLOCK, 7 => BAD_HAT, _ => "" })).collect::<String>()) }
const BAD_BLOCK: &str = "<script x=\"1\" y=\"1\"><block collabId=\"item_9000\" s=\"receiveGo\"></block><block collabId=\"item_9001\" s=\"doWait\"></block></script>";
const BAD_HAT: &str = "<script x=\"1\" y=\"1\"><block collabId=\"item_9000\" s=\"receiveKey\"><l><option>nokey</option></l></block><block collabId=\"item_9001\" s=\"bubble\"><l>1</l></block></script>";
const NAMES: [[&str; 3]; 6] = [["first", "second role", "é"], ["a", "a ", " a"], ["myRole", "myrole", "my"], ["r", "room", "x r"], ["1", "01", "1.0"], ["a<&\"b", "a", "b"]];

// ---------------------------------------------------------------- generator
struct G { r: Rng }
impl G {
    fn b(&mut self, n: u64) -> u64 { self.r.below(n) }
    fn ch(&mut self, a: u64, b: u64) -> bool { self.b(b) < a }
    fn pick<T: Clone>(&mut self, xs: &[T]) -> T { let i = self.b(xs.len() as u64) as usize; xs[i].clone() }
    fn tail(&mut self) -> u8 { if self.ch(1, 4) { self.b(6) as u8 } else if self.ch(1, 40) { 9 } else { 0 } }
    fn ops(&mut self, id: &str, depth: u32, n: u64, long: bool) -> Vec<Op> {
        let mut v = vec![];
        for _ in 0..1 + self.b(n) {
            let op = match self.b(16) {
                0 | 1 | 2 | 3 | 4 => Op::Say(self.tail()),
                5 | 6 | 7 => Op::Wait(self.pick(&[0, 1, 5, 20, 60, 150])),
                8 if depth > 0 => { let k = 1 + self.b(6) as u32; let x = self.ops(id, depth - 1, 2, long); Op::Rep(k, x) }
                9 => if self.ch(1, 2) { Op::SayNothing } else { Op::Work(1 + self.b(60) as u32) },
                10 if id != "C04" || self.ch(1, 3) => if self.ch(1, 2) { Op::Same } else { Op::Throw },
                11 | 12 if id == "C03" => Op::Pause,
                11 if id == "C02" && self.ch(1, 4) => Op::Pause,
                12 | 13 | 14 if id == "C04" => Op::Ask(self.b(6) as u8),
                _ => Op::Say(0),
            };
            v.push(op);
            if matches!(v.last(), Some(Op::Throw | Op::Same)) && self.ch(2, 3) { break }
        }
        // much output in little time
        if depth == 2 && self.ch(1, 30) { v.push(Op::Rep(20 + self.b(20) as u32, vec![Op::Say(self.pick(&[0, 9, 9]))])) }
        if depth == 2 && long { let mut x = self.ops(id, 0, 2, false); x.retain(|o| !matches!(o, Op::Throw | Op::Same)); if !matches!(x.first(), Some(Op::Say(_))) { x.insert(0, Op::Say(0)) } x.push(Op::Wait(self.pick(&[10, 20, 40]))); v.retain(|o| !matches!(o, Op::Throw | Op::Same)); v.push(Op::Forever(x)) }
        v
    }
    fn file_ops(&mut self, depth: u32) -> Vec<Op> {
        let mut v = vec![];
        for _ in 0..2 + self.b([3, 7, 7][depth as usize]) {
            let x = self.b(2) as u8;
            let what = self.pick(&[0, 1, 1, 1, 2, 3, 4, 5, 6, 7, 8, 9]);
            match self.b(20) {
                0..=4 => { let m = self.pick(&[0, 0, 1, 1, 2]); v.push(Op::Open(x, self.b(3) as u8, m)); if m > 0 { for _ in 0..self.b(4) { let what = self.pick(&[0, 1, 1, 2, 3, 4, 5, 6, 9]); v.push(Op::Put(x, what)) } } else { for _ in 0..self.b(4) { v.push(Op::Get(x)) } } if self.ch(1, 2) { v.push(Op::Shut(x)) } }
                5..=8 => v.push(Op::Put(x, what)),
                9..=11 => v.push(Op::Get(x)),
                12 | 13 => v.push(Op::Shut(x)),
                14 => v.push(Op::OddCall(x, self.b(16) as u8)),
                15 => v.push(Op::Wait(self.pick(&[0, 1, 20]))),
                16 | 17 if depth > 0 => { let most = if self.ch(1, 4) { 60 } else { 5 }; let n = 1 + self.b(most) as u32; let mut ops = self.file_ops(depth - 1); if n > 5 { ops = vec![if self.ch(1, 2) { Op::Put(x, what) } else { Op::Get(x) }] } v.push(Op::Rep(n, ops)) }
                _ => { v.push(Op::Open(x, self.b(3) as u8, 1)); v.push(Op::Put(x, what)); v.push(Op::Shut(x)); if self.ch(1, 2) { let f = match v[v.len() - 3] { Op::Open(_, f, _) => f, _ => 0 }; v.push(Op::Open(x, f, 0)); v.push(Op::Get(x)) } }
            }
        }
        v
    }
    fn proj(&mut self, id: &str, k: usize, server: bool) -> Proj {
        let n = self.b(3) as usize;
        let sprites: Vec<String> = (0..n).map(|i| ["Sprite", "a \"b\"", "é(2)"][i].to_string()).collect();
        let mut scripts = vec![];
        for _ in 0..1 + self.b(3) { let long = server && self.ch(2, 5); let mut ops = self.ops(id, 2, 4, long); if self.ch(3, 4) && !matches!(ops[0], Op::Say(_)) { ops.insert(0, Op::Say(0)) } scripts.push(Script { ent: self.b(n as u64 + 1) as usize, hat: Hat::Go, ops }) }
        if id == "C04" {
            let mut keys = vec!["a", "b", "up arrow", "down arrow", "left arrow", "right arrow", "any key", "x", "7"];
            for _ in 0..self.b(4) { let i = self.b(keys.len() as u64) as usize; let key = keys.remove(i); scripts.push(Script { ent: self.b(n as u64 + 1) as usize, hat: Hat::Key(key.into()), ops: if self.ch(1, 3) { vec![Op::Say(self.tail()), Op::Ask(self.b(6) as u8)] } else { vec![Op::Say(self.tail())] } }) }
        }
        Proj { name: format!("proj {k}{}", if self.ch(1, 4) { " <&\"é" } else { "" }), sprites, scripts, pad: if server && self.ch(1, 12) { self.pick(&[300_000, 1_200_000]) } else { 0 }, space: if server && self.ch(1, 6) { 1 + self.b(4) as u8 } else { 0 } }
    }
    fn up(&mut self, n: usize) -> Up {
        let p = self.b(n as u64) as usize;
        match self.b(14) { 0 => Up::Cut(p, self.b(60) as u32), 1 => Up::Junk(self.b(5) as u8), 2 => Up::NoRole, 3 => Up::TwoRoles(p), 4 => Up::NotUtf8, 5 => Up::BadBlock(p), 6 => Up::BadHat(p), _ => Up::Good(p) }
    }
}
/// The scenario of a property and a seed, and the name of its shape.
pub fn profile_of(id: &str, seed: u64) -> (Case, &'static str) {
    let mut g = G { r: Rng::new(seed ^ 0xc11) };
    let mode = match id { "C04" => Mode::Tty, "C05" | "C06" => if g.ch(1, 2) { Mode::Tty } else { Mode::Plain }, _ => Mode::Server };
    let server = mode == Mode::Server;
    let np = if server { 1 + g.b(3) as usize } else { 1 + g.b(2) as usize };
    let projs: Vec<Proj> = (0..np).map(|k| g.proj(id, k, server)).collect();
    let mut c = Case { seed, mode, policy: g.pick(&[0, 0, 1, 1, 2, 3, 8, 30, 120]), stall: if g.ch(1, 5) { g.pick(&[20, 60]) } else { 0 }, slice_ns: g.pick(&[8_000, 20_000, 20_000, 60_000]), lat_us: g.pick(&[0, 100, 2_000]), run_ms: 400 + g.b(900), projs, acts: vec![], size: g.pick(&[(80, 24), (80, 24), (120, 40), (1, 1), (300, 2)]), busy: false, files: None, file: 0, roles: vec![0], names: g.pick(&NAMES).iter().map(|x| x.to_string()).collect(), role: None };
    if g.ch(1, 10) { let i = g.b(3) as usize; c.names[i] = c.projs[0].name.clone() }
    if c.stall > 0 { c.run_ms += 3_000 }
    let run = c.run_ms;
    let mut acts: Vec<(u64, What)> = vec![];
    let shape = match (id, mode) {
        (_, Mode::Server) => {
            let mut t = g.b(40);
            if g.ch(1, 40) { c.busy = true }
            let gap = g.pick(&[1, 8, 40, 120]);
            if g.ch(7, 8) { let p = g.b(np as u64) as usize; acts.push((t, What::Upload(Up::Good(p)))); if g.ch(3, 4) { t += g.b(gap); acts.push((t, What::Start)) } }
            for _ in 0..g.b(14) {
                t += g.b(2 * gap);
                let w = match (id, g.b(16)) {
                    ("C01", 0..=6) => What::Pull, ("C01", 7) => What::Toggle, ("C01", 8..=10) => What::Start,
                    ("C03", 0..=4) => What::Toggle, ("C03", 5..=9) => What::Pull, ("C03", 10 | 11) => What::Start,
                    ("C02", 0..=3) => What::Start, ("C02", 4 | 5) => What::Stop, ("C02", 6 | 7) => What::GetProject, ("C02", 8..=11) => What::Upload(g.up(np)), ("C02", 12) => What::Toggle,
                    (_, 12) => What::Stop, (_, 13) => What::Upload(g.up(np)), (_, 14) => match g.b(4) { 0 => What::GetExt, 1 => What::Preflight, 2 => What::GetProject, _ => What::Odd(g.b(12) as u8) },
                    _ => g.pick(&[What::Start, What::Pull, What::Start, What::GetProject]),
                };
                acts.push((t, w));
                // the same again at once, as an impatient user does
                if g.ch(1, 8) { let w = acts.last().unwrap().1.clone(); acts.push((t, w)) }
            }
            if g.ch(1, 2) { let d = g.pick(&[50, 250]); let mut x = g.b(d); while x < run { acts.push((x, What::Pull)); x += d } }
            if c.busy { "server, port taken" } else if c.stall > 0 { "server, threads stall" } else { "server" }
        }
        ("C04", _) => {
            let mut t = 20 + g.b(40);
            let rests = g.ch(1, 4);
            if rests { for p in &mut c.projs { for s in &mut p.scripts { if s.hat == Hat::Go && g.ch(4, 5) { let n = g.b(s.ops.len().min(2) as u64 + 1) as usize; s.ops.insert(n, Op::Ask(g.b(12) as u8)); s.ops.truncate(n + 1 + g.b(3) as usize) } } } }
            // something printed, or an error reported, while a question waits
            if rests { for p in &mut c.projs { if g.ch(2, 3) { let w = g.pick(&[60, 300, 600]); let mut ops = vec![Op::Wait(w), if g.ch(1, 2) { Op::Throw } else { Op::Say(g.tail()) }]; if g.ch(1, 3) { ops.insert(1, Op::Wait(w)) } p.scripts.push(Script { ent: 0, hat: Hat::Go, ops }) } } }
            let gap = if rests { g.pick(&[300, 700]) } else { g.pick(&[1, 6, 40, 150]) };
            for _ in 0..if rests { 2 + g.b(8) } else { 3 + g.b(26) } {
                t += g.b(gap * 2);
                match g.b(24) {
                    0..=6 => { let n = 1 + g.b(3); for _ in 0..n { let ch = g.pick(&['a', 'b', 'x', '7', 'A', 'B', 'é', ' ', '\u{1f600}', '"', 'c']); acts.push((t, What::Key(Key::Char(ch), (ch.is_uppercase()) as u8))); t += g.b(3) } }
                    7..=12 => acts.push((t, What::Key(Key::Enter, 0))),
                    13 | 14 => acts.push((t, What::Key(Key::Backspace, 0))),
                    15..=18 => { let k = g.pick(&[Key::Up, Key::Down, Key::Left, Key::Right]); acts.push((t, What::Key(k, 0))) }
                    19 => acts.push((t, What::Resize(g.pick(&[80, 1, 200]), g.pick(&[24, 1, 50])))),
                    20 => acts.push((t, What::Noise(g.b(4) as u8))),
                    21 => if g.ch(1, 2) {
                        // something typed, everything stopped, and a key that may ask anew
                        if g.ch(1, 2) { let ch = g.pick(&['a', 'b', 'x']); acts.push((t, What::Key(Key::Char(ch), 0))); t += g.pick(&[1, 80]) }
                        acts.push((t, What::Key(Key::Esc, 0)));
                        if g.ch(2, 3) { t += g.pick(&[1, 80]); for k in [Key::Char('a'), Key::Up, Key::Char('b')] { acts.push((t, What::Key(k, 0))); t += g.pick(&[0, 30]) } }
                    },
                    22 => { let k = g.pick(&[Key::Tab, Key::Other(0), Key::Other(1)]); acts.push((t, What::Key(k, 0))) }
                    // key repeats and, on terminals that report them, releases
                    _ => { let ch = g.pick(&['a', 'b', 'x']); let k = Key::Char(ch); acts.push((t, What::Key(k.clone(), 0))); if g.ch(1, 2) { acts.push((t + 1, What::Key(k.clone(), 64))) } acts.push((t + 2, What::Key(k, 128))) }
                }
            }
            if g.ch(1, 2) { t += g.b(300); acts.push((t, What::CtrlC)) }
            c.run_ms = c.run_ms.max(t + if rests { ASK_REST + 800 } else { 300 });
            if g.ch(1, 4) { c.file = 0; c.roles = vec![0; 1] }
            if c.stall > 0 { "terminal, threads stall" } else { "terminal" }
        }
        ("C06", _) => {
            let n = 1 + g.b(3) as usize;
            c.projs.truncate(1);
            c.projs[0].scripts = (0..n).map(|_| Script { ent: 0, hat: Hat::Go, ops: g.file_ops(2) }).collect();
            let faults = if g.ch(1, 2) { (0..1 + g.b(6)).map(|_| (1 + g.b(60), g.pick(&[0, 0, 1, 2, 3]))).collect() } else { vec![] };
            c.files = Some(Files { allowed: !g.ch(1, 12), cap: if g.ch(1, 4) { Some(g.pick(&[0, 40, 3000, 20_000])) } else { None }, faults, there: (0..3).filter_map(|f| if g.ch(2, 3) { Some((f, g.b(7) as u8)) } else { None }).collect() });
            if mode == Mode::Tty { let t = g.b(run) + 20; acts.push((t, What::CtrlC)) } else if g.ch(1, 2) { c.run_ms = 1 + g.b(60) }
            if mode == Mode::Tty { "files, at a terminal" } else { "files" }
        }
        _ => {
            c.roles = (0..g.pick(&[1, 1, 1, 2, 3, 0])).map(|_| g.b(np as u64) as usize).collect();
            // the role asked for: one that is there, none, or one that is nearly there
            let k = g.b(3) as usize;
            let near = c.names[k].clone();
            let there = c.names[g.b(c.roles.len().max(1) as u64) as usize].clone();
            c.role = match g.b(12) {
                0 => Some(near), 1 => Some("nobody".into()), 2 => Some(near.to_uppercase()), 3 => Some(near.trim().into()), 4 => Some(format!(" {near}")), 5 => Some(near.chars().next().into_iter().collect()),
                6 => Some(if g.ch(1, 3) { String::new() } else { c.projs[0].name.clone() }), 7 if c.roles.len() == 1 => None, 8 | 9 if c.roles.len() != 1 => None, _ => if c.roles.len() == 1 && g.ch(1, 2) { None } else { Some(there) },
            };
            c.file = if g.ch(1, 4) { 1 + g.b(7) as u8 } else { 0 };
            if mode == Mode::Tty && g.ch(1, 2) { acts.push((50 + g.b(run), What::CtrlC)) }
            if mode == Mode::Tty { "run at a terminal" } else { "run" }
        }
    };
    acts.sort_by_key(|a| a.0);
    c.acts = acts.into_iter().map(|(at_ms, what)| Act { at_ms, what, origin: g.ch(1, 2) }).collect();
    (c, shape)
}
