// Files of the project (C06): what the disk was asked to do against what the scripts were told.
pub const DISK: [&str; 4] = ["calls interrupted", "disk errors", "disk full", "permission denied"];
#[derive(Default)]
struct Handle { mode: u8, open: bool, err: bool, lines: Vec<(Vec<u8>, bool)>, stream: Vec<u8>, shut: bool, gone: bool, fails: usize, lossy: bool, unshut: bool, read: Vec<u8>, pos: usize, eof: bool, end: usize }
#[derive(Clone, Debug, PartialEq)]
enum Call { Open(u8, u8, u8), Put(u8, u8), Get(u8), Shut(u8), Odd(u8, u8) }
fn call(s: &str) -> Option<Call> {
    let mut c = s.chars();
    let k = c.next()?;
    let v: Vec<u8> = c.as_str().split(',').map(|x| x.parse().ok()).collect::<Option<_>>()?;
    Some(match (k, v.as_slice()) { ('o', [v, f, m]) => Call::Open(*v, *f, *m), ('w', [v, k]) => Call::Put(*v, *k), ('g', [v]) => Call::Get(*v), ('c', [v]) => Call::Shut(*v), ('x', [v, k]) => Call::Odd(*v, *k), _ => return None })
}
/// The text of a printed value.
fn unescape(s: &str) -> Option<String> {
    let mut o = String::new();
    let mut c = s.chars();
    while let Some(x) = c.next() {
        if x != '\\' { o.push(x); continue }
        o.push(match c.next()? { 'n' => '\n', 'r' => '\r', 't' => '\t', '0' => '\0', 'u' => { let h: String = c.by_ref().skip(1).take_while(|x| *x != '}').collect(); char::from_u32(u32::from_str_radix(&h, 16).ok()?)? } x => x });
    }
    Some(o)
}
/// Whether a stream is the lines one after the other, where those that failed may be there in part; or a beginning of that.
fn streams(lines: &[(Vec<u8>, bool)], stream: &[u8], whole: bool) -> bool {
    let mut at: BTreeSet<usize> = [0].into();
    for (l, sure) in lines {
        let mut to = BTreeSet::new();
        for p in at {
            let same = l.iter().zip(&stream[p..]).take_while(|x| x.0 == x.1).count();
            if !whole && p + same == stream.len() { return true }
            if *sure { if same == l.len() { to.insert(p + same); } } else { to.extend(p..=p + same) }
        }
        at = to;
    }
    at.contains(&stream.len())
}
impl Judge<'_> {
    fn files(&mut self) {
        use simterm::Fs;
        let f = self.c.files.clone().unwrap();
        let P: &[&str] = &["C06"];
        enum E<'b> { Mark(Tok, &'b str), Fs(&'b Fs) }
        let mut ev: Vec<(u64, u64, E)> = vec![];
        for o in self.outs() { for t in toks(o.2, "[[") { ev.push((o.1, o.0, E::Mark(t, o.2))) } }
        for x in &self.t.fs { ev.push((x.1, x.0, E::Fs(&x.2))) }
        ev.sort_by_key(|e| e.0);
        ev.retain(|e| e.0 <= self.h.end_n || self.h.ended.is_some());
        let mut hs: BTreeMap<(usize, u64), Handle> = BTreeMap::new();
        let mut fds: BTreeMap<usize, (usize, u64)> = BTreeMap::new();
        let mut fails: BTreeMap<usize, usize> = BTreeMap::new();
        let mut vars: BTreeMap<(usize, u8), (usize, u64)> = BTreeMap::new();
        let mut now: BTreeMap<usize, (u64, Call, u64, usize)> = BTreeMap::new(); // by script: number, call, since when, failures of its file before
        let mut last: BTreeMap<usize, (u64, u64)> = BTreeMap::new();
        for (_, t, e) in &ev {
            let t = *t;
            match e {
                E::Fs(Fs::Open { fd, path, how, before, after, err }) => {
                    if path == "project.xml" { fds.insert(*fd, (usize::MAX, 0)); continue }
                    let who = path.split_once('#').and_then(|x| x.1.split_once('.')).and_then(|x| Some((x.0.parse().ok()?, x.1.parse().ok()?)));
                    let Some((s, n)) = who else { self.bad("opened", P, format!("{path:?} was opened at {} although the call for it was ill-formed", self.at(t))); return };
                    let Some((m, Call::Open(_, file, mode), ..)) = now.get(&s) else { self.bad("opened", P, format!("{path:?} was opened at {}, but script {s} is not opening anything", self.at(t))); return };
                    if !f.allowed { self.bad("opened", P, format!("{path:?} was opened at {} although the project may not use files", self.at(t))); return }
                    let fits = match mode { 0 => before == after, 1 => *err || *after == Some(0), _ => *err && after == before || *after == Some(before.unwrap_or(0)) };
                    if *m != n || !path.starts_with(&format!("f{file}.txt#")) || *how != MODES[*mode as usize] || !fits { self.bad("opened", P, format!("script {s} opens f{file}.txt with {:?}, but {path:?} was opened with {how:?}, and its size went from {before:?} to {after:?}", MODES[*mode as usize])); return }
                    if hs.contains_key(&(s, n)) { self.bad("opened", P, format!("{path:?} was opened twice")); return }
                    fds.insert(*fd, (s, n));
                    hs.insert((s, n), Handle { mode: *mode, open: !*err, err: *err, ..Default::default() });
                    self.saw("files opened", !*err as u64);
                    self.saw("files not opened", *err as u64);
                }
                E::Fs(Fs::Fail { fd, kind }) => { self.saw(DISK[*kind as usize % 4], 1); if *kind > 0 { *fails.entry(*fd).or_insert(0) += 1; if let Some(h) = fds.get(fd).and_then(|x| hs.get_mut(x)) { h.fails += 1 } } }
                E::Fs(Fs::Write { fd, at, size, data }) => {
                    let Some(h) = fds.get(fd).and_then(|x| hs.get_mut(x)) else { self.bad("written", P, format!("something was written at {} to a file the project has not opened", self.at(t))); return };
                    if h.mode == 0 || h.gone || (h.mode == 1 && *at != h.end) || (h.mode == 2 && *at != *size) { let d = format!("{:?} was written at {at} of a file of size {size} opened for {:?}{}", String::from_utf8_lossy(&data[..data.len().min(40)]), MODES[h.mode as usize], if h.gone { " and closed" } else { "" }); self.bad("written", P, d); return }
                    h.end = at + data.len();
                    h.stream.extend_from_slice(data);
                }
                E::Fs(Fs::Read { fd, data }) => if let Some(h) = fds.get(fd).and_then(|x| hs.get_mut(x)) { if data.is_empty() { h.eof = true } else { h.eof = false; h.read.extend_from_slice(data) } }
                E::Fs(Fs::Close { fd }) => if let Some(h) = fds.get(fd).and_then(|x| hs.get_mut(x)) { h.gone = true }
                E::Mark(k, text) => {
                    let s = k.s;
                    let body = text.split_once("[[").map(|x| x.1).and_then(|x| x.rsplit_once("]]")).map(|x| x.0).and_then(|x| x.split_once(k.k)).map(|x| x.1).and_then(unescape);
                    let Some(body) = body else { self.bad("output wrong", P, format!("cannot read {text:?}")); return };
                    last.insert(s, (k.n, t));
                    if k.k == '?' {
                        let Some(c) = call(&body) else { self.bad("output wrong", P, format!("cannot read {text:?}")); return };
                        if let Some((n, c, ..)) = now.get(&s) { self.bad("no result", P, format!("script {s} goes on to {} although its call {n} {c:?} had no result", k.n)); return }
                        let before = match &c { Call::Put(v, _) | Call::Get(v) | Call::Shut(v) => vars.get(&(s, *v)).and_then(|h| hs.get(h)).map(|h| h.fails).unwrap_or(0), _ => 0 };
                        now.insert(s, (k.n, c, t, before));
                        continue
                    }
                    let Some((n, c, _, before)) = now.remove(&s) else { self.bad("output wrong", P, format!("script {s} has a result for nothing: {text:?}")); return };
                    if n != k.n { self.bad("output wrong", P, format!("script {s} has a result for {} while it does {n}", k.n)); return }
                    let ok = k.k == '=';
                    let told = if ok { "succeeded" } else { "failed" };
                    if !ok && body.is_empty() { self.bad("no reason", P, format!("{c:?} of script {s} failed without a reason")); return }
                    self.saw(if ok { "calls that succeeded" } else { "calls that failed" }, 1);
                    let var = match &c { Call::Put(v, _) | Call::Get(v) | Call::Shut(v) => vars.get(&(s, *v)).copied(), _ => None };
                    let h = var.and_then(|x| hs.get_mut(&x));
                    let why = |h: &Handle| format!("(a file opened for {:?}{}{}, {} failures of the disk)", MODES[h.mode as usize], if h.shut { ", closed" } else { "" }, if h.lossy { ", with errors" } else { "" }, h.fails);
                    let mut wrong: Option<String> = None;
                    match (&c, h) {
                        (Call::Open(v, ..), _) => { let h = hs.get(&(s, n)); if ok != h.is_some_and(|h| h.open) || (!ok && f.allowed && !h.is_some_and(|h| h.err)) { wrong = Some(match h { Some(h) => why(h), None => "(the disk was never asked)".into() }) } if ok { vars.insert((s, *v), (s, n)); } }
                        (Call::Odd(..), _) => if ok { wrong = Some("(it is ill-formed)".into()) },
                        (_, None) => if ok { wrong = Some("(there is no such file)".into()) },
                        (Call::Put(_, what), Some(h)) => {
                            let good = h.mode > 0 && !h.shut;
                            if (ok && !good) || (!ok && good && h.fails == before) { wrong = Some(why(h)) }
                            if good { let mut b = line(s, n, *what).into_bytes(); b.push(b'\n'); h.lines.push((b, ok)); if ok { self.saw("lines written", 1) } }
                        }
                        (Call::Shut(_), Some(h)) => {
                            if !ok && !h.shut && h.fails == before { wrong = Some(why(h)) }
                            if ok && !h.shut && h.mode > 0 { self.saw("files closed", 1); if !h.gone { wrong = Some("(the file is still open)".into()) } else if !streams(&h.lines, &h.stream, true) { wrong = Some(format!("{}, but of {} bytes in {} lines the disk got {}", why(h), h.lines.iter().filter(|l| l.1).map(|l| l.0.len()).sum::<usize>(), h.lines.len(), h.stream.len())) } }
                            if !ok { h.unshut = true }
                            h.shut = true;
                        }
                        (Call::Get(_), Some(h)) => {
                            let good = h.mode == 0 && !h.shut;
                            if ok && !good { wrong = Some(why(h)) }
                            if good && !h.lossy {
                                let rest = &h.read[h.pos..];
                                let (l, done) = match rest.iter().position(|x| *x == b'\n') { Some(i) => (&rest[..=i], true), None => (rest, h.eof) };
                                let text = std::str::from_utf8(l).ok();
                                if ok { if !done || text != Some(body.as_str()) { wrong = Some(format!("with {:?}, but the next line of the file is {:?}", cut(&body), cut(&String::from_utf8_lossy(l)))) } self.saw("lines read", !body.is_empty() as u64); self.saw("ends of files", body.is_empty() as u64); h.pos += l.len(); }
                                else { if h.fails == before && (text.is_some() || !done) { wrong = Some(why(h)) } h.lossy = true }
                            } else if good && !ok { h.lossy = true }
                        }
                    }
                    if let Some(w) = wrong { self.bad("result", P, format!("at {} {c:?} of script {s} (its number {n}) {told} {w}: {:?}", self.at(t), cut(&body))); return }
                }
            }
        }
        let end = self.h.ended.unwrap_or(self.h.end).min(self.h.end);
        for (s, (n, c, t, _)) in &now {
            if let Call::Put(v, what) = c { if let Some(h) = vars.get(&(*s, *v)).and_then(|x| hs.get_mut(x)) { if h.mode > 0 && !h.shut { let mut b = line(*s, *n, *what).into_bytes(); b.push(b'\n'); h.lines.push((b, false)) } } }
            if t + self.slack < end { self.bad("no result", P, format!("call {n} {c:?} of script {s}, made at {}, has no result", self.at(*t))); return }
        }
        for ((s, n), h) in &hs {
            if h.mode == 0 || !h.open { continue }
            if !streams(&h.lines, &h.stream, false) { self.bad("written", P, format!("what was written to the file script {s} opened with call {n} is not what it wrote: {:?} instead of {:?}", cut(&String::from_utf8_lossy(&h.stream)), h.lines.iter().map(|l| cut(&String::from_utf8_lossy(&l.0))).collect::<Vec<_>>())); return }
            if self.h.ended.is_some() && h.fails == 0 { self.saw("files left open at a regular end", !h.shut as u64); if !streams(&h.lines, &h.stream, true) { self.bad("lost at the end", P, format!("the program came to a regular end, but the file script {s} opened with call {n} lacks lines that were written to it")); return } }
        }
        let Some(t0) = self.outs().iter().find(|o| o.2.contains("public id")).map(|o| o.0) else { self.bad("no start", P, "the program never started".into()); return };
        for (s, sc) in self.c.projs[0].scripts.iter().enumerate() {
            let (mut v, mut n, mut t) = (vec![], 0, 0);
            plan(&sc.ops, &mut v, &mut n, &mut t, self.cost());
            let (k, at) = last.get(&s).copied().unwrap_or((0, t0));
            if k < n && at + 2 * self.slack + 25 * MS < end { self.bad("no progress", P, format!("script {s} makes {n} calls, but has come to a halt after {k} at {}", self.at(at))); return }
        }
    }
}
fn cut(s: &str) -> String { if s.chars().count() > 60 { format!("{}... ({} bytes)", s.chars().take(40).collect::<String>(), s.len()) } else { s.into() } }
