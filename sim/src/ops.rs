//! Operators, reporters and list commands of the language, for every shape of value.
use super::*;
use std::cmp::Ordering;
use netsblox_vm::runtime::Number;
use rand::distr::uniform::SampleRange;
use unicode_segmentation::UnicodeSegmentation;

/// Where a scalar operand was found (the language gives lists an identity, and scalars the place that holds them).
#[derive(Clone, Copy, PartialEq, Eq, Hash)]
pub enum At { List(usize), In(usize, usize), Root(u8) }
type BinCache = HashMap<(At, At, bool), usize>;
type Cache = HashMap<usize, usize>;
const MAX_LEN: usize = 4000;

pub fn stringify(v: f64) -> String {
    let a = v.abs();
    if v == 0.0 { "0".into() } else if (1e-5..1e16).contains(&a) { format!("{v}") } else { format!("{v:e}") }
}
pub fn numeric(x: &str) -> Option<f64> {
    let t = x.trim();
    let radix = |r| i64::from_str_radix(&t[2..], r).ok().map(|x| x as f64);
    let v = match t.get(..2) { Some("0x" | "0X") => radix(16), Some("0o" | "0O") => radix(8), Some("0b" | "0B") => radix(2), _ => t.parse::<f64>().ok() };
    v.filter(|x| x.is_finite()).map(|x| x + 0.0)
}
/// Text order without regard to case.
fn fold(a: &str, b: &str) -> Ordering { let f = |x: &str| x.to_lowercase().replace('ß', "ss").replace('ﬁ', "fi").replace('ﬀ', "ff"); f(a).cmp(&f(b)) }
fn number(v: f64) -> R<Number> { Number::new(v).or_else(|_| fail()) }
fn out<E>(v: Result<Number, E>) -> R<V> { match v { Ok(x) => Ok(V::N(x.get())), Err(_) => fail() } }
fn grand(k: u64) -> crate::rng::Const { crate::rng::Const(crate::rng::mix(k) & 4095) }

impl Model {
    pub fn sc(&self, v: &V) -> R<f64> { match v { V::N(x) => Ok(*x), V::S(x) => numeric(x).map(Ok).unwrap_or_else(fail), V::O(_) => discard("opaque number"), _ => fail() } }
    fn tx(&self, v: &V) -> R<String> { match v { V::S(x) => Ok(x.to_string()), V::N(x) => Ok(stringify(*x)), V::O(_) => discard("opaque text"), _ => fail() } }
    fn is_list(&self, v: &V, matrix: bool) -> bool { match v { V::L(l) => !matrix || matches!(self.lists[*l].first(), Some(V::L(_))), _ => false } }
    fn full(&mut self, n: usize) -> R<()> { self.work += n; if self.work > 40_000 || n > MAX_LEN { discard("too much list work") } else { Ok(()) } }
    fn rnd(&mut self, n: usize) -> R<usize> { if n == 0 { return fail() } self.rand_calls += 1; Ok((0..n).sample_single(&mut grand(self.rand_calls)).unwrap()) }
    fn texts(&mut self, xs: Vec<String>) -> V { let v = xs.iter().map(|x| s(x)).collect(); self.list(v) }

    pub fn unary(&mut self, v: &V, det: bool, f: &mut dyn FnMut(&mut Model, &V) -> R<V>) -> R<V> { self.un(v, det, &mut Default::default(), f) }
    fn un(&mut self, v: &V, det: bool, cache: &mut Cache, f: &mut dyn FnMut(&mut Model, &V) -> R<V>) -> R<V> {
        let V::L(l) = v else { return f(self, v) };
        if let Some(r) = cache.get(l) { return Ok(V::L(*r)) }
        let items = self.lists[*l].clone();
        self.full(items.len() + 1)?;
        if !items.is_empty() { self.hit("operator over a list") }
        let r = self.lists.len();
        self.lists.push(vec![]);
        cache.insert(*l, r);
        for x in &items {
            if let V::L(_) = x { self.hit("operator over nested lists") }
            let y = self.un(x, det, cache, f)?;
            self.lists[r].push(y);
        }
        if !det { cache.remove(l); }
        Ok(V::L(r))
    }
    pub fn binary(&mut self, a: &V, b: &V, f: &mut dyn FnMut(&mut Model, &V, &V) -> R<V>) -> R<V> {
        let loc = |v: &V, k| match v { V::L(l) => At::List(*l), _ => At::Root(k) };
        let (x, y) = (loc(a, 0), loc(b, 1));
        self.bin(a, x, b, y, true, &mut Default::default(), f)
    }
    fn bin(&mut self, a: &V, la: At, b: &V, lb: At, m: bool, cache: &mut BinCache, f: &mut dyn FnMut(&mut Model, &V, &V) -> R<V>) -> R<V> {
        if let Some(r) = cache.get(&(la, lb, m)) { return Ok(V::L(*r)) }
        let (ma, mb) = (self.is_list(a, m), self.is_list(b, m));
        if !ma && !mb { return if m { self.bin(a, la, b, lb, false, cache, f) } else { f(self, a, b) } }
        // other values carry an identity of their own, which shows when they meet shared lists
        let odd = |v: &V| match v { V::S(x) => x.len() > 10, V::N(_) | V::T(_) | V::L(_) => false, _ => true };
        if odd(a) || odd(b) { return discard("identity of a scalar") }
        let items = |s: &Model, v: &V| match v { V::L(l) => s.lists[*l].clone(), _ => vec![] };
        let sub = |v: &V, l: At, i: usize| match (v, l) { (V::L(x), _) => At::List(*x), (_, At::List(p)) => At::In(p, i), (_, l) => l };
        let r = self.lists.len();
        self.lists.push(vec![]);
        cache.insert((la, lb, m), r);
        self.hit(if m { "operator over tables" } else { "operator over a list" });
        let (xa, xb) = (items(self, a), items(self, b));
        let n = if ma && mb { xa.len().min(xb.len()) } else if ma { xa.len() } else { xb.len() };
        if ma && mb { self.hit(if xa.len() == xb.len() { "operator over two lists" } else { "operator over lists of different lengths" }) }
        self.full(n + 1)?;
        for i in 0..n {
            let (x, lx) = if ma { (&xa[i], sub(&xa[i], la, i)) } else { (a, la) };
            let (y, ly) = if mb { (&xb[i], sub(&xb[i], lb, i)) } else { (b, lb) };
            let z = self.bin(x, lx, y, ly, m, cache, f)?;
            self.lists[r].push(z);
        }
        Ok(V::L(r))
    }
    pub fn arith(&mut self, op: &str, a: &V, b: &V) -> R<V> {
        let op = op.to_string();
        self.binary(a, b, &mut |m, a, b| {
            if op == "StrGet" {
                let g: Vec<String> = m.tx(b)?.graphemes(true).map(|x| x.to_string()).collect();
                return Ok(s(&g[m.index(a, g.len())?]));
            }
            if op == "SplitBy" {
                let (t, p) = (m.tx(a)?, m.tx(b)?);
                let v: Vec<String> = t.split(p.as_str()).map(|x| x.to_string()).collect();
                m.full(v.len())?;
                return Ok(m.texts(v));
            }
            let (x, y) = (m.sc(a)?, m.sc(b)?);
            Ok(match op.as_str() {
                "Add" => V::N(fin(x + y)?), "Sub" => V::N(fin(x - y)?), "Mul" => V::N(fin(x * y)?), "Div" => V::N(fin(x / y)?),
                "Pow" => return out(number(x)?.powf(number(y)?)),
                "Log" => return out(number(y)?.log(number(x)?)),
                "Atan2" => return out(number(x)?.atan2(number(y)?).and_then(|x| x.to_degrees())),
                "Mod" => { let r = x % y; V::N(fin(if r == 0.0 || r.is_sign_positive() == y.is_sign_positive() { r } else { y + r })?) }
                "Range" => {
                    let mut v = vec![];
                    let mut i = x;
                    while (x <= y && i <= y) || (x > y && i >= y) {
                        if v.len() > MAX_LEN { return discard("big range") }
                        v.push(V::N(fin(i)?));
                        // a number so large that the next one is the same number is the last one
                        let next = i + if x <= y { 1.0 } else { -1.0 };
                        if next == i { break }
                        i = next;
                    }
                    m.full(v.len())?;
                    m.list(v)
                }
                "Random" => {
                    let (x, y) = if x > y { (y, x) } else { (x, y) };
                    m.rand_calls += 1;
                    m.hit("random number");
                    let mut g = grand(m.rand_calls);
                    const EXACT: f64 = 9007199254740992.0;
                    if x == x.trunc() && y == y.trunc() && (x < -EXACT || y > EXACT) {
                        m.hit("random number from a huge range");
                        let t = (0.0..=1.0f64).sample_single(&mut g).unwrap();
                        V::N((x * (1.0 - t) + y * t).round().clamp(x, y) + 0.0)
                    } else if x == x.trunc() && y == y.trunc() { V::N((x as i64..=y as i64).sample_single(&mut g).unwrap() as f64) } else { V::N((x..=y).sample_single(&mut g).unwrap() + 0.0) }
                }
                _ => unreachable!("{op}"),
            })
        })
    }
    pub fn not(&mut self, a: &V) -> R<V> { self.unary(a, true, &mut |m, x| Ok(V::T(!m.bool(x)?))) }
    fn tonum(&mut self, a: &V) -> R<V> { self.unary(a, true, &mut |m, x| Ok(V::N(m.sc(x)?))) }
    fn map1(&mut self, op: &str, a: &V) -> R<V> {
        let op = op.to_string();
        let det = op != "StrGetRandom";
        self.unary(a, det, &mut |m, x| {
            let gr = |t: &str| -> Vec<String> { t.graphemes(true).map(|x| x.to_string()).collect() };
            let split = |m: &mut Model, v: Vec<String>| -> R<V> { m.full(v.len())?; Ok(m.texts(v)) };
            Ok(match op.as_str() {
                "Neg" => V::N(fin(-m.sc(x)?)?), "Abs" => V::N(m.sc(x)?.abs()),
                "Sqrt" => V::N(fin(m.sc(x)?.sqrt())?),
                "Floor" => V::N(fin(m.sc(x)?.floor())?), "Ceil" => V::N(fin(m.sc(x)?.ceil())?), "Round" => V::N(fin(m.sc(x)?.round())?),
                "Sin" => V::N(fin(libm::sin(m.sc(x)?.to_radians()))?), "Cos" => V::N(fin(libm::cos(m.sc(x)?.to_radians()))?), "Tan" => V::N(fin(libm::tan(m.sc(x)?.to_radians()))?),
                "Asin" => V::N(fin(libm::asin(m.sc(x)?).to_degrees())?), "Acos" => V::N(fin(libm::acos(m.sc(x)?).to_degrees())?), "Atan" => V::N(fin(libm::atan(m.sc(x)?).to_degrees())?),
                "StrLen" => V::N(gr(&m.tx(x)?).len() as f64),
                "StrGetLast" => match gr(&m.tx(x)?).last() { Some(t) => s(t), None => return fail() },
                "StrGetRandom" => { let g = gr(&m.tx(x)?); let k = m.rnd(g.len())?; m.hit("random pick"); s(&g[k]) }
                "SplitLetter" => { let v = gr(&m.tx(x)?); return split(m, v) }
                "SplitWord" => { let v = m.tx(x)?.unicode_words().map(|x| x.to_string()).collect(); return split(m, v) }
                "SplitTab" => { let v = m.tx(x)?.split('\t').map(|x| x.to_string()).collect(); return split(m, v) }
                "SplitCR" => { let v = m.tx(x)?.split('\r').map(|x| x.to_string()).collect(); return split(m, v) }
                "SplitLF" => { let v = m.tx(x)?.lines().map(|x| x.to_string()).collect(); return split(m, v) }
                "SplitCsv" => { let t = m.tx(x)?; return m.csv_in(&t) }
                "SplitJson" => {
                    let t = m.tx(x)?;
                    if t.len() > 2000 { return discard("big json") }
                    match serde_json::from_str::<serde_json::Value>(&t) { Ok(j) => return m.json_in(&j), Err(_) => return fail() }
                }
                "UnicodeToChar" => { let v = m.sc(x)?; if v < 0.0 || v > u32::MAX as f64 || v != v.trunc() { return fail() } match char::from_u32(v as u32) { Some(c) => s(&c.to_string()), None => return fail() } }
                "CharToUnicode" => {
                    let v: Vec<V> = m.tx(x)?.chars().map(|c| V::N(c as u32 as f64)).collect();
                    if v.len() == 1 { v[0].clone() } else { m.full(v.len())?; m.list(v) }
                }
                _ => unreachable!("{op}"),
            })
        })
    }
    fn json_in(&mut self, j: &serde_json::Value) -> R<V> {
        use serde_json::Value as J;
        Ok(match j {
            J::Null => return fail(), J::Bool(x) => V::T(*x), J::Number(x) => V::N(fin(x.as_f64().unwrap())?), J::String(x) => s(x),
            J::Array(x) => { let v = x.iter().map(|x| self.json_in(x)).collect::<R<Vec<_>>>()?; self.list(v) }
            J::Object(x) => { let v = x.iter().map(|(k, x)| { let x = self.json_in(x)?; Ok(self.list(vec![s(k), x])) }).collect::<R<Vec<_>>>()?; self.list(v) }
        })
    }
    fn json_out(&self, v: &V, st: &mut Vec<usize>) -> R<serde_json::Value> {
        use serde_json::Value as J;
        Ok(match v {
            V::T(x) => J::Bool(*x), V::N(x) => J::from(*x), V::S(x) => J::from(x.to_string()), V::O(_) => return discard("opaque json"),
            V::L(l) => {
                if st.contains(l) { return fail() }
                st.push(*l);
                let r = self.lists[*l].iter().map(|x| self.json_out(x, st)).collect::<R<Vec<_>>>()?;
                st.pop();
                J::Array(r)
            }
            _ => return fail(),
        })
    }
    /// Rows of cells; a cell may be quoted as a whole, with quotes inside doubled.
    fn csv_in(&mut self, t: &str) -> R<V> {
        if t.is_empty() { return Ok(self.list(vec![])) }
        let c: Vec<char> = t.chars().collect();
        self.full(c.len())?;
        let (mut rows, mut row, mut i) = (vec![], vec![], 0);
        loop {
            let mut cell = String::new();
            if c.get(i) == Some(&'"') {
                i += 1;
                loop {
                    match c.get(i) {
                        None => return fail(),
                        Some('"') if c.get(i + 1) == Some(&'"') => { cell.push('"'); i += 2 }
                        Some('"') => { i += 1; break }
                        Some(x) => { cell.push(*x); i += 1 }
                    }
                }
                if !matches!(c.get(i), None | Some(',') | Some('\n')) { return fail() }
            } else {
                while let Some(x) = c.get(i) { match x { ',' | '\n' => break, '"' => return fail(), x => { cell.push(*x); i += 1 } } }
            }
            row.push(s(&cell));
            match c.get(i) {
                Some(',') => i += 1,
                Some(_) => { i += 1; let r = self.list(std::mem::take(&mut row)); rows.push(r) }
                None => { let r = self.list(row); rows.push(r); return Ok(self.list(rows)) }
            }
        }
    }
    fn csv_out(&self, l: usize) -> R<String> {
        let cell = |v: &V| -> R<String> { let t = self.tx(v)?; Ok(if t.contains(['"', ',', '\n']) { format!("\"{}\"", t.replace('"', "\"\"")) } else { t }) };
        let row = |l: usize| -> R<String> { Ok(self.lists[l].iter().map(cell).collect::<R<Vec<_>>>()?.join(",")) };
        if self.lists[l].iter().any(|x| matches!(x, V::L(_))) { Ok(self.lists[l].iter().map(|x| row(self.lst(x)?)).collect::<R<Vec<_>>>()?.join("\n")) } else { row(l) }
    }
    /// Text of a value as shown in text.
    pub fn shown(&self, v: &V, st: &mut Vec<usize>, r: &mut String) -> R<()> {
        match v {
            V::N(x) => { if *x != 0.0 && !(1e-5..1e16).contains(&x.abs()) { return discard("text of a huge number") } r.push_str(&stringify(*x)) }
            V::S(x) => r.push_str(x), V::T(x) => r.push_str(if *x { "true" } else { "false" }),
            V::L(l) => {
                if st.contains(l) { r.push_str("[...]"); return Ok(()) }
                st.push(*l);
                r.push('[');
                for (i, x) in self.lists[*l].iter().enumerate() { if i > 0 { r.push(',') } self.shown(x, st, r)?; if r.len() > 20_000 { return discard("big text") } }
                r.push(']');
                st.pop();
            }
            V::O(_) => return discard("opaque text"),
            _ => return discard("text of a complex value"),
        }
        Ok(())
    }
    pub fn order(&self, a: &V, b: &V) -> R<Option<Ordering>> { self.ord(a, b, &mut Default::default()) }
    fn ord(&self, a: &V, b: &V, seen: &mut HashMap<(usize, usize), Option<Option<Ordering>>>) -> R<Option<Ordering>> {
        let obj = |x| Ok(if x { Some(Ordering::Equal) } else { None });
        match (a, b) {
            (V::O(_), _) | (_, V::O(_)) => discard("opaque comparison"),
            (V::T(a), V::T(b)) => Ok(Some(a.cmp(b))),
            (V::N(a), V::N(b)) => Ok(a.partial_cmp(b)),
            (V::S(a), V::S(b)) => Ok(match (numeric(a), numeric(b)) { (Some(a), Some(b)) => a.partial_cmp(&b), _ => Some(fold(a, b)) }),
            (V::N(a), V::S(b)) => Ok(match numeric(b) { Some(b) => a.partial_cmp(&b), None => Some(fold(&stringify(*a), b)) }),
            (V::S(a), V::N(b)) => Ok(match numeric(a) { Some(a) => a.partial_cmp(b), None => Some(fold(a, &stringify(*b))) }),
            (V::L(x), V::L(y)) => {
                match seen.get(&(*x, *y)) { Some(Some(r)) => return Ok(*r), Some(None) => return fail(), None => () }
                seen.insert((*x, *y), None);
                let mut r = self.lists[*x].len().cmp(&self.lists[*y].len()).into();
                for (a, b) in self.lists[*x].iter().zip(&self.lists[*y]) { let o = self.ord(a, b, seen)?; if o != Some(Ordering::Equal) { r = o; break } }
                seen.insert((*x, *y), Some(r));
                Ok(r)
            }
            (V::I(a), V::I(b)) | (V::A(a), V::A(b)) | (V::C(a), V::C(b)) | (V::E(a), V::E(b)) => obj(a == b),
            _ => Ok(None),
        }
    }
    pub fn rel(&self, op: &str, a: &V, b: &V) -> R<bool> {
        let o = self.order(a, b)?;
        Ok(match (op, o) {
            ("Eq", o) => o == Some(Ordering::Equal), ("Neq", o) => o != Some(Ordering::Equal),
            (_, None) => return fail(),
            ("Lt", Some(o)) => o == Ordering::Less, ("Gt", Some(o)) => o == Ordering::Greater, ("LessEq", Some(o)) => o != Ordering::Greater, (_, Some(o)) => o != Ordering::Less,
        })
    }
    fn flat(&self, v: &V, st: &mut Vec<usize>, r: &mut Vec<V>) -> R<()> {
        match v {
            V::L(l) => {
                if st.contains(l) { return fail() }
                st.push(*l);
                for x in &self.lists[*l] { self.flat(x, st, r)?; if r.len() > MAX_LEN { return discard("too much list work") } }
                st.pop();
            }
            x => r.push(x.clone()),
        }
        Ok(())
    }
    fn dims(&self, v: &V, d: usize, st: &mut Vec<usize>, r: &mut Vec<usize>, n: &mut usize) -> R<()> {
        *n += 1;
        if *n > 20_000 { return discard("too much list work") }
        let V::L(l) = v else { return Ok(()) };
        if r.len() == d { r.push(0) }
        if st.contains(l) { return fail() }
        st.push(*l);
        r[d] = r[d].max(self.lists[*l].len());
        for x in &self.lists[*l] { self.dims(x, d + 1, st, r, n)? }
        st.pop();
        Ok(())
    }
    fn shape(&mut self, src: &[V], k: &mut usize, dims: &[usize]) -> R<V> {
        self.full(1)?;
        let Some((n, rest)) = dims.split_first() else { *k += 1; return Ok(src[(*k - 1) % src.len()].clone()) };
        let mut v = vec![];
        for _ in 0..*n { let x = self.shape(src, k, rest)?; v.push(x) }
        Ok(self.list(v))
    }
    /// Indices named by a number or by any nesting of lists of numbers.
    pub fn index_set(&self, v: &V, len: usize) -> R<std::collections::BTreeSet<usize>> {
        fn go(m: &Model, v: &V, len: usize, seen: &mut Vec<usize>, r: &mut std::collections::BTreeSet<usize>) -> R<()> {
            match v {
                V::L(l) => if !seen.contains(l) { seen.push(*l); for x in &m.lists[*l] { go(m, x, len, seen, r)? } },
                x => { r.insert(m.index(x, len)?); }
            }
            Ok(())
        }
        let mut r = Default::default();
        go(self, v, len, &mut vec![], &mut r)?;
        Ok(r)
    }
    fn items(&mut self, n: &str, xs: &[V]) -> R<Vec<V>> { if n.ends_with('L') { let l = self.lst(&xs[0])?; Ok(self.lists[l].clone()) } else { Ok(xs.to_vec()) } }
    fn fold_op(&mut self, op: &str, xs: &[V], unit: f64) -> R<V> {
        match xs {
            [] => Ok(V::N(unit)),
            [x] => self.tonum(x),
            [x, rest @ ..] => { let mut r = x.clone(); for y in rest { r = self.arith(op, &r, y)? } Ok(r) }
        }
    }
    fn own(&self, p: &Proc) -> (usize, usize) { let e = p.frames.last().unwrap().ent; (e, self.ents[e].def) }
    pub fn costume_of(&self, p: &Proc, v: &V) -> R<Option<usize>> {
        let (_, def) = self.own(p);
        media(v, "cost", self.prog.ents[def].costumes, def, |v| if let V::I(x) = v { Some(*x) } else { None })
    }
    fn sound_of(&self, p: &Proc, v: &V) -> R<Option<usize>> {
        let (_, def) = self.own(p);
        media(v, "snd", self.prog.ents[def].sounds, def, |v| if let V::A(x) = v { Some(*x) } else { None })
    }
    pub fn op(&mut self, p: &Proc, n: &str, ex: &[Ex]) -> R<V> {
        let xs = self.evs(p, ex)?;
        self.work = 0;
        let r = self.op2(p, n, &xs);
        let shape = match xs.first() { Some(V::L(_)) => 'l', Some(V::N(_)) => 'n', Some(V::S(_)) => 's', Some(V::T(_)) => 't', Some(V::E(_) | V::C(_) | V::I(_) | V::A(_)) => 'o', Some(V::O(_)) => 'x', None => '-' };
        if self.track && !matches!(r, Err(Er::Discard(_))) {
            self.hit("operators evaluated");
            if r.is_err() { self.hit("operator refused its operands") }
            *self.ops_seen.entry(format!("{n}/{shape}/{}", if r.is_ok() { "ok" } else { "error" })).or_insert(0) += 1
        }
        r
    }
    fn op2(&mut self, p: &Proc, n: &str, xs: &[V]) -> R<V> {
        let x = |i: usize| xs.get(i).cloned().unwrap_or(V::N(0.0));
        Ok(match n {
            "Neg" | "Abs" | "Sqrt" | "Floor" | "Ceil" | "Round" | "Sin" | "Cos" | "Tan" | "Asin" | "Acos" | "Atan" | "StrLen" | "UnicodeToChar" | "CharToUnicode" | "StrGetLast" | "StrGetRandom"
            | "SplitLetter" | "SplitWord" | "SplitTab" | "SplitCR" | "SplitLF" | "SplitCsv" | "SplitJson" => return self.map1(n, &x(0)),
            "Div" | "Mod" | "Pow" | "Log" | "Atan2" | "Random" | "Range" | "StrGet" | "SplitBy" => return self.arith(n, &x(0), &x(1)),
            "Neq" | "LessEq" | "GreaterEq" => V::T(self.rel(n, &x(0), &x(1))?),
            "AddN" | "AddL" => { let v = self.items(n, xs)?; return self.fold_op("Add", &v, 0.0) }
            "MulN" | "MulL" => { let v = self.items(n, xs)?; return self.fold_op("Mul", &v, 1.0) }
            "MinN" | "MinL" | "MaxN" | "MaxL" => {
                let v = self.items(n, xs)?;
                let Some(mut r) = v.first().cloned() else { return fail() };
                for y in &v[1..] { if self.rel(if n.starts_with("Min") { "Lt" } else { "Gt" }, y, &r)? { r = y.clone() } }
                r
            }
            "CatL" => { let v = self.items(n, xs)?; let mut r = String::new(); for y in &v { self.shown(y, &mut vec![], &mut r)? } s(&r) }
            "ListCatN" | "ListCatL" => { let v = self.items(n, xs)?; let mut r = vec![]; for y in &v { let l = self.lst(y)?; self.full(self.lists[l].len())?; r.extend(self.lists[l].iter().cloned()) } self.list(r) }
            "Find" | "Contains" => {
                // operands arrive in the order in which the language evaluates them
                let (l, v) = if n == "Find" { (x(1), x(0)) } else { (x(0), x(1)) };
                let l = self.lst(&l)?;
                let mut r = 0;
                for (i, y) in self.lists[l].clone().iter().enumerate() { if self.order(y, &v)? == Some(Ordering::Equal) { r = i + 1; break } }
                if n == "Find" { V::N(r as f64) } else { V::T(r > 0) }
            }
            "ListIsEmpty" => V::T(self.lists[self.lst(&x(0))?].is_empty()),
            "ListRank" | "ListDims" => {
                let mut d = vec![];
                self.dims(&x(0), 0, &mut vec![], &mut d, &mut 0)?;
                if n == "ListRank" { V::N(d.len() as f64) } else { let v = d.iter().map(|x| V::N(*x as f64)).collect(); self.list(v) }
            }
            "ListFlatten" => { let mut r = vec![]; self.flat(&x(0), &mut vec![], &mut r)?; self.list(r) }
            "ListRev" => { let l = self.lst(&x(0))?; let v = self.lists[l].iter().rev().cloned().collect(); self.list(v) }
            "ListColumns" => {
                let rows = self.lists[self.lst(&x(0))?].clone();
                let w = rows.iter().map(|r| match r { V::L(l) => self.lists[*l].len(), _ => 1 }).max().unwrap_or(0);
                self.full(w.saturating_mul(rows.len()))?;
                let cols: Vec<Vec<V>> = (0..w).map(|i| rows.iter().map(|r| match r { V::L(l) => self.lists[*l].get(i).cloned().unwrap_or_else(|| s("")), r => r.clone() }).collect()).collect();
                let v = cols.into_iter().map(|c| self.list(c)).collect();
                self.list(v)
            }
            "ListLines" => { let l = self.lst(&x(0))?; s(&self.lists[l].iter().map(|y| self.tx(y)).collect::<R<Vec<_>>>()?.join("\n")) }
            "ListCsv" => s(&self.csv_out(self.lst(&x(0))?)?),
            "ListJson" => s(&self.json_out(&x(0), &mut vec![])?.to_string()),
            "ReshapeN" | "ReshapeL" => {
                let d = if n == "ReshapeL" { self.lists[self.lst(&x(1))?].clone() } else { xs[1..].to_vec() };
                let mut dims = vec![];
                for y in &d { let v = self.sc(y)?; if v < 0.0 || v != v.trunc() || v > u64::MAX as f64 { return fail() } dims.push(v as usize) }
                let mut src = vec![];
                self.flat(&x(0), &mut vec![], &mut src)?;
                if src.is_empty() { return fail() }
                return self.shape(&src, &mut 0, &dims);
            }
            "CombN" | "CombL" => {
                let v = self.items(n, xs)?;
                let mut src = vec![];
                for y in &v { src.push(self.lists[self.lst(y)?].clone()) }
                if src.iter().any(|y| y.is_empty()) || src.is_empty() { return Ok(self.list(vec![])) }
                if src.iter().try_fold(1usize, |a, b| a.checked_mul(b.len().max(1))).filter(|x| *x <= MAX_LEN).is_none() { return discard("too much list work") }
                let mut rows: Vec<Vec<V>> = vec![vec![]];
                for y in &src { rows = rows.iter().flat_map(|r| y.iter().map(move |z| { let mut r = r.clone(); r.push(z.clone()); r })).collect() }
                self.full(rows.len())?;
                let v = rows.into_iter().map(|r| self.list(r)).collect();
                self.list(v)
            }
            "GetRandom" => { let l = self.lst(&x(0))?; let k = self.rnd(self.lists[l].len())?; self.hit("random pick"); self.lists[l][k].clone() }
            "Costume" => self.ents[self.own(p).0].costume.map(V::I).unwrap_or_else(|| s("")),
            "CostumeNumber" => { let (e, d) = self.own(p); V::N(self.ents[e].costume.filter(|c| c / 100 == d).map(|c| (c % 100) as f64 + 1.0).unwrap_or(0.0)) }
            "CostumeList" => { let d = self.own(p).1; let v = (0..self.prog.ents[d].costumes as usize).map(|i| V::I(d * 100 + i)).collect(); self.list(v) }
            "SoundList" => { let d = self.own(p).1; let v = (0..self.prog.ents[d].sounds as usize).map(|i| V::A(d * 100 + i)).collect(); self.list(v) }
            "CostumeName" => match self.costume_of(p, &x(0))? { Some(c) => s(&format!("cost{}", c % 100)), None => s("") },
            "SoundName" => match self.sound_of(p, &x(0))? { Some(c) => s(&format!("snd{}", c % 100)), None => return fail() },
            "Pi" => V::N(std::f64::consts::PI), "E" => V::N(std::f64::consts::E),
            _ => if let Some(t) = n.strip_prefix("Is:") {
                let v = x(0);
                V::T(match t { "Number" => matches!(v, V::N(_)), "Text" => matches!(v, V::S(_) | V::O(_)), "Bool" => matches!(v, V::T(_)), "List" => matches!(v, V::L(_)), "Sprite" => matches!(v, V::E(_)), "Costume" => matches!(v, V::I(_)), _ => matches!(v, V::A(_)) })
            } else if let Some(q) = n.strip_prefix("RT:") {
                if self.opts.clock != ClockMode::Real { return fail() }
                let (days, secs) = ((self.now / 86_400_000) as i64, self.now / 1000 % 86_400);
                let (y, m, d) = civil(days);
                V::N(match q { "Year" => y as f64, "Month" => m as f64, "Date" => d as f64, "DayOfWeek" => ((days + 4) % 7 + 1) as f64, "Hour" => (secs / 3600) as f64, "Minute" => (secs / 60 % 60) as f64, _ => (secs % 60) as f64 })
            } else { unreachable!("operator {n}") },
        })
    }
    /// Commands on lists and on the host.
    pub fn stop_op(&mut self, p: &mut Proc, n: &str, ex: &[Ex], site: u32) -> Result<Flow, (Er, Option<u32>)> {
        let er = |e| (e, Some(site));
        let xs = self.evs(p, ex).map_err(er)?;
        let x = |i: usize| xs.get(i).cloned().unwrap_or(V::N(0.0));
        let ent = p.frames.last().unwrap().ent;
        let _ = ent;
        if self.track { *self.ops_seen.entry(format!("{}/command", n.split(':').next().unwrap())).or_insert(0) += 1 }
        macro_rules! cmd { ($what:expr, $args:expr) => {{ let w: String = $what; let a: Vec<V> = $args; return self.cmd(p, &w, a, site) }} }
        match n {
            "Insert" => {
                let l = self.lst(&x(2)).map_err(er)?;
                let set = self.index_set(&x(1), self.lists[l].len() + 1).map_err(er)?;
                if set.len() > 1 { self.hit("several positions at once") }
                for i in set.into_iter().rev() { self.lists[l].insert(i, x(0)) }
                if self.lists[l].len() > 3000 { return Err((Er::Discard("big list"), None)) }
            }
            "InsertRandom" => { let l = self.lst(&x(1)).map_err(er)?; let k = self.rnd(self.lists[l].len() + 1).map_err(er)?; self.hit("random pick"); self.lists[l].insert(k, x(0)); if self.lists[l].len() > 3000 { return Err((Er::Discard("big list"), None)) } }
            "RemoveLast" => { let l = self.lst(&x(0)).map_err(er)?; if self.lists[l].pop().is_none() { return Err(er(Er::Fail(Txt::Any))) } }
            "AssignLast" => { let l = self.lst(&x(0)).map_err(er)?; match self.lists[l].last_mut() { Some(y) => *y = x(1), None => return Err(er(Er::Fail(Txt::Any))) } }
            "AssignRandom" => { let l = self.lst(&x(0)).map_err(er)?; let k = self.rnd(self.lists[l].len()).map_err(er)?; self.hit("random pick"); self.lists[l][k] = x(1) }
            "TurnLeft" => { self.work = 0; let v = self.map1("Neg", &x(0)).map_err(er)?; cmd!("change Heading".into(), vec![v]) }
            "PlaySound" | "PlaySoundB" => if let Some(v) = self.sound_of(p, &x(0)).map_err(er)? { cmd!(format!("sound {}", n.ends_with('B')), vec![V::A(v)]) },
            "PlayNotes" | "PlayNotesB" | "Rest" => {
                let beats = self.sc(&x(if n == "Rest" { 0 } else { 1 })).map_err(er)?;
                let notes = if n == "Rest" { vec![] } else { match x(0) { V::L(l) => self.lists[l].clone(), v => vec![v] } };
                let mut v = vec![];
                for y in &notes { v.push(V::N(self.note(y).map_err(er)? as f64)) }
                if beats > 0.0 { let l = self.list(v); cmd!(format!("notes {}", n != "PlayNotes"), vec![l, V::N(beats)]) }
            }
            "PointTowards" => match x(0) {
                V::L(l) => {
                    let l = self.lists[l].clone();
                    if l.len() != 2 { return Err(er(Er::Fail(Txt::Any))) }
                    let (a, b) = (self.sc(&l[0]).map_err(er)?, self.sc(&l[1]).map_err(er)?);
                    cmd!("pointxy".into(), vec![V::N(a), V::N(b)])
                }
                V::E(e) => cmd!("pointent".into(), vec![V::E(e)]),
                _ => return Err(er(Er::Fail(Txt::Any))),
            },
            "PointXY" => { let (a, b) = (self.sc(&x(0)).map_err(er)?, self.sc(&x(1)).map_err(er)?); cmd!("pointxy".into(), vec![V::N(a), V::N(b)]) }
            "Visible:T" | "Visible:F" => cmd!("set Visible".into(), vec![V::T(n.ends_with('T'))]),
            "PenDown:T" | "PenDown:F" => cmd!("set PenDown".into(), vec![V::T(n.ends_with('T'))]),
            "PenClear" => cmd!("cleardrawings".into(), vec![]),
            _ => {
                if let Some(c) = n.strip_prefix("PenColor:") { let c = u32::from_str_radix(c, 16).unwrap_or(0); cmd!("set PenColor".into(), vec![V::N(((c & 0xff) << 24 | c >> 8) as f64)]) }
                let (k, prop) = n.split_once(':').unwrap();
                cmd!(format!("{} {prop}", if k.starts_with("Set") { "set" } else { "change" }), vec![x(0)])
            }
        }
        Ok(Flow::Next)
    }
    fn note(&self, v: &V) -> R<u8> {
        if let V::O(_) = v { return discard("opaque note") }
        if let Ok(x) = self.sc(v) { return if x == x.trunc() && (0.0..128.0).contains(&x) { Ok(x as u8) } else { fail() } }
        let t = self.tx(v)?;
        let t: Vec<char> = t.trim().chars().collect();
        let Some(base) = t.first().and_then(|c| match c.to_ascii_uppercase() { 'C' => Some(0i64), 'D' => Some(2), 'E' => Some(4), 'F' => Some(5), 'G' => Some(7), 'A' => Some(9), 'B' => Some(11), _ => None }) else { return fail() };
        let (mut octave, mut delta, mut i) = (None, 0i64, 1);
        while i < t.len() {
            match t[i] {
                '+' | '-' | '0'..='9' => {
                    if octave.is_some() { return fail() }
                    let from = i;
                    i += 1;
                    while i < t.len() && t[i].is_ascii_digit() { i += 1 }
                    match t[from..i].iter().collect::<String>().parse::<i64>() { Ok(v) if v.abs() < 1000 => octave = Some(v), _ => return fail() }
                    continue;
                }
                's' | '#' | '♯' => delta += 1,
                'b' | '♭' => delta -= 1,
                'n' | '♮' => (),
                _ => return fail(),
            }
            i += 1;
        }
        let Some(o) = octave else { return fail() };
        let v = 12 * (o + 1) + base + delta;
        if (0..128).contains(&v) { Ok(v as u8) } else { fail() }
    }
}
/// A costume or sound given as itself or by its name among the sprite's own; the empty name is none at all.
fn media(v: &V, prefix: &str, n: u32, def: usize, get: impl Fn(&V) -> Option<usize>) -> R<Option<usize>> {
    match v {
        V::S(x) if x.is_empty() => Ok(None),
        V::S(x) => match x.strip_prefix(prefix).and_then(|y| y.parse::<u32>().ok()).filter(|y| *y < n && format!("{prefix}{y}") == **x) { Some(y) => Ok(Some(def * 100 + y as usize)), None => fail() },
        V::O(_) => discard("opaque name"),
        v => match get(v) { Some(x) => Ok(Some(x)), None => fail() },
    }
}
fn civil(days: i64) -> (i64, i64, i64) {
    let z = days + 719_468;
    let era = z.div_euclid(146_097);
    let doe = z.rem_euclid(146_097);
    let yoe = (doe - doe / 1460 + doe / 36_524 - doe / 146_096) / 365;
    let doy = doe - (365 * yoe + yoe / 4 - yoe / 100);
    let mp = (5 * doy + 2) / 153;
    let (d, m) = (doy - (153 * mp + 2) / 5 + 1, if mp < 10 { mp + 3 } else { mp - 9 });
    (yoe + era * 400 + (m <= 2) as i64, m, d)
}
