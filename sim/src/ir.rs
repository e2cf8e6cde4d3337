//! Program representation shared by the generator, the reference model and the lowering to the VM's syntax tree.
use std::rc::Rc;
use serde::{Serialize, Deserialize};
use netsblox_vm::ast;
use netsblox_vm::compact_str::CompactString;

pub type Body = Rc<Vec<Stm>>;
pub type B<T> = Box<T>;

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub struct Stm { pub id: u32, pub k: St }

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub enum Ex {
    N(f64), S(String), T(bool), V(String),
    L(Vec<Ex>),
    Add(B<Ex>, B<Ex>), Sub(B<Ex>, B<Ex>),
    Lt(B<Ex>, B<Ex>), Gt(B<Ex>, B<Ex>), Eq(B<Ex>, B<Ex>),
    Not(B<Ex>), And(B<Ex>, B<Ex>), Or(B<Ex>, B<Ex>),
    Cond(B<Ex>, B<Ex>, B<Ex>),
    Cat(Vec<Ex>),
    Get(B<Ex>, B<Ex>), Last(B<Ex>), Len(B<Ex>), Cdr(B<Ex>), Cons(B<Ex>, B<Ex>), Copy(B<Ex>), Same(B<Ex>, B<Ex>),
    This, Ent(String),
    Timer, Answer, Msg, RpcErr, SysErr, UnixMs,
    Clo { params: Vec<String>, caps: Vec<String>, body: Body },
    /// an operator or reporter, by name, with its operands in evaluation order
    Op(String, Vec<Ex>),
    /// a literal list
    Lit(Lit),
}
#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub enum Eff {
    Rpc { host: Option<String>, service: String, rpc: String, args: Vec<(String, Ex)> },
    Sys { name: String, args: Vec<Ex> },
    Block { name: String, args: Vec<Ex> },
    Prop(u8),
    Get(String),
    Call { f: String, args: Vec<Ex>, #[serde(default)] ups: Vec<String> },
    CallClo { ent: Option<Ex>, clo: Ex, args: Vec<Ex> },
    NetWait { target: Ex, ty: String, vals: Vec<(String, Ex)> },
    Clone(Ex),
    Map { f: Ex, list: Ex }, Keep { f: Ex, list: Ex }, Find { f: Ex, list: Ex }, Combine { f: Ex, list: Ex },
}
#[derive(Clone, Copy, Debug, Serialize, Deserialize, PartialEq)]
pub enum StopMode { All, This, Block, Others, MyOthers }
#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub enum St {
    Log(Vec<Ex>),
    Set(String, Ex), Change(String, Ex), Decl(Vec<String>),
    Let { var: String, pre: Vec<Ex>, eff: Eff },
    Do(Eff),
    If(Ex, Body), IfElse(Ex, Body, Body),
    Repeat(Ex, Body), Forever(Body), Until(Ex, Body), For(String, Ex, Ex, Body), Foreach(String, Ex, Body),
    Warp(Body), WaitUntil(Ex),
    Try { body: Body, var: String, handler: Body }, Throw(Ex), Ret(Ex),
    Bcast { msg: Ex, target: Option<Ex>, wait: bool },
    Stop(StopMode),
    Sleep(Ex), Delete, Fork { clo: Ex, args: Vec<Ex> },
    NetSend { target: Ex, ty: String, vals: Vec<(String, Ex)> }, NetReply(Ex),
    Say { think: bool, v: Ex, dur: Option<Ex> }, Ask(Ex),
    SetProp(u8, Ex), ChProp(u8, Ex), Goto(Ex, Ex), GotoEnt(Ex), Forward(Ex), ClearEffects, StopSounds,
    ResetTimer, Pause, Show(String), Hide(String),
    Push(Ex, Ex), SetItem(Ex, Ex, Ex), Remove(Ex, Ex), RemoveAll(Ex),
    Costume(Ex), NextCostume,
    /// a command, by name, with its operands in evaluation order
    Op(String, Vec<Ex>),
}
#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub enum Lit { N(f64), S(String), T(bool), L(Vec<Lit>), Shared(u32, Vec<Lit>), Ref(u32) }
#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub enum Hat {
    Flag, Clone, Key(Option<String>), Local(Option<String>),
    Net { ty: String, fields: Vec<String> }, Custom { name: String, fields: Vec<String> }, None,
}
#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub struct ScriptDef { pub hat: Hat, pub body: Body }
#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub struct Func { pub name: String, pub params: Vec<String>, pub body: Body, #[serde(default)] pub ups: Vec<String> }
#[derive(Clone, Debug, Serialize, Deserialize, PartialEq, Default)]
pub struct EntDef { pub name: String, pub fields: Vec<(String, Lit)>, pub funcs: Vec<Func>, pub scripts: Vec<ScriptDef>, #[serde(default)] pub costumes: u32, #[serde(default)] pub sounds: u32, #[serde(default)] pub look: Look }
/// How a sprite stands in the project file.
#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub struct Look { pub pos: (f64, f64), pub heading: f64, pub scale: f64, pub visible: bool, pub color: (u8, u8, u8, u8), pub active: Option<u32> }
impl Default for Look { fn default() -> Self { Look { pos: (0.0, 0.0), heading: 90.0, scale: 1.0, visible: true, color: (10, 20, 30, 255), active: Some(0) } } }
#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub struct Prog { pub globals: Vec<(String, Lit)>, pub funcs: Vec<Func>, pub ents: Vec<EntDef> }

// ---------------------------------------------------------------- lowering

fn cs(s: &str) -> CompactString { CompactString::new(s) }
fn vdef(s: &str) -> ast::VariableDef { ast::VariableDef { name: cs(s), trans_name: cs(s) } }
fn vref(s: &str) -> ast::VariableRef { ast::VariableRef { name: cs(s), trans_name: cs(s), location: ast::VarLocation::Local } }
fn info(loc: Option<u32>) -> Box<ast::BlockInfo> { Box::new(ast::BlockInfo { comment: None, location: loc.map(|x| cs(&format!("item_{x}"))) }) }
fn mk(kind: ast::ExprKind) -> ast::Expr { ast::Expr { kind, info: info(None) } }
fn bx(e: &Ex, l: &Lower) -> Box<ast::Expr> { Box::new(l.ex(e)) }
fn list(xs: Vec<ast::Expr>) -> Box<ast::Expr> { Box::new(mk(ast::ExprKind::MakeList { values: xs })) }

pub const LOG: &str = "log";

pub struct Lower<'a> { pub prog: &'a Prog, pub methods: Vec<&'a str> }
impl<'a> Lower<'a> {
    fn fnref(&self, f: &str) -> ast::FnRef {
        let location = if self.methods.contains(&f) { ast::FnLocation::Method } else { ast::FnLocation::Global };
        ast::FnRef { name: cs(f), trans_name: cs(f), location }
    }
    fn args(&self, xs: &[Ex]) -> Vec<ast::Expr> { xs.iter().map(|x| self.ex(x)).collect() }
    fn named(&self, xs: &[(String, Ex)]) -> Vec<(CompactString, ast::Expr)> { xs.iter().map(|(k, v)| (cs(k), self.ex(v))).collect() }
    pub fn ex(&self, e: &Ex) -> ast::Expr {
        use ast::ExprKind as K;
        mk(match e {
            Ex::N(v) => K::Value(ast::Value::Number(*v)),
            Ex::S(v) => K::Value(ast::Value::String(cs(v))),
            Ex::T(v) => K::Value(ast::Value::Bool(*v)),
            Ex::V(v) => K::Variable { var: vref(v) },
            Ex::L(xs) => K::MakeList { values: self.args(xs) },
            Ex::Add(a, b) => K::Add { values: list(vec![self.ex(a), self.ex(b)]) },
            Ex::Sub(a, b) => K::Sub { left: bx(a, self), right: bx(b, self) },
            Ex::Lt(a, b) => K::Less { left: bx(a, self), right: bx(b, self) },
            Ex::Gt(a, b) => K::Greater { left: bx(a, self), right: bx(b, self) },
            Ex::Eq(a, b) => K::Eq { left: bx(a, self), right: bx(b, self) },
            Ex::Same(a, b) => K::Identical { left: bx(a, self), right: bx(b, self) },
            Ex::Not(a) => K::Not { value: bx(a, self) },
            Ex::And(a, b) => K::And { left: bx(a, self), right: bx(b, self) },
            Ex::Or(a, b) => K::Or { left: bx(a, self), right: bx(b, self) },
            Ex::Cond(a, b, c) => K::Conditional { condition: bx(a, self), then: bx(b, self), otherwise: bx(c, self) },
            Ex::Cat(xs) => K::StrCat { values: list(self.args(xs)) },
            Ex::Get(l, i) => K::ListGet { list: bx(l, self), index: bx(i, self) },
            Ex::Last(l) => K::ListGetLast { list: bx(l, self) },
            Ex::Len(l) => K::ListLen { value: bx(l, self) },
            Ex::Cdr(l) => K::ListCdr { value: bx(l, self) },
            Ex::Cons(x, l) => K::ListCons { item: bx(x, self), list: bx(l, self) },
            Ex::Copy(l) => K::CopyList { list: bx(l, self) },
            Ex::This => K::This,
            Ex::Ent(n) => K::Entity { name: cs(n), trans_name: cs(n) },
            Ex::Timer => K::Timer,
            Ex::Answer => K::Answer,
            Ex::Msg => K::Message,
            Ex::RpcErr => K::RpcError,
            Ex::SysErr => K::UnknownBlock { name: cs("nativeSyscallError"), args: vec![] },
            Ex::UnixMs => K::RealTime { query: ast::TimeQuery::UnixTimestampMs },
            Ex::Clo { params, caps, body } => K::Closure {
                kind: ast::ClosureKind::Command,
                params: params.iter().map(|x| vdef(x)).collect(),
                captures: caps.iter().map(|x| vref(x)).collect(),
                stmts: self.body(body),
            },
            Ex::Lit(l) => K::Value(lit(l)),
            Ex::Op(n, xs) => self.op(n, xs),
        })
    }
    fn op(&self, n: &str, xs: &[Ex]) -> ast::ExprKind {
        use ast::ExprKind as K;
        let mut it = xs.iter().map(|x| Box::new(self.ex(x)));
        let mut x = || it.next().unwrap_or_else(|| Box::new(ast::Expr::from(0.0)));
        macro_rules! un { ($($k:ident)*) => { match n { $(stringify!($k) => return K::$k { value: x() },)* _ => () } } }
        macro_rules! bi { ($($k:ident)*) => { match n { $(stringify!($k) => { let left = x(); let right = x(); return K::$k { left, right } },)* _ => () } } }
        un!(Neg Abs Sqrt Floor Ceil Round Sin Cos Tan Asin Acos Atan StrLen UnicodeToChar CharToUnicode ListRank ListDims ListFlatten ListColumns ListRev ListLines ListCsv ListJson ListIsEmpty);
        bi!(Div Mod Neq LessEq GreaterEq);
        let rest = |k: usize| list(xs[k.min(xs.len())..].iter().map(|x| self.ex(x)).collect());
        match n {
            "AddN" => K::Add { values: rest(0) }, "MulN" => K::Mul { values: rest(0) }, "MinN" => K::Min { values: rest(0) }, "MaxN" => K::Max { values: rest(0) },
            "AddL" => K::Add { values: x() }, "MulL" => K::Mul { values: x() }, "MinL" => K::Min { values: x() }, "MaxL" => K::Max { values: x() }, "CatL" => K::StrCat { values: x() },
            "ListCatN" => K::ListCat { lists: rest(0) }, "ListCatL" => K::ListCat { lists: x() },
            "Pow" => { let base = x(); K::Pow { base, power: x() } }
            "Log" => { let base = x(); K::Log { base, value: x() } }
            "Atan2" => { let y = x(); K::Atan2 { y, x: x() } }
            "Random" => { let a = x(); K::Random { a, b: x() } }
            "Range" => { let start = x(); K::Range { start, stop: x() } }
            "Find" => { let value = x(); K::ListFind { value, list: x() } }
            "Contains" => { let list = x(); K::ListContains { list, value: x() } }
            "StrGet" => { let index = x(); K::StrGet { index, string: x() } }
            "StrGetLast" => K::StrGetLast { string: x() }, "StrGetRandom" => K::StrGetRandom { string: x() },
            "GetRandom" => K::ListGetRandom { list: x() },
            "ReshapeN" => K::ListReshape { value: x(), dims: rest(1) }, "ReshapeL" => { let value = x(); K::ListReshape { value, dims: x() } }
            "CombN" => K::ListCombinations { sources: rest(0) }, "CombL" => K::ListCombinations { sources: x() },
            "SplitLetter" => K::TextSplit { text: x(), mode: ast::TextSplitMode::Letter }, "SplitWord" => K::TextSplit { text: x(), mode: ast::TextSplitMode::Word },
            "SplitTab" => K::TextSplit { text: x(), mode: ast::TextSplitMode::Tab }, "SplitCR" => K::TextSplit { text: x(), mode: ast::TextSplitMode::CR },
            "SplitLF" => K::TextSplit { text: x(), mode: ast::TextSplitMode::LF }, "SplitCsv" => K::TextSplit { text: x(), mode: ast::TextSplitMode::Csv },
            "SplitJson" => K::TextSplit { text: x(), mode: ast::TextSplitMode::Json },
            "SplitBy" => { let text = x(); K::TextSplit { text, mode: ast::TextSplitMode::Custom(x()) } }
            "Costume" => K::Costume, "CostumeNumber" => K::CostumeNumber, "CostumeList" => K::CostumeList, "CostumeName" => K::CostumeName { costume: x() },
            "SoundList" => K::SoundList, "SoundName" => K::SoundName { sound: x() },
            "Pi" => K::Value(ast::Value::Constant(ast::Constant::Pi)), "E" => K::Value(ast::Value::Constant(ast::Constant::E)),
            _ => if let Some(t) = n.strip_prefix("Is:") {
                use ast::ValueType as T;
                let ty = match t { "Number" => T::Number, "Text" => T::Text, "Bool" => T::Bool, "List" => T::List, "Sprite" => T::Sprite, "Costume" => T::Costume, _ => T::Sound };
                K::TypeQuery { value: x(), ty }
            } else if let Some(q) = n.strip_prefix("RT:") {
                use ast::TimeQuery as T;
                K::RealTime { query: match q { "Year" => T::Year, "Month" => T::Month, "Date" => T::Date, "DayOfWeek" => T::DayOfWeek, "Hour" => T::Hour, "Minute" => T::Minute, _ => T::Second } }
            } else { panic!("unknown operator {n}") },
        }
    }
    fn stop(&self, n: &str, xs: &[Ex]) -> ast::StmtKind {
        use ast::StmtKind as K;
        let mut it = xs.iter().map(|x| Box::new(self.ex(x)));
        let mut x = || it.next().unwrap_or_else(|| Box::new(ast::Expr::from(0.0)));
        if let Some(k) = n.strip_prefix("SetEffect:") { return K::SetEffect { kind: effect(k), value: x() } }
        if let Some(k) = n.strip_prefix("ChEffect:") { return K::ChangeEffect { kind: effect(k), delta: x() } }
        if let Some(k) = n.strip_prefix("SetPen:") { return if k == "PenSize" { K::SetPenSize { value: x() } } else { K::SetPenAttr { attr: pen(k), value: x() } } }
        if let Some(k) = n.strip_prefix("ChPen:") { return if k == "PenSize" { K::ChangePenSize { delta: x() } } else { K::ChangePenAttr { attr: pen(k), delta: x() } } }
        match n {
            "Insert" => { let value = x(); let index = x(); K::ListInsert { value, index, list: x() } }
            "InsertRandom" => { let value = x(); K::ListInsertRandom { value, list: x() } }
            "RemoveLast" => K::ListRemoveLast { list: x() },
            "AssignLast" => { let list = x(); K::ListAssignLast { list, value: x() } }
            "AssignRandom" => { let list = x(); K::ListAssignRandom { list, value: x() } }
            "TurnLeft" => K::TurnLeft { angle: x() },
            "PlaySound" => K::PlaySound { sound: x(), blocking: false }, "PlaySoundB" => K::PlaySound { sound: x(), blocking: true },
            "PlayNotes" => { let notes = x(); K::PlayNotes { notes, beats: x(), blocking: false } }
            "PlayNotesB" => { let notes = x(); K::PlayNotes { notes, beats: x(), blocking: true } }
            "Rest" => K::Rest { beats: x() },
            "PointTowards" => K::PointTowards { target: x() },
            "PointXY" => { let a = x(); K::PointTowardsXY { x: a, y: x() } }
            "Visible:T" => K::SetVisible { value: true }, "Visible:F" => K::SetVisible { value: false },
            "PenDown:T" => K::SetPenDown { value: true }, "PenDown:F" => K::SetPenDown { value: false },
            "PenClear" => K::PenClear,
            _ => match n.strip_prefix("PenColor:") {
                Some(c) => { let v = u32::from_str_radix(c, 16).unwrap_or(0).to_be_bytes(); K::SetPenColor { color: (v[0], v[1], v[2], v[3]) } }
                None => panic!("unknown command {n}"),
            },
        }
    }
    fn eff_ex(&self, e: &Eff) -> ast::Expr {
        use ast::ExprKind as K;
        mk(match e {
            Eff::Rpc { host, service, rpc, args } => K::CallRpc { host: host.as_deref().map(cs), service: cs(service), rpc: cs(rpc), args: self.named(args) },
            Eff::Sys { name, args } => K::UnknownBlock { name: cs("nativeCallSyscall"), args: vec![ast::Expr::from(name.as_str()), *list(self.args(args))] },
            Eff::Block { name, args } => K::UnknownBlock { name: cs(name), args: self.args(args) },
            Eff::Prop(p) => match p % 6 { 0 => K::XPos, 1 => K::YPos, 2 => K::Heading, 3 => K::Size, 4 => K::IsVisible, _ => K::PenDown },
            Eff::Get(p) => match p.as_str() {
                "PenSize" => K::PenAttr { attr: ast::PenAttribute::Size }, "PenColorH" => K::PenAttr { attr: ast::PenAttribute::Hue }, "PenColorS" => K::PenAttr { attr: ast::PenAttribute::Saturation },
                "PenColorV" => K::PenAttr { attr: ast::PenAttribute::Brightness }, "PenColorT" => K::PenAttr { attr: ast::PenAttribute::Transparency },
                p => K::Effect { kind: effect(p) },
            },
            Eff::Call { f, args, ups } => K::CallFn { function: self.fnref(f), args: self.args(args), upvars: ups.iter().map(|x| vref(x)).collect() },
            Eff::CallClo { ent, clo, args } => K::CallClosure { new_entity: ent.as_ref().map(|x| bx(x, self)), closure: bx(clo, self), args: self.args(args) },
            Eff::NetWait { target, ty, vals } => K::NetworkMessageReply { target: bx(target, self), msg_type: cs(ty), values: self.named(vals) },
            Eff::Clone(t) => K::Clone { target: bx(t, self) },
            Eff::Map { f, list } => K::Map { f: bx(f, self), list: bx(list, self) },
            Eff::Keep { f, list } => K::Keep { f: bx(f, self), list: bx(list, self) },
            Eff::Find { f, list } => K::FindFirst { f: bx(f, self), list: bx(list, self) },
            Eff::Combine { f, list } => K::Combine { f: bx(f, self), list: bx(list, self) },
        })
    }
    pub fn body(&self, b: &Body) -> Vec<ast::Stmt> { b.iter().map(|s| self.st(s)).collect() }
    fn st(&self, s: &Stm) -> ast::Stmt {
        use ast::StmtKind as K;
        let id = s.id;
        let var_log = || Box::new(mk(ast::ExprKind::Variable { var: vref(LOG) }));
        let kind = match &s.k {
            St::Log(xs) => {
                let mut vals = vec![ast::Expr::from(id as f64)];
                vals.extend(self.args(xs));
                K::ListInsertLast { list: var_log(), value: list(vals) }
            }
            St::Set(v, e) => K::Assign { var: vref(v), value: bx(e, self) },
            St::Change(v, e) => K::AddAssign { var: vref(v), value: bx(e, self) },
            St::Decl(vs) => K::DeclareLocals { vars: vs.iter().map(|x| vdef(x)).collect() },
            St::Let { var, pre, eff } => {
                let e = self.eff_ex(eff);
                let value = if pre.is_empty() { Box::new(e) } else {
                    let mut xs = self.args(pre);
                    xs.push(e);
                    list(xs)
                };
                K::Assign { var: vref(var), value }
            }
            St::Do(eff) => match eff {
                Eff::Rpc { host, service, rpc, args } => K::CallRpc { host: host.as_deref().map(cs), service: cs(service), rpc: cs(rpc), args: self.named(args) },
                Eff::Sys { name, args } => K::UnknownBlock { name: cs("nativeRunSyscall"), args: vec![ast::Expr::from(name.as_str()), *list(self.args(args))] },
                Eff::Block { name, args } => K::UnknownBlock { name: cs(name), args: self.args(args) },
                Eff::Call { f, args, ups } => K::CallFn { function: self.fnref(f), args: self.args(args), upvars: ups.iter().map(|x| vref(x)).collect() },
                Eff::CallClo { ent, clo, args } => K::CallClosure { new_entity: ent.as_ref().map(|x| bx(x, self)), closure: bx(clo, self), args: self.args(args) },
                Eff::Clone(t) => K::Clone { target: bx(t, self) },
                x => K::Assign { var: vref("junk"), value: Box::new(self.eff_ex(x)) },
            },
            St::If(c, b) => K::If { condition: bx(c, self), then: self.body(b) },
            St::IfElse(c, a, b) => K::IfElse { condition: bx(c, self), then: self.body(a), otherwise: self.body(b) },
            St::Repeat(n, b) => K::Repeat { times: bx(n, self), stmts: self.body(b) },
            St::Forever(b) => K::InfLoop { stmts: self.body(b) },
            St::Until(c, b) => K::UntilLoop { condition: bx(c, self), stmts: self.body(b) },
            St::For(v, a, z, b) => K::ForLoop { var: vref(v), start: bx(a, self), stop: bx(z, self), stmts: self.body(b) },
            St::Foreach(v, l, b) => K::ForeachLoop { var: vref(v), items: bx(l, self), stmts: self.body(b) },
            St::Warp(b) => K::Warp { stmts: self.body(b) },
            St::WaitUntil(c) => K::WaitUntil { condition: bx(c, self) },
            St::Try { body, var, handler } => K::TryCatch { code: self.body(body), var: vref(var), handler: self.body(handler) },
            St::Throw(e) => K::Throw { error: bx(e, self) },
            St::Ret(e) => K::Return { value: bx(e, self) },
            St::Bcast { msg, target, wait } => K::SendLocalMessage { target: target.as_ref().map(|x| bx(x, self)), msg_type: bx(msg, self), wait: *wait },
            St::Stop(m) => K::Stop { mode: match m {
                StopMode::All => ast::StopMode::All, StopMode::This => ast::StopMode::ThisScript, StopMode::Block => ast::StopMode::ThisBlock,
                StopMode::Others => ast::StopMode::AllButThisScript, StopMode::MyOthers => ast::StopMode::OtherScriptsInSprite,
            } },
            St::Sleep(e) => K::Sleep { seconds: bx(e, self) },
            St::Delete => K::DeleteClone,
            St::Fork { clo, args } => K::ForkClosure { closure: bx(clo, self), args: self.args(args) },
            St::NetSend { target, ty, vals } => K::SendNetworkMessage { target: bx(target, self), msg_type: cs(ty), values: self.named(vals) },
            St::NetReply(e) => K::SendNetworkReply { value: bx(e, self) },
            St::Say { think: false, v, dur } => K::Say { content: bx(v, self), duration: dur.as_ref().map(|x| bx(x, self)) },
            St::Say { think: true, v, dur } => K::Think { content: bx(v, self), duration: dur.as_ref().map(|x| bx(x, self)) },
            St::Ask(e) => K::Ask { prompt: bx(e, self) },
            St::SetProp(p, e) => match p % 4 {
                0 => K::SetX { value: bx(e, self) }, 1 => K::SetY { value: bx(e, self) }, 2 => K::SetHeading { value: bx(e, self) }, _ => K::SetSize { value: bx(e, self) },
            },
            St::ChProp(p, e) => match p % 4 {
                0 => K::ChangeX { delta: bx(e, self) }, 1 => K::ChangeY { delta: bx(e, self) }, 2 => K::TurnRight { angle: bx(e, self) }, _ => K::ChangeSize { delta: bx(e, self) },
            },
            St::Goto(x, y) => K::GotoXY { x: bx(x, self), y: bx(y, self) },
            St::GotoEnt(e) => K::Goto { target: bx(e, self) },
            St::Forward(e) => K::Forward { distance: bx(e, self) },
            St::ClearEffects => K::ClearEffects,
            St::StopSounds => K::StopSounds,
            St::ResetTimer => K::ResetTimer,
            St::Pause => K::Pause,
            St::Show(v) => K::ShowVar { var: vref(v) },
            St::Hide(v) => K::HideVar { var: vref(v) },
            St::Push(l, v) => K::ListInsertLast { list: bx(l, self), value: bx(v, self) },
            St::SetItem(l, i, v) => K::ListAssign { list: bx(l, self), index: bx(i, self), value: bx(v, self) },
            St::Remove(l, i) => K::ListRemove { list: bx(l, self), index: bx(i, self) },
            St::RemoveAll(l) => K::ListRemoveAll { list: bx(l, self) },
            St::Costume(e) => K::SetCostume { costume: bx(e, self) },
            St::NextCostume => K::NextCostume,
            St::Op(n, xs) => self.stop(n, xs),
        };
        ast::Stmt { kind, info: info(Some(id)) }
    }
}
fn lit(l: &Lit) -> ast::Value {
    match l {
        Lit::N(v) => ast::Value::Number(*v),
        Lit::S(v) => ast::Value::String(cs(v)),
        Lit::T(v) => ast::Value::Bool(*v),
        Lit::L(xs) => ast::Value::List(xs.iter().map(lit).collect(), None),
        Lit::Shared(r, xs) => ast::Value::List(xs.iter().map(lit).collect(), Some(ast::RefId(*r as usize))),
        Lit::Ref(r) => ast::Value::Ref(ast::RefId(*r as usize)),
    }
}
/// Effects by the name of the property they stand for.
fn effect(p: &str) -> ast::EffectKind {
    use ast::EffectKind as E;
    match p { "ColorH" => E::Color, "ColorS" => E::Saturation, "ColorV" => E::Brightness, "ColorT" => E::Ghost, "Fisheye" => E::Fisheye, "Whirl" => E::Whirl, "Pixelate" => E::Pixelate, "Mosaic" => E::Mosaic, _ => E::Negative }
}
fn pen(p: &str) -> ast::PenAttribute {
    use ast::PenAttribute as P;
    match p { "PenColorH" => P::Hue, "PenColorS" => P::Saturation, "PenColorV" => P::Brightness, "PenColorT" => P::Transparency, _ => P::Size }
}
fn vinit(n: &str, l: &Lit) -> ast::VariableDefInit { ast::VariableDefInit { def: vdef(n), init: lit(l) } }
fn func(f: &Func, l: &Lower) -> ast::Function {
    ast::Function { name: cs(&f.name), trans_name: cs(&f.name), params: f.params.iter().map(|x| vdef(x)).collect(), upvars: f.ups.iter().map(|x| vref(x)).collect(), returns: true, stmts: l.body(&f.body) }
}
pub fn lower(p: &Prog) -> ast::Role {
    let gl = Lower { prog: p, methods: vec![] };
    let mut globals: Vec<_> = vec![vinit(LOG, &Lit::L(vec![])), vinit("junk", &Lit::N(0.0))];
    globals.extend(p.globals.iter().map(|(n, l)| vinit(n, l)));
    ast::Role {
        name: cs("role"), notes: cs(""), stage_size: (480, 360), globals,
        funcs: p.funcs.iter().map(|f| func(f, &gl)).collect(),
        entities: p.ents.iter().map(|e| {
            let l = Lower { prog: p, methods: e.funcs.iter().map(|f| f.name.as_str()).collect() };
            ast::Entity {
                name: cs(&e.name), trans_name: cs(&e.name),
                fields: e.fields.iter().map(|(n, l)| vinit(n, l)).collect(),
                costumes: (0..e.costumes).map(|i| ast::VariableDefInit { def: vdef(&format!("cost{i}")), init: ast::Value::Image(std::rc::Rc::new((vec![i as u8, 7], None, cs(&format!("cost{i}"))))) }).collect(),
                sounds: (0..e.sounds).map(|i| ast::VariableDefInit { def: vdef(&format!("snd{i}")), init: ast::Value::Audio(std::rc::Rc::new((vec![9, i as u8], cs(&format!("snd{i}"))))) }).collect(),
                funcs: e.funcs.iter().map(|f| func(f, &l)).collect(),
                scripts: e.scripts.iter().map(|s| {
                    let kind = match &s.hat {
                        Hat::Flag => Some(ast::HatKind::OnFlag),
                        Hat::Clone => Some(ast::HatKind::OnClone),
                        Hat::Key(k) => Some(ast::HatKind::OnKey { key: cs(k.as_deref().unwrap_or("any key")) }),
                        Hat::Local(m) => Some(ast::HatKind::LocalMessage { msg_type: m.as_deref().map(cs) }),
                        Hat::Net { ty, fields } => Some(ast::HatKind::NetworkMessage { msg_type: cs(ty), fields: fields.iter().map(|x| vref(x)).collect() }),
                        Hat::Custom { name, fields } => Some(ast::HatKind::Unknown { name: cs(name), fields: fields.iter().map(|x| vref(x)).collect() }),
                        Hat::None => None,
                    };
                    ast::Script { hat: kind.map(|kind| Box::new(ast::Hat { kind, info: info(None) })), stmts: l.body(&s.body) }
                }).collect(),
                active_costume: e.look.active.filter(|x| *x < e.costumes).map(|x| x as usize), visible: e.look.visible, color: e.look.color, pos: e.look.pos, heading: e.look.heading, scale: e.look.scale,
            }
        }).collect(),
    }
}

pub fn renumber(p: &mut Prog) {
    fn ex(e: &mut Ex, n: &mut u32) {
        match e {
            Ex::L(xs) | Ex::Cat(xs) | Ex::Op(_, xs) => xs.iter_mut().for_each(|x| ex(x, n)),
            Ex::Add(a, b) | Ex::Sub(a, b) | Ex::Lt(a, b) | Ex::Gt(a, b) | Ex::Eq(a, b) | Ex::And(a, b) | Ex::Or(a, b) | Ex::Get(a, b) | Ex::Cons(a, b) | Ex::Same(a, b) => { ex(a, n); ex(b, n) }
            Ex::Not(a) | Ex::Last(a) | Ex::Len(a) | Ex::Cdr(a) | Ex::Copy(a) => ex(a, n),
            Ex::Cond(a, b, c) => { ex(a, n); ex(b, n); ex(c, n) }
            Ex::Clo { body: b, .. } => body(b, n),
            _ => (),
        }
    }
    fn eff(e: &mut Eff, n: &mut u32) {
        match e {
            Eff::Rpc { args, .. } => args.iter_mut().for_each(|x| ex(&mut x.1, n)),
            Eff::Sys { args, .. } | Eff::Block { args, .. } | Eff::Call { args, .. } => args.iter_mut().for_each(|x| ex(x, n)),
            Eff::CallClo { ent, clo, args } => { if let Some(e) = ent { ex(e, n) } ex(clo, n); args.iter_mut().for_each(|x| ex(x, n)) }
            Eff::NetWait { target, vals, .. } => { ex(target, n); vals.iter_mut().for_each(|x| ex(&mut x.1, n)) }
            Eff::Clone(e) => ex(e, n),
            Eff::Map { f, list } | Eff::Keep { f, list } | Eff::Find { f, list } | Eff::Combine { f, list } => { ex(f, n); ex(list, n) }
            Eff::Prop(_) | Eff::Get(_) => (),
        }
    }
    fn body(b: &mut Body, n: &mut u32) {
        let v = Rc::make_mut(b);
        for s in v.iter_mut() {
            *n += 1;
            s.id = *n;
            match &mut s.k {
                St::Log(xs) | St::Op(_, xs) => xs.iter_mut().for_each(|x| ex(x, n)),
                St::Set(_, e) | St::Change(_, e) | St::Throw(e) | St::Ret(e) | St::Sleep(e) | St::NetReply(e) | St::Ask(e) | St::SetProp(_, e) | St::ChProp(_, e) | St::GotoEnt(e) | St::Forward(e) | St::RemoveAll(e) | St::WaitUntil(e) | St::Costume(e) => ex(e, n),
                St::Let { pre, eff: e, .. } => { pre.iter_mut().for_each(|x| ex(x, n)); eff(e, n) }
                St::Do(e) => eff(e, n),
                St::If(c, b) | St::Repeat(c, b) | St::Until(c, b) | St::Foreach(_, c, b) => { ex(c, n); body(b, n) }
                St::IfElse(c, a, b) => { ex(c, n); body(a, n); body(b, n) }
                St::Forever(b) | St::Warp(b) => body(b, n),
                St::For(_, a, z, b) => { ex(a, n); ex(z, n); body(b, n) }
                St::Try { body: b, handler, .. } => { body(b, n); body(handler, n) }
                St::Bcast { msg, target, .. } => { ex(msg, n); if let Some(t) = target { ex(t, n) } }
                St::Fork { clo, args } => { ex(clo, n); args.iter_mut().for_each(|x| ex(x, n)) }
                St::NetSend { target, vals, .. } => { ex(target, n); vals.iter_mut().for_each(|x| ex(&mut x.1, n)) }
                St::Say { v, dur, .. } => { ex(v, n); if let Some(d) = dur { ex(d, n) } }
                St::Goto(a, b) | St::Push(a, b) | St::Remove(a, b) => { ex(a, n); ex(b, n) }
                St::SetItem(a, b, c) => { ex(a, n); ex(b, n); ex(c, n) }
                _ => (),
            }
        }
    }
    let mut n = 0;
    for f in &mut p.funcs { body(&mut f.body, &mut n) }
    for e in &mut p.ents {
        for f in &mut e.funcs { body(&mut f.body, &mut n) }
        for s in &mut e.scripts { body(&mut s.body, &mut n) }
    }
}
