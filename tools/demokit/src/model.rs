use serde::{Serialize, Deserialize};
pub const NEVER: u64 = u64::MAX;
pub const SNAP_LIMIT: usize = 5_000;
/// Snapshot of a value as seen by an observer.
#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub enum Sn { N(f64), S(String), T(bool), L(Vec<Sn>), Cyc, C, E(u32), I(String), A(String), O, Any, Has(String) }
#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub enum Ev {
    Log(Sn),
    Perf { seq: u32, ent: u32, what: String, args: Vec<Sn> },
    Send { seq: u32, ty: String, vals: Vec<(String, Sn)>, targets: Vec<String>, wait: bool },
    Reply { msg: u32, val: Sn },
    Yield,
    Term { ent: u32, val: Sn },
    Err { ent: u32, text: Sn, sites: Vec<Option<u32>>, locals: Vec<Vec<String>> },
    Watch { create: bool, ent: u32, name: String, val: Sn },
    Pause, Idle,
}
impl Ev {
    pub fn kind(&self) -> &'static str {
        match self {
            Ev::Log(_) => "log", Ev::Perf { .. } => "perform", Ev::Send { .. } => "send", Ev::Reply { .. } => "reply", Ev::Yield => "yield", Ev::Term { .. } => "terminate",
            Ev::Err { .. } => "error", Ev::Watch { .. } => "watch", Ev::Pause => "pause", Ev::Idle => "idle",
        }
    }
}

/// How the simulated host answers one operation.
#[derive(Clone, Copy, Debug, Serialize, Deserialize, PartialEq)]
pub enum Res { Num, Text, List, Empty, Yes, Err, PollErr, PerfErr }
impl Res { pub fn fine(self) -> bool { !matches!(self, Res::Err | Res::PollErr | Res::PerfErr) } }
#[derive(Clone, Copy, Debug, Serialize, Deserialize, PartialEq)]
pub struct Outcome { pub delay: u64, pub res: Res }

#[derive(Clone, Copy, Debug, Serialize, Deserialize, PartialEq)]
pub enum ClockMode { Arbitrary, Real, Timeless }

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub struct Opts { pub max_depth: usize, pub rpc_soft: bool, pub sys_soft: bool, pub clock: ClockMode, #[serde(default)] pub props: bool }

pub const PROPS: [&str; 6] = ["XPos", "YPos", "Heading", "Size", "Visible", "PenDown"];
pub const SPROPS: [&str; 4] = ["XPos", "YPos", "Heading", "Size"];

