//! Stand-in for `uuid`: version 4 identifiers from the simulation's entropy.
use std::fmt;
#[derive(Clone, Copy, PartialEq, Eq, PartialOrd, Ord, Hash, Default)]
pub struct Uuid(u128);
pub struct Simple(u128);
pub struct Hyphenated(Uuid);
impl Uuid {
    pub fn new_v4() -> Self { simcore::preempt(); let x = (simcore::data() as u128) << 64 | simcore::data() as u128; Uuid(x & !(0xf << 76) & !(0x3 << 62) | (0x4 << 76) | (0x2 << 62)) }
    pub const fn nil() -> Self { Uuid(0) }
    pub const fn max() -> Self { Uuid(u128::MAX) }
    pub const fn from_u128(x: u128) -> Self { Uuid(x) }
    pub const fn as_u128(&self) -> u128 { self.0 }
    pub const fn as_u64_pair(&self) -> (u64, u64) { ((self.0 >> 64) as u64, self.0 as u64) }
    pub const fn is_nil(&self) -> bool { self.0 == 0 }
    pub fn as_bytes(&self) -> [u8; 16] { self.0.to_be_bytes() }
    pub fn into_bytes(self) -> [u8; 16] { self.0.to_be_bytes() }
    pub fn from_bytes(b: [u8; 16]) -> Self { Uuid(u128::from_be_bytes(b)) }
    pub fn simple(self) -> Simple { Simple(self.0) }
    pub fn hyphenated(self) -> Hyphenated { Hyphenated(self) }
}
impl fmt::Display for Uuid { fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { let s = format!("{:032x}", self.0); write!(f, "{}-{}-{}-{}-{}", &s[0..8], &s[8..12], &s[12..16], &s[16..20], &s[20..32]) } }
impl fmt::Debug for Uuid { fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { fmt::Display::fmt(self, f) } }
impl fmt::Display for Simple { fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { write!(f, "{:032x}", self.0) } }
impl fmt::Display for Hyphenated { fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { self.0.fmt(f) } }
