//! Stand-in for `getrandom`: entropy from the simulation. Under `cfg(nb_sim)` the VM also uses this crate in the place of `std`:
//! everything is the real standard library except threads, locks, channels and atomics, which belong to the simulator.
pub use ::std::*;
pub mod sync { pub use simcore::sync::*; }
pub mod thread { pub use simcore::thread::*; }

#[derive(Debug, Clone, Copy, PartialEq, Eq)]
pub struct Error(());
impl ::std::fmt::Display for Error { fn fmt(&self, f: &mut ::std::fmt::Formatter<'_>) -> ::std::fmt::Result { write!(f, "no entropy") } }
impl ::std::error::Error for Error {}
pub fn fill(dest: &mut [u8]) -> Result<(), Error> { for b in dest { *b = (simcore::data() >> 7) as u8 } Ok(()) }
pub fn u32() -> Result<u32, Error> { Ok(simcore::data() as u32) }
pub fn u64() -> Result<u64, Error> { Ok(simcore::data()) }
impl Error { pub fn raw_os_error(self) -> Option<i32> { None } }
impl From<Error> for ::std::io::Error { fn from(_: Error) -> Self { ::std::io::Error::other("no entropy") } }
