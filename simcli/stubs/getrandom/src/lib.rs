//! Stand-in for `getrandom`: entropy from the simulation. Under `cfg(nb_sim)` the VM also uses this crate in the place of `std`:
//! everything is the real standard library except threads, locks, channels, atomics, the terminal, files and the end of the process.
pub use ::std::*;
#[doc(hidden)] pub use simterm as __term;
pub mod sync { pub use simcore::sync::*; }
pub mod thread { pub use simcore::thread::*; }
pub mod process { pub use ::std::process::*; pub use simterm::{exit, abort}; }
pub mod io {
    pub use ::std::io::*;
    pub use simterm::{stdout, stderr, stdin, Stdout, StdoutLock, Stderr, Stdin, IsTerminal};
}
pub mod fs { pub use simterm::{File, OpenOptions, read_to_string, read, write, remove_file, exists, metadata, Metadata}; }
pub mod panic { pub use ::std::panic::*; pub use simterm::{set_hook, take_hook}; }
#[macro_export] macro_rules! print { ($($t:tt)*) => { $crate::__term::put_out(format_args!($($t)*)) } }
#[macro_export] macro_rules! println { () => { $crate::__term::put_out(format_args!("\n")) }; ($($t:tt)*) => { $crate::__term::put_out_line(format_args!($($t)*)) } }
#[macro_export] macro_rules! eprint { ($($t:tt)*) => { $crate::__term::put_err(format_args!($($t)*)) } }
#[macro_export] macro_rules! eprintln { () => { $crate::__term::put_err(format_args!("\n")) }; ($($t:tt)*) => { $crate::__term::put_err_line(format_args!($($t)*)) } }

#[derive(Debug, Clone, Copy, PartialEq, Eq)]
pub struct Error(());
impl ::std::fmt::Display for Error { fn fmt(&self, f: &mut ::std::fmt::Formatter<'_>) -> ::std::fmt::Result { write!(f, "no entropy") } }
impl ::std::error::Error for Error {}
pub fn fill(dest: &mut [u8]) -> Result<(), Error> { for b in dest { *b = (simcore::data() >> 7) as u8 } Ok(()) }
pub fn u32() -> Result<u32, Error> { Ok(simcore::data() as u32) }
pub fn u64() -> Result<u64, Error> { Ok(simcore::data()) }
impl Error { pub fn raw_os_error(self) -> Option<i32> { None } }
impl From<Error> for ::std::io::Error { fn from(_: Error) -> Self { ::std::io::Error::other("no entropy") } }
