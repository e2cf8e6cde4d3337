//! Stand-in for `names`: readable names drawn from the simulation's entropy.
use std::marker::PhantomData;
#[derive(Clone, Copy, Debug, PartialEq, Default)]
pub enum Name { #[default] Plain, Numbered }
pub struct Generator<'a>(Name, PhantomData<&'a ()>);
impl Default for Generator<'_> { fn default() -> Self { Generator(Name::Plain, PhantomData) } }
impl Generator<'_> { pub fn with_naming(n: Name) -> Self { Generator(n, PhantomData) } }
const A: [&str; 8] = ["rusty", "quiet", "bold", "green", "brief", "level", "tidy", "vast"];
const N: [&str; 8] = ["nail", "river", "stone", "lamp", "cloud", "field", "rope", "wheel"];
fn word(xs: &[&str; 8], mut x: u64) -> String { let mut s = String::new(); for _ in 0..3 { s.push_str(xs[(x % 8) as usize]); x /= 8 } s }
impl Iterator for Generator<'_> {
    type Item = String;
    fn next(&mut self) -> Option<String> {
        let s = format!("{}-{}", word(&A, simcore::data() >> 9), word(&N, simcore::data() >> 9));
        Some(match self.0 { Name::Plain => s, Name::Numbered => format!("{s}-{:04}", simcore::data() % 10000) })
    }
}
