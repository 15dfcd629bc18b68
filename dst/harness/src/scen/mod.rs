//! The checks and their scenarios.
use crate::runner::{Check, Scen};
use simrt::{Knobs, Rng};

pub mod c01;
pub mod c02;
pub mod c03;
pub mod c04;
pub mod c05;
pub mod c06;
pub mod c07;
pub mod c08;
pub mod c09;
pub mod c10;
pub mod c12;
pub mod c13;
pub mod c14;
pub mod c15;
pub mod c16;
pub mod c17;
pub mod c18;
#[cfg(feature = "stdlib")]
pub mod c20;
pub mod circ;
pub mod dist;
pub mod front;
pub mod lopt;
pub mod prog;

pub fn checks() -> Vec<Check> {
    #[allow(unused_mut)]
    let mut v = vec![c01::check(), c02::check(), c03::check(), c04::check(), c05::check(), c06::check(), c07::check(), c08::check(), c09::check(), c10::check(), c10::check_damage(), c12::check(), c13::check(), c14::check(), c15::check(), c16::check(), c17::check(), c18::check()];
    #[cfg(feature = "stdlib")]
    v.push(c20::check());
    v
}

/// No scheduling, no faults: the run's randomness is hash seeds, random draws and inputs.
pub fn quiet(_: &mut Rng) -> Knobs {
    Knobs { switch_permille: 0, max_steps: 2_000_000, ..Knobs::default() }
}
pub fn scen(name: &'static str, weight: u32, knobs: fn(&mut Rng) -> Knobs, body: fn()) -> Scen {
    Scen { name, weight, knobs, body, must_finish: true }
}
/// Records a violation of a property; the text before the first ": " is its signature.
#[macro_export]
macro_rules! bad {
    ($p:expr, $($t:tt)*) => { simrt::violation($p, format!($($t)*)) };
}
pub fn oracle() {
    simrt::probe("oracle");
}
