use crate::core::{Ctx, R};
use crate::json::V;
use crate::rng::Rng;

pub mod c01;
pub mod c02;
pub mod c03;
pub mod c04;
pub mod c05;
pub mod c06;
pub mod c07;
pub mod c08;
pub mod c09;
pub mod c10;
pub mod c11;
pub mod c12;
pub mod c13;
pub mod c14;
pub mod c15;
pub mod c16;
pub mod c17;
pub mod c18;

pub struct Budget {
    /// Runs in the quick tier.
    pub quick: u64,
    /// Runs in the thorough tier.
    pub thorough: u64,
    /// Runs per worker process.
    pub batch: u64,
}

pub trait Prop: Sync {
    fn id(&self) -> &'static str;
    fn budget(&self) -> Budget;
    fn python(&self) -> bool {
        false
    }
    /// Draws the plan of run `k`. Everything random about the run is decided here.
    fn gen(&self, r: &mut Rng, k: u64, thorough: bool) -> V;
    /// Executes a plan: a pure function of the plan and the code under test.
    fn run(&self, plan: &V, ctx: &Ctx) -> R;
    /// How cases are made and what makes one non-trivial.
    fn rule(&self) -> &'static str;
    /// (component, "real" | "simulated" | …)
    fn components(&self) -> Vec<(&'static str, &'static str)>;
    fn assumptions(&self) -> Vec<&'static str> {
        vec![]
    }
}

pub fn all() -> Vec<Box<dyn Prop>> {
    vec![Box::new(c01::P), Box::new(c02::P), Box::new(c03::P), Box::new(c04::P), Box::new(c05::P), Box::new(c06::P), Box::new(c07::P), Box::new(c08::P), Box::new(c09::P), Box::new(c10::P), Box::new(c11::P), Box::new(c12::P), Box::new(c13::P), Box::new(c14::P), Box::new(c15::P), Box::new(c16::P), Box::new(c17::P), Box::new(c18::P)]
}

/// Starts the embedded interpreter with the module under test as a built-in.
pub fn py_init() {
    crate::py::init();
}
