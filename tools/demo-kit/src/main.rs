//! Demonstration driver: runs the program through its entrypoint in an
//! emulated ledger (see rt.rs, world.rs) and checks one scenario.
#![allow(dead_code, unused_imports, unused_variables, unused_mut)]
mod alpha;
mod demo;
mod rt;
mod view;
mod world;

use rt::*;
use view::*;
use world::*;

pub struct Sim {
    pub w: World,
    pub m: Machine,
    pub p: Parser,
}
impl Sim {
    pub fn new(cfg: Cfg) -> Sim {
        let w = World::new(cfg);
        let m = w.machine();
        let p = Parser::new(&w);
        Sim { w, m, p }
    }
    /// Runs an operation; a failed one has no effect.
    pub fn run(&mut self, op: Op) -> Outcome {
        let before = self.m.save();
        let o = self.w.run(&mut self.m, &op);
        if !o.ok {
            self.m.load(&before);
        }
        o
    }
    /// Runs a hand-made instruction; a failed one has no effect.
    pub fn exec(&mut self, ix: &Ix) -> Outcome {
        let before = self.m.save();
        let o = self.m.exec(ix);
        if !o.ok {
            self.m.load(&before);
        }
        o
    }
    /// Runs an operation that the scenario needs to succeed.
    pub fn ok(&mut self, op: Op) -> Outcome {
        let o = self.run(op.clone());
        if !o.ok {
            fail(&format!("{op:?} failed: {}", o.err));
        }
        o
    }
    pub fn view(&self) -> View {
        match self.p.parse(&self.w, &self.m) {
            Ok(v) => v,
            Err(e) => fail(&format!("accounts malformed: {e}")),
        }
    }
}
pub fn fail(s: &str) -> ! {
    println!("DEMO FAILED: {s}");
    std::process::exit(1)
}
#[macro_export]
macro_rules! expect {
    ($c:expr, $($t:tt)*) => { if !$c { $crate::fail(&format!($($t)*)); } };
}
fn main() {
    demo::demo();
    println!("demo passed");
}
