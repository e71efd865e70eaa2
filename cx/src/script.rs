//! A node whose answers are enumerated, and the enumeration of choices.

use sim::{Ans, Call, Fail};
use std::cell::{Cell, RefCell};

/// All sequences of choices, in order.
#[derive(Default, Clone, Debug)]
pub struct Choices {
    pub path: Vec<(usize, usize)>,
    pos: usize,
}
impl Choices {
    pub fn pick(&mut self, n: usize) -> usize {
        assert!(n > 0);
        if self.pos == self.path.len() {
            self.path.push((0, n));
        }
        assert_eq!(self.path[self.pos].1, n, "choices differ between runs");
        self.pos += 1;
        self.path[self.pos - 1].0
    }
    pub fn made(&self) -> usize {
        self.pos
    }
    /// on to the next sequence; false when there is none
    pub fn next(&mut self) -> bool {
        self.path.truncate(self.pos);
        self.pos = 0;
        while let Some((i, n)) = self.path.pop() {
            if i + 1 < n {
                self.path.push((i + 1, n));
                return true;
            }
        }
        false
    }
}

type Answer = Box<dyn Fn(&Call, &mut Choices) -> Result<Ans, Fail>>;

/// Answers at once.
pub struct Script {
    pub choices: RefCell<Choices>,
    pub log: RefCell<Vec<(Call, Result<Ans, Fail>, u64)>>,
    answer: Answer,
    open: RefCell<Vec<Option<Result<Ans, Fail>>>>,
    /// how long a request takes
    pub takes: Cell<u64>,
}
impl Script {
    pub fn new(answer: Answer) -> std::rc::Rc<Script> {
        std::rc::Rc::new(Script { choices: Default::default(), log: Default::default(), answer, open: Default::default(), takes: Cell::new(0) })
    }
    pub fn reset(&self) {
        self.log.borrow_mut().clear();
        self.open.borrow_mut().clear();
    }
}
impl sim::Node for Script {
    fn start(&self, c: Call) -> u64 {
        let at = sim::clock::now().unwrap_or(0);
        let r = (self.answer)(&c, &mut self.choices.borrow_mut());
        sim::clock::advance(std::time::Duration::from_millis(self.takes.get()));
        self.log.borrow_mut().push((c, r.clone(), at));
        self.open.borrow_mut().push(Some(r));
        self.open.borrow().len() as u64 - 1
    }
    fn poll(&self, id: u64) -> Option<Result<Ans, Fail>> {
        Some(self.open.borrow_mut()[id as usize].take().expect("asked once"))
    }
}
