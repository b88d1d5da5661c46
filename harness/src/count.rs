//! reads a public counter whatever cell it is kept in
use std::cell::{Cell, RefCell};

pub trait Count {
    fn count(&self) -> usize;
}
impl Count for usize {
    fn count(&self) -> usize { *self }
}
impl Count for Cell<usize> {
    fn count(&self) -> usize { self.get() }
}
impl Count for RefCell<usize> {
    fn count(&self) -> usize { *self.borrow() }
}
