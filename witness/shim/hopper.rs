// Queues that answer a send as they are told to, and keep what they took.
use std::cell::RefCell;
use std::collections::VecDeque;
use std::rc::Rc;
#[derive(Debug)]
pub enum Error { NoSuchDirectory, IoError(std::io::Error), NoFlush, Full }
pub struct Sender<T> { s: Rc<RefCell<(VecDeque<u8>, Vec<T>)>> }
impl<T> Clone for Sender<T> { fn clone(&self) -> Self { Sender { s: self.s.clone() } } }
impl<T: Clone> Sender<T> {
    pub fn new() -> Sender<T> { Sender { s: Rc::new(RefCell::new((VecDeque::new(), Vec::new()))) } }
    /// the answers to the next sends: 9 is "full", 0, 1, 2 are other errors; "taken" once they have run out
    pub fn script(&self, v: Vec<u8>) { self.s.borrow_mut().0 = v.into_iter().collect() }
    pub fn got(&self) -> Vec<T> { self.s.borrow().1.clone() }
    pub fn left(&self) -> usize { self.s.borrow().0.len() }
    pub fn send(&mut self, e: T) -> Result<(), (T, Error)> {
        let mut s = self.s.borrow_mut();
        match s.0.pop_front() {
            None => { s.1.push(e); Ok(()) }
            Some(9) => Err((e, Error::Full)),
            Some(0) => Err((e, Error::NoSuchDirectory)),
            Some(1) => Err((e, Error::IoError(std::io::Error::new(std::io::ErrorKind::Other, "x")))),
            Some(_) => Err((e, Error::NoFlush)),
        }
    }
    pub fn flush(&mut self) -> Result<(), Error> { Ok(()) }
}
