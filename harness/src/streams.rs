//! Input streams handed to the library's decoders.
use crate::engine::Violated;
use quic_sea::verif::error::{Error, Result};
use std::cell::Cell;
use std::rc::Rc;

/// Yields the bytes of a buffer. All clones share a read counter: reading more often than the square
/// of the input's length means the decoder is not making progress.
#[derive(Clone)]
pub struct Bs {
    data: Rc<Vec<u8>>,
    pos: usize,
    reads: Rc<Cell<u64>>,
    limit: u64,
    err_at: Option<usize>,
}
impl Bs {
    pub fn new(b: &[u8]) -> Self {
        Self {
            data: Rc::new(b.to_vec()),
            pos: 0,
            reads: Rc::new(Cell::new(0)),
            limit: (b.len() as u64 + 64) * b.len() as u64 + 100_000,
            err_at: None,
        }
    }
    /// reports an error instead of the byte at `at`
    pub fn with_error(b: &[u8], at: usize) -> Self {
        let mut s = Self::new(b);
        s.err_at = Some(at);
        s
    }
    pub fn rest(&self) -> &[u8] {
        &self.data[self.pos.min(self.data.len())..]
    }
}
impl Iterator for Bs {
    type Item = Result<u8>;
    fn next(&mut self) -> Option<Self::Item> {
        let n = self.reads.get() + 1;
        self.reads.set(n);
        if n > self.limit {
            std::panic::panic_any(Violated(format!(
                "decoder does not terminate: {n} reads from a {}-byte input",
                self.data.len()
            )));
        }
        let i = self.pos;
        if Some(i) == self.err_at {
            self.pos += 1;
            return Some(Err(Error::InternalError("injected stream error")));
        }
        if i < self.data.len() {
            self.pos += 1;
            Some(Ok(self.data[i]))
        } else {
            None
        }
    }
}
