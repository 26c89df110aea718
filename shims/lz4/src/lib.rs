//! Stand-in for lz4: the data is not compressed. Only what reads benchmark data uses it (C47).
use std::io::{self, Read};
pub struct Decoder<R> {
    r: R,
}
impl<R: Read> Decoder<R> {
    pub fn new(r: R) -> io::Result<Decoder<R>> {
        Ok(Decoder { r })
    }
}
impl<R: Read> Read for Decoder<R> {
    fn read(&mut self, b: &mut [u8]) -> io::Result<usize> {
        self.r.read(b)
    }
}
