//! Stand-in for rusoto: there is no network. Only what downloads benchmark data uses it (C47).
#[derive(Debug, Clone, PartialEq)]
pub enum Region {
    UsEast1,
}
#[derive(Debug)]
pub struct RusotoError;
pub struct RusotoFuture<T>(pub Option<T>);
impl<T> RusotoFuture<T> {
    pub fn sync(self) -> Result<T, RusotoError> {
        self.0.ok_or(RusotoError)
    }
}
