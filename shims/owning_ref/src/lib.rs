//! Stand-in for owning_ref (not in the offline cache): the one type the JavaScript bindings use.
//! Contract: the handle sees the owner's target for as long as it lives, and is dropped before it.
use std::ops::{Deref, DerefMut};

pub struct OwningHandle<O, H> {
    handle: H,
    _owner: Box<O>,
}
impl<O: Deref, H> OwningHandle<O, H> {
    pub fn new_with_fn<F: FnOnce(*const O::Target) -> H>(o: O, f: F) -> Self {
        let owner = Box::new(o);
        let handle = f(&**owner as *const O::Target);
        OwningHandle { handle, _owner: owner }
    }
    pub fn try_new<E, F: FnOnce(*const O::Target) -> Result<H, E>>(o: O, f: F) -> Result<Self, E> {
        let owner = Box::new(o);
        let handle = f(&**owner as *const O::Target)?;
        Ok(OwningHandle { handle, _owner: owner })
    }
    pub fn as_owner(&self) -> &O {
        &self._owner
    }
}
impl<O: Deref, H: Deref> Deref for OwningHandle<O, H> {
    type Target = H::Target;
    fn deref(&self) -> &H::Target {
        self.handle.deref()
    }
}
impl<O: Deref, H: DerefMut> DerefMut for OwningHandle<O, H> {
    fn deref_mut(&mut self) -> &mut H::Target {
        self.handle.deref_mut()
    }
}
