//! Stand-in for apendleton/min-max-heap-rs (git dependency, not fetchable offline).
//! Same contract (double-ended priority queue), kept as an ascending sorted vector.
use std::ops::{Deref, DerefMut};

#[derive(Clone, Debug)]
pub struct MinMaxHeap<T> {
    v: Vec<T>,
}

impl<T: Ord> Default for MinMaxHeap<T> {
    fn default() -> Self {
        MinMaxHeap { v: Vec::new() }
    }
}

impl<T> MinMaxHeap<T> {
    pub fn len(&self) -> usize {
        self.v.len()
    }
    pub fn is_empty(&self) -> bool {
        self.v.is_empty()
    }
    pub fn iter(&self) -> std::slice::Iter<'_, T> {
        self.v.iter()
    }
    pub fn clear(&mut self) {
        self.v.clear()
    }
    pub fn into_vec(self) -> Vec<T> {
        self.v
    }
    pub fn drain(&mut self) -> std::vec::Drain<'_, T> {
        self.v.drain(..)
    }
}

impl<T: Ord> MinMaxHeap<T> {
    pub fn new() -> Self {
        MinMaxHeap { v: Vec::new() }
    }
    pub fn with_capacity(n: usize) -> Self {
        MinMaxHeap { v: Vec::with_capacity(n) }
    }
    pub fn push(&mut self, element: T) {
        let (mut lo, mut hi) = (0usize, self.v.len());
        while lo < hi {
            let mid = (lo + hi) / 2;
            if self.v[mid] <= element {
                lo = mid + 1;
            } else {
                hi = mid;
            }
        }
        self.v.insert(lo, element);
    }
    pub fn peek_min(&self) -> Option<&T> {
        self.v.first()
    }
    pub fn peek_max(&self) -> Option<&T> {
        self.v.last()
    }
    pub fn pop_min(&mut self) -> Option<T> {
        if self.v.is_empty() {
            None
        } else {
            Some(self.v.remove(0))
        }
    }
    pub fn pop_max(&mut self) -> Option<T> {
        self.v.pop()
    }
    pub fn replace_min(&mut self, element: T) -> Option<T> {
        let r = self.pop_min();
        self.push(element);
        r
    }
    pub fn replace_max(&mut self, element: T) -> Option<T> {
        let r = self.pop_max();
        self.push(element);
        r
    }
    pub fn push_pop_min(&mut self, element: T) -> T {
        self.push(element);
        self.v.remove(0)
    }
    pub fn push_pop_max(&mut self, element: T) -> T {
        self.push(element);
        self.v.pop().unwrap()
    }
    pub fn peek_max_mut(&mut self) -> Option<PeekMaxMut<'_, T>> {
        let taken = self.v.pop()?;
        Some(PeekMaxMut { heap: self, taken: Some(taken) })
    }
    pub fn peek_min_mut(&mut self) -> Option<PeekMinMut<'_, T>> {
        if self.v.is_empty() {
            return None;
        }
        let taken = self.v.remove(0);
        Some(PeekMinMut { heap: self, taken: Some(taken) })
    }
    pub fn into_vec_asc(self) -> Vec<T> {
        self.v
    }
    pub fn into_vec_desc(self) -> Vec<T> {
        let mut v = self.v;
        v.reverse();
        v
    }
}

macro_rules! peek {
    ($name:ident) => {
        pub struct $name<'a, T: Ord> {
            heap: &'a mut MinMaxHeap<T>,
            taken: Option<T>,
        }
        impl<'a, T: Ord> $name<'a, T> {
            pub fn pop(mut self) -> T {
                self.taken.take().unwrap()
            }
        }
        impl<'a, T: Ord> Deref for $name<'a, T> {
            type Target = T;
            fn deref(&self) -> &T {
                self.taken.as_ref().unwrap()
            }
        }
        impl<'a, T: Ord> DerefMut for $name<'a, T> {
            fn deref_mut(&mut self) -> &mut T {
                self.taken.as_mut().unwrap()
            }
        }
        impl<'a, T: Ord> Drop for $name<'a, T> {
            fn drop(&mut self) {
                if let Some(t) = self.taken.take() {
                    self.heap.push(t);
                }
            }
        }
    };
}
peek!(PeekMaxMut);
peek!(PeekMinMut);

pub struct IntoIter<T>(std::vec::IntoIter<T>);
impl<T> Iterator for IntoIter<T> {
    type Item = T;
    fn next(&mut self) -> Option<T> {
        self.0.next()
    }
    fn size_hint(&self) -> (usize, Option<usize>) {
        self.0.size_hint()
    }
}
impl<T> IntoIterator for MinMaxHeap<T> {
    type Item = T;
    type IntoIter = IntoIter<T>;
    fn into_iter(self) -> IntoIter<T> {
        IntoIter(self.v.into_iter())
    }
}
impl<'a, T> IntoIterator for &'a MinMaxHeap<T> {
    type Item = &'a T;
    type IntoIter = std::slice::Iter<'a, T>;
    fn into_iter(self) -> Self::IntoIter {
        self.v.iter()
    }
}
impl<T: Ord> std::iter::FromIterator<T> for MinMaxHeap<T> {
    fn from_iter<I: IntoIterator<Item = T>>(iter: I) -> Self {
        let mut h = MinMaxHeap::new();
        h.extend(iter);
        h
    }
}
impl<T: Ord> Extend<T> for MinMaxHeap<T> {
    fn extend<I: IntoIterator<Item = T>>(&mut self, iter: I) {
        for x in iter {
            self.push(x);
        }
    }
}
