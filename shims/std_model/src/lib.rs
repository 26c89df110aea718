//! `std` as the code under test sees it: everything is the real `std`, except that
//! `std::collections::{HashMap, HashSet}` are association lists. A hash map promises nothing about
//! iteration order, so the order in which these yield their contents is a parameter of the run
//! (`verif_set_iter_order`): 0 insertion order, 1 reverse insertion order, 2 rotated by one.
pub use ::std::*;

use ::std::sync::atomic::{AtomicU8, Ordering as AO};
static ITER_ORDER: AtomicU8 = AtomicU8::new(0);
pub fn verif_set_iter_order(o: u8) {
    ITER_ORDER.store(o, AO::Relaxed);
}
fn arrange<T>(mut v: ::std::vec::Vec<T>) -> ::std::vec::Vec<T> {
    match ITER_ORDER.load(AO::Relaxed) {
        0 => {}
        1 => v.reverse(),
        _ => {
            if v.len() > 1 {
                v.rotate_left(1)
            }
        }
    }
    v
}

pub mod sync;

pub mod collections {
    pub use crate::hset::HashSet;
    pub use ::std::collections::*;
    pub use hash_map::HashMap;
    pub mod hash_map {
        pub use crate::hmap::*;
        pub use ::std::collections::hash_map::{DefaultHasher, RandomState};
    }
    pub mod hash_set {
        pub use crate::hset::*;
    }
}

mod hmap {
    use crate::arrange;
    use ::std::borrow::Borrow;
    use ::std::collections::hash_map::RandomState;
    use ::std::fmt;
    use ::std::marker::PhantomData;
    use ::std::prelude::v1::*;

    pub struct HashMap<K, V, S = RandomState> {
        pub(crate) v: Vec<(K, V)>,
        s: PhantomData<S>,
    }

    pub type IntoIter<K, V> = ::std::vec::IntoIter<(K, V)>;
    pub type Drain<'a, K, V> = ::std::vec::IntoIter<(K, V)>;
    pub type IntoKeys<K, V> = ::std::iter::Map<IntoIter<K, V>, fn((K, V)) -> K>;
    pub type IntoValues<K, V> = ::std::iter::Map<IntoIter<K, V>, fn((K, V)) -> V>;
    impl<'a, K, V> Clone for Iter<'a, K, V> {
        fn clone(&self) -> Self {
            Iter(self.0.clone())
        }
    }
    impl<'a, K, V> Clone for Keys<'a, K, V> {
        fn clone(&self) -> Self {
            Keys(self.0.clone())
        }
    }
    impl<'a, K, V> Clone for Values<'a, K, V> {
        fn clone(&self) -> Self {
            Values(self.0.clone())
        }
    }
    pub struct Iter<'a, K, V>(::std::vec::IntoIter<(&'a K, &'a V)>);
    pub struct IterMut<'a, K, V>(::std::vec::IntoIter<(&'a K, &'a mut V)>);
    pub struct Keys<'a, K, V>(Iter<'a, K, V>);
    pub struct Values<'a, K, V>(Iter<'a, K, V>);
    pub struct ValuesMut<'a, K, V>(IterMut<'a, K, V>);
    macro_rules! it {
        ($n:ident, $item:ty, $self:ident, $map:expr) => {
            impl<'a, K, V> Iterator for $n<'a, K, V> {
                type Item = $item;
                fn next(&mut $self) -> Option<$item> {
                    $map
                }
                fn size_hint(&self) -> (usize, Option<usize>) {
                    self.0.size_hint()
                }
            }
            impl<'a, K, V> ExactSizeIterator for $n<'a, K, V> {}
        };
    }
    it!(Iter, (&'a K, &'a V), self, self.0.next());
    it!(IterMut, (&'a K, &'a mut V), self, self.0.next());
    it!(Keys, &'a K, self, self.0.next().map(|x| x.0));
    it!(Values, &'a V, self, self.0.next().map(|x| x.1));
    it!(ValuesMut, &'a mut V, self, self.0.next().map(|x| x.1));

    pub struct OccupiedEntry<'a, K, V> {
        v: &'a mut Vec<(K, V)>,
        i: usize,
    }
    pub struct VacantEntry<'a, K, V> {
        v: &'a mut Vec<(K, V)>,
        key: K,
    }
    pub enum Entry<'a, K, V> {
        Occupied(OccupiedEntry<'a, K, V>),
        Vacant(VacantEntry<'a, K, V>),
    }
    impl<'a, K, V> OccupiedEntry<'a, K, V> {
        pub fn key(&self) -> &K {
            &self.v[self.i].0
        }
        pub fn get(&self) -> &V {
            &self.v[self.i].1
        }
        pub fn get_mut(&mut self) -> &mut V {
            &mut self.v[self.i].1
        }
        pub fn into_mut(self) -> &'a mut V {
            &mut self.v[self.i].1
        }
        pub fn insert(&mut self, value: V) -> V {
            ::std::mem::replace(self.get_mut(), value)
        }
        pub fn remove(self) -> V {
            self.v.remove(self.i).1
        }
        pub fn remove_entry(self) -> (K, V) {
            self.v.remove(self.i)
        }
    }
    impl<'a, K, V> VacantEntry<'a, K, V> {
        pub fn key(&self) -> &K {
            &self.key
        }
        pub fn into_key(self) -> K {
            self.key
        }
        pub fn insert(self, value: V) -> &'a mut V {
            self.v.push((self.key, value));
            &mut self.v.last_mut().unwrap().1
        }
    }
    impl<'a, K, V> Entry<'a, K, V> {
        pub fn or_insert(self, v: V) -> &'a mut V {
            match self {
                Entry::Occupied(e) => e.into_mut(),
                Entry::Vacant(e) => e.insert(v),
            }
        }
        pub fn or_insert_with<F: FnOnce() -> V>(self, f: F) -> &'a mut V {
            match self {
                Entry::Occupied(e) => e.into_mut(),
                Entry::Vacant(e) => e.insert(f()),
            }
        }
        pub fn or_insert_with_key<F: FnOnce(&K) -> V>(self, f: F) -> &'a mut V {
            match self {
                Entry::Occupied(e) => e.into_mut(),
                Entry::Vacant(e) => {
                    let v = f(&e.key);
                    e.insert(v)
                }
            }
        }
        pub fn or_default(self) -> &'a mut V
        where
            V: Default,
        {
            self.or_insert_with(V::default)
        }
        pub fn and_modify<F: FnOnce(&mut V)>(self, f: F) -> Self {
            match self {
                Entry::Occupied(mut e) => {
                    f(e.get_mut());
                    Entry::Occupied(e)
                }
                x => x,
            }
        }
        pub fn key(&self) -> &K {
            match self {
                Entry::Occupied(e) => e.key(),
                Entry::Vacant(e) => e.key(),
            }
        }
        pub fn insert_entry(self, v: V) -> OccupiedEntry<'a, K, V> {
            match self {
                Entry::Occupied(mut e) => {
                    e.insert(v);
                    e
                }
                Entry::Vacant(e) => {
                    e.v.push((e.key, v));
                    let i = e.v.len() - 1;
                    OccupiedEntry { v: e.v, i }
                }
            }
        }
    }

    impl<K, V> HashMap<K, V, RandomState> {
        pub fn new() -> Self {
            HashMap { v: Vec::new(), s: PhantomData }
        }
        pub fn with_capacity(n: usize) -> Self {
            HashMap { v: Vec::with_capacity(if n > 64 { 64 } else { n }), s: PhantomData }
        }
    }
    impl<K, V, S> HashMap<K, V, S> {
        pub fn with_hasher(_s: S) -> Self {
            HashMap { v: Vec::new(), s: PhantomData }
        }
        pub fn with_capacity_and_hasher(n: usize, _s: S) -> Self {
            HashMap { v: Vec::with_capacity(if n > 64 { 64 } else { n }), s: PhantomData }
        }
        pub fn len(&self) -> usize {
            self.v.len()
        }
        pub fn capacity(&self) -> usize {
            self.v.capacity()
        }
        pub fn is_empty(&self) -> bool {
            self.v.is_empty()
        }
        pub fn clear(&mut self) {
            self.v.clear()
        }
        pub fn reserve(&mut self, _n: usize) {}
        pub fn shrink_to_fit(&mut self) {}
        pub fn iter(&self) -> Iter<'_, K, V> {
            let v: Vec<_> = self.v.iter().map(|(k, v)| (k, v)).collect();
            Iter(arrange(v).into_iter())
        }
        pub fn iter_mut(&mut self) -> IterMut<'_, K, V> {
            let v: Vec<_> = self.v.iter_mut().map(|(k, v)| (&*k, v)).collect();
            IterMut(arrange(v).into_iter())
        }
        pub fn keys(&self) -> Keys<'_, K, V> {
            Keys(self.iter())
        }
        pub fn values(&self) -> Values<'_, K, V> {
            Values(self.iter())
        }
        pub fn values_mut(&mut self) -> ValuesMut<'_, K, V> {
            ValuesMut(self.iter_mut())
        }
        pub fn into_keys(self) -> IntoKeys<K, V> {
            self.into_iter().map(|x| x.0)
        }
        pub fn into_values(self) -> IntoValues<K, V> {
            self.into_iter().map(|x| x.1)
        }
        pub fn shrink_to(&mut self, _n: usize) {}
        pub fn try_reserve(&mut self, _n: usize) -> Result<(), ::std::collections::TryReserveError> {
            Ok(())
        }
        pub fn extract_if<F: FnMut(&K, &mut V) -> bool>(&mut self, mut f: F) -> IntoIter<K, V> {
            let mut out = Vec::new();
            let mut i = 0;
            while i < self.v.len() {
                let (k, v) = &mut self.v[i];
                if f(k, v) {
                    out.push(self.v.remove(i));
                } else {
                    i += 1;
                }
            }
            arrange(out).into_iter()
        }
        pub fn drain(&mut self) -> IntoIter<K, V> {
            arrange(::std::mem::take(&mut self.v)).into_iter()
        }
        pub fn retain<F: FnMut(&K, &mut V) -> bool>(&mut self, mut f: F) {
            self.v.retain_mut(|(k, v)| f(k, v))
        }
    }
    impl<K: Eq, V, S> HashMap<K, V, S> {
        fn find<Q: ?Sized + Eq>(&self, key: &Q) -> Option<usize>
        where
            K: Borrow<Q>,
        {
            let mut i = 0;
            while i < self.v.len() {
                if self.v[i].0.borrow() == key {
                    return Some(i);
                }
                i += 1;
            }
            None
        }
        pub fn insert(&mut self, key: K, value: V) -> Option<V> {
            match self.find(&key) {
                Some(i) => Some(::std::mem::replace(&mut self.v[i].1, value)),
                None => {
                    self.v.push((key, value));
                    None
                }
            }
        }
        pub fn entry(&mut self, key: K) -> Entry<'_, K, V> {
            match self.find(&key) {
                Some(i) => Entry::Occupied(OccupiedEntry { v: &mut self.v, i }),
                None => Entry::Vacant(VacantEntry { v: &mut self.v, key }),
            }
        }
        pub fn get<Q: ?Sized + Eq>(&self, key: &Q) -> Option<&V>
        where
            K: Borrow<Q>,
        {
            match self.find(key) {
                Some(i) => Some(&self.v[i].1),
                None => None,
            }
        }
        pub fn get_key_value<Q: ?Sized + Eq>(&self, key: &Q) -> Option<(&K, &V)>
        where
            K: Borrow<Q>,
        {
            match self.find(key) {
                Some(i) => Some((&self.v[i].0, &self.v[i].1)),
                None => None,
            }
        }
        pub fn get_mut<Q: ?Sized + Eq>(&mut self, key: &Q) -> Option<&mut V>
        where
            K: Borrow<Q>,
        {
            match self.find(key) {
                Some(i) => Some(&mut self.v[i].1),
                None => None,
            }
        }
        pub fn contains_key<Q: ?Sized + Eq>(&self, key: &Q) -> bool
        where
            K: Borrow<Q>,
        {
            self.find(key).is_some()
        }
        pub fn remove<Q: ?Sized + Eq>(&mut self, key: &Q) -> Option<V>
        where
            K: Borrow<Q>,
        {
            self.find(key).map(|i| self.v.remove(i).1)
        }
        pub fn remove_entry<Q: ?Sized + Eq>(&mut self, key: &Q) -> Option<(K, V)>
        where
            K: Borrow<Q>,
        {
            self.find(key).map(|i| self.v.remove(i))
        }
    }
    impl<K, V, S> Default for HashMap<K, V, S> {
        fn default() -> Self {
            HashMap { v: Vec::new(), s: PhantomData }
        }
    }
    impl<K: Clone, V: Clone, S> Clone for HashMap<K, V, S> {
        fn clone(&self) -> Self {
            HashMap { v: self.v.clone(), s: PhantomData }
        }
    }
    impl<K: fmt::Debug, V: fmt::Debug, S> fmt::Debug for HashMap<K, V, S> {
        fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
            f.debug_map().entries(self.iter()).finish()
        }
    }
    impl<K: Eq, V: PartialEq, S> PartialEq for HashMap<K, V, S> {
        fn eq(&self, o: &Self) -> bool {
            self.len() == o.len()
                && self.v.iter().all(|(k, v)| o.get(k).map_or(false, |w| *v == *w))
        }
    }
    impl<K: Eq, V: Eq, S> Eq for HashMap<K, V, S> {}
    impl<K, V, S> IntoIterator for HashMap<K, V, S> {
        type Item = (K, V);
        type IntoIter = IntoIter<K, V>;
        fn into_iter(self) -> IntoIter<K, V> {
            arrange(self.v).into_iter()
        }
    }
    impl<'a, K, V, S> IntoIterator for &'a HashMap<K, V, S> {
        type Item = (&'a K, &'a V);
        type IntoIter = Iter<'a, K, V>;
        fn into_iter(self) -> Iter<'a, K, V> {
            self.iter()
        }
    }
    impl<'a, K, V, S> IntoIterator for &'a mut HashMap<K, V, S> {
        type Item = (&'a K, &'a mut V);
        type IntoIter = IterMut<'a, K, V>;
        fn into_iter(self) -> IterMut<'a, K, V> {
            self.iter_mut()
        }
    }
    impl<K: Eq, V, S> Extend<(K, V)> for HashMap<K, V, S> {
        fn extend<I: IntoIterator<Item = (K, V)>>(&mut self, it: I) {
            for (k, v) in it {
                self.insert(k, v);
            }
        }
    }
    impl<'a, K: Eq + Copy + 'a, V: Copy + 'a, S> Extend<(&'a K, &'a V)> for HashMap<K, V, S> {
        fn extend<I: IntoIterator<Item = (&'a K, &'a V)>>(&mut self, it: I) {
            for (k, v) in it {
                self.insert(*k, *v);
            }
        }
    }
    impl<K: Eq, V, const N: usize> From<[(K, V); N]> for HashMap<K, V, RandomState> {
        fn from(a: [(K, V); N]) -> Self {
            a.into_iter().collect()
        }
    }
    impl<K: Eq, V, S> FromIterator<(K, V)> for HashMap<K, V, S> {
        fn from_iter<I: IntoIterator<Item = (K, V)>>(it: I) -> Self {
            let mut m = Self::default();
            m.extend(it);
            m
        }
    }
    impl<Q: ?Sized + Eq, K: Eq + Borrow<Q>, V, S> ::std::ops::Index<&Q> for HashMap<K, V, S> {
        type Output = V;
        fn index(&self, key: &Q) -> &V {
            self.get(key).expect("no entry found for key")
        }
    }
}

mod hset {
    use crate::hmap::HashMap;
    use ::std::borrow::Borrow;
    use ::std::collections::hash_map::RandomState;
    use ::std::fmt;
    use ::std::prelude::v1::*;

    pub type Iter<'a, T> = crate::hmap::Keys<'a, T, ()>;
    pub type IntoIter<T> = ::std::vec::IntoIter<T>;
    pub struct HashSet<T, S = RandomState> {
        m: HashMap<T, (), S>,
    }
    impl<T> HashSet<T, RandomState> {
        pub fn new() -> Self {
            HashSet { m: HashMap::new() }
        }
        pub fn with_capacity(n: usize) -> Self {
            HashSet { m: HashMap::with_capacity(n) }
        }
    }
    impl<T, S> HashSet<T, S> {
        pub fn with_hasher(s: S) -> Self {
            HashSet { m: HashMap::with_hasher(s) }
        }
        pub fn with_capacity_and_hasher(n: usize, s: S) -> Self {
            HashSet { m: HashMap::with_capacity_and_hasher(n, s) }
        }
        pub fn len(&self) -> usize {
            self.m.len()
        }
        pub fn is_empty(&self) -> bool {
            self.m.is_empty()
        }
        pub fn clear(&mut self) {
            self.m.clear()
        }
        pub fn reserve(&mut self, _n: usize) {}
        pub fn iter(&self) -> crate::hmap::Keys<'_, T, ()> {
            self.m.keys()
        }
        pub fn drain(&mut self) -> ::std::vec::IntoIter<T> {
            let v: Vec<T> = self.m.drain().map(|x| x.0).collect();
            v.into_iter()
        }
        pub fn retain<F: FnMut(&T) -> bool>(&mut self, mut f: F) {
            self.m.retain(|k, _| f(k))
        }
    }
    impl<T: Eq, S> HashSet<T, S> {
        pub fn insert(&mut self, t: T) -> bool {
            if self.m.contains_key(&t) {
                false
            } else {
                self.m.v.push((t, ()));
                true
            }
        }
        pub fn replace(&mut self, t: T) -> Option<T> {
            let r = self.take(&t);
            self.insert(t);
            r
        }
        pub fn contains<Q: ?Sized + Eq>(&self, q: &Q) -> bool
        where
            T: Borrow<Q>,
        {
            self.m.contains_key(q)
        }
        pub fn get<Q: ?Sized + Eq>(&self, q: &Q) -> Option<&T>
        where
            T: Borrow<Q>,
        {
            self.m.get_key_value(q).map(|x| x.0)
        }
        pub fn remove<Q: ?Sized + Eq>(&mut self, q: &Q) -> bool
        where
            T: Borrow<Q>,
        {
            self.m.remove(q).is_some()
        }
        pub fn take<Q: ?Sized + Eq>(&mut self, q: &Q) -> Option<T>
        where
            T: Borrow<Q>,
        {
            self.m.remove_entry(q).map(|x| x.0)
        }
        pub fn is_subset(&self, o: &Self) -> bool {
            self.m.v.iter().all(|(k, _)| o.contains(k))
        }
        pub fn is_superset(&self, o: &Self) -> bool {
            o.is_subset(self)
        }
        pub fn is_disjoint(&self, o: &Self) -> bool {
            self.m.v.iter().all(|(k, _)| !o.contains(k))
        }
        pub fn union<'a>(&'a self, o: &'a Self) -> impl Iterator<Item = &'a T> + 'a {
            self.iter().chain(o.difference(self))
        }
        pub fn difference<'a>(&'a self, o: &'a Self) -> impl Iterator<Item = &'a T> + 'a {
            self.iter().filter(move |k| !o.contains(*k))
        }
        pub fn intersection<'a>(&'a self, o: &'a Self) -> impl Iterator<Item = &'a T> + 'a {
            self.iter().filter(move |k| o.contains(*k))
        }
    }
    impl<T: Eq, S> HashSet<T, S> {
        pub fn symmetric_difference<'a>(&'a self, o: &'a Self) -> impl Iterator<Item = &'a T> + 'a {
            self.difference(o).chain(o.difference(self))
        }
    }
    impl<'a, 'b, T: Eq + Clone, S> ::std::ops::BitOr<&'b HashSet<T, S>> for &'a HashSet<T, S> {
        type Output = HashSet<T, S>;
        fn bitor(self, o: &'b HashSet<T, S>) -> HashSet<T, S> {
            self.union(o).cloned().collect()
        }
    }
    impl<'a, 'b, T: Eq + Clone, S> ::std::ops::BitAnd<&'b HashSet<T, S>> for &'a HashSet<T, S> {
        type Output = HashSet<T, S>;
        fn bitand(self, o: &'b HashSet<T, S>) -> HashSet<T, S> {
            self.intersection(o).cloned().collect()
        }
    }
    impl<'a, 'b, T: Eq + Clone, S> ::std::ops::Sub<&'b HashSet<T, S>> for &'a HashSet<T, S> {
        type Output = HashSet<T, S>;
        fn sub(self, o: &'b HashSet<T, S>) -> HashSet<T, S> {
            self.difference(o).cloned().collect()
        }
    }
    impl<T: Eq, const N: usize> From<[T; N]> for HashSet<T, RandomState> {
        fn from(a: [T; N]) -> Self {
            a.into_iter().collect()
        }
    }
    impl<T, S> Default for HashSet<T, S> {
        fn default() -> Self {
            HashSet { m: HashMap::default() }
        }
    }
    impl<T: Clone, S> Clone for HashSet<T, S> {
        fn clone(&self) -> Self {
            HashSet { m: self.m.clone() }
        }
    }
    impl<T: fmt::Debug, S> fmt::Debug for HashSet<T, S> {
        fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
            f.debug_set().entries(self.iter()).finish()
        }
    }
    impl<T: Eq, S> PartialEq for HashSet<T, S> {
        fn eq(&self, o: &Self) -> bool {
            self.len() == o.len() && self.is_subset(o)
        }
    }
    impl<T: Eq, S> Eq for HashSet<T, S> {}
    impl<T, S> IntoIterator for HashSet<T, S> {
        type Item = T;
        type IntoIter = ::std::vec::IntoIter<T>;
        fn into_iter(mut self) -> Self::IntoIter {
            self.drain()
        }
    }
    impl<'a, T, S> IntoIterator for &'a HashSet<T, S> {
        type Item = &'a T;
        type IntoIter = crate::hmap::Keys<'a, T, ()>;
        fn into_iter(self) -> Self::IntoIter {
            self.iter()
        }
    }
    impl<T: Eq, S> Extend<T> for HashSet<T, S> {
        fn extend<I: IntoIterator<Item = T>>(&mut self, it: I) {
            for x in it {
                self.insert(x);
            }
        }
    }
    impl<'a, T: Eq + Copy + 'a, S> Extend<&'a T> for HashSet<T, S> {
        fn extend<I: IntoIterator<Item = &'a T>>(&mut self, it: I) {
            for x in it {
                self.insert(*x);
            }
        }
    }
    impl<T: Eq, S> FromIterator<T> for HashSet<T, S> {
        fn from_iter<I: IntoIterator<Item = T>>(it: I) -> Self {
            let mut m = Self::default();
            m.extend(it);
            m
        }
    }
}
