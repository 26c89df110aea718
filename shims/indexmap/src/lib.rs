//! Stand-in for indexmap: insertion-ordered map and set kept as vectors.
pub mod map {
    use std::borrow::Borrow;
    use std::marker::PhantomData;

    pub struct IndexMap<K, V, S = ()> {
        v: Vec<(K, V)>,
        s: PhantomData<S>,
    }
    pub struct OccupiedEntry<'a, K, V> {
        v: &'a mut Vec<(K, V)>,
        i: usize,
    }
    pub struct VacantEntry<'a, K, V> {
        v: &'a mut Vec<(K, V)>,
        key: K,
    }
    pub enum Entry<'a, K, V> {
        Occupied(OccupiedEntry<'a, K, V>),
        Vacant(VacantEntry<'a, K, V>),
    }
    impl<'a, K, V> OccupiedEntry<'a, K, V> {
        pub fn get(&self) -> &V {
            &self.v[self.i].1
        }
        pub fn get_mut(&mut self) -> &mut V {
            &mut self.v[self.i].1
        }
        pub fn into_mut(self) -> &'a mut V {
            &mut self.v[self.i].1
        }
        pub fn key(&self) -> &K {
            &self.v[self.i].0
        }
        pub fn index(&self) -> usize {
            self.i
        }
        pub fn insert(&mut self, value: V) -> V {
            std::mem::replace(self.get_mut(), value)
        }
        pub fn swap_remove(self) -> V {
            self.v.swap_remove(self.i).1
        }
        pub fn remove(self) -> V {
            self.swap_remove()
        }
        pub fn shift_remove(self) -> V {
            self.v.remove(self.i).1
        }
    }
    impl<'a, K, V> VacantEntry<'a, K, V> {
        pub fn insert(self, value: V) -> &'a mut V {
            self.v.push((self.key, value));
            &mut self.v.last_mut().unwrap().1
        }
        pub fn key(&self) -> &K {
            &self.key
        }
        pub fn into_key(self) -> K {
            self.key
        }
        pub fn index(&self) -> usize {
            self.v.len()
        }
    }
    impl<'a, K, V> Entry<'a, K, V> {
        pub fn key(&self) -> &K {
            match self {
                Entry::Occupied(e) => e.key(),
                Entry::Vacant(e) => e.key(),
            }
        }
        pub fn index(&self) -> usize {
            match self {
                Entry::Occupied(e) => e.index(),
                Entry::Vacant(e) => e.index(),
            }
        }
        pub fn or_insert(self, v: V) -> &'a mut V {
            self.or_insert_with(|| v)
        }
        pub fn or_insert_with<F: FnOnce() -> V>(self, f: F) -> &'a mut V {
            match self {
                Entry::Occupied(e) => e.into_mut(),
                Entry::Vacant(e) => e.insert(f()),
            }
        }
        pub fn or_insert_with_key<F: FnOnce(&K) -> V>(self, f: F) -> &'a mut V {
            match self {
                Entry::Occupied(e) => e.into_mut(),
                Entry::Vacant(e) => {
                    let v = f(&e.key);
                    e.insert(v)
                }
            }
        }
        pub fn or_default(self) -> &'a mut V
        where
            V: Default,
        {
            self.or_insert_with(V::default)
        }
        pub fn and_modify<F: FnOnce(&mut V)>(self, f: F) -> Self {
            match self {
                Entry::Occupied(mut e) => {
                    f(e.get_mut());
                    Entry::Occupied(e)
                }
                x => x,
            }
        }
    }
    impl<K, V> IndexMap<K, V, ()> {
        pub fn new() -> Self {
            IndexMap { v: Vec::new(), s: PhantomData }
        }
        pub fn with_capacity(n: usize) -> Self {
            IndexMap { v: Vec::with_capacity(n), s: PhantomData }
        }
    }
    impl<K, V, S> IndexMap<K, V, S> {
        pub fn with_hasher(_s: S) -> Self {
            IndexMap { v: Vec::new(), s: PhantomData }
        }
        pub fn with_capacity_and_hasher(n: usize, _s: S) -> Self {
            IndexMap { v: Vec::with_capacity(n), s: PhantomData }
        }
        pub fn len(&self) -> usize {
            self.v.len()
        }
        pub fn is_empty(&self) -> bool {
            self.v.is_empty()
        }
        pub fn clear(&mut self) {
            self.v.clear()
        }
        pub fn reserve(&mut self, n: usize) {
            self.v.reserve(n)
        }
        pub fn iter<'a>(&'a self) -> Iter<'a, K, V> {
            Iter(self.v.iter())
        }
        pub fn iter_mut<'a>(&'a mut self) -> IterMut<'a, K, V> {
            IterMut(self.v.iter_mut())
        }
        pub fn values<'a>(&'a self) -> impl DoubleEndedIterator<Item = &'a V> + ExactSizeIterator + 'a
        where
            K: 'a,
        {
            self.v.iter().map(|(_, v)| v)
        }
        pub fn values_mut<'a>(&'a mut self) -> impl DoubleEndedIterator<Item = &'a mut V> + ExactSizeIterator + 'a
        where
            K: 'a,
        {
            self.v.iter_mut().map(|(_, v)| v)
        }
        pub fn into_values(self) -> impl DoubleEndedIterator<Item = V> + ExactSizeIterator {
            self.v.into_iter().map(|(_, v)| v)
        }
        pub fn into_keys(self) -> impl DoubleEndedIterator<Item = K> + ExactSizeIterator {
            self.v.into_iter().map(|(k, _)| k)
        }
        pub fn keys<'a>(&'a self) -> impl DoubleEndedIterator<Item = &'a K> + ExactSizeIterator + 'a
        where
            V: 'a,
        {
            self.v.iter().map(|(k, _)| k)
        }
        pub fn drain<R: std::ops::RangeBounds<usize>>(&mut self, r: R) -> std::vec::Drain<'_, (K, V)> {
            self.v.drain(r)
        }
        pub fn get_index(&self, i: usize) -> Option<(&K, &V)> {
            self.v.get(i).map(|(k, v)| (k, v))
        }
        pub fn get_index_mut(&mut self, i: usize) -> Option<(&mut K, &mut V)> {
            self.v.get_mut(i).map(|(k, v)| (k, v))
        }
        pub fn first(&self) -> Option<(&K, &V)> {
            self.get_index(0)
        }
        pub fn last(&self) -> Option<(&K, &V)> {
            self.v.last().map(|(k, v)| (k, v))
        }
        pub fn pop(&mut self) -> Option<(K, V)> {
            self.v.pop()
        }
        pub fn retain<F: FnMut(&K, &mut V) -> bool>(&mut self, mut f: F) {
            self.v.retain_mut(|(k, v)| f(k, v))
        }
        pub fn sort_keys(&mut self)
        where
            K: Ord,
        {
            self.v.sort_by(|a, b| a.0.cmp(&b.0))
        }
        pub fn sort_by<F: FnMut(&K, &V, &K, &V) -> std::cmp::Ordering>(&mut self, mut f: F) {
            self.v.sort_by(|a, b| f(&a.0, &a.1, &b.0, &b.1))
        }
    }
    impl<K: Eq, V, S> IndexMap<K, V, S> {
        fn find<Q: ?Sized + Eq>(&self, key: &Q) -> Option<usize>
        where
            K: Borrow<Q>,
        {
            self.v.iter().position(|(k, _)| k.borrow() == key)
        }
        pub fn entry(&mut self, key: K) -> Entry<'_, K, V> {
            match self.find(&key) {
                Some(i) => Entry::Occupied(OccupiedEntry { v: &mut self.v, i }),
                None => Entry::Vacant(VacantEntry { v: &mut self.v, key }),
            }
        }
        pub fn insert(&mut self, key: K, value: V) -> Option<V> {
            self.insert_full(key, value).1
        }
        pub fn insert_full(&mut self, key: K, value: V) -> (usize, Option<V>) {
            match self.find(&key) {
                Some(i) => (i, Some(std::mem::replace(&mut self.v[i].1, value))),
                None => {
                    self.v.push((key, value));
                    (self.v.len() - 1, None)
                }
            }
        }
        pub fn get<Q: ?Sized + Eq>(&self, key: &Q) -> Option<&V>
        where
            K: Borrow<Q>,
        {
            self.find(key).map(|i| &self.v[i].1)
        }
        pub fn get_full<Q: ?Sized + Eq>(&self, key: &Q) -> Option<(usize, &K, &V)>
        where
            K: Borrow<Q>,
        {
            self.find(key).map(|i| (i, &self.v[i].0, &self.v[i].1))
        }
        pub fn get_index_of<Q: ?Sized + Eq>(&self, key: &Q) -> Option<usize>
        where
            K: Borrow<Q>,
        {
            self.find(key)
        }
        pub fn get_mut<Q: ?Sized + Eq>(&mut self, key: &Q) -> Option<&mut V>
        where
            K: Borrow<Q>,
        {
            match self.find(key) {
                Some(i) => Some(&mut self.v[i].1),
                None => None,
            }
        }
        pub fn contains_key<Q: ?Sized + Eq>(&self, key: &Q) -> bool
        where
            K: Borrow<Q>,
        {
            self.find(key).is_some()
        }
        pub fn swap_remove<Q: ?Sized + Eq>(&mut self, key: &Q) -> Option<V>
        where
            K: Borrow<Q>,
        {
            self.find(key).map(|i| self.v.swap_remove(i).1)
        }
        pub fn remove<Q: ?Sized + Eq>(&mut self, key: &Q) -> Option<V>
        where
            K: Borrow<Q>,
        {
            self.swap_remove(key)
        }
        pub fn shift_remove<Q: ?Sized + Eq>(&mut self, key: &Q) -> Option<V>
        where
            K: Borrow<Q>,
        {
            self.find(key).map(|i| self.v.remove(i).1)
        }
    }
    impl<K: Clone, V: Clone, S> Clone for IndexMap<K, V, S> {
        fn clone(&self) -> Self {
            IndexMap { v: self.v.clone(), s: PhantomData }
        }
    }
    impl<K: std::fmt::Debug, V: std::fmt::Debug, S> std::fmt::Debug for IndexMap<K, V, S> {
        fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
            f.debug_map().entries(self.iter()).finish()
        }
    }
    impl<K, V, S> Default for IndexMap<K, V, S> {
        fn default() -> Self {
            IndexMap { v: Vec::new(), s: PhantomData }
        }
    }
    pub struct Iter<'a, K, V>(std::slice::Iter<'a, (K, V)>);
    impl<'a, K, V> Iterator for Iter<'a, K, V> {
        type Item = (&'a K, &'a V);
        fn next(&mut self) -> Option<Self::Item> {
            self.0.next().map(|(k, v)| (k, v))
        }
        fn size_hint(&self) -> (usize, Option<usize>) {
            self.0.size_hint()
        }
    }
    impl<'a, K, V> ExactSizeIterator for Iter<'a, K, V> {}
    impl<'a, K, V> DoubleEndedIterator for Iter<'a, K, V> {
        fn next_back(&mut self) -> Option<Self::Item> {
            self.0.next_back().map(|(k, v)| (k, v))
        }
    }
    pub struct IterMut<'a, K, V>(std::slice::IterMut<'a, (K, V)>);
    impl<'a, K, V> Iterator for IterMut<'a, K, V> {
        type Item = (&'a K, &'a mut V);
        fn next(&mut self) -> Option<Self::Item> {
            self.0.next().map(|(k, v)| (&*k, v))
        }
        fn size_hint(&self) -> (usize, Option<usize>) {
            self.0.size_hint()
        }
    }
    impl<'a, K, V> ExactSizeIterator for IterMut<'a, K, V> {}
    impl<K, V, S> IntoIterator for IndexMap<K, V, S> {
        type Item = (K, V);
        type IntoIter = std::vec::IntoIter<(K, V)>;
        fn into_iter(self) -> Self::IntoIter {
            self.v.into_iter()
        }
    }
    impl<'a, K, V, S> IntoIterator for &'a IndexMap<K, V, S> {
        type Item = (&'a K, &'a V);
        type IntoIter = Iter<'a, K, V>;
        fn into_iter(self) -> Iter<'a, K, V> {
            self.iter()
        }
    }
    impl<'a, K, V, S> IntoIterator for &'a mut IndexMap<K, V, S> {
        type Item = (&'a K, &'a mut V);
        type IntoIter = IterMut<'a, K, V>;
        fn into_iter(self) -> IterMut<'a, K, V> {
            self.iter_mut()
        }
    }
    impl<K: Eq, V, S> Extend<(K, V)> for IndexMap<K, V, S> {
        fn extend<I: IntoIterator<Item = (K, V)>>(&mut self, it: I) {
            for (k, v) in it {
                self.insert(k, v);
            }
        }
    }
    impl<K: Eq, V, S> std::iter::FromIterator<(K, V)> for IndexMap<K, V, S> {
        fn from_iter<I: IntoIterator<Item = (K, V)>>(it: I) -> Self {
            let mut m = Self::default();
            m.extend(it);
            m
        }
    }
    impl<Q: ?Sized + Eq, K: Eq + Borrow<Q>, V, S> std::ops::Index<&Q> for IndexMap<K, V, S> {
        type Output = V;
        fn index(&self, key: &Q) -> &V {
            self.get(key).expect("IndexMap: key not found")
        }
    }
}
pub mod set {
    use crate::map::IndexMap;
    use std::borrow::Borrow;

    #[derive(Clone, Debug, Default)]
    pub struct IndexSet<T> {
        m: IndexMap<T, ()>,
    }
    impl<T> IndexSet<T> {
        pub fn new() -> Self {
            IndexSet { m: IndexMap::new() }
        }
        pub fn with_capacity(n: usize) -> Self {
            IndexSet { m: IndexMap::with_capacity(n) }
        }
        pub fn len(&self) -> usize {
            self.m.len()
        }
        pub fn is_empty(&self) -> bool {
            self.m.is_empty()
        }
        pub fn iter<'a>(&'a self) -> impl DoubleEndedIterator<Item = &'a T> + ExactSizeIterator + 'a {
            self.m.keys()
        }
    }
    impl<T: Eq> IndexSet<T> {
        pub fn insert(&mut self, t: T) -> bool {
            if self.m.contains_key(&t) {
                return false;
            }
            self.m.insert(t, ());
            true
        }
        pub fn contains<Q: ?Sized + Eq>(&self, q: &Q) -> bool
        where
            T: Borrow<Q>,
        {
            self.m.contains_key(q)
        }
    }
    impl<T> IntoIterator for IndexSet<T> {
        type Item = T;
        type IntoIter = std::vec::IntoIter<T>;
        fn into_iter(self) -> Self::IntoIter {
            self.m.into_keys().collect::<Vec<T>>().into_iter()
        }
    }
    impl<T: Eq> Extend<T> for IndexSet<T> {
        fn extend<I: IntoIterator<Item = T>>(&mut self, it: I) {
            for x in it {
                self.insert(x);
            }
        }
    }
    impl<T: Eq> std::iter::FromIterator<T> for IndexSet<T> {
        fn from_iter<I: IntoIterator<Item = T>>(it: I) -> Self {
            let mut m = Self::new();
            m.extend(it);
            m
        }
    }
}
pub use map::IndexMap;
pub use set::IndexSet;
