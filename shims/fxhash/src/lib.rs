//! Stand-in for fxhash: the container model of ../std_model under fxhash's names.
#[derive(Default, Clone, Copy, Debug)]
pub struct FxHasher;
#[derive(Default, Clone, Copy, Debug)]
pub struct FxBuildHasher;
pub type FxHashMap<K, V> = std_model::collections::HashMap<K, V, FxBuildHasher>;
pub type FxHashSet<T> = std_model::collections::HashSet<T, FxBuildHasher>;
