//! Stand-in for fxhash: the map type linkspace-common uses, with the standard hasher.
pub type FxHashMap<K, V> = std::collections::HashMap<K, V>;
pub type FxHashSet<K> = std::collections::HashSet<K>;
