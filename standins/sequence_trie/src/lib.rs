//! Stand-in for sequence_trie.
use std::borrow::Borrow;
use std::collections::HashMap;
use std::hash::Hash;

#[derive(Debug, Clone)]
pub struct SequenceTrie<K: Hash + Eq + Clone, V> {
    value: Option<V>,
    children: HashMap<K, SequenceTrie<K, V>>,
}

impl<K: Hash + Eq + Clone, V> SequenceTrie<K, V> {
    pub fn new() -> Self {
        Self { value: None, children: HashMap::new() }
    }

    pub fn insert<'k, I, Q>(&mut self, key: I, value: V) -> Option<V>
    where
        I: IntoIterator<Item = &'k Q>,
        Q: ToOwned<Owned = K> + ?Sized + 'k,
    {
        let mut node = self;
        for part in key {
            node = node.children.entry(part.to_owned()).or_insert_with(Self::new);
        }
        node.value.replace(value)
    }

    pub fn get<'k, I, Q>(&self, key: I) -> Option<&V>
    where
        I: IntoIterator<Item = &'k Q>,
        K: Borrow<Q>,
        Q: Hash + Eq + ?Sized + 'k,
    {
        self.get_node(key)?.value.as_ref()
    }

    pub fn get_node<'k, I, Q>(&self, key: I) -> Option<&Self>
    where
        I: IntoIterator<Item = &'k Q>,
        K: Borrow<Q>,
        Q: Hash + Eq + ?Sized + 'k,
    {
        let mut node = self;
        for part in key {
            node = node.children.get(part)?;
        }
        Some(node)
    }

    pub fn get_mut<'k, I, Q>(&mut self, key: I) -> Option<&mut V>
    where
        I: IntoIterator<Item = &'k Q>,
        K: Borrow<Q>,
        Q: Hash + Eq + ?Sized + 'k,
    {
        let mut node = self;
        for part in key {
            node = node.children.get_mut(part)?;
        }
        node.value.as_mut()
    }

    /// every key below this node, with its value
    pub fn iter(&self) -> impl Iterator<Item = (Vec<&K>, &V)> + '_ {
        let mut out = vec![];
        self.walk(&mut vec![], &mut out);
        out.into_iter()
    }

    fn walk<'a>(&'a self, path: &mut Vec<&'a K>, out: &mut Vec<(Vec<&'a K>, &'a V)>) {
        if let Some(v) = &self.value {
            out.push((path.clone(), v));
        }
        for (k, child) in &self.children {
            path.push(k);
            child.walk(path, out);
            path.pop();
        }
    }
}
