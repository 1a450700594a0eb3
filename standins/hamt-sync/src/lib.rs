//! Stand-in for hamt-sync: a persistent hash trie.
use std::collections::hash_map::DefaultHasher;
use std::hash::{Hash, Hasher};
use std::sync::Arc;

#[derive(Debug)]
enum Node<K, V> {
    Branch([Option<Arc<Node<K, V>>>; 16]),
    Leaf(u64, Vec<(K, V)>),
}

#[derive(Debug)]
pub struct Map<K, V> {
    root: Option<Arc<Node<K, V>>>,
    size: usize,
}

impl<K, V> Clone for Map<K, V> {
    fn clone(&self) -> Self {
        Map { root: self.root.clone(), size: self.size }
    }
}

impl<K, V> Default for Map<K, V> {
    fn default() -> Self {
        Map { root: None, size: 0 }
    }
}

fn hash<K: Hash + ?Sized>(key: &K) -> u64 {
    let mut h = DefaultHasher::new();
    key.hash(&mut h);
    h.finish()
}

impl<K, V> Map<K, V> {
    pub fn new() -> Self {
        Self::default()
    }

    pub fn size(&self) -> usize {
        self.size
    }
}

impl<K: Hash + Eq + Clone, V: Clone> Map<K, V> {
    pub fn find(&self, key: &K) -> Option<&V> {
        let h = hash(key);
        let mut node = self.root.as_deref()?;
        let mut shift = 0;
        loop {
            match node {
                Node::Branch(children) => {
                    node = children[(h >> shift) as usize & 15].as_deref()?;
                    shift += 4;
                }
                Node::Leaf(lh, items) => {
                    return (*lh == h).then(|| items.iter().find(|(k, _)| k == key).map(|(_, v)| v)).flatten();
                }
            }
        }
    }

    pub fn insert(&self, key: K, value: V) -> Self {
        let grown = self.find(&key).is_none() as usize;
        let h = hash(&key);
        Map { root: Some(insert(self.root.as_ref(), 0, h, key, value)), size: self.size + grown }
    }
}

fn insert<K: Hash + Eq + Clone, V: Clone>(node: Option<&Arc<Node<K, V>>>, shift: u32, h: u64, key: K, value: V) -> Arc<Node<K, V>> {
    let Some(node) = node else {
        return Arc::new(Node::Leaf(h, vec![(key, value)]));
    };
    match &**node {
        Node::Branch(children) => {
            let mut children = children.clone();
            let slot = &mut children[(h >> shift) as usize & 15];
            *slot = Some(insert(slot.as_ref(), shift + 4, h, key, value));
            Arc::new(Node::Branch(children))
        }
        Node::Leaf(lh, items) if *lh == h => {
            let mut items = items.clone();
            match items.iter_mut().find(|(k, _)| *k == key) {
                Some(item) => item.1 = value,
                None => items.push((key, value)),
            }
            Arc::new(Node::Leaf(h, items))
        }
        Node::Leaf(lh, _) => {
            let mut children: [Option<Arc<Node<K, V>>>; 16] = Default::default();
            children[(*lh >> shift) as usize & 15] = Some(node.clone());
            insert(Some(&Arc::new(Node::Branch(children))), shift, h, key, value)
        }
    }
}
