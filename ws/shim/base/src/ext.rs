//! Thread-local state of the chain under test.
use std::cell::RefCell;
use std::collections::BTreeMap;

pub type Map = BTreeMap<Vec<u8>, Vec<u8>>;

#[derive(Default)]
struct Ext {
	map: Map,
	/// for each open transaction, the values there were before it
	layers: Vec<BTreeMap<Vec<u8>, Option<Vec<u8>>>>,
}

thread_local! {
	static EXT: RefCell<Ext> = RefCell::new(Ext::default());
}

pub fn get(key: &[u8]) -> Option<Vec<u8>> {
	EXT.with(|e| e.borrow().map.get(key).cloned())
}

pub fn exists(key: &[u8]) -> bool {
	EXT.with(|e| e.borrow().map.contains_key(key))
}

pub fn put(key: &[u8], value: Vec<u8>) {
	EXT.with(|e| {
		let e = &mut *e.borrow_mut();
		let old = e.map.insert(key.to_vec(), value);
		if let Some(l) = e.layers.last_mut() {
			l.entry(key.to_vec()).or_insert(old);
		}
	})
}

/// Changes a value in place, starting with the given one.
pub fn modify(key: &[u8], start: &[u8], f: impl FnOnce(&mut Vec<u8>)) {
	EXT.with(|e| {
		let e = &mut *e.borrow_mut();
		if let Some(l) = e.layers.last_mut() {
			if !l.contains_key(key) {
				l.insert(key.to_vec(), e.map.get(key).cloned());
			}
		}
		f(e.map.entry(key.to_vec()).or_insert_with(|| start.to_vec()))
	})
}

pub fn kill(key: &[u8]) {
	EXT.with(|e| {
		let e = &mut *e.borrow_mut();
		if let Some(old) = e.map.remove(key) {
			if let Some(l) = e.layers.last_mut() {
				l.entry(key.to_vec()).or_insert(Some(old));
			}
		}
	})
}

/// All (key, value) pairs under a prefix, in key order.
pub fn scan(prefix: &[u8]) -> Vec<(Vec<u8>, Vec<u8>)> {
	EXT.with(|e| {
		e.borrow()
			.map
			.range(prefix.to_vec()..)
			.take_while(|(k, _)| k.starts_with(prefix))
			.map(|(k, v)| (k.clone(), v.clone()))
			.collect()
	})
}

pub fn start_transaction() {
	EXT.with(|e| e.borrow_mut().layers.push(BTreeMap::new()))
}

pub fn commit_transaction() {
	EXT.with(|e| {
		let e = &mut *e.borrow_mut();
		let top = e.layers.pop().expect("open transaction");
		if let Some(l) = e.layers.last_mut() {
			for (k, old) in top {
				l.entry(k).or_insert(old);
			}
		}
	})
}

pub fn rollback_transaction() {
	EXT.with(|e| {
		let e = &mut *e.borrow_mut();
		let top = e.layers.pop().expect("open transaction");
		for (k, old) in top {
			match old {
				Some(v) => {
					e.map.insert(k, v);
				}
				None => {
					e.map.remove(&k);
				}
			}
		}
	})
}

pub fn transaction_depth() -> usize {
	EXT.with(|e| e.borrow().layers.len())
}

/// The complete state.
pub fn snapshot() -> Map {
	EXT.with(|e| e.borrow().map.clone())
}

/// Replaces the complete state (and forgets open transactions, e.g. after a panic).
pub fn restore(map: &Map) {
	EXT.with(|e| {
		let e = &mut *e.borrow_mut();
		e.map = map.clone();
		e.layers.clear();
	})
}

pub fn take() -> Map {
	EXT.with(|e| {
		let e = &mut *e.borrow_mut();
		e.layers.clear();
		std::mem::take(&mut e.map)
	})
}

#[derive(Clone, Default)]
pub struct TestExternalities {
	map: Map,
}

impl TestExternalities {
	pub fn new(storage: crate::runtime::Storage) -> Self {
		Self { map: storage.map }
	}
	pub fn execute_with<R>(&mut self, f: impl FnOnce() -> R) -> R {
		let outer = take();
		restore(&self.map);
		let r = f();
		self.map = take();
		restore(&outer);
		r
	}
	pub fn register_extension<E>(&mut self, _e: E) {}
	pub fn into_map(self) -> Map {
		self.map
	}
}
impl From<crate::runtime::Storage> for TestExternalities {
	fn from(s: crate::runtime::Storage) -> Self {
		Self::new(s)
	}
}
