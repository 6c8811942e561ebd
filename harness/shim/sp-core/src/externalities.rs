//! Thread-local key/value storage with nested transactions.
use std::cell::RefCell;
use std::collections::BTreeMap;
use std::ops::Bound;

pub type Map = BTreeMap<Vec<u8>, Vec<u8>>;

#[derive(Default)]
struct Ext {
	top: Map,
	/// undo logs, innermost last
	tx: Vec<Vec<(Vec<u8>, Option<Vec<u8>>)>>,
}

thread_local! {
	static EXT: RefCell<Ext> = RefCell::new(Ext::default());
}

fn with<R>(f: impl FnOnce(&mut Ext) -> R) -> R {
	EXT.with(|e| f(&mut e.borrow_mut()))
}

pub fn get(key: &[u8]) -> Option<Vec<u8>> {
	with(|e| e.top.get(key).cloned())
}

pub fn exists(key: &[u8]) -> bool {
	with(|e| e.top.contains_key(key))
}

pub fn set(key: &[u8], value: Vec<u8>) {
	with(|e| {
		let old = e.top.insert(key.to_vec(), value);
		if let Some(l) = e.tx.last_mut() {
			l.push((key.to_vec(), old));
		}
	})
}

pub fn clear(key: &[u8]) {
	with(|e| {
		let old = e.top.remove(key);
		if old.is_some() {
			if let Some(l) = e.tx.last_mut() {
				l.push((key.to_vec(), old));
			}
		}
	})
}

/// First key after `key`, in byte order.
pub fn next_key(key: &[u8]) -> Option<Vec<u8>> {
	with(|e| {
		e.top
			.range::<[u8], _>((Bound::Excluded(key), Bound::Unbounded))
			.next()
			.map(|(k, _)| k.clone())
	})
}

pub fn clear_prefix(prefix: &[u8], limit: Option<u32>) -> u32 {
	let mut n = 0;
	loop {
		if limit.map_or(false, |l| n >= l) {
			return n;
		}
		let k = match if exists(prefix) { Some(prefix.to_vec()) } else { next_key(prefix) } {
			Some(k) if k.starts_with(prefix) => k,
			_ => return n,
		};
		clear(&k);
		n += 1;
	}
}

pub fn start_transaction() {
	with(|e| e.tx.push(Vec::new()))
}

pub fn commit_transaction() {
	with(|e| {
		let l = e.tx.pop().expect("open transaction");
		if let Some(outer) = e.tx.last_mut() {
			outer.extend(l);
		}
	})
}

pub fn rollback_transaction() {
	with(|e| {
		let l = e.tx.pop().expect("open transaction");
		for (k, v) in l.into_iter().rev() {
			match v {
				Some(v) => e.top.insert(k, v),
				None => e.top.remove(&k),
			};
		}
	})
}

pub fn transaction_level() -> u32 {
	with(|e| e.tx.len() as u32)
}

/// Copy of everything stored.
pub fn snapshot() -> Map {
	with(|e| e.top.clone())
}

/// Replace everything stored, dropping open transactions.
pub fn restore(m: Map) {
	with(|e| {
		e.top = m;
		e.tx.clear();
	})
}

pub fn swap(m: &mut Map) {
	with(|e| {
		std::mem::swap(&mut e.top, m);
	})
}
