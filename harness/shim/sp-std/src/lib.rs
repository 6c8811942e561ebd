//! Stand-in for sp-std.
pub use std::{
	alloc, any, ascii, borrow, boxed, cell, char, clone, cmp, convert, default, fmt, hash, iter, marker, mem, num, ops,
	option, ptr, rc, result, slice, str, string, sync, time, vec,
};
pub mod collections {
	pub use std::collections::{btree_map, btree_set, vec_deque, BTreeMap, BTreeSet, VecDeque};
}
pub mod prelude {
	pub use std::borrow::ToOwned;
	pub use std::boxed::Box;
	pub use std::clone::Clone;
	pub use std::cmp::{Eq, PartialEq, Reverse};
	pub use std::iter::IntoIterator;
	pub use std::vec::Vec;
	pub use std::{format, vec};
}
#[macro_export]
macro_rules! if_std { ($($t:tt)*) => { $($t)* } }
