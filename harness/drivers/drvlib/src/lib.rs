//! Plumbing shared by the drivers: one JSON request per input line, one JSON record per
//! output line. A panic of the code under test is part of the record.
pub use serde_json::{self, json, Map, Value};
use std::io::{BufRead, Write};
use std::panic::{catch_unwind, AssertUnwindSafe};

pub fn caught<R>(f: impl FnOnce() -> R) -> Result<R, String> {
	catch_unwind(AssertUnwindSafe(f)).map_err(|e| {
		e.downcast_ref::<&str>()
			.map(|s| s.to_string())
			.or_else(|| e.downcast_ref::<String>().cloned())
			.unwrap_or_else(|| "panic".into())
	})
}
pub fn quiet_panics() {
	std::panic::set_hook(Box::new(|_| {}));
}
/// Answers every request line with `request + {"panic": bool} + f(request)`.
pub fn serve(mut f: impl FnMut(&Value) -> Value) {
	quiet_panics();
	let stdin = std::io::stdin();
	let mut out = std::io::BufWriter::new(std::io::stdout().lock());
	for line in stdin.lock().lines() {
		let line = line.expect("stdin");
		if line.is_empty() {
			continue;
		}
		let mut req: Value = serde_json::from_str(&line).expect("request is JSON");
		let res = caught(|| f(&req));
		let o = req.as_object_mut().expect("request is an object");
		o.insert("panic".into(), res.is_err().into());
		match res {
			Ok(Value::Object(m)) => o.extend(m),
			Ok(_) => {}
			Err(e) => {
				o.insert("panicmsg".into(), e.into());
			}
		}
		writeln!(out, "{req}").expect("stdout");
	}
	out.flush().expect("stdout");
}
pub fn bytes(v: &Value) -> Vec<u8> {
	v.as_array().expect("bytes").iter().map(|b| b.as_u64().expect("byte") as u8).collect()
}
pub fn fixed<const N: usize>(v: &Value) -> [u8; N] {
	bytes(v).try_into().expect("length")
}
