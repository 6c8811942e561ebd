//! Exercises the kreivo runtime. Input lines either start a new world (`cfg`, whose `fam` says
//! which part of the runtime it is about) or make one call from the world reached at depth `d`
//! of the current path.
use drvlib::{caught, json, quiet_panics, Value};
use kreivo_runtime::*;
use std::io::{BufRead, Write};

pub mod address;
pub mod base;
pub mod calls;
pub mod crosschain;
pub mod decide;
pub mod gov;
pub mod ids;
pub mod login;
pub mod motions;
pub mod fees;
pub mod pay;
pub mod powers;
pub mod sched;
pub mod tracks;

/// One part of the runtime: how a world starts, what can be done in it and what is seen of it.
pub struct Family {
	pub start: fn(&Value),
	/// the outcome, and what else the record says about it (`x`)
	pub act: fn(&Value) -> Result<Value, String>,
	pub world: fn() -> Value,
	pub events: fn() -> Value,
}
/// Parts that have a driver of their own.
pub static ELSEWHERE: std::sync::OnceLock<fn(&str) -> Option<Family>> = std::sync::OnceLock::new();
fn family(name: &str) -> Family {
	match name {
		"pay" => pay::FAMILY,
		"ids" => ids::FAMILY,
		"login" => login::FAMILY,
		"motions" => motions::FAMILY,
		"sched" => sched::FAMILY,
		"tracks" => tracks::FAMILY,
		"address" => address::FAMILY,
		"decide" => decide::FAMILY,
		"gov" => gov::FAMILY,
		"fees" => fees::FAMILY,
		"powers" => powers::FAMILY,
		"calls" => calls::FAMILY,
		"cross" => crosschain::FAMILY,
		_ => ELSEWHERE.get().and_then(|f| f(name)).unwrap_or_else(|| panic!("harness: unknown family {name}")),
	}
}

/// A tree of worlds being walked.
#[derive(Default)]
pub struct Session {
	cfg: Value,
	stack: Vec<(sp_core::externalities::Map, Value)>,
}
impl Session {
	pub fn handle(&mut self, r: &Value) -> Value {
		if let Some(c) = r.get("cfg") {
			let f = family(c["fam"].as_str().expect("fam"));
			sp_core::externalities::restore(Default::default());
			(f.start)(c);
			self.cfg = c.clone();
			self.cfg.as_object_mut().expect("cfg").remove("setup");
			self.stack = vec![(sp_core::externalities::snapshot(), (f.world)())];
			return json!({"cfg": 0});
		}
		let f = family(self.cfg["fam"].as_str().expect("fam"));
		let d = base::u(&r["d"]) as usize;
		self.stack.truncate(d + 1);
		let (snap, pre) = self.stack.last().cloned().expect("depth");
		sp_core::externalities::restore(snap);
		System::reset_events();
		let res = caught(|| (f.act)(&r["call"]));
		let panic = res.as_ref().err().cloned();
		if let Some(m) = &panic {
			if m.starts_with("harness") {
				eprintln!("{m}");
				std::process::exit(2);
			}
		}
		let res = res.unwrap_or_else(|e| Err(format!("panic: {e}")));
		let post = caught(f.world).unwrap_or_else(|e| json!({"unreadable": e}));
		let ev = caught(f.events).unwrap_or(json!([]));
		self.stack.push((sp_core::externalities::snapshot(), post.clone()));
		json!({"k": "step", "cfg": self.cfg, "pre": pre, "call": r["call"], "ok": res.is_ok(),
			"err": res.as_ref().err().cloned().unwrap_or_default(), "post": post, "ev": ev, "panic": panic.is_some(),
			"x": res.unwrap_or_else(|_| json!({}))})
	}
	/// one more call after the ones made so far
	pub fn then(&mut self, call: Value) -> Value {
		self.handle(&json!({"d": self.stack.len() - 1, "call": call}))
	}
}

pub fn main() {
	quiet_panics();
	let mut out = std::io::BufWriter::new(std::io::stdout().lock());
	let mut s = Session::default();
	for line in std::io::stdin().lock().lines() {
		let line = line.expect("stdin");
		if !line.is_empty() {
			let r = drvlib::serde_json::from_str(&line).expect("request is JSON");
			writeln!(out, "{}", s.handle(&r)).expect("stdout");
		}
	}
	out.flush().expect("stdout");
}
