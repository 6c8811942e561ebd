//! Tasks put on the agenda by authorities of every kind, and others who would cancel them.
//! Authorities are numbered as listed in `cfg.who`.
use crate::{base::*, Family};
use core::cmp::Ordering;
use drvlib::{json, Value};
use frame_support::traits::{
	schedule::{v3::Named, DispatchTime},
	PrivilegeCmp, StorePreimage,
};
use kreivo_runtime::*;
use std::cell::RefCell;

pub const FAMILY: Family = Family { start, act, world, events: || json!([]) };
thread_local! { static WHO: RefCell<Vec<Value>> = Default::default(); }
fn who(v: &Value) -> OriginCaller {
	WHO.with(|w| caller(&w.borrow()[u(v) as usize - 1]))
}
fn num(o: &OriginCaller) -> usize {
	WHO.with(|w| w.borrow().iter().position(|v| &caller(v) == o).map_or(0, |p| p + 1))
}
fn name(v: &Value) -> [u8; 32] {
	[u(v) as u8; 32]
}
fn start(c: &Value) {
	WHO.with(|w| *w.borrow_mut() = list(&c["who"]).clone());
	block(1);
}
fn world() -> Value {
	let mut tasks = vec![];
	for (at, agenda) in pallet_scheduler::Agenda::<Runtime>::iter() {
		for (i, t) in agenda.iter().enumerate() {
			if let Some(t) = t {
				tasks.push((t.maybe_id.map_or(0, |n| n[0]), num(&t.origin), at, i));
			}
		}
	}
	tasks.sort();
	json!({"blk": System::block_number(), "tasks": tasks.iter().map(|(n, o, at, i)| json!({"n": n, "o": o, "at": at, "i": i})).collect::<Vec<_>>()})
}
fn act(k: &Value) -> Result<Value, String> {
	let shown = |e: sp_runtime::DispatchError| format!("{e:?}");
	match s(&k["op"]) {
		"put" => {
			let call: RuntimeCall = frame_system::Call::remark { remark: vec![u(&k["n"]) as u8] }.into();
			let call = Preimage::bound(call).map_err(shown)?;
			<Scheduler as Named<_, _, _>>::schedule_named(name(&k["n"]), DispatchTime::At(u(&k["at"]) as u32), None, 63, who(&k["o"]), call)
				.map_err(shown)?;
		}
		"drop" => Scheduler::do_cancel_named(Some(who(&k["o"])), name(&k["n"])).map_err(shown)?,
		"dropat" => Scheduler::do_cancel(Some(who(&k["o"])), (u(&k["at"]) as u32, u(&k["i"]) as u32)).map_err(shown)?,
		// the calls anyone can make
		"put!" => dispatch(
			pallet_scheduler::Call::schedule_named {
				id: name(&k["n"]),
				when: u(&k["at"]) as u32,
				maybe_periodic: None,
				priority: 63,
				call: Box::new(frame_system::Call::remark { remark: vec![u(&k["n"]) as u8] }.into()),
			},
			who(&k["o"]).into(),
		)?,
		"drop!" => dispatch(pallet_scheduler::Call::cancel_named { id: name(&k["n"]) }, who(&k["o"]).into())?,
		"cmp" => {
			let r = match <Runtime as pallet_scheduler::Config>::OriginPrivilegeCmp::cmp_privilege(&who(&k["o"]), &who(&k["p"])) {
				None => "none",
				Some(Ordering::Less) => "less",
				Some(Ordering::Equal) => "equal",
				Some(Ordering::Greater) => "greater",
			};
			return Ok(json!({ "cmp": r }));
		}
		op => panic!("harness: unknown operation {op}"),
	}
	Ok(json!({}))
}
