//! The tracks of the collective, the origins they are for, and polls opened on them.
use crate::{base::*, Family};
use drvlib::{json, Value};
use frame_support::traits::{schedule::DispatchTime, StorePreimage};
use kreivo_runtime::*;
use pallet_referenda::{Instance1, ReferendumInfo, TracksInfo};
use sp_runtime::Perbill;

pub const FAMILY: Family = Family { start, act, world, events: || json!([]) };
type Tracks = <Runtime as pallet_referenda::Config<Instance1>>::Tracks;

fn start(_: &Value) {
	block(1);
	for i in 1..4u8 {
		must("endowed", dispatch(pallet_balances::Call::force_set_balance { who: Address::Id([i; 32].into()), new_free: 1000 * UNITS }, RuntimeOrigin::root()));
	}
}
fn name(n: &[u8]) -> String {
	String::from_utf8_lossy(n).trim_end_matches('\0').to_string()
}
fn world() -> Value {
	let tracks: Vec<Value> = Tracks::tracks().map(|t| json!({"id": t.id, "name": name(&t.info.name)})).collect();
	let mut polls: Vec<(u32, u16, String)> = pallet_referenda::ReferendumInfoFor::<Runtime, Instance1>::iter()
		.map(|(i, r)| match r {
			ReferendumInfo::Ongoing(s) => (i, s.track, "open".into()),
			ReferendumInfo::Cancelled(..) => (i, 0, "cancelled".into()),
			ReferendumInfo::Killed(..) => (i, 0, "killed".into()),
			_ => (i, 0, "over".into()),
		})
		.collect();
	polls.sort();
	json!({"tracks": tracks, "polls": polls.iter().map(|(_, t, s)| json!({"t": t, "st": s})).collect::<Vec<_>>()})
}
fn act(k: &Value) -> Result<Value, String> {
	type C = pallet_referenda::Call<Runtime, Instance1>;
	match s(&k["op"]) {
		"for" => Tracks::track_for(&caller(&k["o"])).map(|t| json!({ "t": t })).map_err(|_| "no track".to_string()),
		"info" => {
			let i = Tracks::info(u(&k["t"]) as u16).ok_or("no such track")?;
			Ok(json!({"name": name(&i.name)}))
		}
		"curve" => {
			let i = Tracks::info(u(&k["t"]) as u16).ok_or("no such track")?;
			let y: Vec<(u32, u32)> = list(&k["x"])
				.iter()
				.map(|x| Perbill::from_parts(u(x) as u32))
				.map(|x| (i.min_approval.threshold(x).deconstruct(), i.min_support.threshold(x).deconstruct()))
				.collect();
			Ok(json!({"app": y.iter().map(|y| y.0).collect::<Vec<_>>(), "sup": y.iter().map(|y| y.1).collect::<Vec<_>>()}))
		}
		"open" => {
			let call: RuntimeCall = frame_system::Call::remark { remark: vec![1] }.into();
			let proposal = Preimage::bound(call).map_err(|e| format!("{e:?}"))?;
			dispatch(C::submit { proposal_origin: Box::new(caller(&k["o"])), proposal, enactment_moment: DispatchTime::After(1) }, origin(&k["by"]))?;
			Ok(json!({}))
		}
		"cancel" => dispatch(C::cancel { index: u(&k["i"]) as u32 - 1 }, origin(&k["by"])).map(|_| json!({})),
		"kill" => dispatch(C::kill { index: u(&k["i"]) as u32 - 1 }, origin(&k["by"])).map(|_| json!({})),
		op => panic!("harness: unknown operation {op}"),
	}
}
