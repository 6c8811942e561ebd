//! Payments between accounts of all kinds, under the fee policy of the runtime.
//! Accounts are numbered as listed in `cfg.acct`.
use crate::{base::*, Family};
use drvlib::{json, Value};
use frame_support::traits::{fungibles, QueryPreimage};
use kreivo_runtime::*;
use pallet_payments::{types::*, Call as C, Event as E, Payment, PaymentParties};
use std::cell::RefCell;
use virto_common::{FungibleAssetLocation as Loc, PaymentId};

pub const FAMILY: Family = Family { start, act, world, events };

#[derive(Default, Clone)]
struct Knobs {
	acct: Vec<AccountId>,
	assets: u32,
	scale: u128,
}
thread_local! { static KNOBS: RefCell<Knobs> = Default::default(); }
fn knob<R>(f: impl FnOnce(&Knobs) -> R) -> R {
	KNOBS.with(|k| f(&k.borrow()))
}
fn units(b: Balance) -> Value {
	let s = knob(|k| k.scale);
	if b % s == 0 && b / s < 1 << 30 { json!((b / s) as u64) } else { json!(-1) }
}
fn amt(v: &Value) -> Balance {
	u(v) as u128 * knob(|k| k.scale)
}
/// account number `i`
pub fn who(i: u64) -> AccountId {
	knob(|k| k.acct.get(i as usize - 1).cloned()).unwrap_or_else(|| panic!("harness: no account {i}"))
}
fn num(a: &AccountId) -> u64 {
	knob(|k| k.acct.iter().position(|x| x == a).map(|p| p as u64 + 1).unwrap_or(0))
}
fn asset(i: u64) -> Loc {
	Loc::Here(i as u32)
}
fn asset_num(a: &Loc) -> u64 {
	match a {
		Loc::Here(i) => *i as u64,
		_ => 0,
	}
}
type Ids = Vec<PaymentId>;
/// ids are numbered in the order they were issued
fn id_num(id: &PaymentId) -> u64 {
	noted::<Ids>("ids").unwrap_or_default().iter().position(|x| x == id).map(|p| p as u64 + 1).unwrap_or(0)
}
fn show_fees(f: &FeeDetails<Runtime>) -> Value {
	f.iter().map(|(x, v, m)| json!({"x": num(x), "v": units(*v), "m": m})).collect::<Vec<_>>().into()
}

fn world() -> Value {
	use fungibles::{hold::Inspect as _, Inspect as _};
	let (acct, assets) = knob(|k| (k.acct.clone(), k.assets as u64));
	let reason: RuntimeHoldReason = pallet_payments::HoldReason::TransferPayment.into();
	let table = |f: &dyn Fn(Loc, &AccountId) -> Balance| -> Value {
		(1..=assets).map(|a| acct.iter().map(|x| units(f(asset(a), x))).collect::<Vec<_>>()).collect::<Vec<_>>().into()
	};
	let mut pays = vec![];
	for (s, id, p) in Payment::<Runtime>::iter() {
		let (st, cb) = match p.state {
			PaymentState::Created => ("created", 0),
			PaymentState::NeedsReview => ("review", 0),
			PaymentState::RefundRequested { cancel_block } => ("refund", cancel_block),
			PaymentState::PaymentRequested => ("requested", 0),
			PaymentState::Finished => ("finished", 0),
		};
		pays.push((num(&s), id_num(&id), json!({"s": num(&s), "id": id_num(&id), "a": asset_num(&p.asset), "amt": units(p.amount), "b": num(&p.beneficiary),
			"inc": units(p.incentive_amount), "st": st, "cb": cb, "sf": show_fees(&p.fees.sender_pays), "bf": show_fees(&p.fees.beneficiary_pays)})));
	}
	pays.sort_by_key(|(s, id, _)| (*s, *id));
	let mut par: Vec<_> = PaymentParties::<Runtime>::iter().map(|(id, (s, b))| (id_num(&id), num(&s), num(&b))).collect();
	par.sort();
	let mut tasks = vec![];
	let mut agendas: Vec<_> = pallet_scheduler::Agenda::<Runtime>::iter().collect();
	agendas.sort_by_key(|(at, _)| *at);
	for (at, agenda) in agendas {
		for t in agenda.into_iter().flatten() {
			let id = match <Preimage as QueryPreimage>::peek::<RuntimeCall>(&t.call) {
				Ok((RuntimeCall::Payments(C::cancel { payment_id }), _)) => id_num(&payment_id),
				_ => 0,
			};
			let who = match t.origin {
				OriginCaller::system(frame_system::RawOrigin::Signed(w)) => num(&w),
				_ => 0,
			};
			tasks.push(json!({"id": id, "at": at, "who": who}));
		}
	}
	json!({
		"blk": System::block_number(),
		"free": table(&|a, x| Assets::balance(a, x)),
		"held": table(&|a, x| <Assets as fungibles::hold::Inspect<_>>::balance_on_hold(a, &reason, x)),
		"dust": (1..=assets).map(|a| units(pallet_assets::Dust::<Runtime, KreivoAssetsInstance>::get(asset(a)))).collect::<Vec<_>>(),
		"pays": pays.into_iter().map(|p| p.2).collect::<Vec<_>>(),
		"par": par.into_iter().map(|(id, s, b)| json!({"id": id, "s": s, "b": b})).collect::<Vec<_>>(),
		"tasks": tasks,
		"n": noted::<Ids>("ids").unwrap_or_default().len(),
	})
}

fn events() -> Value {
	let mut out = vec![];
	for e in System::events() {
		let RuntimeEvent::Payments(e) = e.event else { continue };
		let (k, id) = match e {
			E::PaymentCreated { payment_id, .. } => ("created", payment_id),
			E::PaymentReleased { payment_id } => ("released", payment_id),
			E::PaymentCancelled { payment_id } => ("cancelled", payment_id),
			E::PaymentCreatorRequestedRefund { payment_id, .. } => ("refundreq", payment_id),
			E::PaymentRefunded { payment_id } => ("refunded", payment_id),
			E::PaymentRefundDisputed { payment_id } => ("disputed", payment_id),
			E::PaymentRequestCreated { payment_id } => ("requested", payment_id),
			E::PaymentRequestCompleted { payment_id } => ("completed", payment_id),
			E::PaymentDisputeResolved { payment_id } => ("resolved", payment_id),
			_ => continue,
		};
		out.push(json!({"k": k, "id": id_num(&id)}));
	}
	out.into()
}
/// The id of the payment just created or requested.
pub fn issued() -> Option<PaymentId> {
	System::events().into_iter().find_map(|e| match e.event {
		RuntimeEvent::Payments(E::PaymentCreated { payment_id, .. } | E::PaymentRequestCreated { payment_id }) => Some(payment_id),
		_ => None,
	})
}

/// Makes the assets of `c.min` with the balances of `c.free`.
pub fn start(c: &Value) {
	use fungibles::{Create, Mutate};
	let mins = list(&c["min"]);
	KNOBS.with(|k| {
		*k.borrow_mut() = Knobs {
			acct: list(&c["acct"]).iter().map(account).collect(),
			assets: mins.len() as u32,
			scale: 1u128 << c["shift"].as_u64().unwrap_or(0),
		}
	});
	block(1);
	for (i, m) in mins.iter().enumerate() {
		let a = asset(i as u64 + 1);
		<Assets as Create<AccountId>>::create(a, TreasuryAccount::get(), true, amt(m)).expect("harness: asset");
		for (x, b) in list(&c["free"][i]).iter().enumerate() {
			if u(b) > 0 {
				<Assets as Mutate<AccountId>>::mint_into(a, &who(x as u64 + 1), amt(b)).expect("harness: balance");
			}
		}
	}
}

fn act(k: &Value) -> Result<Value, String> {
	let op = s(&k["op"]);
	match op {
		"next" => return Ok(block(System::block_number() + 1)).map(|_| json!({})),
		"skip" => {
			for _ in 0..u(&k["n"]) {
				block(System::block_number() + 1)
			}
			return Ok(json!({}));
		}
		_ => {}
	}
	// every call comes in an extrinsic of its own
	let ext = noted::<u32>("ext").unwrap_or(0) + 1;
	note("ext", ext);
	System::set_extrinsic_index(ext);
	// 99 root, 100 + i the community itself whose account is number i
	let from = match u(&k["who"]) {
		0 => RuntimeOrigin::none(),
		99 => RuntimeOrigin::root(),
		i if i > 100 => pallet_communities::Origin::<Runtime>::new(u(&k["c"]) as u16).into(),
		i => RuntimeOrigin::signed(who(i)),
	};
	let id = k.get("id").map(|i| *noted::<Ids>("ids").unwrap_or_default().get(u(i) as usize - 1).unwrap_or(&PaymentId::from((0u32, 0u32, &[9u8, 9][..]))));
	let id = move || id.expect("harness: id");
	let to = |i: &Value| Address::Id(who(u(i)));
	let call: RuntimeCall = match op {
		"pay" => C::pay { beneficiary: to(&k["b"]), asset: asset(u(&k["a"])), amount: amt(&k["amt"]), remark: None }.into(),
		"req" => C::request_payment { sender: to(&k["s"]), asset: asset(u(&k["a"])), amount: amt(&k["amt"]) }.into(),
		"rel" => C::release { payment_id: id() }.into(),
		"rfd" => C::request_refund { payment_id: id() }.into(),
		"acc" => C::accept_and_pay { payment_id: id() }.into(),
		"can" => C::cancel { payment_id: id() }.into(),
		"dis" => C::dispute_refund { payment_id: id() }.into(),
		"rsv" => C::resolve_dispute {
			payment_id: id(),
			dispute_result: DisputeResult {
				percent_beneficiary: Percent::from_percent(u(&k["pct"]) as u8),
				in_favor_of: if k["fav"] == "s" { Role::Sender } else { Role::Beneficiary },
			},
		}
		.into(),
		_ => panic!("harness: unknown operation {op}"),
	};
	let r = dispatch(call, from);
	if let (Ok(()), Some(id)) = (&r, issued()) {
		let mut ids = noted::<Ids>("ids").unwrap_or_default();
		if !ids.contains(&id) {
			ids.push(id);
		}
		note("ids", ids);
	}
	r.map(|_| json!({}))
}
