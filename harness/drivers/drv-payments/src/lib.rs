//! Exercises the payments pallet in a small runtime. Input lines either start a new world
//! (`cfg`) or make one call from the world reached at depth `d` of the current path.
use codec::{Decode, Encode, MaxEncodedLen};
use drvlib::{caught, json, quiet_panics, Value};
use frame_support::{
	derive_impl, parameter_types,
	traits::{fungibles, AsEnsureOriginWithArg, ConstU32, EqualPrivilegeOnly, Get, OnInitialize},
	weights::Weight,
	PalletId,
};
use frame_system::{EnsureRoot, EnsureSigned};
use pallet_payments::{types::*, PaymentParties};
use scale_info::TypeInfo;
use sp_runtime::{traits::Dispatchable, BoundedVec, Percent};
use std::cell::RefCell;
use std::io::{BufRead, Write};

type Block = frame_system::mocking::MockBlock<Test>;
type AccountId = u64;
type Balance = u128;

#[derive(Clone, Copy, Debug, Decode, Encode, Eq, PartialEq, MaxEncodedLen, TypeInfo)]
pub struct Pid(pub u32);

#[frame_support::runtime]
mod runtime {
	#[runtime::runtime]
	#[runtime::derive(RuntimeCall, RuntimeEvent, RuntimeError, RuntimeOrigin, RuntimeTask, RuntimeHoldReason, RuntimeFreezeReason)]
	pub struct Test;
	#[runtime::pallet_index(0)]
	pub type System = frame_system;
	#[runtime::pallet_index(5)]
	pub type Scheduler = pallet_scheduler;
	#[runtime::pallet_index(6)]
	pub type Preimage = pallet_preimage;
	#[runtime::pallet_index(10)]
	pub type Balances = pallet_balances;
	#[runtime::pallet_index(11)]
	pub type Assets = pallet_assets;
	#[runtime::pallet_index(20)]
	pub type Payments = pallet_payments;
}
parameter_types! {
	pub MaxWeight: Weight = Weight::from_parts(2_000_000_000_000, u64::MAX);
	pub const PaymentPalletId: PalletId = PalletId(*b"payments");
}
#[derive_impl(frame_system::config_preludes::TestDefaultConfig as frame_system::DefaultConfig)]
impl frame_system::Config for Test {
	type Block = Block;
	type AccountData = pallet_balances::AccountData<Balance>;
}
#[derive_impl(pallet_balances::config_preludes::TestDefaultConfig as pallet_balances::DefaultConfig)]
impl pallet_balances::Config for Test {
	type Balance = Balance;
	type ExistentialDeposit = frame_support::traits::ConstU128<1>;
	type AccountStore = System;
}
#[derive_impl(pallet_assets::config_preludes::TestDefaultConfig as pallet_assets::DefaultConfig)]
impl pallet_assets::Config for Test {
	type Balance = Balance;
	type Currency = Balances;
	type CreateOrigin = AsEnsureOriginWithArg<EnsureSigned<u64>>;
	type ForceOrigin = EnsureRoot<u64>;
	type Freezer = ();
	type RuntimeHoldReason = RuntimeHoldReason;
}
impl pallet_preimage::Config for Test {
	type RuntimeEvent = RuntimeEvent;
	type Currency = Balances;
	type ManagerOrigin = EnsureRoot<u64>;
	type Consideration = ();
	type WeightInfo = ();
}
impl pallet_scheduler::Config for Test {
	type RuntimeEvent = RuntimeEvent;
	type RuntimeOrigin = RuntimeOrigin;
	type PalletsOrigin = OriginCaller;
	type RuntimeCall = RuntimeCall;
	type MaximumWeight = MaxWeight;
	type ScheduleOrigin = EnsureRoot<u64>;
	type OriginPrivilegeCmp = EqualPrivilegeOnly;
	type MaxScheduledPerBlock = ConstU32<100>;
	type WeightInfo = ();
	type Preimages = Preimage;
}

#[derive(Default, Clone)]
struct Knobs {
	n: u64,
	assets: u32,
	inc: u8,
	buf: u64,
	resolver: u64,
	scale: u128,
	/// what the next creation is to be given
	sender_fees: Vec<(u64, u128, bool)>,
	beneficiary_fees: Vec<(u64, u128, bool)>,
	nid: u32,
}
thread_local! { static KNOBS: RefCell<Knobs> = Default::default(); }
fn knob<R>(f: impl FnOnce(&Knobs) -> R) -> R {
	KNOBS.with(|k| f(&k.borrow()))
}
pub struct Inc;
impl Get<Percent> for Inc {
	fn get() -> Percent {
		knob(|k| Percent::from_percent(k.inc))
	}
}
pub struct Buf;
impl Get<u64> for Buf {
	fn get() -> u64 {
		knob(|k| k.buf)
	}
}
pub struct Resolver;
impl frame_support::traits::EnsureOrigin<RuntimeOrigin> for Resolver {
	type Success = u64;
	fn try_origin(o: RuntimeOrigin) -> Result<u64, RuntimeOrigin> {
		match <Result<frame_system::RawOrigin<u64>, RuntimeOrigin>>::from(o.clone()) {
			Ok(frame_system::RawOrigin::Signed(who)) if who == knob(|k| k.resolver) => Ok(who),
			_ => Err(o),
		}
	}
}
pub struct TableFees;
impl FeeHandler<Test> for TableFees {
	fn apply_fees(_: &u32, _: &u64, _: &u64, _: &Balance, _: Option<&[u8]>) -> Fees<Test> {
		knob(|k| Fees {
			sender_pays: BoundedVec::try_from(k.sender_fees.clone()).expect("fee table"),
			beneficiary_pays: BoundedVec::try_from(k.beneficiary_fees.clone()).expect("fee table"),
		})
	}
}
impl pallet_payments::PaymentId<Test> for Pid {
	fn next(_: &u64, _: &u64) -> Option<Self> {
		knob(|k| (k.nid > 0).then_some(Pid(k.nid)))
	}
}
impl pallet_payments::Config for Test {
	type RuntimeEvent = RuntimeEvent;
	type Assets = Assets;
	type AssetsBalance = Balance;
	type PaymentId = Pid;
	type FeeHandler = TableFees;
	type IncentivePercentage = Inc;
	type MaxRemarkLength = ConstU32<50>;
	type SenderOrigin = EnsureSigned<AccountId>;
	type BeneficiaryOrigin = EnsureSigned<AccountId>;
	type DisputeResolver = Resolver;
	type PalletId = PaymentPalletId;
	type RuntimeHoldReason = RuntimeHoldReason;
	type MaxDiscounts = ConstU32<50>;
	type MaxFees = ConstU32<50>;
	type RuntimeCall = RuntimeCall;
	type Scheduler = Scheduler;
	type Preimages = ();
	type CancelBufferBlockLength = Buf;
	type PalletsOrigin = OriginCaller;
	type WeightInfo = ();
}

/// A unit count as the specification sees it; what is not a whole number of units shows as -1.
fn units(b: Balance) -> Value {
	let s = knob(|k| k.scale);
	if b % s == 0 && b / s < 1 << 30 { json!((b / s) as u64) } else { json!(-1) }
}
fn u(v: &Value) -> u64 {
	v.as_u64().unwrap_or_else(|| panic!("harness: number expected, got {v}"))
}
fn amount(v: &Value) -> Balance {
	u(v) as u128 * knob(|k| k.scale)
}
fn fees(v: &Value) -> Vec<(u64, u128, bool)> {
	v.as_array().expect("fees").iter().map(|f| (u(&f["x"]), amount(&f["v"]), f["m"].as_bool().expect("flag"))).collect()
}
fn show_fees(f: &FeeDetails<Test>) -> Value {
	f.iter().map(|(x, v, m)| json!({"x": x, "v": units(*v), "m": m})).collect::<Vec<_>>().into()
}

fn world() -> Value {
	use fungibles::{hold::Inspect as _, Inspect as _};
	let (n, assets) = knob(|k| (k.n, k.assets));
	let table = |f: &dyn Fn(u32, u64) -> Balance| -> Value {
		(1..=assets).map(|a| (1..=n).map(|x| units(f(a, x))).collect::<Vec<_>>()).collect::<Vec<_>>().into()
	};
	let mut pays = vec![];
	for (s, id, p) in pallet_payments::Payment::<Test>::iter() {
		let (st, cb) = match p.state {
			PaymentState::Created => ("created", 0),
			PaymentState::NeedsReview => ("review", 0),
			PaymentState::RefundRequested { cancel_block } => ("refund", cancel_block),
			PaymentState::PaymentRequested => ("requested", 0),
			PaymentState::Finished => ("finished", 0),
		};
		pays.push((s, id.0, json!({"s": s, "id": id.0, "a": p.asset, "amt": units(p.amount), "b": p.beneficiary,
			"inc": units(p.incentive_amount), "st": st, "cb": cb, "sf": show_fees(&p.fees.sender_pays), "bf": show_fees(&p.fees.beneficiary_pays)})));
	}
	pays.sort_by_key(|(s, id, _)| (*s, *id));
	let mut par: Vec<_> = PaymentParties::<Test>::iter().map(|(id, (s, b))| (id.0, s, b)).collect();
	par.sort();
	let mut tasks = vec![];
	let mut agendas: Vec<_> = pallet_scheduler::Agenda::<Test>::iter().collect();
	agendas.sort_by_key(|(at, _)| *at);
	for (at, agenda) in agendas {
		for t in agenda.into_iter().flatten() {
			use frame_support::traits::QueryPreimage;
			let id = match <Preimage as QueryPreimage>::peek::<RuntimeCall>(&t.call) {
				Ok((RuntimeCall::Payments(pallet_payments::Call::cancel { payment_id }), _)) => payment_id.0,
				_ => 0,
			};
			let who = match t.origin {
				OriginCaller::system(frame_system::RawOrigin::Signed(w)) => w,
				_ => 0,
			};
			tasks.push(json!({"id": id, "at": at, "who": who}));
		}
	}
	json!({
		"blk": System::block_number(),
		"free": table(&|a, x| Assets::balance(a, x)),
		"held": table(&|a, x| <Assets as fungibles::hold::Inspect<_>>::balance_on_hold(a, &pallet_payments::HoldReason::TransferPayment.into(), &x)),
		"dust": (1..=assets).map(|a| units(pallet_assets::Dust::<Test>::get(a))).collect::<Vec<_>>(),
		"supply": (1..=assets).map(|a| units(<Assets as fungibles::Inspect<u64>>::total_issuance(a))).collect::<Vec<_>>(),
		"other": (1..=assets).map(|a| units((1..=n).map(|x| <Assets as fungibles::hold::Inspect<_>>::total_balance_on_hold(a, &x)
			- <Assets as fungibles::hold::Inspect<_>>::balance_on_hold(a, &pallet_payments::HoldReason::TransferPayment.into(), &x)).sum())).collect::<Vec<_>>(),
		"pays": pays.into_iter().map(|p| p.2).collect::<Vec<_>>(),
		"par": par.into_iter().map(|(id, s, b)| json!({"id": id, "s": s, "b": b})).collect::<Vec<_>>(),
		"tasks": tasks,
	})
}

fn events() -> Value {
	use pallet_payments::Event as E;
	let mut out = vec![];
	for e in System::events() {
		let RuntimeEvent::Payments(e) = e.event else { continue };
		out.push(match e {
			E::PaymentCreated { payment_id, asset, amount, remark } => json!({"k": "created", "id": payment_id.0, "a": asset, "amt": units(amount),
				"rem": remark.map(|r| json!([r.to_vec()])).unwrap_or(json!([]))}),
			E::PaymentReleased { payment_id } => json!({"k": "released", "id": payment_id.0}),
			E::PaymentCancelled { payment_id } => json!({"k": "cancelled", "id": payment_id.0}),
			E::PaymentCreatorRequestedRefund { payment_id, expiry } => json!({"k": "refundreq", "id": payment_id.0, "at": expiry}),
			E::PaymentRefunded { payment_id } => json!({"k": "refunded", "id": payment_id.0}),
			E::PaymentRefundDisputed { payment_id } => json!({"k": "disputed", "id": payment_id.0}),
			E::PaymentRequestCreated { payment_id } => json!({"k": "requested", "id": payment_id.0}),
			E::PaymentRequestCompleted { payment_id } => json!({"k": "completed", "id": payment_id.0}),
			E::PaymentDisputeResolved { payment_id } => json!({"k": "resolved", "id": payment_id.0}),
			_ => json!({"k": "other", "id": 0}),
		});
	}
	out.into()
}

fn start(c: &Value) {
	use fungibles::{Create, Mutate};
	sp_core::externalities::restore(Default::default());
	let mins = c["min"].as_array().expect("min");
	KNOBS.with(|k| {
		*k.borrow_mut() = Knobs {
			n: u(&c["n"]),
			assets: mins.len() as u32,
			inc: u(&c["inc"]) as u8,
			buf: u(&c["buf"]),
			resolver: u(&c["res"]),
			scale: 1u128 << c["shift"].as_u64().unwrap_or(0),
			..Default::default()
		}
	});
	System::set_block_number(1);
	for (i, m) in mins.iter().enumerate() {
		let a = i as u32 + 1;
		<Assets as Create<u64>>::create(a, 1000, true, amount(m)).expect("asset");
		for (x, b) in c["free"][i].as_array().expect("balances").iter().enumerate() {
			if u(b) > 0 {
				<Assets as Mutate<u64>>::mint_into(a, &(x as u64 + 1), amount(b)).expect("balance");
			}
		}
	}
}

fn act(k: &Value) -> Result<(), String> {
	use pallet_payments::Call as C;
	let op = k["op"].as_str().expect("op");
	System::reset_events();
	if op == "next" {
		let n = System::block_number() + 1;
		System::set_block_number(n);
		<AllPalletsWithoutSystem as OnInitialize<u64>>::on_initialize(n);
		return Ok(());
	}
	let origin = |v: &Value| match v.as_u64() {
		Some(0) => RuntimeOrigin::none(),
		Some(99) => RuntimeOrigin::root(),
		_ => RuntimeOrigin::signed(u(v)),
	};
	let who = origin(&k["who"]);
	let id = Pid(k["id"].as_u64().unwrap_or(0) as u32);
	if op == "pay" || op == "req" {
		KNOBS.with(|n| {
			let (s, b) = (fees(&k["sf"]), fees(&k["bf"]));
			let mut n = n.borrow_mut();
			n.sender_fees = s;
			n.beneficiary_fees = b;
			n.nid = u(&k["nid"]) as u32;
		})
	}
	let call: RuntimeCall = match op {
		"pay" => C::pay {
			beneficiary: u(&k["b"]),
			asset: u(&k["a"]) as u32,
			amount: amount(&k["amt"]),
			remark: k["rem"].get(0).map(|r| BoundedVec::try_from(drvlib::bytes(r)).expect("remark")),
		}
		.into(),
		"req" => C::request_payment { sender: u(&k["s"]), asset: u(&k["a"]) as u32, amount: amount(&k["amt"]) }.into(),
		"rel" => C::release { payment_id: id }.into(),
		"rfd" => C::request_refund { payment_id: id }.into(),
		"acc" => C::accept_and_pay { payment_id: id }.into(),
		"can" => C::cancel { payment_id: id }.into(),
		"dis" => C::dispute_refund { payment_id: id }.into(),
		"rsv" => C::resolve_dispute {
			payment_id: id,
			dispute_result: DisputeResult {
				percent_beneficiary: Percent::from_percent(u(&k["pct"]) as u8),
				in_favor_of: if k["fav"] == "s" { Role::Sender } else { Role::Beneficiary },
			},
		}
		.into(),
		"move" => pallet_assets::Call::transfer { id: u(&k["a"]) as u32, target: u(&k["to"]), amount: amount(&k["amt"]) }.into(),
		_ => panic!("harness: unknown operation {op}"),
	};
	// a call travels encoded
	let bytes = call.encode();
	let call = RuntimeCall::decode(&mut &bytes[..]).map_err(|e| format!("decode: {e}"))?;
	call.dispatch(who).map(|_| ()).map_err(|e| format!("{:?}", e.error))
}

/// A tree of worlds being walked.
#[derive(Default)]
pub struct Session {
	cfg: Value,
	stack: Vec<(sp_core::externalities::Map, Value)>,
}
impl Session {
	pub fn handle(&mut self, r: &Value) -> Value {
		if let Some(c) = r.get("cfg") {
			start(c);
			self.cfg = c.clone();
			self.cfg.as_object_mut().expect("cfg").remove("free");
			self.stack = vec![(sp_core::externalities::snapshot(), world())];
			return json!({"cfg": 0});
		}
		let d = u(&r["d"]) as usize;
		self.stack.truncate(d + 1);
		let (snap, pre) = self.stack.last().cloned().expect("depth");
		sp_core::externalities::restore(snap);
		let res = caught(|| act(&r["call"]));
		let panic = res.as_ref().err().cloned();
		if let Some(m) = &panic {
			if m.starts_with("harness") {
				eprintln!("{m}");
				std::process::exit(2);
			}
		}
		let res = res.unwrap_or_else(|e| Err(format!("panic: {e}")));
		let post = caught(world).unwrap_or_else(|e| json!({"unreadable": e}));
		let ev = caught(events).unwrap_or(json!([]));
		self.stack.push((sp_core::externalities::snapshot(), post.clone()));
		json!({"k": "step", "cfg": self.cfg, "pre": pre, "call": r["call"], "ok": res.is_ok(),
			"err": res.err().unwrap_or_default(), "post": post, "ev": ev, "panic": panic.is_some()})
	}
	/// one more call after the ones made so far
	pub fn then(&mut self, call: Value) -> Value {
		self.handle(&json!({"d": self.stack.len() - 1, "call": call}))
	}
}

pub fn main() {
	quiet_panics();
	let mut out = std::io::BufWriter::new(std::io::stdout().lock());
	let mut s = Session::default();
	for line in std::io::stdin().lock().lines() {
		let line = line.expect("stdin");
		if !line.is_empty() {
			let r = drvlib::serde_json::from_str(&line).expect("request is JSON");
			writeln!(out, "{}", s.handle(&r)).expect("stdout");
		}
	}
	out.flush().expect("stdout");
}
