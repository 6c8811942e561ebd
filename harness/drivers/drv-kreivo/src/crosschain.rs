//! What other chains are to this one and this one to them: whose account a place stands for, who a
//! program from elsewhere may act as, which chain vouches for which asset, who may send and as whom.
//!
//! A place is `{"p": parents, "j": [junctions]}`.
use crate::{base::*, Family};
use codec::{Decode, Encode};
use cumulus_primitives_core::AggregateMessageOrigin;
use drvlib::{fixed, json, Value};
use frame_support::traits::{ContainsPair, EnsureOrigin};
use kreivo_runtime::*;
use sp_runtime::traits::MaybeEquivalence;
use std::cell::RefCell;
use virto_common::{AsFungibleAssetLocation, FungibleAssetLocation};
use xcm::latest::prelude::*;
use xcm::{VersionedLocation, VersionedXcm};
use xcm_executor::traits::{ConvertLocation, ConvertOrigin};

type Cross = <Runtime as pallet_xcm::Config>::SovereignAccountOf;
type Executor = kreivo_runtime::xcm_config::XcmConfig;

pub const FAMILY: Family = Family { start, act, world, events: || json!([]) };
thread_local! { static ASSETS: RefCell<Vec<Location>> = Default::default(); }

fn asset_id(l: &Location) -> Option<FungibleAssetLocation> {
	AsFungibleAssetLocation::convert(l)
}
fn network(v: &Value) -> NetworkId {
	match s(v) {
		"kusama" => NetworkId::Kusama,
		"polkadot" => NetworkId::Polkadot,
		"westend" => NetworkId::Westend,
		"rococo" => NetworkId::Rococo,
		"wococo" => NetworkId::Wococo,
		"ethereum" => NetworkId::Ethereum { chain_id: 1 },
		"ethereum5" => NetworkId::Ethereum { chain_id: 5 },
		"bitcoin" => NetworkId::BitcoinCore,
		"genesis" => NetworkId::ByGenesis([7; 32]),
		n => panic!("harness: unknown network {n}"),
	}
}
fn network_name(n: &NetworkId) -> &'static str {
	match n {
		NetworkId::Kusama => "kusama",
		NetworkId::Polkadot => "polkadot",
		_ => "other",
	}
}
fn maybe_network(v: &Value) -> Option<NetworkId> {
	(s(v) != "none").then(|| network(v))
}
fn body(v: &Value) -> BodyId {
	match s(&v["body"]) {
		"index" => BodyId::Index(((u(&v["n"][0]) as u32) << 16) + u(&v["n"][1]) as u32),
		"unit" => BodyId::Unit,
		"moniker" => BodyId::Moniker([5, 0, 0, 0]),
		"executive" => BodyId::Executive,
		"technical" => BodyId::Technical,
		"legislative" => BodyId::Legislative,
		"judicial" => BodyId::Judicial,
		"defense" => BodyId::Defense,
		"administration" => BodyId::Administration,
		"treasury" => BodyId::Treasury,
		b => panic!("harness: unknown body {b}"),
	}
}
fn part(v: &Value) -> BodyPart {
	match s(&v["part"]) {
		"voice" => BodyPart::Voice,
		"members" => BodyPart::Members { count: 2 },
		"fraction" => BodyPart::Fraction { nom: 1, denom: 2 },
		"atleast" => BodyPart::AtLeastProportion { nom: 1, denom: 2 },
		"morethan" => BodyPart::MoreThanProportion { nom: 1, denom: 2 },
		p => panic!("harness: unknown part {p}"),
	}
}
fn junction(v: &Value) -> Junction {
	match s(&v["t"]) {
		"para" => Parachain(u(&v["n"]) as u32),
		"acc" => Junction::AccountId32 { network: maybe_network(&v["net"]), id: fixed::<32>(&v["id"]) },
		"acc20" => AccountKey20 { network: maybe_network(&v["net"]), key: fixed::<20>(&v["id"]) },
		"acc64" => AccountIndex64 { network: maybe_network(&v["net"]), index: u(&v["n"]) },
		"pal" => PalletInstance(u(&v["n"]) as u8),
		"gen" => GeneralIndex(u(&v["n"]) as u128),
		"key" => GeneralKey { length: 32, data: fixed::<32>(&v["id"]) },
		"child" => OnlyChild,
		"gc" => GlobalConsensus(network(&v["net"])),
		"plu" => Plurality { id: body(v), part: part(v) },
		t => panic!("harness: unknown junction {t}"),
	}
}
fn junctions(v: &Value) -> Junctions {
	Junctions::from_slice(&list(v).iter().map(junction).collect::<Vec<_>>()).expect("harness: too long a place")
}
pub fn place(v: &Value) -> Location {
	Location { parents: u(&v["p"]) as u8, interior: junctions(&v["j"]) }
}
fn shown_junction(j: &Junction) -> Value {
	match j {
		Parachain(n) => json!({"t": "para", "n": n}),
		Junction::AccountId32 { network, id } =>
			json!({"t": "acc", "net": network.as_ref().map_or("none", network_name), "id": id.to_vec()}),
		Plurality { id: BodyId::Index(n), part: BodyPart::Voice } =>
			json!({"t": "plu", "body": "index", "n": [n >> 16, n & 65535], "part": "voice"}),
		j => json!({"t": "other", "n": format!("{j:?}")}),
	}
}
fn shown(l: &Location) -> Value {
	let (p, j) = l.unpack();
	json!({"p": p, "j": j.iter().map(shown_junction).collect::<Vec<_>>()})
}
fn kind(v: &Value) -> OriginKind {
	match s(v) {
		"native" => OriginKind::Native,
		"sovereign" => OriginKind::SovereignAccount,
		"superuser" => OriginKind::Superuser,
		"xcm" => OriginKind::Xcm,
		k => panic!("harness: unknown kind {k}"),
	}
}
fn shown_origin(o: &OriginCaller) -> Value {
	use frame_system::RawOrigin;
	let community = |c: &pallet_communities::Origin<Runtime>| (0..=u16::MAX).find(|n| &pallet_communities::Origin::<Runtime>::new(*n) == c);
	match o {
		OriginCaller::system(RawOrigin::Root) => json!({"o": "root"}),
		OriginCaller::system(RawOrigin::None) => json!({"o": "none"}),
		OriginCaller::system(RawOrigin::Signed(a)) => json!({"o": "signed", "a": show(a)}),
		OriginCaller::Communities(c) => json!({"o": "community", "c": community(c)}),
		OriginCaller::CumulusXcm(cumulus_pallet_xcm::Origin::Relay) => json!({"o": "relay"}),
		OriginCaller::CumulusXcm(cumulus_pallet_xcm::Origin::SiblingParachain(p)) => json!({"o": "sibling", "p": u32::from(*p)}),
		OriginCaller::PolkadotXcm(pallet_xcm::Origin::Xcm(_)) => json!({"o": "place"}),
		o => json!({"o": format!("{o:?}")}),
	}
}

const MANY: Balance = 1_000_000 * UNITS;
fn start(c: &Value) {
	block(1);
	ASSETS.with(|a| *a.borrow_mut() = list(&c["assets"]).iter().map(place).collect());
	for l in ASSETS.with(|a| a.borrow().clone()) {
		if let Some(id) = asset_id(&l) {
			let call = pallet_assets::Call::force_create { id: id.into(), owner: AccountId::from([9u8; 32]).into(), is_sufficient: true, min_balance: 10 };
			must("create", dispatch(RuntimeCall::Assets(call), RuntimeOrigin::root()));
		}
	}
	for a in list(&c["rich"]) {
		let call = pallet_balances::Call::force_set_balance { who: account(a).into(), new_free: MANY };
		must("rich", dispatch(RuntimeCall::Balances(call), RuntimeOrigin::root()));
	}
	note("bond", pallet_collator_selection::CandidacyBond::<Runtime>::get());
}
/// Who holds anything of the assets, numbered as listed; the endowed accounts' own currency and the
/// treasury apart.
fn held() -> Vec<(usize, AccountId)> {
	let treasury = Treasury::account_id();
	let mut got = vec![];
	for (a, d) in frame_system::Account::<Runtime>::iter() {
		if d.data.free > 0 && d.data.free < MANY / 2 && a != treasury {
			got.push((0, a));
		}
	}
	for (i, l) in ASSETS.with(|a| a.borrow().clone()).into_iter().enumerate() {
		let Some(id) = asset_id(&l) else { continue };
		for (x, a, d) in pallet_assets::Account::<Runtime, KreivoAssetsInstance>::iter() {
			if x == id && d.balance > 0 && a != treasury {
				got.push((i + 1, a));
			}
		}
	}
	got.sort();
	got
}
fn world() -> Value {
	json!({
		"held": held().iter().map(|(i, a)| json!({"i": i, "a": show(a)})).collect::<Vec<_>>(),
		"bond": (pallet_collator_selection::CandidacyBond::<Runtime>::get() - noted::<u128>("bond").unwrap_or(0)) as u64,
	})
}
fn deliver(from: &Value, at: &Value, mut program: Vec<Instruction<RuntimeCall>>) -> Result<(), String> {
	let sender = place(from);
	let from = match sender.unpack() {
		(1, []) => AggregateMessageOrigin::Parent,
		(1, [Parachain(n)]) => AggregateMessageOrigin::Sibling((*n).into()),
		_ => panic!("harness: no chain to send from"),
	};
	if !list(at).is_empty() {
		program.insert(0, DescendOrigin(junctions(at)));
	}
	let message = VersionedXcm::V4(Xcm::<RuntimeCall>(program)).encode();
	match pallet_message_queue::Pallet::<Runtime>::deliver(&message, from) {
		Ok(true) => Ok(()),
		r => Err(format!("{r:?}")),
	}
}
/// The messages that wait to be picked up, with the chain they go to.
fn sent() -> Vec<(Location, Vec<u8>)> {
	let up = cumulus_pallet_parachain_system::UpwardMessages::<Runtime>::take().into_iter().map(|m| (Location::parent(), m));
	let across = cumulus_pallet_xcmp_queue::OutboundMessages::<Runtime>::take();
	up.chain(across.into_iter().map(|(p, m)| (Location::new(1, [Parachain(p)]), m))).collect()
}
fn act(k: &Value) -> Result<Value, String> {
	match s(&k["op"]) {
		// whose account a place is
		"acct" => Cross::convert_location(&place(&k["l"])).map(|a| json!({"a": show(&a)})).ok_or("none".into()),
		// as whom a place may act
		"auth" => <Executor as xcm_executor::Config>::OriginConverter::convert_origin(place(&k["l"]), kind(&k["as"]))
			.map(|o| json!({"o": shown_origin(&o.caller)}))
			.map_err(|_| "none".into()),
		// as which place an origin presents itself when it sends, or has a program executed
		"face" => <Runtime as pallet_xcm::Config>::SendXcmOrigin::try_origin(origin(&k["by"]))
			.map(|l| json!({"l": shown(&l)}))
			.map_err(|_| "none".into()),
		"face!" => <Runtime as pallet_xcm::Config>::ExecuteXcmOrigin::try_origin(origin(&k["by"]))
			.map(|l| json!({"l": shown(&l)}))
			.map_err(|_| "none".into()),
		// is the asset backed, coming from there
		"vouch" => {
			let asset = Asset { id: AssetId(place(&k["l"])), fun: Fungible(1000) };
			let from = place(&k["from"]);
			let r = match s(&k["how"]) {
				"reserve" => <Executor as xcm_executor::Config>::IsReserve::contains(&asset, &from),
				_ => <Executor as xcm_executor::Config>::IsTeleporter::contains(&asset, &from),
			};
			r.then(|| json!({})).ok_or("none".into())
		}
		// a message that claims to have left an asset with its sender
		"claim" => {
			let i = u(&k["i"]) as usize;
			let l = if i == 0 { Location::parent() } else { ASSETS.with(|a| a.borrow()[i - 1].clone()) };
			let asset = Asset { id: AssetId(l), fun: Fungible(1000 * UNITS) };
			let claim = match s(&k["how"]) {
				"reserve" => ReserveAssetDeposited(asset.clone().into()),
				_ => ReceiveTeleportedAsset(asset.clone().into()),
			};
			let pay = BuyExecution { fees: asset, weight_limit: WeightLimit::Unlimited };
			deliver(&k["from"], &k["at"], vec![claim, pay, DepositAsset { assets: Wild(AllCounted(1)), beneficiary: place(&k["to"]) }])?;
			Ok(json!({}))
		}
		// a message that makes a call: a remark, or a change of the collators' bond
		"call" => {
			let call: RuntimeCall = match s(&k["what"]) {
				"remark" => frame_system::Call::remark_with_event { remark: vec![1] }.into(),
				_ => pallet_collator_selection::Call::set_candidacy_bond {
					bond: pallet_collator_selection::CandidacyBond::<Runtime>::get() + 1,
				}
				.into(),
			};
			let call = Transact { origin_kind: kind(&k["as"]), require_weight_at_most: Weight::from_parts(1_000_000_000, 100_000), call: call.encode().into() };
			let mut program = if k["paid"].as_bool().expect("paid") {
				let fees = Asset { id: AssetId(Location::parent()), fun: Fungible(100 * UNITS) };
				vec![WithdrawAsset(fees.clone().into()), BuyExecution { fees, weight_limit: WeightLimit::Unlimited }]
			} else {
				vec![UnpaidExecution { weight_limit: WeightLimit::Unlimited, check_origin: None }]
			};
			if !list(&k["then"]).is_empty() {
				program.push(DescendOrigin(junctions(&k["then"])));
			}
			program.push(call);
			let r = deliver(&k["from"], &k["at"], program);
			let who = System::events().into_iter().find_map(|e| match e.event {
				RuntimeEvent::System(frame_system::Event::Remarked { sender, .. }) => Some(sender),
				_ => None,
			});
			r.map(|_| json!({"as": who.map_or(json!([]), |a| show(&a))}))
		}
		// a message to another chain
		"send" => {
			sent();
			let message = Xcm::<()>(vec![ClearOrigin]);
			let call = pallet_xcm::Call::send {
				dest: Box::new(VersionedLocation::V4(place(&k["to"]))),
				message: Box::new(VersionedXcm::V4(message)),
			};
			dispatch(RuntimeCall::PolkadotXcm(call), origin(&k["by"]))?;
			let out = sent();
			let [(to, m)] = &out[..] else { return Ok(json!({"msgs": out.len()})) };
			let m = VersionedXcm::<()>::decode(&mut &m[..]).map_err(|_| "unreadable message")?.into_latest();
			let l = match &m.0[..] {
				[ClearOrigin] => json!({"p": 0, "j": []}),
				[DescendOrigin(j), ClearOrigin] => shown(&Location { parents: 0, interior: j.clone() }),
				_ => json!({"p": 99, "j": []}),
			};
			Ok(json!({"l": l, "to": shown(to), "msgs": 1}))
		}
		op => panic!("harness: unknown operation {op}"),
	}
}
