//! Exercises virto-common: payment ids and asset locations.
use codec::{Decode, Encode};
use drvlib::{bytes, caught, fixed, json, serve, Value};
use sp_runtime::traits::MaybeEquivalence;
use virto_common::{AsFungibleAssetLocation, FungibleAssetLocation, PaymentId};
use xcm::latest::prelude::*;

fn id(v: &Value) -> PaymentId {
	PaymentId::from(u64::from_le_bytes(fixed(v)))
}
fn num(i: PaymentId) -> Value {
	json!(i.to_number().to_le_bytes())
}
fn codes(s: &str) -> Value {
	s.chars().map(|c| c as u32).collect::<Vec<_>>().into()
}

fn payment_id(r: &Value) -> Value {
	match r["k"].as_str().unwrap() {
		"num" => {
			let i = id(&r["n"]);
			let enc = i.encode_scale();
			json!({
				"back": u64::from(i).to_le_bytes(),
				"bytes": i.as_ref(),
				"tobytes": i.to_bytes(),
				"enc": enc,
				"dec": PaymentId::decode(&mut &enc[..]).map(|i| num(i)).unwrap_or(json!([])),
				"block": i.block_number().to_le_bytes(),
				"idx": i.extrinsic_index().to_le_bytes(),
			})
		}
		"tri" => {
			let (b, x) = (u32::from_le_bytes(fixed(&r["block"])), u32::from_le_bytes(fixed(&r["idx"])));
			let i = PaymentId::from((b, x, &bytes(&r["extra"])[..]));
			json!({"n": num(i), "rblock": i.block_number().to_le_bytes(), "ridx": i.extrinsic_index().to_le_bytes()})
		}
		"pair" => {
			let (a, b) = (id(&r["a"]), id(&r["b"]));
			json!({"eq": a == b && !(a != b), "na": num(a), "nb": num(b)})
		}
		"dec" => {
			let inp = bytes(&r["in"]);
			let mut s = &inp[..];
			let d = PaymentId::decode(&mut s);
			json!({"ok": d.is_ok(), "n": d.map(num).unwrap_or(json!([])), "left": s.len()})
		}
		"print" => {
			let i = id(&r["n"]);
			let (plain, pretty) = (format!("{i}"), format!("{i:#}"));
			let parse = |s: &str| s.parse::<PaymentId>().map(num).unwrap_or(json!([]));
			json!({
				"plain": codes(&plain), "pretty": codes(&pretty),
				"encplain": codes(&PaymentId::encode(&i, false)), "encpretty": codes(&PaymentId::encode(&i, true)),
				"parsedplain": parse(&plain), "parsedpretty": parse(&pretty),
			})
		}
		"parse" => {
			let text: String =
				r["text"].as_array().unwrap().iter().map(|c| char::from_u32(c.as_u64().unwrap() as u32).unwrap()).collect();
			let p = text.parse::<PaymentId>();
			json!({"ok": p.is_ok(), "n": p.map(num).unwrap_or(json!([])), "new": num(PaymentId::new(&text))})
		}
		k => panic!("kind {k}"),
	}
}
trait EncodeScale {
	fn encode_scale(&self) -> Vec<u8>;
}
impl<T: Encode> EncodeScale for T {
	fn encode_scale(&self) -> Vec<u8> {
		Encode::encode(self)
	}
}

fn net(v: &Value) -> NetworkId {
	match v["n"].as_str().unwrap() {
		"Polkadot" => Polkadot,
		"Kusama" => Kusama,
		"Ethereum" => Ethereum { chain_id: u64::from_le_bytes(fixed(&v["chain"])) },
		"Westend" => Westend,
		"Rococo" => Rococo,
		"Wococo" => NetworkId::Wococo,
		"BitcoinCore" => BitcoinCore,
		"BitcoinCash" => BitcoinCash,
		"ByGenesis" => ByGenesis([7; 32]),
		"ByFork" => ByFork { block_number: 1, block_hash: [7; 32] },
		"PolkadotBulletin" => PolkadotBulletin,
		n => panic!("network {n}"),
	}
}
fn net_json(n: &NetworkId) -> Value {
	match n {
		Ethereum { chain_id } => json!({"n": "Ethereum", "chain": chain_id.to_le_bytes()}),
		ByGenesis(_) => json!({"n": "ByGenesis"}),
		ByFork { .. } => json!({"n": "ByFork"}),
		n => json!({"n": format!("{n:?}")}),
	}
}
fn junction(v: &Value) -> Junction {
	let x = &v["v"];
	match v["j"].as_str().unwrap() {
		"Parachain" => Parachain(u32::from_le_bytes(fixed(x))),
		"PalletInstance" => PalletInstance(x.as_u64().unwrap() as u8),
		"GeneralIndex" => GeneralIndex(u128::from_le_bytes(fixed(x))),
		"GlobalConsensus" => GlobalConsensus(net(x)),
		"OnlyChild" => OnlyChild,
		"AccountId32" => AccountId32 { network: None, id: [13; 32] },
		"AccountIndex64" => AccountIndex64 { network: None, index: 13 },
		"AccountKey20" => AccountKey20 { network: None, key: [13; 20] },
		"GeneralKey" => GeneralKey { length: 1, data: [13; 32] },
		"Plurality" => Plurality { id: BodyId::Index(13), part: BodyPart::Voice },
		j => panic!("junction {j}"),
	}
}
fn junction_json(j: &Junction) -> Value {
	match j {
		Parachain(i) => json!({"j": "Parachain", "v": i.to_le_bytes()}),
		PalletInstance(i) => json!({"j": "PalletInstance", "v": i}),
		GeneralIndex(i) => json!({"j": "GeneralIndex", "v": i.to_le_bytes()}),
		GlobalConsensus(n) => json!({"j": "GlobalConsensus", "v": net_json(n)}),
		other => json!({"j": format!("{other:?}").split([' ', '(']).next().unwrap(), "v": 0}),
	}
}
fn location(v: &Value) -> Location {
	let js: Vec<Junction> = v["interior"].as_array().unwrap().iter().map(junction).collect();
	Location { parents: v["parents"].as_u64().unwrap() as u8, interior: Junctions::from_slice(&js).unwrap() }
}
fn location_json(l: &Location) -> Value {
	let (p, js) = l.unpack();
	json!({"parents": p, "interior": js.iter().map(junction_json).collect::<Vec<_>>()})
}
/// Asset ids are built and read through their on-chain encoding.
fn asset(v: &Value) -> FungibleAssetLocation {
	let para = |p: &Value| [bytes(&p["id"]), vec![p["pallet"].as_u64().unwrap() as u8], bytes(&p["index"])].concat();
	let enc = match v["t"].as_str().unwrap() {
		"Here" => [vec![0], bytes(&v["index"])].concat(),
		"Sibling" => [vec![1], para(&v["para"])].concat(),
		"External" => {
			let n = match v["network"]["n"].as_str().unwrap() {
				"Polkadot" => vec![0],
				"Kusama" => vec![1],
				"Ethereum" => [vec![2], bytes(&v["network"]["chain"])].concat(),
				n => panic!("network {n}"),
			};
			let c = match v["child"].as_array().unwrap().first() {
				None => vec![0],
				Some(p) => [vec![1], para(p)].concat(),
			};
			[vec![2], n, c].concat()
		}
		t => panic!("asset {t}"),
	};
	FungibleAssetLocation::decode(&mut &enc[..]).expect("asset encoding")
}
fn asset_json(a: &FungibleAssetLocation) -> Value {
	let e = a.encode();
	let para = |b: &[u8]| json!({"id": &b[..2], "pallet": b[2], "index": &b[3..7]});
	match e[0] {
		0 => json!({"t": "Here", "index": &e[1..]}),
		1 => json!({"t": "Sibling", "para": para(&e[1..])}),
		_ => {
			let (n, rest) = match e[1] {
				0 => (json!({"n": "Polkadot"}), &e[2..]),
				1 => (json!({"n": "Kusama"}), &e[2..]),
				_ => (json!({"n": "Ethereum", "chain": &e[2..10]}), &e[10..]),
			};
			json!({"t": "External", "network": n, "child": if rest[0] == 0 { json!([]) } else { json!([para(&rest[1..])]) }})
		}
	}
}
fn asset_location(r: &Value) -> Value {
	let refused = || json!({"t": "Refused"});
	match r["k"].as_str().unwrap() {
		"loc" => {
			let l = location(&r["loc"]);
			match AsFungibleAssetLocation::convert(&l) {
				None => json!({"asset": refused(), "back": {"parents": 0, "interior": []}}),
				Some(a) => {
					let back = AsFungibleAssetLocation::convert_back(&a);
					json!({"asset": asset_json(&a), "back": back.map(|l| location_json(&l)).unwrap_or(refused())})
				}
			}
		}
		"asset" => {
			let a = asset(&r["asset"]);
			let l = AsFungibleAssetLocation::convert_back(&a);
			let back = l.as_ref().and_then(AsFungibleAssetLocation::convert);
			json!({
				"loc": l.map(|l| location_json(&l)).unwrap_or(refused()),
				"back": back.map(|a| asset_json(&a)).unwrap_or(refused()),
			})
		}
		"net" => {
			let n: Result<virto_common::NetworkId, _> = net(&r["net"]).try_into();
			let back = n.clone().ok().map(NetworkId::from);
			json!({"ok": n.is_ok(), "back": back.map(|n| net_json(&n)).unwrap_or(refused())})
		}
		k => panic!("kind {k}"),
	}
}

fn main() {
	match std::env::args().nth(1).as_deref() {
		Some("payment-id") => serve(payment_id),
		Some("asset-location") => serve(asset_location),
		_ => {
			let _ = caught(|| ());
			eprintln!("usage: drv-common payment-id|asset-location");
			std::process::exit(2)
		}
	}
}
