PID = "common/src/payment_id.rs"
LOC = "common/src/multilocation_asset_id.rs"
BUGS = [
 dict(id="pid-index-saturates", property="C11", file=PID,
  needs="an extrinsic index above 65535",
  breaks="The extrinsic index saturates at 65535 instead of wrapping, so ids of different extrinsics collide and no longer report index mod 65536.",
  edits=[("index: idx as u16,", "index: idx.min(u16::MAX as u32) as u16,")],
  deps=["virto-common"], main='''
use virto_common::PaymentId;
fn main() {
	let id = PaymentId::from((7u32, 65_536u32 + 9, &[1u8, 2][..]));
	assert_eq!(id.extrinsic_index(), 9);
}
'''),
 dict(id="pid-short-text-buffer", property="C12", file=PID,
  needs="an id whose text has eleven digits, printed with the separator",
  breaks="The parse buffer holds ten characters, so the pretty text of larger ids no longer parses back.",
  edits=[("let mut tmp = [0u8; 12];\n\t\tlet mut input", "let mut tmp = [0u8; 10];\n\t\tlet mut input")],
  deps=["virto-common"], main='''
use virto_common::PaymentId;
fn main() {
	let id = PaymentId::from(u64::MAX - 3);
	let text = format!("{id:#}");
	assert_eq!(text.parse::<PaymentId>(), Ok(id), "{text}");
}
'''),
 dict(id="pid-decode-short-input", property="C11", file=PID,
  needs="a truncated encoding",
  breaks="Decoding ignores the end of the input, so a truncated encoding yields an id instead of an error.",
  edits=[("input.read(&mut buf)?;", "let _ = input.read(&mut buf);")],
  deps=["virto-common", "codec"], main='''
use codec::Decode;
use virto_common::PaymentId;
fn main() {
	assert!(PaymentId::decode(&mut &[1u8, 2, 3][..]).is_err());
	assert!(PaymentId::decode(&mut &[1u8, 2, 3, 4, 5, 6, 7, 8][..]).is_ok());
}
'''),
 dict(id="loc-para-id-truncated", property="C13", file=LOC,
  needs="a sibling location with a parachain id above 65535",
  breaks="The sibling parachain id is truncated, so two locations denote the same asset.",
  edits=[("""Some(FungibleAssetLocation::Sibling(Para {
						id: (*id).try_into().ok()?,""", """Some(FungibleAssetLocation::Sibling(Para {
						id: *id as u16,""")],
  deps=["virto-common", "xcm", "sp-runtime"], main='''
use sp_runtime::traits::MaybeEquivalence;
use virto_common::AsFungibleAssetLocation;
use xcm::latest::prelude::*;
fn main() {
	let l = Location::new(1, [Parachain(65_536 + 1000), PalletInstance(50), GeneralIndex(1)]);
	assert!(AsFungibleAssetLocation::convert(&l).is_none());
}
'''),
 dict(id="loc-external-subpath", property="C13", file=LOC,
  needs="a location below a supported foreign network",
  breaks="Anything below a foreign network is taken for that network's native asset, so unrelated locations denote it.",
  edits=[("(2, [GlobalConsensus(network)]) => Some(", "(2, [GlobalConsensus(network)] | [GlobalConsensus(network), Parachain(_)]) => Some(")],
  deps=["virto-common", "xcm", "sp-runtime"], main='''
use sp_runtime::traits::MaybeEquivalence;
use virto_common::AsFungibleAssetLocation;
use xcm::latest::prelude::*;
fn main() {
	let l = Location::new(2, [GlobalConsensus(NetworkId::Polkadot), Parachain(2000)]);
	assert!(AsFungibleAssetLocation::convert(&l).is_none());
}
'''),
 dict(id="pid-leading-zero-text", property="C12", file=PID,
  needs="an id whose first byte is zero",
  breaks="Printing drops leading zero digits, so ids whose payee prefix starts with a zero byte print to text that is not theirs.",
  edits=[('let out = out[..n].as_ascii().ok_or(Error)?.as_str();', "let out = out[..n].as_ascii().ok_or(Error)?.as_str().trim_start_matches('1');")],
  deps=["virto-common"], main='''
use virto_common::PaymentId;
fn main() {
	let id = PaymentId::from(u64::from_le_bytes([0, 200, 255, 255, 255, 255, 255, 255]));
	let text = format!("{id}");
	assert_eq!(text.parse::<PaymentId>(), Ok(id), "{text}");
}
'''),
]
