K = "runtime/kreivo/src/"
PRE = '''use drv_kreivo::Session;
use drvlib::{json, Value};
fn wide(n: u64) -> Value {
	json!([n >> 30, n & ((1 << 30) - 1)])
}
const UNIT: u64 = 1_000_000_000_000;
// a transaction of this sender with this number, with some of its parts changed
fn tx(by: u8, no: u32, call: Value, but: Value) -> Value {
	let mut k = json!({"op": "tx", "by": by, "no": no, "sig": "good", "gen": true, "spec": true, "txv": true, "era": [], "tip": [0, 0], "in": 0, "call": call});
	for (n, v) in but.as_object().expect("parts") {
		k[n.as_str()] = v.clone();
	}
	k
}
fn gift(to: u8) -> Value {
	json!({"what": "give", "to": to, "n": wide(UNIT)})
}
fn acting() -> Value {
	json!({"what": "act", "to": 1, "n": wide(UNIT)})
}
fn login() -> Value {
	json!({"what": "login", "cx": 1, "dur": 5})
}
fn taken(r: Value) -> Value {
	assert!(r["x"]["taken"] == true, "{r}");
	r
}
fn refused(r: Value) {
	assert!(r["x"]["taken"] == false, "{r}");
}
fn main() {
	drv_tx::ready();
	let mut s = Session::default();
	let much = wide(50 * UNIT);
	let none = wide(0);
	s.handle(&json!({"cfg": {"fam": "tx", "nat": [much, much, KEY, much, none], "ast": [much, none, none, none, none], "gas": [GAS, GAS]}}));
'''


def bug(id, property, needs, breaks, file, edits, body, key="wide(70_000_000)", gas="none"):
    return dict(id="kre-" + id, property=property, needs=needs, breaks=breaks, file=K + file, edits=edits, deps=["drv-tx", "drv-kreivo", "drvlib"],
                main=PRE.replace("KEY", key).replace("GAS", gas) + body.lstrip("\n") + "}\n")


CHARGE = "SkipCheckIfFeeless<Runtime, ChargeTxToPassAccount<ChargeTransaction, Runtime, ()>>,"
BUGS = [
    bug("signed-for-another-chain", "C42", "a transaction that was signed for another chain with the same rules",
        "transactions of other chains are taken here too",
        "lib.rs", [("	frame_system::CheckGenesis<Runtime>,\n", "")],
        '''
	refused(s.then(tx(1, 0, gift(2), json!({"gen": false}))));
'''),
    bug("lives-forever", "C42", "a transaction sent after the time it was signed for",
        "transactions never expire",
        "lib.rs", [("	frame_system::CheckEra<Runtime>,\n", "")],
        '''
	s.then(json!({"op": "wait", "n": 10}));
	refused(s.then(tx(1, 0, gift(2), json!({"era": [4, 1]}))));
'''),
    bug("terms-of-old", "C42", "a transaction signed for an older version whose calls had other numbers",
        "transactions made for another numbering of the calls are taken",
        "lib.rs", [("	frame_system::CheckTxVersion<Runtime>,\n", "")],
        '''
	refused(s.then(tx(1, 0, gift(2), json!({"txv": false}))));
'''),
    bug("again-and-again", "C42", "a transaction that is sent a second time",
        "the same transaction is taken again and again",
        "lib.rs", [("	SkipCheckIfFeeless<Runtime, frame_system::CheckNonce<Runtime>>,\n", "")],
        '''
	taken(s.then(tx(1, 0, gift(2), json!({}))));
	refused(s.then(tx(1, 0, gift(2), json!({}))));
'''),
    bug("no-room-kept", "C42", "a block that is three quarters full",
        "ordinary transactions fill whole blocks",
        "configuration/system_support.rs", [("weights.max_total = Some(NORMAL_DISPATCH_RATIO * MAXIMUM_BLOCK_WEIGHT);", "weights.max_total = Some(MAXIMUM_BLOCK_WEIGHT);")],
        '''
	s.then(json!({"op": "fill", "d": 1}));
	refused(s.then(tx(1, 0, gift(2), json!({}))));
'''),
    bug("keys-pay-themselves", "C43", "a key that acts for a user and has money of its own",
        "the key pays instead of the user it acts for",
        "lib.rs", [(CHARGE, "SkipCheckIfFeeless<Runtime, ChargeTransaction>,")],
        '''
	taken(s.then(tx(3, 0, login(), json!({}))));
	let r = taken(s.then(tx(3, 0, acting(), json!({}))));
	assert!(r["post"]["nat"][2] == r["pre"]["nat"][2], "{r}");
''', key="much"),
    bug("gas-for-nothing", "C43", "a member with gas enough",
        "the gas of memberships is never used",
        "lib.rs", [("pub type ChargeTransaction = ChargeGasTxPayment<Runtime, ChargeAssetTxPayment<Runtime>>;", "pub type ChargeTransaction = ChargeAssetTxPayment<Runtime>;")],
        '''
	let r = taken(s.then(tx(2, 0, gift(1), json!({}))));
	assert!(r["post"]["tre"] == r["pre"]["tre"], "{r}");
''', gas="wide(50_000)"),
    bug("gas-of-the-key", "C43", "a key acting for a user whose membership has gas",
        "the gas that is used is the key's own, not that of the user it acts for",
        "lib.rs", [("pub type ChargeTransaction = ChargeGasTxPayment<Runtime, ChargeAssetTxPayment<Runtime>>;", "pub type ChargeTransaction = ChargeGasTxPayment<Runtime, ChargeTxToPassAccount<ChargeAssetTxPayment<Runtime>, Runtime, ()>>;"),
                   (CHARGE, "SkipCheckIfFeeless<Runtime, ChargeTransaction>,")],
        '''
	taken(s.then(tx(3, 0, login(), json!({}))));
	let r = taken(s.then(tx(3, 0, acting(), json!({}))));
	assert!(r["post"]["tre"] == r["pre"]["tre"], "{r}");
''', gas="wide(50_000)"),
    bug("logging-in-costs", "C43", "a key without money that logs in",
        "logging in has to be paid for by the key",
        "lib.rs", [(CHARGE, "ChargeTxToPassAccount<ChargeTransaction, Runtime, ()>,")],
        '''
	taken(s.then(tx(3, 0, login(), json!({}))));
'''),
]
