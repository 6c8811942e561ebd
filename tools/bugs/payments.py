L = "pallets/payments/src/lib.rs"
T = "pallets/payments/src/types.rs"
PRE = '''use drv_payments::Session;
use drvlib::{json, Value};
fn fee(x: u64, v: u64, m: bool) -> Value {
	json!({"x": x, "v": v, "m": m})
}
fn pay(amt: u64, sf: Vec<Value>, bf: Vec<Value>, nid: u32) -> Value {
	json!({"op": "pay", "who": 1, "b": 2, "a": 1, "amt": amt, "sf": sf, "bf": bf, "nid": nid, "rem": []})
}
fn by(op: &str, who: u64, id: u32) -> Value {
	json!({"op": op, "who": who, "id": id})
}
fn world() -> Session {
	let mut s = Session::default();
	s.handle(&json!({"cfg": {"n": 5, "min": [1], "free": [[5000, 5000, 10, 10, 10]], "inc": 10, "buf": 3, "res": 4}}));
	s
}
fn ok(r: &Value) -> &Value {
	assert!(r["ok"] == true, "{r}");
	&r["post"]
}
'''
DEPS = ["drv-payments", "drvlib"]


def bug(id, property, needs, breaks, file, edits, body):
    return dict(id=id, property=property, needs=needs, breaks=breaks, file=file, edits=edits, deps=DEPS, main=PRE + "fn main() {\n" + body + "}\n")


RULE = 'json!({"op": "rsv", "who": 4, "id": 1, "pct": %d, "fav": "%s"})'
BUGS = [
 bug("pay-judge-minted", "C01", "a dispute decided for the payee",
  "The resolver's incentive is issued anew instead of coming from the payer, so the supply grows.", L,
  [("""						T::Assets::transfer(
							payment.asset.clone(),
							sender,
							&resolver,
							payment.incentive_amount,
							Expendable,
						)
						.map_err(|_| Error::<T>::TransferFailed)?;
""", """						T::Assets::mint_into(payment.asset.clone(), &resolver, payment.incentive_amount)
							.map_err(|_| Error::<T>::TransferFailed)?;
""")], """	let mut s = world();
	ok(&s.then(pay(100, vec![], vec![], 1)));
	ok(&s.then(by("rfd", 1, 1)));
	ok(&s.then(by("dis", 2, 1)));
	let r = s.then(""" + RULE % (50, "b") + """);
	let sum: i64 = ok(&r)["free"][0].as_array().unwrap().iter().map(|v| v.as_i64().unwrap()).sum();
	assert_eq!(sum, 10030);
"""),
 bug("pay-dispute-keeps-lock", "C02", "a dispute decided for the payer",
  "The payee's dispute incentive is only unlocked when the payee wins, otherwise it stays locked for ever.", L,
  [("			if is_dispute {\n				beneficiary_release_amount =", "			if matches!(&maybe_dispute, Some((d, _)) if d.in_favor_of == Role::Beneficiary) {\n				beneficiary_release_amount =")],
  """	let mut s = world();
	ok(&s.then(pay(100, vec![], vec![], 1)));
	ok(&s.then(by("rfd", 1, 1)));
	ok(&s.then(by("dis", 2, 1)));
	let r = s.then(""" + RULE % (50, "s") + """);
	assert_eq!(ok(&r)["held"][0][1], 0);
"""),
 bug("pay-release-while-refunding", "C03", "a release after the payer asked for a refund",
  "A payment whose refund was requested can still be released by the payer, which the life cycle does not allow.", L,
  [("			ensure!(payment.state == PaymentState::Created, Error::<T>::InvalidAction);\n			Self::settle_payment",
    "			ensure!(\n				matches!(\n					payment.state,\n					PaymentState::Created | PaymentState::RefundRequested { .. }\n				),\n				Error::<T>::InvalidAction\n			);\n			Self::settle_payment")],
  """	let mut s = world();
	ok(&s.then(pay(100, vec![], vec![], 1)));
	ok(&s.then(by("rfd", 1, 1)));
	assert!(s.then(by("rel", 1, 1))["ok"] == false);
"""),
 bug("pay-payer-cancels", "C04", "a cancellation by the payer",
  "The payer can cancel the payment at once, without giving the payee the time to object.", L,
  [("			ensure!(beneficiary == b, Error::<T>::InvalidBeneficiary);\n\n			let payment = Payment::<T>::get", "			ensure!(beneficiary == b || beneficiary == sender, Error::<T>::InvalidBeneficiary);\n\n			let payment = Payment::<T>::get")],
  """	let mut s = world();
	ok(&s.then(pay(100, vec![], vec![], 1)));
	assert!(s.then(by("can", 1, 1))["ok"] == false);
"""),
 bug("pay-fees-merged", "C05", "two fees to the same account",
  "Only the largest of several fees for one account is paid, the rest stays with whom it was due from.", T,
  [("*current_balance = current_balance.saturating_add(*fee);", "*current_balance = (*current_balance).max(*fee);")],
  """	let mut s = world();
	ok(&s.then(pay(100, vec![], vec![fee(3, 5, true), fee(3, 2, true)], 1)));
	let r = s.then(by("rel", 1, 1));
	assert_eq!(ok(&r)["free"][0][2], 17);
"""),
 bug("pay-refund-keeps-parties", "C06", "a refund request that the payee accepts or lets pass",
  "The parties of a refunded payment are never forgotten.", L,
  [("""					Self::deposit_event(Event::PaymentCancelled { payment_id });
""", """					PaymentParties::<T>::remove(payment_id);
					Self::deposit_event(Event::PaymentCancelled { payment_id });
"""), ("			Payment::<T>::remove(&sender, &payment_id);\n			PaymentParties::<T>::remove(payment_id);\n", "			Payment::<T>::remove(&sender, &payment_id);\n")],
  """	let mut s = world();
	ok(&s.then(pay(100, vec![], vec![], 1)));
	ok(&s.then(by("rfd", 1, 1)));
	let r = s.then(by("can", 2, 1));
	assert_eq!(ok(&r)["par"], json!([]));
"""),
 bug("pay-refund-a-block-late", "C07", "a refund nobody objects to",
  "The refund happens one block after the announced end of the window.", L,
  [("DispatchTime::At(cancel_block),", "DispatchTime::After(T::CancelBufferBlockLength::get()),")],
  """	let mut s = world();
	ok(&s.then(pay(100, vec![], vec![], 1)));
	ok(&s.then(by("rfd", 1, 1)));
	for _ in 0..2 {
		let r = s.then(json!({"op": "next"}));
		assert_eq!(ok(&r)["pays"].as_array().unwrap().len(), 1);
	}
	let r = s.then(json!({"op": "next"}));
	assert_eq!(ok(&r)["pays"], json!([]));
"""),
 bug("pay-ruling-rounds-up", "C08", "a ruling for the payee whose share is not a whole number of units",
  "The payee's share is rounded up at the payer's cost.", L,
  [("let amount_to_beneficiary = dispute_result.percent_beneficiary.mul_floor(payment.amount);", "let amount_to_beneficiary = dispute_result.percent_beneficiary.mul_ceil(payment.amount);")],
  """	let mut s = world();
	ok(&s.then(pay(101, vec![], vec![], 1)));
	ok(&s.then(by("rfd", 1, 1)));
	ok(&s.then(by("dis", 2, 1)));
	let r = s.then(""" + RULE % (33, "b") + """);
	assert_eq!(ok(&r)["free"][0][1], 5000 + 33);
"""),
 bug("pay-overwrites-disputed", "C09", "a new payment given the id of one that is being refunded or disputed",
  "Only freshly created payments are protected from being replaced by a new one with the same id.", L,
  [("					payment.state == PaymentState::PaymentRequested,\n					Error::<T>::PaymentAlreadyInProcess", "					payment.state != PaymentState::Created,\n					Error::<T>::PaymentAlreadyInProcess")],
  """	let mut s = world();
	ok(&s.then(pay(100, vec![], vec![], 1)));
	ok(&s.then(by("rfd", 1, 1)));
	assert!(s.then(pay(40, vec![], vec![], 1))["ok"] == false);
"""),
 bug("pay-expiry-is-a-length", "C10", "any refund request",
  "The event reports the length of the window instead of the block it ends in.", L,
  [("				Ok(cancel_block)\n", "				Ok(T::CancelBufferBlockLength::get())\n")],
  """	let mut s = world();
	ok(&s.then(pay(100, vec![], vec![], 1)));
	let r = s.then(by("rfd", 1, 1));
	ok(&r);
	assert_eq!(r["ev"][0]["at"], 4);
"""),
 bug("pay-amount-through-u64", "C08", "a ruling over more than 2^64 units",
  "The payer's share is computed in 64 bits, so rulings over larger amounts pay the wrong sums.", L,
  [("let amount_to_sender = dispute_result.percent_beneficiary.mul_floor(payment.amount);",
    "let units: u64 = sp_runtime::SaturatedConversion::saturated_into(payment.amount);\n						let amount_to_sender: BalanceOf<T> =\n							sp_runtime::SaturatedConversion::saturated_into(dispute_result.percent_beneficiary.mul_floor(units));")],
  """	let mut s = Session::default();
	s.handle(&json!({"cfg": {"n": 5, "min": [1], "free": [[5000, 5000, 10, 10, 10]], "inc": 10, "buf": 3, "res": 4, "shift": 64}}));
	ok(&s.then(pay(100, vec![], vec![], 1)));
	ok(&s.then(by("rfd", 1, 1)));
	ok(&s.then(by("dis", 2, 1)));
	let r = s.then(""" + RULE % (50, "s") + """);
	assert_eq!(ok(&r)["free"][0][0], 4950);
"""),
 bug("pay-accept-keeps-alive", "C03", "accepting a payment request with exactly the last units one has",
  "Accepting refuses to use up an account, so a request the payer can afford is refused.", L,
  [("T::Assets::transfer(payment.asset.clone(), &sender, &beneficiary, payment.amount, Expendable)", "T::Assets::transfer(payment.asset.clone(), &sender, &beneficiary, payment.amount, Preserve)")],
  """	let mut s = world();
	ok(&s.then(json!({"op": "req", "who": 2, "s": 1, "a": 1, "amt": 5000, "sf": [], "bf": [], "nid": 1})));
	ok(&s.then(by("acc", 1, 1)));
"""),
]
