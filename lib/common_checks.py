"""C11, C12, C13: virto-common."""
from mbv import *


def _ids(c):
    out = c.scratch / "ids.ndjson"
    c.tlc("PaymentIdGen", cfg=c.pick("PaymentIdGen.cfg", "PaymentIdGenBig.cfg"), env={"OUT": out})
    ids = [r["id"] for r in read_ndjson(out)]
    c.extra["ids_from_spec"] = len(ids)
    for _ in range(c.pick(4000, 60000)):
        z = c.rng.randrange(8)  # runs of zero bytes at either end are where base conversion slips
        v = [c.rng.randrange(256) for _ in range(8)]
        if c.rng.random() < 0.3:
            v[:z] = [0] * z
        elif c.rng.random() < 0.2:
            v[z:] = [0] * (8 - z)
        ids.append(v)
    return ids


def c11(c):
    b = c.build("drv-common")
    c.model("PaymentIdMC", cfg=c.pick(None, "PaymentIdMCBig.cfg"))
    ids = _ids(c)
    reqs = [{"k": "num", "n": i} for i in ids]
    edge32 = [0, 1, 2, 255, 256, 65535, 65536, 65537, 0x01020304, 0x7fffffff, 0x80000000, 0xfffffffe, 0xffffffff]
    edge32 += [1 << k for k in range(32)]
    extras = [[0, 0], [1, 2], [255, 0], [0, 255], [255, 255], [2, 5, 9], [7] * 32, list(range(32))]
    for bl in edge32:
        for ix in edge32:
            reqs.append({"k": "tri", "block": big(bl, 4), "idx": big(ix, 4), "extra": c.rng.choice(extras)})
    for _ in range(c.pick(3000, 60000)):
        reqs.append({"k": "tri", "block": big(c.rng.getrandbits(32), 4), "idx": big(c.rng.getrandbits(32), 4),
                     "extra": [c.rng.randrange(256) for _ in range(c.rng.randrange(2, 40))]})
    for _ in range(c.pick(2000, 20000)):
        a = c.rng.choice(ids)
        bb = list(a)
        for _ in range(c.rng.randrange(3)):
            bb[c.rng.randrange(8)] ^= 1 << c.rng.randrange(8)
        reqs.append({"k": "pair", "a": a, "b": bb})
    for n in range(0, 20):
        for _ in range(20):
            reqs.append({"k": "dec", "in": [c.rng.randrange(256) for _ in range(n)]})
    recs = c.drive(b, ["payment-id"], reqs)
    c.report(c.judge("PaymentIdTrace", recs), lambda r: f"{r['k']}: {r}")
    return c.finish(recs[:2] + recs[-2:])


ALPHA = "123456789ABCDEFGHJKLMNPQRSTUVWXYZabcdefghijkmnopqrstuvwxyz"
NASTY = list("0OIl-_ +/=.,") + ["é", "١", "‐", "–", "１", "\U0001f600", "\0", "\n", "\t", "\x7f", "\x80"]


def c12(c):
    b = c.build("drv-common")
    c.model("PaymentIdMC", cfg=c.pick(None, "PaymentIdMCBig.cfg"))
    ids = _ids(c)
    recs = c.drive(b, ["payment-id"], [{"k": "print", "n": i} for i in ids])
    texts = ["", "-", "--", "1", "-1", "1-", "1" * 8, "11111-111", "z" * 11, "zzzzz-zzzzzz", "jpXCZedGfVQ", "jpXCZedGfVR",
             "jpXCZ-edGfVR", "1" * 9, "1" * 12, "1" * 13, "11111-" + "1" * 7, "11111-" + "1" * 8, "-" * 13, "a" * 5000,
             "a-" + "a" * 5000, "é-é", "é" * 6 + "-", "LbNvS-NtVQs", "LbNvSNtVQs", " LbNvS-NtVQs", "LbNvS-NtVQs "]
    for n in range(0, 20):
        for k in range(0, n + 1):
            texts.append("1" * k + "-" + "1" * (n - k))
            texts.append("z" * k + "-" + "z" * (n - k))
        texts += ["z" * n, "1" * n, "2" * n]
    printed = ["".join(map(chr, r["plain"])) for r in recs if "plain" in r]
    rng = c.rng
    for _ in range(c.pick(12000, 150000)):
        t = list(rng.choice(printed)) if printed and rng.random() < 0.7 else [rng.choice(ALPHA) for _ in range(rng.randrange(0, 16))]
        for _ in range(rng.choice([0, 0, 1, 1, 2, 3])):
            i = rng.randrange(len(t) + 1)
            op = rng.randrange(6)
            if op == 0:
                t.insert(i, "-")
            elif op == 1:
                t.insert(i, rng.choice(ALPHA))
            elif op == 2 and t:
                t.pop(i % len(t))
            elif op == 3 and t:
                t[i % len(t)] = rng.choice(NASTY)
            elif op == 4 and t:
                t[i % len(t)] = rng.choice(ALPHA)
            elif op == 5:
                t.insert(5 if len(t) >= 5 else i, "-")
        texts.append("".join(t))
    recs += c.drive(b, ["payment-id"], [{"k": "parse", "text": [ord(ch) for ch in t]} for t in texts])
    c.extra["texts_parsed"] = len(texts)
    c.report(c.judge("PaymentIdTrace", recs), lambda r: f"{r['k']}: {r}")
    return c.finish(recs[:2] + recs[-2:])


NETS = ["Polkadot", "Kusama", "Ethereum", "Westend", "Rococo", "Wococo", "BitcoinCore", "BitcoinCash", "ByGenesis", "ByFork", "PolkadotBulletin"]


def c13(c):
    b = c.build("drv-common")
    out = c.scratch / "locs.ndjson"
    c.model("AssetLocationMC", cfg=c.pick(None, "AssetLocationMCBig.cfg"), env={"OUT": out})
    reqs = read_ndjson(out)
    c.extra["inputs_from_spec"] = len(reqs)
    rng = c.rng

    def num(width, narrow):
        v = rng.choice([0, 1, 2**(8 * narrow) - 1, 2**(8 * narrow), 2**(8 * width) - 1, rng.getrandbits(8 * narrow),
                        rng.getrandbits(8 * width), 1 << rng.randrange(8 * width), rng.getrandbits(8 * narrow)])
        return big(v, width)

    def net():
        n = rng.choice(NETS[:3] * 3 + NETS)
        return {"n": n, "chain": num(8, 4)} if n == "Ethereum" else {"n": n}

    gens = {"Parachain": lambda: num(4, 2), "PalletInstance": lambda: rng.choice([0, 12, 13, 14, 255, rng.randrange(256)]),
            "GeneralIndex": lambda: num(16, 4), "GlobalConsensus": net}
    for k in ("OnlyChild", "AccountId32", "AccountIndex64", "AccountKey20", "GeneralKey", "Plurality"):
        gens[k] = lambda: 0
    shapes = [(2, ["GlobalConsensus"]), (2, ["GlobalConsensus", "Parachain", "PalletInstance", "GeneralIndex"]),
              (1, ["Parachain", "PalletInstance", "GeneralIndex"]), (0, ["PalletInstance", "GeneralIndex"])]
    for _ in range(c.pick(8000, 120000)):
        p, ks = rng.choice(shapes)
        ks = list(ks)
        for _ in range(rng.choice([0, 0, 0, 1, 2])):
            op, i = rng.randrange(4), rng.randrange(len(ks) + 1)
            if op == 0 and len(ks) < 8:
                ks.insert(i, rng.choice(list(gens)))
            elif op == 1 and ks:
                ks.pop(i % len(ks))
            elif op == 2 and ks:
                ks[i % len(ks)] = rng.choice(list(gens))
            elif op == 3:
                p = rng.choice([0, 1, 2, 3, 255])
        reqs.append({"k": "loc", "loc": {"parents": p, "interior": [{"j": k, "v": gens[k]()} for k in ks]}})
    for _ in range(c.pick(3000, 40000)):
        para = {"id": big(rng.getrandbits(16), 2), "pallet": rng.randrange(256), "index": num(4, 2)}
        n = rng.choice(NETS[:3])
        n = {"n": n, "chain": num(8, 4)} if n == "Ethereum" else {"n": n}
        reqs.append({"k": "asset", "asset": rng.choice([
            {"t": "Here", "index": num(4, 2)}, {"t": "Sibling", "para": para},
            {"t": "External", "network": n, "child": rng.choice([[], [para]])}])})
    for n in NETS:
        reqs.append({"k": "net", "net": {"n": n, "chain": big(5, 8)} if n == "Ethereum" else {"n": n}})
    recs = c.drive(b, ["asset-location"], reqs)
    acc = sum(1 for r in recs if r["k"] == "loc" and r.get("asset", {}).get("t") != "Refused")
    c.extra["locations_accepted"] = acc
    c.report(c.judge("AssetLocationTrace", recs), lambda r: f"{r['k']}: {r}")
    return c.finish(recs[:2] + recs[-2:])


CHECKS = {"C11": c11, "C12": c12, "C13": c13}
