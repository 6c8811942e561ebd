"""C01..C10: the escrow payments pallet."""
from mbv import *

SCENARIOS = ["core", "two", "ids", "fees", "min", "poor", "time"]
# the operations whose steps a property speaks about; the others cannot break it
ABOUT = {"C04": {"pay", "req", "rel", "acc", "rfd", "can", "dis", "rsv"}, "C05": {"rel", "acc"}, "C06": {"can", "next", "pay"},
         "C07": {"next", "rfd", "dis"}, "C08": {"rsv"}}


def from_model(c, name):
    """All calls in all reachable worlds of one small scenario, from TLC."""
    out = c.scratch / f"edges-{name}.ndjson"
    c.model("PaymentsMC", cfg=f"PaymentsMC_{name}{c.pick('', 'Big')}.cfg", env={"OUT": out}, workers=1)
    lines = [json.loads(l) for l in read_ndjson(out)]
    out.unlink()
    cfg = next(l["cfg"] for l in lines if isinstance(l, dict))
    return cfg, [l for l in lines if isinstance(l, list)]


def fees(rng, amt, n):
    def one():
        return [{"x": rng.choice([3, 3, 3, 4, 5, 1, 2, 6][:n + 2]), "v": rng.choice([0, 1, amt // 100, amt // 50, amt // 10]),
                 "m": rng.random() < 0.6} for _ in range(rng.choice([0, 1, 1, 2, 3]))]
    return one(), one()


def history(rng, scaled):
    """A long random history: several payments, each leading its own life, and blocks passing."""
    n, assets = 6, rng.choice([1, 1, 2, 3])
    unit = 100 if scaled else 1
    cfg = {"n": n, "min": [rng.choice([1, 1, 1, 5, 100]) for _ in range(assets)], "free": [], "inc": rng.choice([0, 1, 5, 10, 10, 33, 100]),
           "buf": rng.choice([1, 2, 3, 5]), "res": rng.choice([4, 4, 4, 1, 2]), "shift": rng.choice([20, 40, 64, 70, 90]) if scaled else 0}
    if scaled:
        cfg["min"] = [m * unit for m in cfg["min"]]
    for a in range(assets):
        cfg["free"].append([rng.choice([0, cfg["min"][a], 1000 * unit, 1000 * unit, 5000 * unit, 3333 * unit]) for _ in range(n)])
    path, open_ids, nid = [], [], 0
    for _ in range(rng.randrange(15, 60)):
        roll = rng.random()
        if roll < 0.25 or not open_ids:
            if open_ids and rng.random() < 0.1:
                i = rng.choice(open_ids)["id"]
            else:
                nid += 1
                i = nid
            s, b = rng.choice([1, 2, 1, 2, 5]), rng.choice([1, 2, 2, 1, 6])
            amt = rng.choice([0, 1, 7, 99, 100, 250, 777, 1000]) * unit
            sf, bf = fees(rng, amt, n)
            if scaled:
                for f in sf + bf:
                    f["v"] = f["v"] // unit * unit
            a = rng.randrange(assets) + 1
            if rng.random() < 0.3:
                path.append({"op": "req", "who": b, "s": s, "a": a, "amt": amt, "sf": sf, "bf": bf, "nid": i})
                life = ["acc"]
            else:
                path.append({"op": "pay", "who": s, "b": b, "a": a, "amt": amt, "sf": sf, "bf": bf, "nid": i,
                             "rem": [] if rng.random() < 0.7 else [[rng.randrange(256) for _ in range(rng.randrange(50))]]})
                life = rng.choice([["rel"], ["can"], ["rfd", "can"], ["rfd", "dis", "rsv"], ["rfd", "dis", "rsv"], ["rfd", "next", "dis", "rsv"],
                                   ["rfd", "next", "next"], ["rfd", "dis", "next", "rsv"]])
            open_ids.append({"id": i, "s": s, "b": b, "life": list(life)})
        elif roll < 0.8:
            p = rng.choice(open_ids)
            op = p["life"].pop(0) if p["life"] and rng.random() < 0.85 else rng.choice(["rel", "acc", "rfd", "can", "dis", "rsv", "next"])
            who = {"rel": p["s"], "acc": p["s"], "rfd": p["s"], "can": p["b"], "dis": p["b"], "rsv": cfg["res"], "next": 0}[op]
            if rng.random() < 0.08:
                who = rng.choice([0, 1, 2, 4, 5, 99])
            k = {"op": op}
            if op != "next":
                k.update(who=who, id=p["id"])
            if op == "rsv":
                k.update(pct=rng.choice([0, 1, 25, 33, 50, 99, 100]), fav=rng.choice("sb"))
            path.append(k)
        elif roll < 0.92:
            path.append({"op": "next"})
        else:
            w = rng.randrange(n) + 1
            a = rng.randrange(assets)
            path.append({"op": "move", "who": w, "to": rng.randrange(n) + 1, "a": a + 1,
                         "amt": rng.choice([1, 7, 100, 950, 999, 1000]) * unit})
    return cfg, path


def records(c):
    b = c.build("drv-payments")
    steps = Steps(c, ABOUT.get(c.prop))

    def one(name):
        cfg, paths = from_model(c, name)
        return cfg, paths, c.walk(b, cfg, paths, 3)

    wide = []
    with ThreadPoolExecutor(CORES) as ex:
        for cfg, paths, got in ex.map(one, SCENARIOS):
            steps.take(got)
            # the same worlds with amounts far beyond 32 and 64 bits
            wide += [scaled(cfg, p, c.rng.choice([24, 45, 64, 80])) for p in c.rng.sample(paths, min(len(paths), c.pick(40, 400)))]
    c.extra["calls_from_spec"] = len(steps.recs)
    wide += [history(c.rng, i % 3 == 0) for i in range(c.pick(500, 8000))]
    steps.take(c.histories(b, wide))
    return list(steps.recs)


def scaled(cfg, path, shift):
    """Amounts of a path times 100 * 2^shift (percentages stay exact)."""
    path = json.loads(json.dumps(path))
    for k in path:
        if "amt" in k:
            k["amt"] *= 100
        for f in k.get("sf", []) + k.get("bf", []):
            f["v"] *= 100
    cfg = dict(cfg, shift=shift, min=[m * 100 for m in cfg["min"]], free=[[b * 100 for b in row] for row in cfg["free"]])
    return cfg, path


def describe(r):
    return f"{r.get('call')} -> {'ok' if r.get('ok') else r.get('err')}{' PANIC' if r.get('panic') else ''}, events {r.get('ev')}"


def run(c):
    recs = records(c)
    c.notes += ["the asset ledger, scheduler and dispatch underneath are stand-ins of the substrate pallets (DESIGN.md, Stand-ins)"]
    c.report(c.judge("PaymentsTrace", recs), describe)
    return c.finish([{k: r[k] for k in ("call", "ok", "ev")} for r in map(json.loads, c.rng.sample(recs, 4))])


CHECKS = {f"C{i:02}": run for i in range(1, 11)}
