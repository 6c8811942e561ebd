"""C14..C24: the communities pallets."""
from mbv import *

VOTING = ["std", "rank", "native", "asset", "turn", "hand", "big"]
# the small worlds in which a property is decided, and the operations it speaks about
WORLDS = {"C14": ["reg", "as"], "C15": ["reg", "as", "mem", "turn"], "C16": ["reg", "mem", "as", "hand", "rank"], "C17": ["mem", "top", "rank", "hand"],
          "C18": VOTING, "C19": VOTING, "C20": VOTING, "C21": ["std", "rank", "turn", "mem"], "C22": ["as", "reg"]}
ABOUT = {"C22": {"as"}, "C21": {"vote", "unvote", "meth", "add", "rem", "pro", "dem", "hand", "give", "agive"}, "C18": {"vote", "unvote", "close", "open", "meth", "pro", "dem", "hand", "rem", "unlock"},
         "C19": {"vote", "unvote", "close", "meth", "hand", "rem", "unlock"}}


def from_model(c, name, module="CommunitiesMC"):
    """All calls in all reachable worlds of one small scenario, from TLC."""
    out = c.scratch / f"edges-{name}.ndjson"
    c.model(module, cfg=f"{module}_{name}{c.pick('', 'Big')}.cfg", env={"OUT": out}, workers=1)
    lines = [json.loads(l) for l in read_ndjson(out)]
    out.unlink()
    cfg = next(l["cfg"] for l in lines if isinstance(l, dict))
    return cfg, [l for l in lines if isinstance(l, list)]


BASE = 1 << 30


def W(n):
    return [n // BASE, n % BASE]


def history(rng):
    """A long random history of a few communities whose members vote on several polls."""
    users, comms, polls, assets = 6, 3, 4, 2
    grand = rng.random() < 0.15
    unit = rng.choice([1, 1, 1000, 1 << 20]) if not grand else rng.choice([1 << 28, 1 << 31, 1 << 33])
    meth = lambda: rng.choice([{"k": "std", "a": 0, "min": [0, 0]}, {"k": "rank", "a": 0, "min": [0, 0]}, {"k": "native", "a": 0, "min": [0, 0]},
                               {"k": "asset", "a": rng.choice([1, 2]), "min": W(rng.choice([0, 1, 5]) * unit)}])
    state = [rng.choice(["active"] * 5 + ["none"]) for _ in range(comms)]
    admin = [rng.choice([c + 1, c + 1, 201 + c, 101 + (c + 1) % comms]) for c in range(comms)]
    items, m = [], 0
    for c in range(1, comms + 1):
        for _ in range(rng.choice([1, 3, 4])):
            m += 1
            there = rng.random() < 0.7 and state[c - 1] == "active"
            items.append({"m": m, "c": c if there else 0, "o": rng.randrange(1, users + 1) if there else 100 + c, "r": rng.choice([0, 1, 2, 7]) if there else 0})
    tot = [{"n": sum(i["c"] == c for i in items), "r": sum(i["r"] for i in items if i["c"] == c)} for c in range(1, comms + 1)]
    pool = {"none": {"st": "none", "c": 0, "ayes": [0, 0], "nays": [0, 0], "bare": [0, 0]}}
    init = {"comm": state, "adm": [{"o": o, "c": c + 1} for c, o in enumerate(admin) if state[c] == "active"], "meth": [meth() for _ in range(comms)], "items": items,
            "tot": tot, "polls": [dict(pool["none"], st="open", c=rng.randrange(1, comms + 1)) for _ in range(polls)], "votes": [], "locks": [],
            "bal": [W(rng.choice([10, 100, 1000]) * unit) for _ in range(users)], "cbal": [W(10 * unit)] * comms, "rbal": W(10),
            "frz": [[0, 0]] * users, "abal": [[W(rng.choice([5, 100]) * unit) for _ in range(users)] for _ in range(assets)], "afrz": [[[0, 0]] * users] * assets}
    cfg = {"price": W(20 * unit), "init": init}
    holder = {i["m"]: (i["c"], i["o"]) for i in items}
    methods = list(init["meth"])

    def call():
        roll = rng.random()
        if roll < 0.5:
            m = rng.choice(list(holder))
            c, o = holder[m]
            ps = [p + 1 for p in range(polls) if init["polls"][p]["c"] == c] or [1]
            p = rng.choice(ps) if rng.random() < 0.95 else rng.randrange(1, polls + 1)
            who = o if rng.random() < 0.95 else rng.randrange(0, users + 1)
            if roll < 0.14:
                return {"op": "unvote", "who": who, "m": m, "p": p}
            me = methods[c - 1] if c else methods[0]
            k = me["k"].replace("rank", "std") if rng.random() < 0.93 else rng.choice(["std", "native", "asset"])
            return {"op": "vote", "who": who, "m": m, "p": p, "say": rng.random() < 0.6, "k": k, "a": (me["a"] or 1) if k == "asset" else 0,
                    "amt": [0, 0] if k == "std" else W(rng.choice([0, 1, 3, 5, 8, 9, 40]) * unit)}
        c = rng.randrange(1, comms + 1)
        who = admin[c - 1] if rng.random() < 0.85 else rng.choice([0, 99, 1, 2, 3, 201, 202, 203, 101])
        if roll < 0.60:
            return {"op": rng.choice(["pro", "pro", "dem"]), "who": who, "m": rng.choice(list(holder))}
        if roll < 0.66:
            m = rng.choice(list(holder))
            return {"op": "rem", "who": who, "x": holder[m][1] if rng.random() < 0.85 else rng.randrange(1, users + 1), "m": m}
        if roll < 0.72:
            return {"op": "add", "who": who, "x": rng.randrange(1, users + 1)}
        if roll < 0.76:
            me = meth()
            if rng.random() < 0.5:
                methods[c - 1] = me
            return {"op": "meth", "who": who, "c": c, "me": me}
        if roll < 0.79:
            o = rng.choice([1, 2, 3, 4, 201, 202, 101])
            return {"op": "setadm", "who": who, "o": o}
        if roll < 0.81:
            return {"op": "create", "who": rng.choice([99, 1, 2, 3, 0, 201]), "o": rng.choice([4, 5, 6, 201]), "c": c}
        if roll < 0.84:
            return {"op": "give", "who": rng.randrange(1, users + 1), "x": rng.choice([1, 2, 3, 4, 5, 6, 101]), "amt": W(rng.choice([1, 3, 9, 50]) * unit)}
        if roll < 0.87:
            return {"op": "agive", "who": rng.randrange(1, users + 1), "a": rng.randrange(1, assets + 1), "x": rng.randrange(1, users + 1), "amt": W(rng.choice([1, 3, 9, 50]) * unit)}
        if roll < 0.90:
            m = rng.choice(list(holder))
            k = {"op": "hand", "who": holder[m][1], "c": holder[m][0] or 1, "m": m, "x": rng.randrange(1, users + 1)}
            if holder[m][0]:
                holder[m] = (k["c"], k["x"])
            return k
        if roll < 0.93:
            return {"op": "close", "who": 0, "p": rng.randrange(1, polls + 1), "yes": rng.random() < 0.5}
        if roll < 0.97:
            return {"op": "unlock", "who": rng.randrange(1, users + 1), "p": rng.randrange(1, polls + 1)}
        if roll < 0.98:
            return {"op": rng.choice(["block", "free", "free"]), "who": 0, "c": c}
        return {"op": "as", "who": who, "in": rng.choice([{"op": "remark", "who": 0}, {"op": "give", "who": 0, "x": 1, "amt": W(unit)}, {"op": "setadm", "who": 0, "o": 5},
                {"op": "as", "who": 0, "in": {"op": "remark", "who": 0}}])}
    return cfg, [call() for _ in range(rng.randrange(20, 60))]


def records(c):
    b = c.build("drv-communities")
    steps = Steps(c, ABOUT.get(c.prop))

    def one(name):
        cfg, paths = from_model(c, name)
        return c.walk(b, cfg, paths, 3)

    with ThreadPoolExecutor(CORES) as ex:
        for got in ex.map(one, WORLDS[c.prop]):
            steps.take(got)
    c.extra["calls_from_spec"] = len(steps.recs)
    steps.take(c.histories(b, [history(c.rng) for _ in range(c.pick(300, 6000))]))
    return list(steps.recs)


def describe(r):
    return f"{r.get('call')} -> {'ok' if r.get('ok') else r.get('err')}{' PANIC' if r.get('panic') else ''}, events {r.get('ev')}"


def run(c):
    recs = records(c)
    c.notes += ["the token ledgers, membership items and dispatch underneath are stand-ins of the substrate pallets (DESIGN.md, Stand-ins)"]
    c.report(c.judge("CommunitiesTrace", recs), describe)
    return c.finish([{k: r[k] for k in ("call", "ok", "ev")} for r in map(json.loads, c.rng.sample(recs, 4))])


def tallies(c):
    """Proportions: tallies set up directly, and those that voting leads to."""
    out = c.scratch / "tallies.ndjson"
    c.model("TallyMC", cfg=f"TallyMC{c.pick('', 'Big')}.cfg", env={"OUT": out})
    rows = [json.loads(l) for l in read_ndjson(out)]
    out.unlink()
    big = lambda m: c.rng.choice([c.rng.randrange(10), c.rng.randrange(1000), c.rng.randrange(10**9), c.rng.randrange(m), m - 1 - c.rng.randrange(5)])
    for _ in range(c.pick(3000, 60000)):
        me = c.rng.choice(["std", "rank", "native", "asset"])
        rows.append({"me": me, "ayes": W(big(1 << 32)), "nays": W(big(1 << 32)), "bare": W(big(1 << 32)),
                     "elect": W(big(1 << 32) if me in ("std", "rank") else big(1 << 60))})
    b = c.build("drv-communities")
    recs = c.drive(b, [], [{"tally": t} for t in rows], raw=True)
    c.extra["tallies"] = len(recs)
    recs += records(c)
    c.notes += ["proportions of totals beyond a billion are held to within three billionths: the fraction type underneath first scales both numbers down"]
    c.report(c.judge("CommunitiesTrace", recs), lambda r: f"{r['t']} -> {r['app']}, {r['sup']}" if r.get("k") == "tally" else describe(r))
    return c.finish([json.loads(recs[i]) for i in (0, len(rows) // 2, len(rows) - 1)])


def minting(rng):
    """Random registrations and mints, also of as many memberships as one call may create."""
    nc, users = 5, 4
    cfg = {"price": W(20), "tracks": rng.choice([2, 4, 9]), "manager": True, "collections": rng.sample(range(1, 6), rng.choice([0, 0, 1])),
           "inducted": rng.sample(range(1, 6), rng.choice([0, 0, 1])), "tracked": [[i, 1] for i in rng.sample(range(1, 6), rng.choice([0, 0, 1]))],
           "taken": [{"m": W(m), "o": rng.choice([98, 1, 2])} for m in rng.sample([0, 5, 700, 2000, (1 << 32) - 3], rng.choice([0, 1, 2]))],
           "init": {"comm": ["none"] * nc, "bal": [W(rng.choice([10, 20, 21, 45, 100])) for _ in range(users)], "rbal": W(10), "cbal": [[0, 0]] * nc}}
    path = []
    for _ in range(rng.randrange(2, 9)):
        if rng.random() < 0.6:
            path.append({"op": "reg", "who": rng.choice([1, 1, 2, 3, 4, 99, 99, 0, 201]), "c": rng.randrange(1, nc + 1), "x": rng.randrange(1, users + 1), "tr": rng.random() < 0.5,
                         "name": rng.choice([[86], list(b"a community with long name"[:25]), [195, 169, 65], [195, 65], [255], []]),
                         "me": rng.choice([[], [{"k": "rank", "a": 0, "min": [0, 0]}], [{"k": "native", "a": 0, "min": [0, 0]}], [{"k": "asset", "a": 7, "min": W(3)}]])})
        else:
            path.append({"op": "mkm", "who": rng.choice([99] * 7 + [1]), "n": rng.choice([0, 1, 3, 20, 20, 64, 200, 1023, 1024, 1025, 40000]),
                         "m": W(rng.choice([0, 1, 3, 17, 690, 1000, 3000, 100000, (1 << 32) - 20, (1 << 32) - 1])), "price": W(rng.choice([0, 1, 20, 1 << 45]))})
    return cfg, path


def manager(c):
    b = c.build("drv-communities")
    steps = Steps(c, {"C23": {"reg"}, "C24": {"mkm"}}[c.prop])

    def one(name):
        return c.walk(b, *from_model(c, name, "ManagerMC"), 3)

    with ThreadPoolExecutor(CORES) as ex:
        for got in ex.map(one, {"C23": ["reg", "room"], "C24": ["mint"]}[c.prop]):
            steps.take(got)
    c.extra["calls_from_spec"] = len(steps.recs)
    steps.take(c.histories(b, [minting(c.rng) for _ in range(c.pick(400, 4000))]))
    recs = list(steps.recs)
    c.notes += ["the item collections, governance tracks and the collective underneath are stand-ins (DESIGN.md, Stand-ins)"]
    c.report(c.judge("ManagerTrace", recs), describe)
    return c.finish([{k: r[k] for k in ("call", "ok", "ev")} for r in map(json.loads, c.rng.sample(recs, 4))])


CHECKS = {p: run for p in WORLDS}
CHECKS["C21"] = tallies
CHECKS.update(C23=manager, C24=manager)
