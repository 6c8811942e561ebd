"""C25..: the kreivo runtime."""
from mbv import *


def edges(c, module, cfg=None, **kw):
    """The calls in all reachable worlds of a small model, from TLC: worlds by key, paths by key."""
    out = c.scratch / f"edges-{cfg or module}.ndjson"
    c.model(module, cfg=f"{cfg or module}{c.pick('', 'Big')}.cfg", env={"OUT": out}, workers=1, **kw)
    worlds, paths = {}, {}
    for l in map(json.loads, read_ndjson(out)):
        if "world" in l:
            worlds[json.dumps(l["key"])] = l["world"]
        else:
            paths.setdefault(json.dumps(l["cfg"]), []).append(l["path"])
    out.unlink()
    return [(worlds[k], paths.get(k, [])) for k in worlds]


def walks(c, b, found):
    steps = Steps(c)
    for cfg, paths in found:
        steps.take(c.walk(b, cfg, paths, CORES))
    c.extra["calls_from_spec"] = len(steps.recs)
    return steps


def describe(r):
    return f"{r.get('call')} -> {'ok' if r.get('ok') else r.get('err')}{' PANIC' if r.get('panic') else ''}"


def verdict(c, module, steps):
    recs = list(steps.recs)
    c.notes += ["everything underneath the runtime's own sources is a stand-in of the upstream crates (DESIGN.md, Stand-ins)"]
    c.report(c.judge(module, recs), describe)
    return c.finish([{k: r[k] for k in ("call", "ok", "ev")} for r in map(json.loads, c.rng.sample(recs, min(4, len(recs))))])


# ---- accounts ----
def fill(bs):
    return list(bs) + [0] * (32 - len(bs))


def user(i):
    return [i] * 32


def sub(tag, rest=b""):
    return fill(b"modl" + tag + bytes(rest))


def le(n, w):
    return list(int(n).to_bytes(w, "little"))


def community(n):
    return sub(b"kv/cmtys", bytes(le(n, 2)))


TREASURY = sub(b"py/trsry")


def mutated(rng, a):
    a = list(a)
    for _ in range(rng.choice([1, 1, 2])):
        a[rng.randrange(32)] = rng.randrange(256)
    return a


def some_account(rng):
    """An account of any kind, many of them nearly a community's."""
    c = rng.choice([0, 1, 2, 5, 255, 256, 700, 65535, rng.randrange(65536)])
    kind = rng.randrange(9)
    if kind < 2:
        return [rng.randrange(256) for _ in range(32)]
    if kind < 4:
        return community(c)
    if kind == 4:
        return mutated(rng, community(c))
    tag = rng.choice([b"py/trsry", b"payments", b"kreivo_p", b"kv/cmtyS", b"kv/cmty\0", b"PotStake", b"kv/cmtys"])
    if kind == 5:
        return sub(tag, bytes(le(c, 2)))
    if kind == 6:
        return sub(tag, bytes(rng.randrange(256) for _ in range(rng.choice([1, 2, 3, 4, 8, 20]))))
    if kind == 7:
        return fill(rng.choice([b"sibl", b"para", b"Modl"]) + tag + bytes(le(c, 2)))
    return fill(tag + bytes(le(c, 2)))


# ---- C25: fee policy ----
def pay_history(rng):
    acct = [user(1), user(2), TREASURY]
    while len(acct) < 8:
        a = some_account(rng)
        if a not in acct:
            acct.append(a)
    unit, shift = (1, 0) if rng.random() < 0.7 else (100, rng.choice([20, 40, 64, 80]))
    mins = [rng.choice([1, 1, 3, 10, 50]) * unit for _ in range(rng.choice([1, 2]))]
    cfg = {"fam": "pay", "acct": acct, "res": 3, "min": mins, "shift": shift,
           "free": [[rng.choice([20000, 5000]) * max(unit, m // 10) for _ in acct] for m in mins]}
    path, open_, n = [], [], 0
    for _ in range(rng.randrange(8, 24)):
        if not open_ or rng.random() < 0.4:
            s, b = rng.randrange(8) + 1, rng.randrange(8) + 1
            amt = rng.choice([0, 1, 33, 34, 67, 99, 100, 101, 333, 1000, 4999]) * unit
            a = rng.randrange(len(mins)) + 1
            n += 1
            if rng.random() < 0.3:
                path.append({"op": "req", "who": b, "s": s, "a": a, "amt": amt})
                open_.append((s, b, ["acc"]))
            else:
                path.append({"op": "pay", "who": s, "b": b, "a": a, "amt": amt})
                open_.append((s, b, rng.choice([["rel"], ["rfd", "dis", "rsv"], ["can"], ["rfd", "can"]])))
        else:
            i = rng.randrange(len(open_))
            s, b, life = open_[i]
            if not life:
                continue
            op = life.pop(0)
            k = {"op": op, "who": {"rel": s, "acc": s, "rfd": s, "can": b, "dis": b, "rsv": 99}[op], "id": i + 1}
            if op == "rsv":
                k.update(pct=rng.choice([0, 25, 33, 100]), fav=rng.choice("sb"))
            path.append(k)
    return cfg, path


def fees(c):
    b = c.build("drv-kreivo")
    steps = walks(c, b, edges(c, "KreivoPayMC"))
    steps.take(c.histories(b, [pay_history(c.rng) for _ in range(c.pick(400, 6000))]))
    return verdict(c, "KreivoPayTrace", steps)


# ---- C26: payment ids ----
def ids_history(rng):
    path = []
    blks = [rng.choice([1, 2, 255, 256, 65535, 65536, 2**24, 2**32 - 1, rng.randrange(1, 2**32)]) for _ in range(3)]
    exts = [rng.choice([0, 1, 2, 255, 256, 257, 65535, rng.randrange(65536), rng.randrange(2**32)]) for _ in range(3)]
    payees = [some_account(rng) for _ in range(3)]
    for _ in range(rng.randrange(4, 16)):
        path.append({"op": rng.choice(["pay", "pay", "req"]), "blk": le(rng.choice(blks), 4),
                     "ext": [] if rng.random() < 0.1 else le(rng.choice(exts), 4), "b": rng.choice(payees)})
    return {"fam": "ids"}, path


def ids(c):
    b = c.build("drv-kreivo")
    steps = walks(c, b, edges(c, "KreivoIdsMC"))
    steps.take(c.histories(b, [ids_history(c.rng) for _ in range(c.pick(800, 10000))]))
    return verdict(c, "KreivoIdsTrace", steps)


# ---- C29: logins ----
def login_history(rng):
    path, blk = [], rng.choice([1, 2, 3, 4, 10, 200, 4090])
    cfg = {"fam": "login", "blk": blk}
    for _ in range(rng.randrange(6, 18)):
        if rng.random() < 0.25:
            n = rng.choice([1, 1, 1, 2, 3, 20, 74, 76])
            path.append({"op": "next", "n": n})
            blk += n
        elif rng.random() < 0.2:
            path.append({"op": "sess", "k": rng.randrange(1, 4)})
        else:
            cx = max(0, rng.choice([blk - 5, blk - 4, blk - 3, blk - 2, blk - 1, blk - 1, blk - 1, blk, blk + 1, 0, blk // 2, 2**32 - 1]))
            ch = rng.choice([cx] * 6 + [max(0, cx - 1), blk - 1, -1, -1, -2, -3, -4, -5])
            k = {"op": rng.choice(["reg", "auth", "disp"]), "u": rng.randrange(1, 4), "d": rng.randrange(1, 3),
                 "k": rng.randrange(1, 4), "cx": cx, "ch": ch, "au": rng.random() < 0.9}
            if k["op"] == "auth" and rng.random() < 0.5:
                k["dur"] = rng.choice([0, 1, 74, 75, 76, 1000])
            if cx < 2**31 and ch < 2**31:
                path.append(k)
    return cfg, path


def logins(c):
    b = c.build("drv-kreivo")
    steps = walks(c, b, edges(c, "KreivoLoginMC"))
    steps.take(c.histories(b, [login_history(c.rng) for _ in range(c.pick(500, 8000))]))
    return verdict(c, "KreivoLoginTrace", steps)


# ---- C30: tracks of the collective ----
def curves(rng):
    whole = 10**9
    xs = sorted({0, whole, 1, whole - 1} | {rng.randrange(whole) for _ in range(300)} | {x + 1 for x in (rng.randrange(whole) for _ in range(50))})
    return {"fam": "tracks"}, [{"op": "curve", "t": t, "x": xs} for t in range(4)]


def tracks(c):
    b = c.build("drv-kreivo")
    steps = walks(c, b, edges(c, "KreivoTracksMC"))
    steps.take(c.histories(b, [curves(c.rng) for _ in range(c.pick(40, 1000))]))
    return verdict(c, "KreivoTracksTrace", steps)


# ---- C32: scheduled calls ----
def some_origin(rng):
    kind = rng.randrange(8)
    if kind < 2:
        return {"o": "signed", "a": some_account(rng)}
    if kind < 4:
        return {"o": "community", "c": rng.choice([0, 1, 2, 5, 255, 256, 700, 65535, rng.randrange(65536)])}
    if kind == 4:
        return {"o": "sibling", "p": rng.choice([0, 1, 1000, 2000, 2281, rng.randrange(2**31)])}
    return {"o": rng.choice(["root", "none", "memberships", "canceller", "killer", "relay"])}


def distinct(rng, n):
    got = [{"o": "root"}]
    while len(got) < n:
        o = some_origin(rng)
        if o not in got:
            got.append(o)
    return got


def sched_history(rng):
    n = rng.randrange(6, 12)
    path = []
    for _ in range(rng.randrange(6, 30)):
        o = rng.randrange(n) + 1
        path.append(rng.choice([
            {"op": "put", "n": rng.randrange(1, 4), "o": o, "at": rng.choice([2, 5, 6])},
            {"op": "put", "n": rng.randrange(1, 4), "o": o, "at": 5},
            {"op": "drop", "n": rng.randrange(1, 4), "o": o},
            {"op": "dropat", "at": 5, "i": rng.randrange(3), "o": o},
            {"op": "cmp", "o": o, "p": rng.randrange(n) + 1},
            {"op": rng.choice(["drop!", "put!"]), "n": rng.randrange(1, 4), "o": o, "at": 6}]))
    return {"fam": "sched", "who": distinct(rng, n)}, path


def agenda(c):
    b = c.build("drv-kreivo")
    steps = walks(c, b, edges(c, "KreivoSchedMC"))
    steps.take(c.histories(b, [sched_history(c.rng) for _ in range(c.pick(400, 6000))]))
    return verdict(c, "KreivoSchedTrace", steps)


# ---- C35: addresses ----
def address_history(rng, numbers):
    path = [{"op": "resolve", "to": {"f": "index", "c": n}} for n in numbers]
    for _ in range(12):
        a = some_account(rng)
        to = rng.choice([{"f": "id", "a": a}, {"f": "32", "b": a}, {"f": "20", "b": a[:20]}, {"f": "index", "c": rng.randrange(65536)},
                         {"f": "raw", "b": a[:rng.randrange(33)]}])
        path.append(rng.choice([{"op": "write", "a": a}, {"op": "resolve", "to": to}, {"op": "give", "to": to}]))
    return {"fam": "address"}, path


def addresses(c):
    b = c.build("drv-kreivo")
    steps = walks(c, b, edges(c, "KreivoAddressMC"))
    every = list(range(65536)) if c.thorough else c.rng.sample(range(65536), 3000)
    c.extra["community_numbers_resolved"] = len(every)
    steps.take(c.histories(b, [address_history(c.rng, every[i:i + 16]) for i in range(0, len(every), 16)]))
    return verdict(c, "KreivoAddressTrace", steps)


# ---- C31, C34, C37: other chains ----
NETS = ["none", "kusama", "polkadot", "westend", "rococo", "wococo", "ethereum", "bitcoin", "genesis"]
BODIES = ["unit", "moniker", "executive", "technical", "legislative", "judicial", "defense", "administration", "treasury"]
PARTS = ["voice", "members", "fraction", "atleast", "morethan"]


def junction(rng):
    kind = rng.randrange(14)
    if kind < 3:
        return {"t": "para", "n": rng.choice([0, 1, 5, 1000, 1001, 2000, 2281, 65536, rng.randrange(2**31)])}
    if kind < 6:
        return {"t": "acc", "net": rng.choice(NETS[:2] + NETS), "id": some_account(rng)}
    if kind < 8:
        c = rng.choice([0, 1, 5, 255, 65535, rng.randrange(65536)])
        return {"t": "plu", "body": "index", "n": [rng.choice([0, 0, 1, 255, 65535]), c], "part": rng.choice(PARTS)}
    if kind == 8:
        return {"t": "plu", "body": rng.choice(BODIES), "n": [0, 0], "part": rng.choice(PARTS)}
    return rng.choice([{"t": "pal", "n": rng.choice([5, 13, 50, 71])}, {"t": "gen", "n": rng.choice([0, 5, 6, 2**31 - 1])},
                       {"t": "gc", "net": rng.choice(NETS[1:])}, {"t": "child"}, {"t": "acc20", "net": "none", "id": some_account(rng)[:20]},
                       {"t": "acc64", "net": rng.choice(NETS), "n": 5}, {"t": "key", "id": some_account(rng)}])


def place(rng, longest=4):
    n = rng.choice([0, 1, 1, 1, 1, 2, 3, 4])
    return {"p": rng.choice([0, 0, 1, 1, 1, 2, 3]), "j": [junction(rng) for _ in range(min(n, longest))]}


HUB, GC = {"t": "para", "n": 1000}, {"t": "gc", "net": "polkadot"}


def asset_place(rng):
    """Often nearly an asset of the asset hub or of the foreign network."""
    base = rng.choice([(1, [HUB]), (2, [GC]), (2, [GC, HUB]), (1, []), (1, [{"t": "para", "n": 2000}]), (2, [HUB]), (1, [GC]), (0, [HUB]), (3, [GC])])
    tail = rng.choice([[], [{"t": "pal", "n": 50}, {"t": "gen", "n": rng.randrange(3)}], [junction(rng)], [junction(rng), junction(rng)]])
    if rng.random() < 0.2:
        return place(rng)
    if rng.random() < 0.1:
        return {"p": base[0], "j": tail[:1] + base[1] + tail[1:]}
    return {"p": base[0], "j": base[1] + tail}


def chain(rng):
    return rng.choice([{"p": 1, "j": []}, {"p": 1, "j": [HUB]}, {"p": 1, "j": [{"t": "para", "n": rng.choice([1, 1001, 2000, rng.randrange(2**31)])}]}])


def cross_history(rng, topic):
    assets = [{"p": 1, "j": [HUB, {"t": "pal", "n": 50}, {"t": "gen", "n": 7}]}, {"p": 2, "j": [GC]}]
    while len(assets) < 6:
        a = asset_place(rng)
        if a not in assets and a != {"p": 1, "j": []} and all(x["t"] != "gc" or x["net"] in ("kusama", "polkadot", "ethereum") for x in a["j"]):
            assets.append(a)
    # ids of assets are narrower than places: nothing that only fits the wider one
    ok = lambda a: all(not (x["t"] == "para" and x["n"] > 65535) for x in a["j"])
    assets = [a for a in assets if ok(a)]
    cfg = {"fam": "cross", "assets": assets, "rich": [fill(b"Parent"), fill(b"sibl" + bytes(le(1000, 4))), user(1)]}
    path = []
    for _ in range(16):
        if topic == "names":
            path.append(rng.choice([{"op": "acct", "l": place(rng, 2)}, {"op": rng.choice(["face", "face!"]), "by": some_origin(rng)},
                                    {"op": "send", "by": some_origin(rng), "to": rng.choice([chain(rng), chain(rng), place(rng)])}]))
        elif topic == "assets":
            l = asset_place(rng)
            path.append(rng.choice([{"op": "vouch", "how": rng.choice(["reserve", "reserve", "teleport"]), "l": l, "from": rng.choice([chain(rng), chain(rng), place(rng), l, asset_place(rng)])},
                                    {"op": "claim", "from": chain(rng), "at": rng.choice([[], [], [], [junction(rng)]]), "how": rng.choice(["reserve", "reserve", "reserve", "teleport"]),
                                     "i": rng.randrange(len(assets) + 1), "to": rng.choice([{"p": 0, "j": [{"t": "acc", "net": "none", "id": some_account(rng)}]}, place(rng)])}]))
        else:
            some = lambda: rng.choice([[], [], [], [junction(rng)], [{"t": "plu", "body": rng.choice(["executive", "defense"]), "n": [0, 0], "part": rng.choice(PARTS)}],
                                       [{"t": "acc", "net": rng.choice(NETS), "id": user(1)}]])
            kind = rng.choice(["native", "sovereign", "superuser", "xcm"])
            path.append(rng.choice([{"op": "auth", "l": place(rng), "as": kind},
                                    {"op": "call", "from": chain(rng), "at": some(), "then": some(), "paid": rng.random() < 0.4, "as": kind, "what": rng.choice(["remark", "bond"])}]))
    return cfg, path


def crossing(topic):
    def check(c):
        b = c.build("drv-kreivo")
        steps = walks(c, b, edges(c, "KreivoCrossMC", cfg=f"KreivoCross{topic.title()}MC"))
        steps.take(c.histories(b, [cross_history(c.rng, topic) for _ in range(c.pick(300, 6000))]))
        return verdict(c, "KreivoCrossTrace", steps)
    return check


# ---- C28, C36: communities and their authorities ----
def gov_history(rng, topic):
    comm = rng.sample([1, 2, 5, 6, 255, 256, 700, 65535, rng.randrange(1, 65536)], 3)
    comm = sorted(set(comm))
    spare = [c for c in [0, rng.randrange(1, 65536)][topic != "voice":] if c not in comm]
    users = [{"o": "signed", "a": user(i)} for i in (1, 2, 3, 4, 5)]
    who = users + [{"o": "root"}, {"o": "none"}] + [{"o": "community", "c": c} for c in comm + spare]
    who += [{"o": "signed", "a": community(rng.choice(comm))}, {"o": "signed", "a": TREASURY}]
    while len(who) < 24:
        o = some_origin(rng)
        if o not in who:
            who.append(o)
    n = len(who)
    cfg = {"fam": "gov", "who": who, "comm": comm, "spare": spare, "adm": [3, 4, 5][:len(comm)], "pool": 4,
           "mem": [{"c": c, "a": a} for c in comm for a in (1, 2, 3) if rng.random() < 0.4]}
    path = []
    for _ in range(24):
        by, c = rng.randrange(n) + 1, rng.choice(comm + spare)
        if rng.random() < 0.4:
            by = 8 + rng.randrange(len(comm + spare))
        r = rng.random()
        if r < 0.35:
            path.append(rng.choice([{"op": "add", "by": by, "a": rng.randrange(1, 6)}, {"op": "drop", "by": by, "a": rng.randrange(1, 6), "c": c}]))
        elif topic == "voice":
            path.append(rng.choice([{"op": rng.choice(["say", "pay"]), "by": by}, {"op": "meth", "by": by, "c": c, "m": rng.choice(["native", "rank", "membership"])},
                                    {"op": "admin", "by": rng.choice([by, 3, 4, 5]), "to": rng.randrange(n) + 1}]))
        else:
            root = rng.choice([by, 6, 6])
            path.append(rng.choice([{"op": "open", "by": rng.choice([by, 1, 2, 3]), "for": rng.choice([by, 8 + rng.randrange(len(comm))])},
                                    {"op": "open", "by": rng.choice([by, 1, 2, 3]), "for": 8 + rng.randrange(len(comm))},
                                    {"op": rng.choice(["cancel", "kill"]), "by": root, "i": rng.randrange(4) + 1},
                                    {"op": "ins", "by": root, "t": c, "for": by}, {"op": "upd", "by": by, "t": c, "v": rng.randrange(9)},
                                    {"op": "upd", "by": by, "t": who[by - 1].get("c", c), "v": rng.randrange(9)}, {"op": "del", "by": root, "t": c}]))
    return cfg, path


def governing(topic):
    def check(c):
        b = c.build("drv-kreivo")
        steps = walks(c, b, edges(c, "KreivoGovMC", cfg=f"KreivoGov{topic.title()}MC"))
        steps.take(c.histories(b, [gov_history(c.rng, topic) for _ in range(c.pick(250, 5000))]))
        return verdict(c, "KreivoGovTrace", steps)
    return check


# ---- C27, C33: calls on behalf of someone else ----
TYPES = ["Any", "NonTransfer", "CancelProxy", "Assets", "AssetOwner", "AssetManager", "Collator"]
WRAPS = ["", "batch", "all", "force", "deriv", "deep"]
REAL = [("Balances", "transfer_allow_death"), ("Balances", "transfer_keep_alive"), ("Balances", "burn"), ("Assets", "transfer"),
        ("Assets", "transfer_keep_alive"), ("Assets", "mint"), ("Assets", "burn")]


def all_calls(c, b):
    """Every call of the runtime, as the driver finds them."""
    r = c.histories(b, [({"fam": "calls", "prox": []}, [{"op": "list"}])])
    found = [{"p": p, "f": f} for p, f in json.loads(r[-1])["x"]["calls"]]
    c.extra["calls_of_the_runtime"] = len(found)
    return found + [{"p": p, "f": f, "real": True} for p, f in REAL] + [
        {"p": "Proxy", "f": f, "real": True, "d": d, "ty": ty} for f in ("add_proxy", "remove_proxy") for d in (2, 3) for ty in TYPES]


def on_behalf(c):
    b = c.build("drv-kreivo")
    steps = walks(c, b, edges(c, "KreivoCallsMC"))
    world = {"fam": "calls", "prox": [{"of": 1, "d": 2, "ty": t} for t in TYPES]}
    do = all_calls(c, b)
    if c.prop == "C27":
        paths = [[{"op": "may", "ty": t, "in": i, "do": d}] for d in do for t in TYPES for i in ("", "all")]
        paths += [[{"op": "use", "by": 2, "of": 1, "as": t, "in": i, "do": d}] for d in do for t in TYPES for i in c.pick(["", "all", "deriv"], WRAPS)]
        paths += [[{"op": "above", "a": x, "b": y}] for x in TYPES for y in TYPES]
    else:
        paths = [[{"op": "let", "in": i, "do": d}] for d in do for i in WRAPS]
        paths += [[{"op": "inside", "by": 2, "in": i, "do": d}] for d in do for i in WRAPS]
    steps.take(c.walk(b, world, paths, CORES))
    return verdict(c, "KreivoCallsTrace", steps)


# ---- who may do what ----
def outside(rng):
    """Places outside that are, or are almost, the relay chain's staking administration."""
    body = {"t": "plu", "body": rng.choice(["defense"] * 3 + ["unit", "technical", "legislative", "judicial", "administration", "treasury"]),
            "part": rng.choice(["voice"] * 3 + ["members", "fraction", "atleast", "morethan"])}
    return {"p": rng.choice([1, 1, 1, 0, 2]), "j": rng.choice([[], [{"t": "para", "n": 1000}], [], []]) + rng.choice([[body]] * 4 + [[]])}


def any_origin(rng, purse):
    return rng.choice([{"o": "root"}] * 4 + [{"o": o} for o in ("none", "memberships", "canceller", "killer", "relay")] + [
        {"o": "signed", "a": rng.choice(purse)}, {"o": "signed", "a": rng.choice(purse)}, {"o": "signed", "a": user(3)},
        {"o": "signed", "a": community(rng.choice([1, 2, 5]))},
        {"o": "community", "c": rng.choice([0, 1, 1, 2, 2, 3, 5, 257, 513, 65535])}, {"o": "sibling", "p": rng.choice([1000, 2000])},
        {"o": "place", "l": outside(rng)}])


OPS = ["upload", "deploy", "asset", "own asset", "bond", "mint", "raise", "lower", "seat", "found", "join"]


def powers_history(rng):
    purse = [user(7), user(8), community(5)]
    return {"fam": "powers", "purse": purse}, [
        {"op": rng.choice(OPS), "by": any_origin(rng, purse), "n": rng.randint(1, 4)} for _ in range(rng.randint(10, 40))]


def powers(c):
    b = c.build("drv-kreivo")
    steps = walks(c, b, edges(c, "KreivoPowersMC"))
    purse = [user(7), user(8), community(5)]
    cfg = {"fam": "powers", "purse": purse}
    calls = json.loads(c.histories(b, [(cfg, [{"op": "list"}])])[-1])["x"]["calls"]
    c.extra["calls_of_the_runtime"] = len(calls)
    who = [{"o": o} for o in ("root", "none", "memberships", "canceller", "killer", "relay")]
    who += [{"o": "signed", "a": a} for a in (user(7), user(3), community(5), TREASURY)] + [{"o": "sibling", "p": p} for p in (1000, 2000)]
    who += [{"o": "community", "c": n} for n in (0, 1, 2, 3, 5, 257)]
    plu = lambda body, part: {"t": "plu", "body": body, "part": part}
    who += [{"o": "place", "l": l} for l in [{"p": 1, "j": []}, {"p": 0, "j": []}, {"p": 1, "j": [{"t": "para", "n": 1000}]},
            {"p": 1, "j": [plu("defense", "voice")]}, {"p": 1, "j": [plu("defense", "members")]}, {"p": 1, "j": [plu("treasury", "voice")]},
            {"p": 2, "j": [plu("defense", "voice")]}, {"p": 1, "j": [{"t": "para", "n": 1000}, plu("defense", "voice")]}]]
    steps.take(c.walk(b, cfg, [[{"op": "ask", "by": o, "do": {"p": p, "f": f}}] for p, f in calls for o in who], CORES))
    steps.take(c.histories(b, [powers_history(c.rng) for _ in range(c.pick(150, 3000))]))
    return verdict(c, "KreivoPowersTrace", steps)


# ---- what transactions cost ----
def wide(n):
    return [n >> 30, n & (1 << 30) - 1]


def magnitude(rng, most):
    return rng.choice([0, 1, most, rng.randint(0, most), int(most ** rng.random())])


def fee_history(rng):
    some = lambda: wide(rng.choice([0, 33333333, 40000000, 10**8, 10**9, 10**10, 10**12]))
    weight = lambda: {"t": wide(magnitude(rng, 10**12)), "p": wide(magnitude(rng, 3 * 10**6))}
    cfg = {"fam": "fees", "min": [rng.randint(0, 3), rng.randint(1, 3)], "author": rng.random() < .7, "rich": rng.random() < .5,
           "nat": [some() for _ in range(3)], "ast": [[wide(rng.choice([0, 10**8, 10**9, 10**11, 10**13])) for _ in range(3)] for _ in range(2)]}
    path = []
    for _ in range(rng.randint(5, 25)):
        if rng.random() < .3:
            path.append({"op": "price", "n": magnitude(rng, 5 * 2**20), "w": weight()})
            continue
        k = {"op": "tx", "by": rng.randint(1, 3), "n": rng.choice([0, 1, 100, rng.randint(0, 5000)]), "w": weight(),
             "tip": wide(rng.choice([0, 0, 1, rng.randint(0, 10**9)])), "in": rng.randint(0, 2)}
        if rng.random() < .5:
            k["took"] = weight()
        if rng.random() < .1:
            k["free"] = True
        path.append(k)
    return cfg, path


def transactions(c):
    b = c.build("drv-kreivo")
    steps = walks(c, b, edges(c, "KreivoFeesMC"))
    steps.take(c.histories(b, [fee_history(c.rng) for _ in range(c.pick(300, 5000))]))
    return verdict(c, "KreivoFeesTrace", steps)


# ---- how the collective decides ----
def motions_history(rng):
    seats, payers = rng.randint(1, 6), rng.randint(1, 3)
    cfg = {"fam": "motions", "rank": [rng.choice([0, 1, 1, 2, 3, rng.randint(0, 9)]) for _ in range(seats)],
           "purse": [rng.choice([0, 1, 5, 30, 60]) for _ in range(payers)]}
    path, opened = [], 0
    payer, seat = lambda: rng.randint(1, payers), lambda: rng.randint(1, seats)
    some = lambda: rng.randint(max(1, opened - 4), opened) if rng.random() < .9 else rng.randint(1, opened + 1)
    powers = ["root", "canceller", "killer", "memberships"]
    fav = rng.choice(powers)
    def open_one():
        nonlocal opened
        k = rng.choice(["raise", "lower", "mint", "mint", "cancel", "kill", "none"])
        fit = {"raise": "root", "lower": "root", "mint": "memberships", "cancel": "canceller", "kill": "killer", "none": fav}[k]
        force = rng.random()
        n = seat() if k in ("raise", "lower") else rng.randint(1, opened + 2) if k in ("cancel", "kill") else 0 if k == "none" else rng.randint(1, 12)
        path.append({"op": "open", "by": payer(), "for": fit if force < .75 else rng.choice(powers) if force < .95 else rng.choice(["signed", "none", "community"]),
                     "do": {"k": k, "n": n}, "after": rng.choice([0, 0, 1, 2, 74, 75, 1000, 10000])})
        opened += 1
        if rng.random() < .8:
            path.append({"op": "stake", "by": payer(), "i": opened})
    waits = [1, 1, 2, 73, 74, 75, 76, 150, 2880, 7200, 14325, 14400, 28800]
    for _ in range(rng.randint(8, 45)):
        r = rng.random()
        if not opened or r < .15:
            open_one()
        elif r < .22:
            path.append({"op": "stake", "by": payer(), "i": some()})
        elif r < .3:
            path.append({"op": rng.choice(["fee", "back"]), "i": some()})
        elif r < .32:
            path.append({"op": "stranger", "i": some(), "aye": True})
        elif r < .7:
            i, aye = some(), rng.random() < .8
            path += [{"op": "vote", "by": s, "i": i, "aye": aye or rng.random() < .1} for s in rng.sample(range(1, seats + 1), rng.randint(1, seats))]
        else:
            path.append({"op": "wait", "n": rng.choice(waits) if rng.random() < .7 else rng.randint(1, rng.choice([100, 3000, 30000]))})
    return cfg, path


def motions(c):
    b = c.build("drv-kreivo")
    steps = walks(c, b, edges(c, "KreivoMotionsMC"))
    steps.take(c.histories(b, [motions_history(c.rng) for _ in range(c.pick(250, 5000))]))
    return verdict(c, "KreivoMotionsTrace", steps)


def decide_rules(rng):
    curve = lambda: (lambda f: {"floor": f, "ceil": rng.choice([f, 100, rng.randint(f, 100)])})(rng.choice([0, 0, 10, 50, 60, 100]))
    return {"prep": rng.choice([1, 2, 5, 20]), "period": rng.choice([1, 5, 10, 100, 1000]), "confirm": rng.choice([1, 2, 5, 20]), "enact": rng.choice([1, 2, 10]),
            "most": rng.choice([1, 1, 1, 2, 3]), "stake": rng.choice([0, 1, 1, 3]), "app": curve(), "sup": curve()}


def decide_history(rng):
    comms, people = rng.randint(1, 3), rng.randint(2, 6)
    methods = ["membership", "rank", "asset"]
    rules = []
    while len(rules) < rng.randint(1, 3):
        r = decide_rules(rng)
        if r not in rules:
            rules.append(r)
    mem = [[rng.choice([-1, 0, 1, 1, 2, 5]) for _ in range(people)] for _ in range(comms)]
    cfg = {"fam": "decide", "rules": rules, "rule": [rng.randint(1, len(rules)) for _ in range(comms)], "meth": [rng.choice(methods) for _ in range(comms)],
           "mem": mem, "pool": [rng.choice([0, 1, 3]) for _ in range(comms)], "purse": [rng.choice([0, 1, 5, 30]) for _ in range(people)],
           "kitty": [rng.choice([0, 1, 3]) for _ in range(comms)], "coin": [[rng.choice([1, 2, 7, 30]) for _ in range(people)] for _ in range(comms)]}
    # what the history does by and large: votes are cast as the community probably decides now
    meth, of, path = list(cfg["meth"]), [], []
    comm, person = lambda: rng.randint(1, comms), lambda: rng.randint(1, people)
    some = lambda: rng.randint(max(1, len(of) - 4), len(of)) if rng.random() < .95 else rng.randint(1, len(of) + 1)
    belong = lambda c: [a for a in range(1, people + 1) if mem[c - 1][a - 1] >= 0]
    def open_one():
        c = comm()
        by = rng.choice(belong(c)) if belong(c) and rng.random() < .9 else person()
        k = rng.choice(["raise", "lower", "add", "meth", "meth", "meddle", "spend", "spend", "rules", "rules", "cancel", "kill", "none"])
        if k == "meddle" and comms == 1:
            k = "spend"
        n = {"meth": lambda: rng.randint(1, 3), "meddle": lambda: rng.choice([x for x in range(1, comms + 1) if x != c]), "rules": lambda: rng.randint(1, len(rules)),
             "cancel": lambda: rng.randint(1, len(of) + 2), "kill": lambda: rng.randint(1, len(of) + 2), "none": lambda: 1}.get(k, person)()
        path.append({"op": "open", "by": by, "for": c, "do": {"k": k, "n": n}, "after": rng.choice([0, 0, 0, 1, 2, 10, 300])})
        if by in belong(c):
            of.append(c)
            if rng.random() < .85:
                path.append({"op": "stake", "by": person(), "i": len(of)})
    def vote(i):
        c = of[i - 1] if i <= len(of) and rng.random() < .95 else comm()
        aye, voters = rng.random() < .8, belong(c) if rng.random() < .9 else range(1, people + 1)
        for a in rng.sample(list(voters), rng.randint(0, len(voters))):
            if rng.random() < .07:
                path.append({"op": "unvote", "by": a, "c": c, "i": i})
                continue
            kind = {"asset": "coin"}.get(meth[c - 1], "one") if rng.random() < .95 else rng.choice(["one", "coin", "native"])
            n = rng.randint(1, cfg["coin"][c - 1][a - 1]) if rng.random() < .97 else 0
            path.append({"op": "vote", "by": a, "c": c, "i": i, "aye": aye or rng.random() < .1, "v": kind, "n": n})
    waits = sorted({w for r in rules for w in (1, r["prep"], r["confirm"], r["period"], r["prep"] + 1, r["period"] + r["prep"], r["enact"], r["period"] // 2 + 1)})
    for _ in range(rng.randint(8, 45)):
        r = rng.random()
        if not of or r < .18:
            open_one()
        elif r < .24:
            path.append({"op": "stake", "by": person(), "i": some()})
        elif r < .29:
            path.append({"op": rng.choice(["fee", "back"]), "i": some()})
        elif r < .32:
            path.append({"op": rng.choice(["cancel", "kill"]), "i": some(), "as": rng.choice(["root", "root", "community", "member", "canceller", "killer"])})
        elif r < .65:
            vote(some())
        else:
            path.append({"op": "wait", "n": rng.choice(waits) if rng.random() < .8 else rng.choice([rng.randint(1, 50), rng.randint(1, 2000), 100800])})
            if rng.random() < .3:
                c = comm()
                meth[c - 1] = rng.choice(methods)
    return cfg, path


def decide(c):
    b = c.build("drv-kreivo")
    steps = walks(c, b, edges(c, "KreivoDecideMC"))
    steps.take(c.histories(b, [decide_history(c.rng) for _ in range(c.pick(400, 8000))]))
    return verdict(c, "KreivoDecideTrace", steps)


# ---- C42, C43: signed transactions ----
def two(n):
    return [n >> 30, n % 2**30]


def tx_history(rng):
    unit = 10**12
    some = lambda *us: two(rng.choice(us) * unit + unit // 2)
    poor = rng.choice([70_000_000, 33_333_333, 500_000_000, 1_000_000_000])
    cfg = {"fam": "tx", "nat": [some(20, 100), some(10, 50), two(poor), some(2, 10), two(0)],
           "ast": [rng.choice([two(0), two(400_000_000), some(1, 5)]) for _ in range(2)] + [two(0), rng.choice([two(0), some(1, 5)]), two(0)],
           "gas": [two(rng.choice([0, 999, 1000, 1500, 2500, 12000])), two(rng.choice([0, 9999, 10000, 25000, 31000]))]}
    path, blk, sent = [], 2, []
    # numbers as they are if all goes well
    nonce = {1: 0, 2: 0, 3: 0, 5: 0}
    for _ in range(rng.randrange(8, 30)):
        r = rng.random()
        if r < 0.12:
            n = rng.choice([1, 1, 2, 3, 5, 20, 76])
            path.append({"op": "wait", "n": n})
            blk += n
            continue
        if r < 0.18:
            path.append({"op": "fill", "d": rng.choice([0, 1, -1, -125001000, -9000, -8999, 200000])})
            continue
        if sent and r < 0.3:
            path.append(rng.choice(sent))
            continue
        by = rng.choice([1, 1, 2, 2, 3, 3, 3, 5])
        big = rng.random() < 0.15
        gift = {"to": rng.choice([a for a in (1, 2) if a != by]), "n": two(unit * (1000000 if big else 1))}
        what = rng.choice(["give", "give", "act", "act", "login"])
        call = {"what": "login", "cx": max(0, blk - rng.choice([0, 1, 1, 1, 2, 3, 4])), "dur": rng.choice([1, 2, 5, 75, 100])} if what == "login" else {"what": what, **gift}
        k = {"op": "tx", "by": by, "no": max(0, nonce[by] + rng.choice([0] * 9 + [-1, 1, 2])), "sig": "good", "gen": True, "spec": True, "txv": True,
             "era": rng.choice([[], [], [rng.choice([4, 8, 16, 64]), max(0, blk - rng.choice([0, 1, 1, 2, 3, 4, 8]))]]),
             "tip": two(rng.choice([0, 0, 1, 10**6, 10**9])), "in": rng.choice([0, 0, 0, 1]), "call": call}
        if rng.random() < 0.2:
            wrong = rng.choice(["sig", "sig", "gen", "spec", "txv"])
            k[wrong] = rng.choice(["other", "call", "terms", "community", "none"]) if wrong == "sig" else False
        elif k["no"] == nonce[by] and what != "login":
            nonce[by] += 1
        path.append(k)
        sent.append(k)
    return cfg, path


def signed(c):
    b = c.build("drv-tx")
    steps = walks(c, b, edges(c, "KreivoTxMC"))
    steps.take(c.histories(b, [tx_history(c.rng) for _ in range(c.pick(600, 8000))]))
    return verdict(c, "KreivoTxTrace", steps)


CHECKS = {"C42": signed, "C43": signed, "C41": decide, "C40": motions, "C39": transactions, "C38": powers, "C27": on_behalf, "C33": on_behalf, "C28": governing("voice"), "C36": governing("polls"), "C31": crossing("names"), "C34": crossing("assets"), "C37": crossing("calls"), "C25": fees, "C26": ids, "C29": logins, "C30": tracks, "C32": agenda, "C35": addresses}
