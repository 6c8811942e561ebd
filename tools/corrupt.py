"""corrupt.py PROP [N]: how sensitive a check's judge is.

Runs the check on the unchanged tree, alters one value of the outcome of N recorded steps each
(a number by one, a truth value, a text, an element more or less) and counts which alterations the
property's predicate refuses. What one property accepts another one of the same family refuses;
a place that none refuses is not covered. Steps the specification cannot express are counted apart.
"""
import collections, copy, importlib, json, os, random, sys
sys.dont_write_bytecode = True
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))
import mbv

checks = {}
for m in ("common_checks", "payments_checks", "communities_checks", "kreivo_checks"):
    checks.update(importlib.import_module(m).CHECKS)
prop, n = sys.argv[1], int(sys.argv[2]) if len(sys.argv) > 2 else 400
rng = random.Random(int(os.environ.get("VERIF_SEED", "1")))
SKIP = {"call", "cfg", "pre", "k", "panic", "sig"}
score = collections.defaultdict(lambda: [0, 0, 0])
kept = {}


def leaves(v, path):
    if isinstance(v, dict):
        for k in v:
            yield from leaves(v[k], path + (k,))
    elif isinstance(v, list):
        if v and isinstance(v[0], dict):
            yield path
        for i, x in enumerate(v):
            yield from leaves(x, path + (i,))
    else:
        yield path


def name(path):
    return ".".join("*" if isinstance(k, int) or k.isdigit() else k for k in path)


def alter(r):
    r = copy.deepcopy(r)
    paths = [p for k in r if k not in SKIP for p in leaves(r[k], (k,))]
    byname = collections.defaultdict(list)
    for p in paths:
        byname[name(p)].append(p)
    path = rng.choice(byname[rng.choice(sorted(byname))])
    at = r
    for k in path[:-1]:
        at = at[k]
    v = at[path[-1]]
    if isinstance(v, bool):
        at[path[-1]] = not v
    elif isinstance(v, int):
        at[path[-1]] = v + 1 if v == 0 or rng.random() < .5 else v - 1
    elif isinstance(v, str):
        at[path[-1]] = v + "x"
    elif isinstance(v, list):
        v.append(copy.deepcopy(v[-1])) if rng.random() < .5 else v.pop()
    else:
        return None
    return name(path), r


def plain(r):
    return json.dumps({f: v for f, v in r.items() if f != "sig"}, sort_keys=True)


def judged(c, module, rs, a, k):
    c.every = True
    refused = {plain(b): b.get("sig") for b in orig(c, module, [x[1] for x in rs], *a, **k)}
    for what, r in rs:
        i = 1 if plain(r) not in refused else 2 if refused[plain(r)] == mbv.OUTSIDE else 0
        score[what][i] += 1
        if i:
            kept.setdefault(("accepted ", "outside ")[i - 1] + what, r)


orig = mbv.Check.judge


def judge(self, module, records, *a, **k):
    bad = orig(self, module, records, *a, **k)
    failing = {plain(b) for b in bad}
    load = lambda r: json.loads(r) if isinstance(r, str) else r
    some = [load(r) for r in rng.sample(records, min(len(records), 2 * n))]
    some = [r for r in some if plain(r) not in failing][:n]
    judged(self, module, [x for x in map(alter, some) if x], a, k)
    return bad


mbv.Check.judge = judge
sys.argv = ["x", prop]
code = mbv.main(checks)
print(f"{prop}: exit {code}")
for what in sorted(score):
    r, a, e = score[what]
    print(f"{what:40} refused {r:4} accepted {a:4} outside {e:4}")
json.dump(kept, open(f"/tmp/corrupt-{prop}.json", "w"))
