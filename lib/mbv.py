"""Shared machinery of the checks: build, run TLC, run drivers, judge records, report."""
import hashlib, itertools, json, os, random, re, shutil, subprocess, sys, tempfile, time, traceback
from concurrent.futures import ThreadPoolExecutor
from pathlib import Path

ROOT = Path(__file__).resolve().parent.parent
HARNESS, SPEC, OUT = ROOT / "harness", ROOT / "spec", ROOT / "out"
JARS = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
CORES = min(8, os.cpu_count() or 4)
OUTSIDE = "outside of the specification"


class ToolError(Exception):
    """The machinery could not answer; never a verdict about the code."""


def big(n, width):
    """A number as a byte list, low byte first (TLC integers are 32 bit)."""
    return list(int(n).to_bytes(width, "little"))


def log(msg):
    print(f"[{time.strftime('%H:%M:%S')}] {msg}", flush=True)


class Check:
    def __init__(self, prop, level="model_checking"):
        self.prop, self.level = prop, level
        self.tier = os.environ.get("VERIF_TIER", "quick")
        if self.tier not in ("quick", "thorough"):
            self.tier = "quick"
        try:
            self.seed = int(os.environ.get("VERIF_SEED", "1"))
        except ValueError:
            self.seed = 1
        self.rng = random.Random(f"{prop}/{self.seed}")
        self.t0 = time.time()
        self.scratch = Path(tempfile.mkdtemp(prefix=f"mbv-{prop}-"))
        self.states = self.transitions = self.judged = 0
        self.notes, self.samples, self.models, self.extra = [], [], {}, {}
        self.known = load_known(prop)
        self.known_hit, self.violations = {}, []
        self.serial, self.every = itertools.count(), False

    @property
    def thorough(self):
        return self.tier == "thorough"

    def pick(self, quick, thorough):
        return thorough if self.thorough else quick

    # ---- building the code under test ----
    def build(self, package):
        t = time.time()
        env = dict(os.environ, CARGO_NET_OFFLINE="true", CARGO_TERM_COLOR="never", RUSTFLAGS="-Awarnings")
        env.pop("CARGO_TARGET_DIR", None)
        p = subprocess.run(
            ["cargo", "+nightly", "build", "--offline", "--locked", "-q", "-p", package],
            cwd=HARNESS, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if p.returncode:
            raise ToolError(f"building {package} against /repo failed:\n{p.stdout[-6000:]}")
        log(f"built {package} from /repo in {time.time() - t:.1f}s")
        return HARNESS / "target" / "debug" / package

    # ---- TLC ----
    def tlc(self, module, cfg=None, env=None, workers=None, args=(), timeout=3000, heap="4g"):
        """Runs TLC; returns its output. A violated invariant or assumption is a ToolError:
        the specification itself is wrong, which says nothing about the code."""
        meta = tempfile.mkdtemp(dir=self.scratch)
        cmd = ["java", f"-Xmx{heap}", "-Xss64m", "-XX:+UseParallelGC", "-XX:ParallelGCThreads=2", "-cp", JARS, "tlc2.TLC",
               "-workers", str(workers or 1), "-metadir", meta, "-noGenerateSpecTE",
               "-config", str(cfg or f"{module}.cfg"), *args, f"{module}.tla"]
        e = dict(os.environ)
        e.update({k: str(v) for k, v in (env or {}).items()})
        try:
            p = subprocess.run(cmd, cwd=SPEC, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                               text=True, timeout=timeout)
        except subprocess.TimeoutExpired:
            raise ToolError(f"TLC on {module} did not finish in {timeout}s")
        finally:
            shutil.rmtree(meta, ignore_errors=True)
        if p.returncode:
            raise ToolError(f"TLC on {module} ended with {p.returncode}:\n{p.stdout[-4000:]}")
        return p.stdout

    def model(self, module, cfg=None, env=None, **kw):
        """Model checks a specification; its invariants must hold."""
        t = time.time()
        out = self.tlc(module, cfg, env, workers=kw.pop("workers", CORES), **kw)
        m = re.findall(r"(\d+) states generated, (\d+) distinct states found", out)
        if "No error has been found" not in out or not m:
            raise ToolError(f"no verdict from TLC on {module}:\n{out[-3000:]}")
        gen, dist = map(int, m[-1])
        self.states += dist
        self.transitions += gen
        self.models[f"{module}/{Path(str(cfg or module)).stem}"] = {"generated": gen, "distinct": dist}
        log(f"model {module} ({Path(str(cfg or module)).stem}): {dist} distinct states, {gen} transitions, {time.time() - t:.1f}s")
        return out

    # ---- drivers ----
    def drive(self, binary, args, requests, timeout=600, raw=False):
        """Feeds requests (dicts) to a driver; returns its records (as text if raw). A driver that
        dies marks the request it died on as a panic and goes on with the rest."""
        records, todo = [], list(requests)
        while todo:
            data = "".join(json.dumps(r, separators=(",", ":")) + "\n" for r in todo)
            try:
                p = subprocess.run([str(binary), *args], input=data, stdout=subprocess.PIPE,
                                   stderr=subprocess.PIPE, text=True, timeout=timeout)
            except subprocess.TimeoutExpired:
                raise ToolError(f"driver {binary.name} {args} did not finish in {timeout}s")
            lines = p.stdout.splitlines()
            if raw and p.returncode == 0:
                got = lines
            elif raw:
                raise ToolError(f"driver {binary.name} {args} ended with {p.returncode}: {p.stderr[-2000:]}")
            else:
                got = []
                for l in lines:
                    try:
                        got.append(json.loads(l))
                    except ValueError:
                        break
            records += got
            if p.returncode == 0 and len(got) == len(todo):
                return records
            if p.returncode in (2, 101) or p.returncode == 0:
                raise ToolError(f"driver {binary.name} {args} ended with {p.returncode}: {p.stderr[-2000:]}")
            dead = dict(todo[len(got)])
            dead.update(panic=True, panicmsg=f"process ended with {p.returncode}")
            records.append(dead)
            todo = todo[len(got) + 1:]
        return records

    def walk(self, binary, cfg, paths, parts=1):
        """Makes the calls of all paths from the world of cfg, shared beginnings once; returns
        the records as text."""
        reqs, chunks = tree(paths), []
        for r in reqs:
            if r["d"] == 0 and (not chunks or len(chunks[-1]) > len(reqs) // parts):
                chunks.append([{"cfg": cfg}])
            chunks[-1].append(r)
        with ThreadPoolExecutor(parts) as ex:
            return [r for got in ex.map(lambda q: self.drive(binary, [], q, raw=True), chunks) for r in got]

    def histories(self, binary, hs):
        """Makes the calls of several (cfg, path) histories, each from its own world."""
        n = max(1, (len(hs) + CORES - 1) // CORES)
        reqs = [[q for cfg, path in hs[i:i + n] for q in [{"cfg": cfg}] + [{"d": d, "call": k} for d, k in enumerate(path)]]
                for i in range(0, len(hs), n)]
        with ThreadPoolExecutor(CORES) as ex:
            return [r for got in ex.map(lambda q: self.drive(binary, [], q, raw=True), reqs) for r in got]

    # ---- judging records with TLC ----
    def judge(self, module, records, cfg=None, env=None, shards=None, classify=None, keep=None):
        """Evaluates the property on every record; returns the failing ones."""
        t = time.time()
        n = len(records)
        if not n:
            raise ToolError("nothing to judge")
        shards = max(1, min(shards or CORES, n // 200 + 1))
        size = (n + shards - 1) // shards
        chunks = [records[i:i + size] for i in range(0, n, size)]

        def verdict(recs):
            f = self.scratch / f"recs-{module}-{next(self.serial)}.ndjson"
            with open(f, "w") as h:
                for r in recs:
                    h.write((r if isinstance(r, str) else json.dumps(r if keep is None else keep(r), separators=(",", ":"))) + "\n")
            v = f.with_suffix(".verdict")
            e = {"RECS": f, "VERDICT": v, "PROP": self.prop}
            e.update(env or {})
            try:
                out = self.tlc(module, cfg, e)
                try:
                    d = json.loads(v.read_text())
                except (OSError, ValueError):
                    d = {"count": -1}
                if d["count"] != len(recs):
                    raise ToolError(f"no verdict from TLC on {module}:\n{out[-3000:]}")
            finally:
                f.unlink()
                v.unlink(missing_ok=True)
            return [(recs[i - 1], why) for i, why in zip(d["bad"], d.get("why") or [None] * len(d["bad"]))]

        def one(recs):
            """A step outside of what the specification can express (TLC cannot evaluate the
            predicate on it) is not one it allows; what TLC cannot do anyway stays a ToolError."""
            try:
                return verdict(recs)
            except ToolError as e:
                if "Evaluating assumption" not in str(e) or "Attempted to" not in str(e):
                    raise
            if len(recs) == 1:
                return [(recs[0], OUTSIDE)]
            h = len(recs) // 2
            first = one(recs[:h])
            # one such step is enough to report
            if not self.every and any(why == OUTSIDE for _, why in first):
                return first
            return first + one(recs[h:])

        bad = []
        with ThreadPoolExecutor(len(chunks)) as ex:
            for b in ex.map(one, chunks):
                for r, why in b:
                    r = json.loads(r) if isinstance(r, str) else dict(r)
                    if why is not None:
                        r["sig"] = why      # which known deviation the specification takes it for, if any
                    bad.append(r)
        self.judged += n
        log(f"judged {n} records of the real code with {module}: {len(bad)} failing, {time.time() - t:.1f}s")
        return bad

    # ---- verdict ----
    def report(self, bad, what=lambda r: "", limit=20):
        """Sorts failing records into known findings and violations."""
        for r in bad:
            hit = next((k for k in self.known if k["match"](r)), None)
            if hit:
                self.known_hit.setdefault(hit["id"], (hit, 0))
                self.known_hit[hit["id"]] = (hit, self.known_hit[hit["id"]][1] + 1)
            else:
                self.violations.append((what(r), r))

    def finish(self, samples=()):
        OUT.mkdir(exist_ok=True)
        for hit, n in self.known_hit.values():
            print(f"KNOWN-FINDING: property={self.prop} {hit['what']} ({n} observations)")
        paths = []
        for i, (w, r) in enumerate(self.violations[:10]):
            d = OUT / "replay"
            d.mkdir(parents=True, exist_ok=True)
            f = d / f"{self.prop}-{i}.json"
            f.write_text(json.dumps({"property": self.prop, "tier": self.tier, "seed": self.seed, "what": w,
                                     "record": r, "rerun": f"VERIF_SEED={self.seed} VERIF_TIER={self.tier} bin/check {self.prop}"}, indent=1))
            paths.append(f)
        cov = {"states": self.states, "transitions": self.transitions,
               "traces_validated_against_impl": self.judged,
               "samples": list(samples)[:5], "models": self.models}
        cov.update(self.extra)
        ev = {"property": self.prop, "tier": self.tier, "seed": self.seed, "level": self.level, "coverage": cov,
              "wall_s": round(time.time() - self.t0, 2), "violations": len(self.violations)}
        if self.notes:
            ev["assumptions"] = self.notes
        (ROOT / "evidence").mkdir(exist_ok=True)
        (ROOT / "evidence" / f"{self.prop}.json").write_text(json.dumps(ev, indent=1) + "\n")
        for (w, r), f in zip(self.violations, paths):
            log(f"violation: {w}")
            print(f"VIOLATION property={self.prop} replay={f}", flush=True)
        if len(self.violations) > len(paths):
            log(f"... {len(self.violations)} violating records in all")
        return 1 if self.violations else 0

    def close(self):
        shutil.rmtree(self.scratch, ignore_errors=True)


def load_known(prop):
    """Known findings of a property; each matches records field by field (dotted paths)."""
    found = []
    for k in json.loads((ROOT / "known_findings.json").read_text())["findings"]:
        if k["property"] == prop:
            found.append(dict(k, match=lambda r, m=k["match"]: all(at(r, p) == v for p, v in m.items())))
    return found


def at(r, path):
    for p in path.split("."):
        if isinstance(r, dict):
            r = r.get(p)
        elif isinstance(r, list) and p.lstrip("-").isdigit() and -len(r) <= int(p) < len(r):
            r = r[int(p)]
        else:
            return None
    return r


def tree(paths):
    """Orders paths so that shared beginnings are walked once: (depth, call) requests."""
    root = {}
    for p in paths:
        n = root
        for k in p:
            n = n.setdefault(json.dumps(k, sort_keys=True), {})
    out = []

    def walk(n, d):
        for k, sub in n.items():
            out.append({"d": d, "call": json.loads(k)})
            walk(sub, d + 1)
    walk(root, 0)
    return out


class Steps:
    """Distinct recorded steps (as text) of the operations a property speaks about."""
    def __init__(self, c, about=None):
        self.c, self.about, self.recs, self.ops = c, about, {}, {}

    def take(self, got):
        for r in got:
            if r.startswith('{"cfg"') or r in self.recs:
                continue
            op = json.loads(r[8:r.index(',"cfg":')])["op"]
            if self.about and op not in self.about:
                continue
            self.recs[r] = True
            self.ops.setdefault(op, [0, 0])[0 if '"ok":true' in r else 1] += 1
        self.c.extra["calls_made"] = len(self.recs)
        self.c.extra["accepted_and_refused"] = self.ops


def read_ndjson(path):
    with open(path) as h:
        return [json.loads(l) for l in h]


def main(checks):
    if len(sys.argv) != 2 or sys.argv[1] not in checks:
        print(f"usage: check {{{','.join(sorted(checks))}}}", file=sys.stderr)
        return 2
    prop = sys.argv[1]
    (ROOT / "evidence" / f"{prop}.json").unlink(missing_ok=True)
    c = Check(prop)
    try:
        return checks[prop](c)
    except ToolError as e:
        log(f"no answer: {e}")
        return 2
    except Exception:
        log(f"no answer: {traceback.format_exc()}")
        return 2
    finally:
        c.close()
