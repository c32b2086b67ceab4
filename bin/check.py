#!/usr/bin/env python3
"""check.py PROPERTY [quick|thorough]

Builds the harness against /repo's working tree, records what the real code
does on the property's suites, has TLC validate every recorded call against
the specification (spec/Trace.tla), has TLC explore the property's models
and replays every behaviour they print into the real code as well.
Exit 0: conforms.  Exit 1: VIOLATION line.  Exit 2: the tools failed.
"""
import json, os, re, shutil, subprocess, sys, time
from concurrent.futures import ThreadPoolExecutor

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(ROOT, "bin"))
from props import PROPS  # noqa: E402

JAR = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
SPEC = os.path.join(ROOT, "spec")
JOBS = 8


class ToolError(Exception):
    pass


def build(ea):
    target = os.path.join(ROOT, "harness", "target-ea" if ea else "target")
    cmd = ["cargo", "build", "--offline", "--quiet", "--manifest-path", os.path.join(ROOT, "harness", "Cargo.toml")]
    if ea:
        cmd += ["--features", "ea_real"]
    env = dict(os.environ, CARGO_TARGET_DIR=target)
    r = subprocess.run(cmd, env=env, capture_output=True, text=True)
    if r.returncode != 0:
        raise ToolError("the harness does not build:\n" + r.stderr[-4000:])
    return os.path.join(target, "debug", "pcics-conformance")


def tlc(module, cfg, env, meta, workers, xmx, timeout, out):
    """Runs TLC, its output in the file `out`."""
    cmd = ["java", "-XX:+UseSerialGC" if workers == 1 else "-XX:+UseParallelGC", "-Xmx" + xmx, "-Xss256m", "-Djava.io.tmpdir=" + meta]
    if workers == 1:
        cmd.append("-XX:TieredStopAtLevel=1")
    cmd += ["-cp", JAR, "tlc2.TLC", "-noGenerateSpecTE", "-workers", str(workers), "-metadir", meta, "-config", cfg, module + ".tla"]
    os.makedirs(meta, exist_ok=True)
    with open(out, "w") as f:
        try:
            r = subprocess.run(cmd, cwd=SPEC, env=dict(os.environ, **env), stdout=f, stderr=subprocess.STDOUT, timeout=timeout)
        except subprocess.TimeoutExpired:
            raise ToolError(f"TLC on {module} exceeded {timeout} s")
    shutil.rmtree(meta, ignore_errors=True)
    return r.returncode


def tagged(path, tag):
    """The JSON values TLC printed after `tag`."""
    with open(path) as f:
        for l in f:
            if l.startswith('"' + tag + " "):
                yield json.loads(json.loads(l)[len(tag) + 1:])


class Check:
    def __init__(self, prop, tier):
        self.prop, self.tier = prop, tier
        self.seed = int(os.environ.get("VERIF_SEED", "1"))
        self.conf = PROPS[prop]
        self.work = os.path.join(ROOT, "work", f"{prop}-{tier}")
        shutil.rmtree(self.work, ignore_errors=True)
        os.makedirs(self.work)
        self.replays = os.path.join(ROOT, "work", "replay")
        os.makedirs(self.replays, exist_ok=True)
        self.violations = []
        self.cov = dict(states=0, transitions=0, traces_validated_against_impl=0, samples=[],
                        calls_validated=0, calls_judged=0, calls_lost=0, model_behaviours_replayed=0, parts=[])
        self.t0 = time.time()

    # -- recording ---------------------------------------------------------
    def record(self, exe, args, name, ea, budget=400):
        """Runs the harness; None if the code under test hung or crashed."""
        d = os.path.join(self.work, name)
        os.makedirs(d)
        try:
            r = subprocess.run([exe] + [a.replace("@DIR", d) for a in args], capture_output=True, text=True, timeout=budget)
        except subprocess.TimeoutExpired:
            raise ToolError(f"recording {name} exceeded {budget} s")
        if r.returncode == 0:
            return d, json.loads(r.stdout.splitlines()[-1])
        hang = os.path.join(d, "hang.ndjson")
        if r.returncode == 3 and os.path.exists(hang):
            self.violation(dict(part=name, ea=ea, observed="a call did not return", call=json.loads(open(hang).read())))
        elif r.returncode < 0 or r.returncode == 134:
            self.violation(dict(part=name, ea=ea, observed=f"the process died ({r.returncode})", stderr=r.stderr[-500:], args=args))
        else:
            raise ToolError(f"recording {name}: exit {r.returncode}\n{r.stderr[-2000:]}")
        return None

    def violation(self, v):
        n = len(self.violations)
        v.update(property=self.prop, seed=self.seed, tier=self.tier)
        self.violations.append(v)
        if n < 20:
            with open(os.path.join(self.replays, f"{self.prop}-{n}.json"), "w") as f:
                json.dump(v, f, indent=1)

    # -- validation --------------------------------------------------------
    def validate(self, dirs, scope, ea, label):
        """Validates the logs of several recordings, one TLC per chunk."""
        chunks = []
        for i in range(JOBS):
            p = os.path.join(self.work, f"{label}-{i}.ndjson")
            with open(p, "wb") as out:
                for d in dirs:
                    with open(os.path.join(d, f"t{i}.ndjson"), "rb") as f:
                        shutil.copyfileobj(f, out)
            if os.path.getsize(p):
                chunks.append((i, p))
        for d in dirs:
            shutil.rmtree(d, ignore_errors=True)

        def one(c):
            i, p = c
            o = os.path.join(self.work, f"{label}-{i}.out")
            tlc("Trace", "Trace.cfg", dict(TRACE=p, SCOPE=scope, EA_REAL="1" if ea else "0"),
                os.path.join(self.work, f"{label}-{i}.meta"), 1, "3g", 3000, o)
            return p, o

        with ThreadPoolExecutor(JOBS) as ex:
            done = list(ex.map(one, chunks))
        for p, o in done:
            fin = list(tagged(o, "DONE"))
            if not fin:
                raise ToolError("TLC did not finish: " + open(o).read()[-3000:])
            fin = fin[0]
            if fin["diameter"] - 1 != fin["lines"]:
                raise ToolError(f"{label}: only {fin['diameter'] - 1} of {fin['lines']} calls were consumed")
            self.cov["states"] += fin["diameter"]
            self.cov["transitions"] += fin["lines"]
            self.cov["calls_validated"] += fin["lines"]
            self.cov["calls_judged"] += fin["judged"]
            self.cov["calls_lost"] += fin["lost"]
            bad = list(tagged(o, "MISMATCH"))
            if len(bad) != fin["bad"]:
                raise ToolError("mismatches were lost")
            if bad:
                want = {}
                for b in bad[:20]:
                    want.setdefault(b["line"], []).append(b)
                    want.setdefault(b["dev"], []).append(None)
                lines = {}
                with open(p) as f:
                    for n, l in enumerate(f, 1):
                        if n in want:
                            lines[n] = json.loads(l)
                for b in bad:
                    if len(self.violations) >= 20:
                        self.violations.append(b)
                        continue
                    dev = lines.get(b["dev"]) if b["k"] in ("hdr", "opt", "cap", "ecap", "count", "same", "nx") else None
                    self.violation(dict(part=label, scope=scope, ea=ea, why=b["why"], k=b["k"],
                                        device={k: bytes(v).hex() if isinstance(v, list) else v for k, v in dev.items() if k != "k"} if dev else None,
                                        call={k: v for k, v in lines.get(b["line"], {}).items() if k != "f"}))
            if len(self.cov["samples"]) < 4:
                with open(p) as f:
                    for n, l in enumerate(f):
                        if n > 40:
                            break
                        e = json.loads(l)
                        if e["k"] not in ("dev", "open", "clone") and len(l) < 3000:
                            self.cov["samples"].append(e)
                            break
            os.remove(p)

    # -- models ------------------------------------------------------------
    def model(self, k, m):
        module, cfg, quick, thorough, scope = m
        env = dict(quick if self.tier == "quick" else thorough, EMIT="1" if scope else "0")
        o = os.path.join(self.work, f"model-{k}.out")
        rc = tlc(module, cfg, env, os.path.join(self.work, f"model-{k}.meta"), 4, "6g", 3000, o)
        text = [l for l in open(o) if not l.startswith('"REPLAY')]
        s = [l for l in text if "distinct states found" in l]
        if rc != 0 or not s:
            raise ToolError(f"{module}: the model does not satisfy its own properties (exit {rc})\n" + "".join(text)[-3000:])
        w = s[-1].split()
        gen, dist = int(w[0].replace(",", "")), int(w[3].replace(",", ""))
        f = None
        n = 0
        if scope:
            f = os.path.join(self.work, f"model-{k}.beh")
            hx = lambda b: bytes(b).hex() or "-"
            with open(f, "w") as out:
                for b in tagged(o, "REPLAY"):
                    out.write(f"{b['w']} {hx(b['h'])} {hx(b['d'])} {hx(b['x'])} {','.join(map(str, b['ops']))}\n")
                    n += 1
            if n == 0:
                raise ToolError(f"{module}: no behaviours")
        os.remove(o)
        return dict(module=module, env=env, states=dist, transitions=gen, behaviours=n, file=f, scope=scope)

    # -- proofs ------------------------------------------------------------
    def proof(self, module):
        """The specification's own theorems, for lists of any size (tlapm)."""
        d = os.path.join(self.work, "proof-" + module)
        os.makedirs(d)
        for f in os.listdir(os.path.join(ROOT, "spec")):
            if f.endswith(".tla"):
                shutil.copy(os.path.join(ROOT, "spec", f), d)
        r = subprocess.run(["tlapm", "--threads", str(JOBS), "--cache-dir", os.path.join(d, "cache"), module + ".tla"],
                           cwd=d, capture_output=True, text=True, timeout=600)
        m = re.search(r"All (\d+) obligations? proved", r.stdout + r.stderr)
        if not m:
            raise ToolError(f"{module}: not proved\n" + (r.stdout + r.stderr)[-2000:])
        self.cov["parts"].append(dict(proof=module, obligations=int(m.group(1)), discharged=int(m.group(1))))

    # -- all of it ---------------------------------------------------------
    def run(self):
        eas = [False, True] if self.conf.get("ea") else [False]
        with ThreadPoolExecutor(2) as ex:
            models = [ex.submit(self.model, k, m) for k, m in enumerate(self.conf["models"])]
            exes = {ea: build(ea) for ea in eas}
            models = [f.result() for f in models]
        if self.tier != "quick":
            for module in self.conf.get("proofs", []):
                self.proof(module)
        for ea in eas:
            scopes = {}
            for n, (suite, q, t, scope) in enumerate(self.conf["suites"]):
                scale = q if self.tier == "quick" else t
                name = f"s{n}{'ea' if ea else ''}"
                r = self.record(exes[ea], ["gen", suite, "@DIR", str(JOBS), str(self.seed), str(scale)], name, ea)
                if r:
                    scopes.setdefault(scope, []).append(r[0])
                    self.cov["parts"].append(dict(suite=suite, scale=scale, scope=scope, content_sized_entries=ea, **r[1]))
                    self.cov["traces_validated_against_impl"] += max(r[1]["devices"], 1)
            for k, m in enumerate(models):
                if not ea:
                    self.cov["states"] += m["states"]
                    self.cov["transitions"] += m["transitions"]
                    part = dict(model=m["module"], env=m["env"], states=m["states"], transitions=m["transitions"], behaviours=m["behaviours"])
                    self.cov["parts"].append(part)
                if m["file"] and (not ea or m["module"] == "EaMC"):
                    r = self.record(exes[ea], ["replay", m["file"], "@DIR", str(JOBS)], f"m{k}{'ea' if ea else ''}", ea)
                    if r:
                        scopes.setdefault(m["scope"], []).append(r[0])
                        self.cov["model_behaviours_replayed"] += m["behaviours"]
                        self.cov["traces_validated_against_impl"] += m["behaviours"]
            for n, (scope, dirs) in enumerate(scopes.items()):
                self.validate(dirs, scope, ea, f"v{n}{'ea' if ea else ''}")
        if not self.violations and self.cov["calls_judged"] == 0:
            raise ToolError("nothing was judged")

    def evidence(self):
        os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)
        ev = dict(property=self.prop, tier=self.tier, seed=self.seed, level="model_checking", coverage=self.cov,
                  assumptions=["the harness's projection of the decoded values (Debug form, accessors) is faithful",
                               "TLC and the CommunityModules evaluate the specification correctly"],
                  wall_s=round(time.time() - self.t0, 1), violations=len(self.violations))
        with open(os.path.join(ROOT, "evidence", self.prop + ".json"), "w") as f:
            json.dump(ev, f, indent=1)


def main():
    prop = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    c = Check(prop, tier)
    try:
        c.run()
    except ToolError as e:
        print(f"ERROR {prop}: {e}", file=sys.stderr)
        c.evidence()
        # what was already found stands
        if not c.violations:
            return 2
    c.evidence()
    shutil.rmtree(c.work, ignore_errors=True)
    if c.violations:
        for v in c.violations[:5]:
            w = v.get("why", v)
            print("  ", json.dumps({k: w.get(k) for k in ("path", "expected", "observed") if k in w})[:400])
        print(f"{len(c.violations)} unexplained observation(s)")
        print(f"VIOLATION property={prop} replay={os.path.join(c.replays, prop + '-0.json')}")
        return 1
    print(f"{prop} held: {c.cov['calls_judged']} calls judged, {c.cov['traces_validated_against_impl']} traces, "
          f"{c.cov['states']} states, {time.time() - c.t0:.0f} s")
    return 0


sys.exit(main())
