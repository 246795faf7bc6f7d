#!/usr/bin/env python3
"""Runs the check of one property: check.py <ID> <quick|thorough>, or replays a violation:
check.py <ID> replay <file>.

Every check (1) has TLC check the specification of the property on its own, (2) generates
behaviours or scenarios and lets TLC decide what the implementation must do on them, and (3) runs
the real code, built from /repo's current tree, against those decisions (or hands recorded
behaviour back to TLC).  Exit 0: held, 1: VIOLATION, 2: the machinery failed."""
import glob, hashlib, json, os, re, shutil, subprocess, sys, time

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SPEC = os.path.join(ROOT, "spec")
TARGET = os.path.join(ROOT, "target")
JARS = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"


class Broken(Exception):
    """The machinery failed; no verdict."""


class Violation(Exception):
    def __init__(self, what, detail):
        super().__init__(what)
        self.what, self.detail = what, detail


def sh(cmd, log, timeout, env=None, cwd=None):
    e = dict(os.environ)
    e.update(env or {})
    with open(log, "wb") as f:
        try:
            return subprocess.run(cmd, stdout=f, stderr=subprocess.STDOUT, timeout=timeout, env=e, cwd=cwd).returncode
        except subprocess.TimeoutExpired:
            raise Broken(f"{cmd[0]} ran longer than {timeout} s, see {log}")


class Run:
    Broken = Broken

    def __init__(self, prop, tier):
        self.prop, self.tier = prop, tier
        self.seed = int(os.environ.get("VERIF_SEED", "1") or 1)
        self.quick = tier == "quick"
        self.dir = os.path.join(ROOT, "run", prop)
        shutil.rmtree(self.dir, ignore_errors=True)
        os.makedirs(self.dir)
        self.t0 = time.time()
        self.states = self.transitions = self.validated = 0
        self.samples, self.counts, self.parts = [], {}, []

    def path(self, name):
        return os.path.join(self.dir, name)

    # ------------------------------------------------------------------ building
    def build(self, crate):
        """Builds one harness crate against /repo's working tree."""
        cwd = os.path.join(ROOT, "harness", crate)
        rc = sh(["cargo", "build", "--offline", "--quiet"], self.path(f"build_{crate}.log"), 800,
                {"CARGO_TARGET_DIR": TARGET, "BITCOIND_SKIP_DOWNLOAD": "1", "ELECTRSD_SKIP_DOWNLOAD": "1",
                 "CARGO_NET_OFFLINE": "true"}, cwd)
        if rc != 0:
            tail = open(self.path(f"build_{crate}.log"), errors="replace").read()[-3000:]
            raise Broken(f"building the harness failed:\n{tail}")

    def bin(self, name, args, timeout=600, env=None, cwd=None):
        """Runs a harness program. When the code under test hangs, crashes or panics outside the
        places that expect it, that is a violation; any other failure is the machinery's."""
        log = self.path(f"{name}_{args[0]}.log")
        cmd = [os.path.join(TARGET, "debug", name)] + [str(a) for a in args]
        try:
            rc = sh(cmd, log, timeout, env, cwd)
        except Broken:
            if args[0] == "run":
                raise Violation("the code under test does not terminate", {"command": cmd})
            raise
        if rc != 0:
            text = open(log, errors="replace").read()
            if args[0] == "run" and (rc in (-6, -11, -8, -4) or re.search(r"panicked at /repo/|stack overflow", text)):
                raise Violation("the code under test crashes", {"command": cmd, "log": text[-3000:]})
            raise Broken(f"{name} {' '.join(map(str, args))} exited with {rc}:\n{text[-3000:]}")

    # ------------------------------------------------------------------ TLC
    def tlc(self, module, cfg=None, env=None, consts=None, args=(), timeout=700, label=None, expect_ok=True, workers=8, props=()):
        """Runs TLC; returns its output. Constants given in consts override the configuration."""
        label = label or module
        cfgfile = os.path.join(SPEC, (cfg or module) + ".cfg")
        text = open(cfgfile).read()
        for k, v in (consts or {}).items():
            text, n = re.subn(rf"(\b{k}\s*=\s*)\S+", rf"\g<1>{v}", text)
            if n != 1:
                raise Broken(f"constant {k} not in {cfgfile}")
        text += "".join(f"PROPERTY {p}\n" for p in props)
        gen = self.path(f"{label}.cfg")
        open(gen, "w").write(text)
        meta = self.path(f"meta_{label}")
        log = self.path(f"tlc_{label}.log")
        cmd = ["java", "-Xss512m", "-Xmx12g", "-XX:+UseParallelGC", "-cp", JARS, "tlc2.TLC", "-workers", str(workers), "-metadir", meta,
               "-config", gen, *args, os.path.join(SPEC, module + ".tla")]
        rc = sh(cmd, log, timeout, env, SPEC)
        shutil.rmtree(meta, ignore_errors=True)
        out = open(log, errors="replace").read()
        for junk in glob.glob(os.path.join(SPEC, "*_TTrace_*")):
            os.remove(junk)
        m = re.findall(r"(\d+) states generated.*?, (\d+) distinct states found", out)
        g = re.findall(r"The number of states generated: (\d+)", out)
        if m:
            self.transitions += int(m[-1][0])
            self.states += int(m[-1][1])
        elif g:
            self.transitions += int(g[-1])
        if expect_ok and rc != 0:
            raise Broken(f"TLC on {module} exited with {rc}, see {log}:\n" +
                         "\n".join(l[:400] for l in out.splitlines() if not l.startswith(("Parsing", "Semantic", "Linting", "\tat", chr(34) + "OUT")))[-2500:])
        self.parts.append({"tlc": label, "states": int(m[-1][1]) if m else None})
        return rc, out

    def outs(self, out):
        """JSON objects a specification printed as OUT lines."""
        res = []
        for l in out.splitlines():
            if l.startswith('"OUT '):
                res.append(json.loads(json.loads(l)[4:]))
        return res

    def evaluate(self, module, scn, exp, **kw):
        _, out = self.tlc(module, env={"SCN": scn}, **kw)
        res = self.outs(out)
        n = sum(1 for l in open(scn) if l.strip())
        if len(res) != n:
            raise Broken(f"{module}: {len(res)} results for {n} scenarios")
        with open(exp, "w") as f:
            for r in res:
                f.write(json.dumps(r) + "\n")
        return res

    # ------------------------------------------------------------------ results
    def report(self, path, validated=True):
        r = json.load(open(path))
        if validated:
            self.validated += r["checked"]
        for k, v in r["counts"].items():
            self.counts[k] = self.counts.get(k, 0) + v
        self.counts["comparisons"] = self.counts.get("comparisons", 0) + r["comparisons"]
        if not self.samples:
            self.samples = r["samples"][:2]
        self.judge(r["violations"], path)
        if r["checked"] == 0:
            raise Broken(f"{path}: nothing was checked")

    def judge(self, violations, path):
        """Separates listed findings from violations."""
        known = known_findings(self.prop)
        left = []
        for v in violations:
            hit = [k for k in known if re.search(k["match"], v["what"])]
            if hit:
                self.counts["known findings seen"] = self.counts.get("known findings seen", 0) + 1
                if hit[0]["text"] not in SEEN:
                    SEEN.append(hit[0]["text"])
            else:
                left.append(v)
        if left:
            raise Violation(left[0]["what"], {"violations": left, "from": path})

    def require(self, **minimum):
        """The run reached what it is supposed to exercise."""
        norm = {re.sub(r"[- ]", "_", k): v for k, v in self.counts.items()}
        for k, n in minimum.items():
            if norm.get(k, 0) < n:
                raise Broken(f"only {norm.get(k, 0)} of at least {n} {k} exercised")

    def evidence(self):
        os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)
        e = {"property": self.prop, "tier": self.tier, "seed": self.seed, "level": "model_checking",
             "coverage": {"states": max(self.states, 1), "transitions": max(self.transitions, 1),
                          "traces_validated_against_impl": self.validated,
                          "samples": self.samples or [{"note": "see counts"}],
                          "counts": self.counts, "tlc_runs": self.parts},
             "wall_s": round(time.time() - self.t0, 1)}
        with open(os.path.join(ROOT, "evidence", self.prop + ".json"), "w") as f:
            json.dump(e, f, indent=1)
            f.write("\n")


SEEN = []


def known_findings(prop):
    p = os.path.join(ROOT, "known-findings.json")
    if not os.path.exists(p):
        return []
    return [k for k in json.load(open(p)) if k.get("property") == prop and k.get("status") == "known"]


def main():
    prop, tier = sys.argv[1], sys.argv[2]
    sys.path.insert(0, os.path.join(ROOT, "bin"))
    import plans
    if tier == "replay":
        d = json.load(open(sys.argv[3]))
        os.environ["VERIF_SEED"] = str(d["seed"])
        tier = d["tier"]
    run = Run(prop, tier)
    try:
        plans.PLANS[prop](run)
        run.evidence()
        for k in known_findings(prop):
            print(f"KNOWN-FINDING: property={prop} {k['text']}")
        print(f"{prop} {tier}: held; {run.states} states, {run.transitions} transitions, "
              f"{run.validated} traces against the implementation, {time.time() - run.t0:.0f} s")
        return 0
    except Violation as v:
        replay = run.path("violation.json")
        with open(replay, "w") as f:
            json.dump({"property": prop, "tier": tier, "seed": run.seed, "what": v.what, "detail": v.detail}, f, indent=1)
        run.evidence()
        print(f"{prop}: {v.what}")
        d = v.detail.get("violations") if isinstance(v.detail, dict) else None
        if d:
            print("  expected: " + str(d[0].get("expected"))[:600])
            print("  actual:   " + str(d[0].get("actual"))[:600])
        print(f"VIOLATION property={prop} replay={replay}")
        return 1
    except Broken as b:
        print(f"{prop}: the check could not decide: {b}", file=sys.stderr)
        return 2


if __name__ == "__main__":
    sys.exit(main())
