"""What all checks share: building, running TLC, judging traces, evidence."""
import hashlib, json, os, re, shutil, subprocess, sys, tempfile, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SPEC = os.path.join(VERIF, "spec")
HARNESS = os.path.join(VERIF, "harness")
BUILD = os.path.join(VERIF, "build")
CP = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"


class ToolError(Exception):
    """The machinery itself failed: no verdict."""


class Run:
    """One run of one check."""

    def __init__(self, prop):
        self.prop = prop
        self.tier = os.environ.get("VERIF_TIER", "quick")
        if self.tier not in ("quick", "thorough"):
            self.tier = "quick"
        self.seed = int(os.environ.get("VERIF_SEED", "1") or "1")
        self.t0 = time.time()
        self.budget = 600 if self.tier == "thorough" else 100
        self.states = self.transitions = self.validated = 0
        self.samples = []
        self.detail = {}
        self.violations = []  # (blame, text, replay data, signature)
        self.assumptions = []
        os.makedirs(BUILD, exist_ok=True)
        self.tmp = tempfile.mkdtemp(prefix="run-", dir=BUILD)

    def left(self):
        return self.budget - (time.time() - self.t0)

    def path(self, name):
        return os.path.join(self.tmp, name)

    def note(self, key, **kw):
        self.detail.setdefault(key, {}).update(kw)

    def log(self, msg):
        print("[%6.1fs] %s" % (time.time() - self.t0, msg), file=sys.stderr, flush=True)

    def sample(self, x, most=6):
        if len(self.samples) < most:
            s = x if isinstance(x, str) else json.dumps(x)
            self.samples.append(s[:1500])

    def violation(self, blame, text, data, sig=None):
        """Something the code did that the specification does not allow."""
        self.violations.append((set(blame), text, data, sig or text))

    # -- processes ---------------------------------------------------------
    def sh(self, cmd, timeout, out=None, env=None, cwd=None, ok=(0,), what=None):
        e = dict(os.environ)
        e.update(env or {})
        try:
            if out:
                with open(out, "wb") as f:
                    p = subprocess.run(cmd, stdout=f, stderr=subprocess.PIPE, timeout=timeout, env=e, cwd=cwd)
            else:
                p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=timeout, env=e, cwd=cwd)
        except subprocess.TimeoutExpired:
            raise ToolError("%s: no end within %d s" % (what or cmd[0], timeout))
        if ok is not None and p.returncode not in ok:
            raise ToolError("%s: exit %d\n%s\n%s" % (
                what or cmd[0], p.returncode, p.stderr.decode(errors="replace")[-3000:],
                (p.stdout or b"").decode(errors="replace")[-1500:]))
        return p

    def cargo(self, package, bin=None):
        """Builds a harness package against /repo's working tree."""
        target = os.path.join(HARNESS, "target")
        self.sh(["cargo", "build", "--offline", "-q", "--manifest-path", os.path.join(HARNESS, "Cargo.toml"),
                 "-p", package], 800, env={"CARGO_TARGET_DIR": target, "RUSTFLAGS": "-Awarnings"}, what="build of " + package)
        self.log("built " + package)
        return os.path.join(target, "debug", bin or package)

    # -- TLC ---------------------------------------------------------------
    def tlc(self, module, cfg=None, env=None, workers=8, timeout=600, extra=(), count=True, stack="16m"):
        """Runs TLC; the output file. An error of the specification itself is a tool error."""
        n = len([f for f in os.listdir(self.tmp) if f.endswith(".tlc")])
        out = self.path("%s-%d.tlc" % (module, n))
        meta = self.path("meta-%d" % n)
        cmd = ["java", "-XX:+UseParallelGC", "-Xss" + stack, "-Xmx8g", "-Dfile.encoding=UTF-8",
               "-Djava.io.tmpdir=" + self.tmp, "-cp", CP, "tlc2.TLC",
               "-workers", str(workers), "-noGenerateSpecTE", "-metadir", meta, *extra,
               "-config", (cfg or module) + ".cfg", module + ".tla"]
        self.sh(cmd, timeout, out=out, env=env, cwd=SPEC, ok=None, what="TLC " + module)
        shutil.rmtree(meta, ignore_errors=True)
        gen = dist = None
        tail = []
        with open(out, errors="replace") as f:
            for l in f:
                if l.startswith('"@'):
                    continue
                tail.append(l)
                m = re.match(r"([\d,]+) states generated, ([\d,]+) distinct states found, 0 states left", l)
                if m:
                    gen, dist = (int(x.replace(",", "")) for x in m.groups())
        text = "".join(tail)
        if "Model checking completed. No error has been found." not in text or gen is None:
            raise ToolError("TLC %s/%s:\n%s" % (module, cfg, text[-4000:]))
        if count:
            self.states += dist
            self.transitions += gen
        self.log("TLC %s: %d states, %d transitions" % (cfg or module, dist, gen))
        return out, dist, gen


def marked(file):
    """The lines a specification printed for us."""
    with open(file, errors="replace") as f:
        for l in f:
            if l.startswith('"@@'):
                yield json.loads(json.loads(l)[2:])


def known_findings():
    """[(property, signature, text)] of the committed known findings."""
    l = []
    p = os.path.join(VERIF, "known-findings.txt")
    if os.path.exists(p):
        for line in open(p):
            m = re.match(r"known: property=(\S+) sig=(\S+) (.*)", line)
            if m:
                l.append(m.groups())
    return l


def main(prop, level, suites):
    r = Run(prop)
    code = 0
    try:
        for s in suites:
            s(r)
        mine = [v for v in r.violations if prop in v[0]]
        known = known_findings()
        new = []
        for v in mine:
            if not any(k[0] == prop and k[1] == v[3] for k in known):
                new.append(v)
        for k in known:
            if k[0] == prop:
                print("KNOWN-FINDING: property=%s %s" % (prop, k[2]))
        shown = set()
        os.makedirs(os.path.join(BUILD, "replay"), exist_ok=True)
        for i, v in enumerate(new[:5]):
            f = os.path.join(BUILD, "replay", "%s-%d.json" % (prop, i))
            with open(f, "w") as h:
                json.dump({"property": prop, "also": sorted(v[0]), "what": v[1], "data": v[2]}, h, indent=1)
            print("VIOLATION property=%s replay=%s" % (prop, f))
            if v[1] not in shown:
                print("  " + v[1][:600])
            shown.add(v[1])
        if new:
            code = 1
        if not r.samples and not new:
            raise ToolError("nothing was explored")
        cov = {"states": r.states, "transitions": r.transitions,
               "traces_validated_against_impl": r.validated, "samples": r.samples or ["-"]}
        cov.update(r.detail)
        ev = {"property": prop, "tier": r.tier, "seed": r.seed, "level": level, "coverage": cov,
              "assumptions": r.assumptions, "wall_s": round(time.time() - r.t0, 1), "violations": len(new)}
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        with open(os.path.join(VERIF, "evidence", prop + ".json"), "w") as h:
            json.dump(ev, h, indent=1)
            h.write("\n")
        print("%s: %s; %d states, %d transitions of the specification, %d runs of the code judged, %.0f s" % (
            prop, "VIOLATED" if new else "held", r.states, r.transitions, r.validated, time.time() - r.t0))
    except ToolError as e:
        print("ERROR of the check (no verdict): %s" % e, file=sys.stderr)
        code = 2
    finally:
        if os.environ.get("VERIF_KEEP") != "1":
            shutil.rmtree(r.tmp, ignore_errors=True)
    sys.stdout.flush()
    return code
