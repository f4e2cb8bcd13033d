"""Handles and tags: histories and thread schedules of Ids.tla on the real code."""
import json, os
from core import HARNESS, ToolError, marked

ASSUME = ["counters are 64 bit and do not wrap around within a process"]


def build(r, package, release=True):
    target = os.path.join(HARNESS, "target")
    r.sh(["cargo", "build", "--offline", "-q", "--manifest-path", os.path.join(HARNESS, "Cargo.toml"), "-p", package]
         + (["--release"] if release else []), 800, env={"CARGO_TARGET_DIR": target, "RUSTFLAGS": "-Awarnings"}, what="build of " + package)
    r.log("built " + package)
    return os.path.join(target, "release" if release else "debug", package)


def collect(r, cmd, name, timeout=800):
    out = r.path(name + ".json")
    p = r.sh(cmd[:2] + [out] + cmd[2:], timeout, ok=None, what=name)
    if p.returncode != 0:
        # The code under test panicked or aborted: that is an observation.
        err = p.stderr.decode(errors="replace")[-1500:]
        if "panicked at" not in err and p.returncode > 0:
            raise ToolError("%s: exit %d\n%s" % (name, p.returncode, err))
        r.violation({"H01", "H02", "H03"}, "%s: the code under test died: %s" % (name, err.strip()[-400:]), {"cmd": cmd, "stderr": err})
        return
    d = json.load(open(out))
    for b in d["bad"]:
        r.violation(b["blame"], b["text"], b)
    r.note(name, runs=d["stats"])
    r.validated += sum(s.get("histories", 0) + s.get("schedules", 0) for s in d["stats"])
    if d["traces"]:
        with open(out, "w") as f:
            json.dump(d["traces"], f)
        t, _, _ = r.tlc("TraceIds", env={"TRACES": out})
        bad = list(marked(t))
        ok = sum(1 for l in open(t, errors="replace") if l.startswith('"@ok'))
        if ok + len(bad) != len(d["traces"]):
            raise ToolError("TraceIds judged %d of %d" % (ok + len(bad), len(d["traces"])))
        by = {x["name"]: x for x in d["traces"]}
        for b in bad:
            r.violation(b["blame"], "%s step %d: %s" % (b["bad"], b["step"], json.dumps(b["got"])), {"verdict": b, "trace": by[b["bad"]]})
        r.note(name, recorded=len(d["traces"]), rejected=len(bad))
        r.sample(json.dumps(d["traces"][len(d["traces"]) // 2]))


def histories(r):
    out, dist, gen = r.tlc("MCIds", env={"EMIT": "1"})
    r.note("MCIds", states=dist, transitions=gen)
    return out


def handles(r):
    r.assumptions = ASSUME
    thorough = r.tier == "thorough"
    h = histories(r)
    scale = "40" if thorough else "1"
    far = str((1 << 36) + 100 if thorough else (1 << 32) + (1 << 24))
    direct = None
    try:
        direct = build(r, "ids")
    except ToolError as e:
        r.note("handle_rs", skipped=str(e)[:300])
    if direct:
        collect(r, [direct, h, scale, str(r.seed), far], "handle_rs")
    api = build(r, "idsapi")
    collect(r, [api, h, "15" if thorough else "1", str(r.seed), "handles"], "client_server_handles")
    threads(r)


def threads(r):
    thorough = r.tier == "thorough"
    try:
        sched = build(r, "idsched")
    except ToolError as e:
        r.note("schedules", skipped=str(e)[:300])
        sched = None
    for t, n, every in ([(2, 8, 1), (3, 4, 1), (4, 3, 10)] if thorough else [(2, 6, 1), (3, 4, 6)]):
        out, dist, gen = r.tlc("MCIdsThreads", env={"EMIT": "1", "THREADS": str(t), "STEPS": str(n)})
        if sched:
            collect(r, [sched, out, str(every), str(max(2, n // 2))], "schedules_%dx%d" % (t, n))


def tags(r):
    r.assumptions = ASSUME + ["a tag is valid if it is a non-empty string of IMAP tag characters"]
    thorough = r.tier == "thorough"
    h = histories(r)
    for rel in (True, False):
        b = build(r, "idsapi", rel)
        collect(r, [b, h, ("10" if thorough else "1"), str(r.seed), "tags"], "tags_" + ("release" if rel else "debug"))
