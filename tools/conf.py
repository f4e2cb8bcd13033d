"""Configuration documents of Config.tla, loaded by the real code."""
import json, os
from core import ToolError, marked

ASSUME = ["TOML itself is parsed by the toml crate in use"]


def judge(r, file, name):
    n = len(json.load(open(file)))
    if n == 0:
        return
    out, _, _ = r.tlc("TraceConfig", env={"TRACES": file})
    ok = sum(1 for l in open(out, errors="replace") if l.startswith('"@ok'))
    bad = list(marked(out))
    if ok + len(bad) != n:
        raise ToolError("TraceConfig judged %d of %d" % (ok + len(bad), n))
    by = {t["name"]: t for t in json.load(open(file))}
    for b in bad:
        t = by[b["bad"]]
        r.violation(b["blame"], "%s: allowed %s, got %s" % (b["bad"][:400], json.dumps(b["exp"])[:300], json.dumps(t["obs"])[:300]),
                    {"verdict": b, "trace": t})
    t = json.load(open(file))[n // 2]
    r.sample("%s -> %s" % (t["name"], json.dumps(t["obs"])[:400]))
    r.note(name, judged=n, rejected=len(bad))


def config(r):
    r.assumptions = ASSUME
    thorough = r.tier == "thorough"
    try:
        exe = r.cargo("conf")
    except ToolError as e:
        # The started proxy (next suite) can still be looked at.
        r.log("config.rs doesn't build with the harness: %s" % str(e)[:600])
        r.note("config", skipped="build")
        return
    scratch = r.path("scratch")
    os.makedirs(scratch)
    parts = [("sides", "1"), ("lists", "1"), ("allports" if thorough else "ports", "1" if thorough else "0")]
    for part, styles in parts:
        out, dist, gen = r.tlc("MCConfig", env={"EMIT": "1", "PART": part, "OFFSET": str(r.seed)})
        f = r.path(part + ".json")
        p = r.sh([exe, out, f, str(r.seed), styles, scratch], 800)
        st = json.loads(p.stdout)
        if st["loads"] == 0:
            raise ToolError("nothing loaded")
        r.note(part, states=dist, transitions=gen, **st)
        r.validated += st["loads"]
        judge(r, f, part)
        os.remove(out)
    for i in range(10 if thorough else 1):
        f = r.path("random.json")
        p = r.sh([exe, "random:%d" % 4000, f, str(r.seed * 100 + i), "0", scratch], 300)
        st = json.loads(p.stdout)
        r.validated += st["loads"]
        r.note("random", **st)
        judge(r, f, "random")
