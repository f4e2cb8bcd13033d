"""Client, server and sessions: model checking, schedule replay, trace validation."""
import json
from core import ToolError, marked

ASSUME = [
    "messages are well-formed or not as the imap-types/imap-codec in use says (in this sandbox a stand-in in /verif/shims)",
    "specification and recorder map messages to text faithfully (canonical serialisation)",
]


def judge(r, file, what):
    """TraceFlow's verdict on every trace in the file. Hangs are verdicts of their own."""
    with open(file) as f:
        traces = json.load(f)
    hangs = [t for t in traces if t.get("role") == "hang"]
    rest = [t for t in traces if t.get("role") != "hang"]
    for t in hangs:
        blame = {"F04", "F02", "F05", "E01"} | (
            {"C05", "C01", "C03"} if "client" in t["name"] else {"S01", "S03"})
        last = t["log"][-3:]
        r.violation(blame, "%s: a call did not return; last calls %s" % (t["name"], json.dumps(last)), t)
    if hangs:
        # The recorder stops at a hang; what it saw before still counts.
        r.log("%d hanging runs" % len(hangs))
    if not rest:
        return
    by = {t["name"]: t for t in rest}
    with open(file, "w") as f:
        json.dump(rest, f)
    out, _, _ = r.tlc("TraceFlow", env={"TRACES": file}, timeout=700)
    ok = 0
    with open(out, errors="replace") as f:
        for l in f:
            if l.startswith('"@ok'):
                ok += 1
    bad = list(marked(out))
    if ok + len(bad) != len(rest):
        raise ToolError("TraceFlow judged %d of %d traces" % (ok + len(bad), len(rest)))
    for b in bad:
        r.violation(b["blame"], "%s step %d: expected %s, got %s" % (
            b["bad"], b["step"], json.dumps(b["exp"]), json.dumps(b["got"])),
            {"verdict": b, "trace": by.get(b["bad"])})
    r.validated += len(rest)
    for t in rest[:1]:
        r.sample("%s: %s" % (t["name"], " ; ".join(
            "%s %s" % (e.get("a"), e["obs"].get("e") or e["obs"].get("o")) for e in t["log"][:25])))
    r.note(what, traces=len(rest), steps=sum(len(t["log"]) for t in rest), rejected=len(bad), hung=len(hangs))


def random(r, flow, role, count, batch=4000, salt=0):
    done = 0
    i = 0
    tot = {}
    while done < count:
        n = min(batch, count - done)
        f = r.path("rand-%s-%d.json" % (role, i))
        r.sh([flow, "random", "--role", role, "--seed", str(r.seed * 1000 + salt + i), "--count", str(n), "--out", f], 300)
        judge(r, f, "random_" + role + ("" if i == 0 else "_%d" % i))
        done += n
        i += 1
        if r.violations or r.left() < 60 and r.tier == "thorough":
            break
    return tot


def model(r, flow, role, module, cfg=None, args=(), cap=None, keep=40, emit=True, workers=8, name=None):
    """Model-checks the scripts and runs every printed schedule on the code."""
    name = name or (cfg or module)
    s = r.path(name + "-scripts.json")
    common = ["--role", role, *args]
    r.sh([flow, "scripts", *common, "--out", s], 120)
    env = {"SCRIPTS": s}
    if emit:
        env["EMIT"] = "1"
    out, dist, gen = r.tlc(module, cfg, env=env, timeout=800)
    nscripts = len(json.load(open(s)))
    r.note(name, scripts=nscripts, states=dist, transitions=gen)
    if not emit:
        return
    t = r.path(name + "-runs.json")
    p = r.sh([flow, "replay", *common, "--tlc", out, "--out", t, "--every", "50", "--keep", str(keep)]
             + (["--cap", str(cap)] if cap else []), 800, what="replay of " + name)
    st = json.loads(p.stdout.decode().strip().splitlines()[-1])
    if st["schedules"] == 0:
        raise ToolError("no schedules")
    r.note(name, schedules=st["all"], replayed=st["schedules"], calls=st["steps"], differ=st["differ"])
    r.log("replayed %(schedules)d of %(all)d schedules, %(differ)d differ" % st)
    r.validated += st["schedules"]
    with open(t) as f:
        have = len(json.load(f))
    r.validated -= have  # counted by judge
    judge(r, t, name + "_judged")
    import os
    os.remove(out)


def history(r):
    """Words of rounds over and over: answers stay the same, memory doesn't grow."""
    r.assumptions = ASSUME
    flow = r.cargo("flow")
    thorough = r.tier == "thorough"
    # The property about memory wants many laps, the others some.
    env = {"WORDS": "3" if thorough else "2", "TIMES": "40" if thorough else "10" if r.prop == "F05" else "2"}
    if r.prop[0] in "CS":
        env["ROLE"] = r.prop[0].lower()
    words, _, _ = r.tlc("MCHistory", env=env, timeout=120)
    f = r.path("history.json")
    r.sh([flow, "history", "--tlc", words, "--out", f], 800, what="histories")
    with open(f) as h:
        traces = json.load(h)
    hangs = [t for t in traces if t["role"] == "hang"]
    for t in hangs:
        r.violation({"F05", "F04", "F02"} | ({"C05"} if "/c/" in t["name"] else {"S03"}),
                    "%s: a call did not return; last calls %s" % (t["name"], json.dumps(t["log"][-3:])), t)
    rest = [t for t in traces if t["role"] != "hang"]
    if not rest:
        return
    for t in rest:
        t.pop("log", None)
    json.dump(rest, open(f, "w"))
    out, _, _ = r.tlc("TraceHistory", env={"TRACES": f}, timeout=300)
    bad = list(marked(out))
    ok = sum(1 for l in open(out, errors="replace") if l.startswith('"@ok'))
    if ok + len(bad) != len(rest):
        raise ToolError("TraceHistory judged %d of %d" % (ok + len(bad), len(rest)))
    by = {t["name"]: t for t in rest}
    for b in bad:
        r.violation(b["blame"], "%s lap %d: expected %s, got %s" % (b["bad"], b["step"], json.dumps(b["exp"]), json.dumps(b["got"])),
                    {"verdict": b, "trace": by[b["bad"]]})
    r.validated += len(rest)
    r.note("histories", words=len(rest), laps=sum(t["laps"] for t in rest), rejected=len(bad), hung=len(hangs))
    r.sample("%s: %d laps, %s" % (rest[0]["name"], rest[0]["laps"], json.dumps(rest[0]["seen"])))


def client(r):
    r.assumptions = ASSUME
    flow = r.cargo("flow")
    thorough = r.tier == "thorough"
    if r.prop[0] == "C":
        history(r)
    random(r, flow, "client", 24000 if thorough else 1500)
    model(r, flow, "client", "MCClient")
    model(r, flow, "client", "MCClient", args=["--fixed", "no", "--random", "20", "--seed", str(r.seed)], name="MCClient_random")
    if thorough:
        for i in range(6):
            if r.left() < 90 or r.violations:
                break
            model(r, flow, "client", "MCClient", args=["--fixed", "no", "--random", "150", "--cuts", "24", "--seed", str(r.seed * 100 + i + 7)],
                  name="MCClient_random%d" % i, cap=400000)


def server(r):
    r.assumptions = ASSUME
    flow = r.cargo("flow")
    thorough = r.tier == "thorough"
    if r.prop[0] == "S":
        history(r)
    random(r, flow, "server", 16000 if thorough else 1200)
    model(r, flow, "server", "MCServer", cap=None if thorough else 50000)
    if thorough:
        for i in range(6):
            if r.left() < 120 or r.violations:
                break
            model(r, flow, "server", "MCServer", args=["--fixed", "no", "--random", "60", "--cuts", "16", "--seed", str(r.seed * 100 + i + 7)],
                  name="MCServer_random%d" % i, cap=300000)


def session(r):
    r.assumptions = ASSUME
    flow = r.cargo("flow")
    thorough = r.tier == "thorough"
    random(r, flow, "session", 12000 if thorough else 800)
    model(r, flow, "session", "MCSession", args=["--grain", "3" if thorough else "1"], cap=None if thorough else 20000)
    model(r, flow, "session", "MCSession", "MCSessionLive", args=["--grain", "2" if thorough else "1"], emit=False)
