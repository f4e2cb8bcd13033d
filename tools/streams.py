"""The I/O driver: schedules of MCStream on the real Stream over a scripted transport; random runs; real sockets."""
import json, os, random as rnd
from core import ToolError, marked

ASSUME = [
    "the transport behaves like tokio's TcpStream (stand-in in harness/faketokio; real sockets in the socket runs)",
    "TLS records are produced and checked by the rustls in use; the handshake by the stand-in for tokio-rustls",
]
ALL = 1000000000


def out(n): return {"k": "out", "n": n}
def need(n): return {"k": "need", "n": n}


EV = {"k": "ev", "n": 0}
ERR = {"k": "err", "n": 0}


def script(name, items, chunks=(), grants=(ALL,), stops=(), modes=("plain", "c13", "s13"), hand=0, placed=0,
           waits=3, flushes=1, polls=3, drops=2):
    r = []
    for m in modes:
        if (hand or placed) and m == "plain":
            continue
        r.append({"name": "%s/%s" % (name, m), "mode": m, "tls": m != "plain", "hand": hand, "placed": placed,
                  "script": list(items), "chunks": list(chunks), "grants": list(grants), "stops": list(stops),
                  "waits": waits, "flushes": flushes, "polls": polls, "drops": drops})
    return r


def fixed():
    s = []
    T = ("c13", "s13", "c12", "s12")
    s += script("echo", [out(5), need(4), EV], [4], [2, ALL])
    s += script("events", [EV, ERR, EV], [3], [ALL])
    s += script("out-event", [out(3), EV, out(2), ERR], [], [1, 4, ALL], modes=("plain",))
    s += script("out-event", [out(3), EV, out(2), ERR], [], [ALL], modes=("c13", "s13"))
    s += script("two-needs", [need(2), EV, need(5), EV], [2, 3], [])
    s += script("need-across", [need(4), EV], [2, 1, 3], [ALL])
    s += script("burst", [out(4), out(3), need(3), out(2), EV], [3], [5, ALL])
    s += script("read-while-blocked", [out(6), need(2), EV, need(4), ERR], [2, 2], [3, ALL])
    s += script("big", [out(70000), need(20000), EV], [20000], [9, ALL], polls=2)
    s += script("big-record", [out(16385), need(40000), ERR], [40000], [ALL], modes=("c13", "s12"), drops=1)
    s += script("half", [out(3), need(2), EV], [2, 2], [1, ALL], ["half"])
    s += script("gone", [out(3), need(2), EV], [2], [ALL], ["gone"])
    s += script("reset", [out(3), need(2), ERR], [2], [ALL], ["reset"])
    s += script("notify", [need(2), EV, out(2)], [2, 3], [ALL], ["notify"], modes=T)
    s += script("notify-half", [need(2), EV], [2], [ALL], ["notify", "half"], modes=T)
    s += script("half-gone", [need(2), EV, out(2)], [2], [ALL], ["half", "gone"])
    s += script("handover", [need(3), EV, out(2)], [2], [ALL], modes=T, hand=3)
    s += script("handover-more", [need(3), EV, need(6), EV], [2, 1], [ALL], modes=T, hand=3, polls=2, drops=1)
    s += script("handover-long", [out(1), need(700), EV, need(705), ERR], [5], [ALL], modes=T, hand=700, polls=2, drops=1)
    s += script("handover-closed", [need(3), EV], [], [ALL], ["half"], modes=T, hand=3)
    s += script("handover-notify", [need(3), EV], [], [ALL], ["notify"], modes=T, hand=3)
    s += script("placed", [need(2), EV], [2], [5, ALL], modes=T, placed=4)
    s += script("placed-handover", [out(2), need(5), EV], [3], [ALL], modes=T, placed=4, hand=2, polls=2, drops=1)
    return s


def generated(seed, count, calls):
    r = rnd.Random(seed)
    s = []
    for i in range(count):
        mode = r.choice(["plain", "plain", "c13", "s13", "c12", "s12"])
        tls = mode != "plain"
        hand = r.choice([0, 0, 1, 3, 130]) if tls else 0
        placed = r.choice([0, 0, 0, 2]) if tls else 0
        chunks = [r.choice([1, 2, 3, 50, 200, 17000]) for _ in range(r.randint(0, 3))]
        total, n, items = hand + sum(chunks), 0, []
        for _ in range(r.randint(2, 5)):
            k = r.random()
            if k < 0.4:
                items.append(out(r.choice([1, 2, 5, 100, 70000])))
            elif k < 0.65 and n < total:
                n = r.randint(n + 1, total)
                items.append(need(n))
            else:
                items.append(r.choice([EV, EV, ERR]))
        grants = [r.choice([1, 2, 4, 60]) for _ in range(r.randint(0, 1 if tls else 2))] + [ALL]
        stops = r.choice([[], [], ["half"], ["gone"], ["reset"], ["half", "gone"]] + ([["notify"], ["notify", "half"]] if tls else []))
        s += script("gen%d" % i, items, chunks, grants, stops, (mode,), hand, placed, waits=calls, polls=2, drops=1)
    return s


def judge(r, file, what):
    n = len(json.load(open(file)))
    if n == 0:
        return
    out, _, _ = r.tlc("TraceStream", env={"TRACES": file}, timeout=700)
    ok = sum(1 for l in open(out, errors="replace") if l.startswith('"@ok'))
    bad = list(marked(out))
    if ok + len(bad) != n:
        raise ToolError("TraceStream judged %d of %d" % (ok + len(bad), n))
    by = {t["name"]: t for t in json.load(open(file))}
    for b in bad:
        t = by[b["bad"]]
        r.violation(b["blame"], "%s step %d: %s after %s" % (b["bad"][:200], b["step"], json.dumps(b["got"]), json.dumps(b["exp"])),
                    {"verdict": b, "trace": t})
    t = by[sorted(by)[n // 2]]
    r.sample("%s: %s" % (t["name"], " ; ".join(" ".join(str(e[k]) for k in ("a", "c", "o", "n", "how") if k in e) for e in t["log"][:25])))
    r.validated += n
    r.note(what, judged=n, entries=sum(len(t["log"]) for t in by.values()), rejected=len(bad))


def model(r, exe, scripts, name, cap, every):
    s = r.path(name + "-scripts.json")
    json.dump(scripts, open(s, "w"))
    out, dist, gen = r.tlc("MCStream", env={"SCRIPTS": s, "EMIT": "1"}, timeout=800)
    t = r.path(name + "-runs.json")
    p = r.sh([exe, "replay", "--scripts", s, "--tlc", out, "--out", t, "--cap", str(cap), "--every", str(every), "--seed", str(r.seed)],
             800, what="replay of " + name)
    st = json.loads(p.stdout.decode().strip().splitlines()[-1])
    if st["runs"] == 0:
        raise ToolError("no schedules")
    r.note(name, scripts=len(scripts), states=dist, transitions=gen, schedules=st["of"], replayed=st["runs"], differ=st["differ"])
    r.log("replayed %(runs)d of %(of)d schedules, %(differ)d differ" % st)
    r.validated += st["runs"] - st["kept"]
    judge(r, t, name + "_judged")
    os.remove(out)


def random(r, exe, count, salt=0):
    f = r.path("random%d.json" % salt)
    p = r.sh([exe, "random", "--seed", str(r.seed * 1000 + salt), "--count", str(count), "--out", f], 600, what="random runs")
    st = json.loads(p.stdout.decode().strip().splitlines()[-1])
    r.note("random%d" % salt, **st)
    judge(r, f, "random%d_judged" % salt)


def design(r):
    """The byte-level design: two streams, bounded channels, partial reads and writes, cancellation."""
    thorough = r.tier == "thorough"
    base = {"TOTAL": "3", "CAP": "2"} if not thorough else {"TOTAL": "4", "CAP": "3"}
    for name, env in [("plain", {}), ("tls", {"TLS": "1", "HELD": "1"}), ("cancel", {"CANCEL": "1", "TLS": "1"}),
                      ("close", {"CLOSE": "1", "CANCEL": "1"}), ("tls_close", {"CLOSE": "1", "TLS": "1"})]:
        if not thorough and name.startswith("tls"):
            env = dict(env, TOTAL="2")
        _, d, g = r.tlc("Duplex", env=dict(base, **env))
        r.note("Duplex_" + name, states=d, transitions=g)
    _, d, g = r.tlc("Duplex", "DuplexLive", env=base)
    r.note("Duplex_finishes", states=d, transitions=g)


def stream(r):
    r.assumptions = ASSUME
    thorough = r.tier == "thorough"
    exe = r.cargo("siofake")
    design(r)
    random(r, exe, 6000)
    if not r.violations:
        model(r, exe, fixed(), "MCStream", 10 ** 9 if thorough else 25000, 1 if thorough else 2)
    if not r.violations:
        model(r, exe, generated(r.seed, 60 if not thorough else 300, 2), "MCStream_generated", 10 ** 9 if thorough else 12000, 2)
    if thorough:
        for i in range(1, 11):
            if r.left() < 90 or r.violations:
                break
            random(r, exe, 12000, i)
            model(r, exe, generated(r.seed * 100 + i, 200, 3), "MCStream_generated%d" % i, 60000, 2)
