"""The proxy as a program: started with documents of MCBoot, probed at all addresses, judged by TraceBoot."""
import json, os, random as rnd
from concurrent.futures import ThreadPoolExecutor
from core import HARNESS, ToolError, marked

CERTS = os.path.join(HARNESS, "certs")
GREETING, COMMAND = "* OK hello\r\n", "A1 NOOP\r\n"
ASSUME = ["tokio's sockets and runtime behave like the stand-ins in harness/faketokio; two services can't have one address"]


def toml(doc):
    l = []

    def put(key, x):
        if x["t"] == "str":
            l.append("%s = %s" % (key, json.dumps(x["v"])))
        elif x["t"] == "port":
            l.append("%s = %d" % (key, x["n"]))
        elif x["t"] != "none":
            l.append("%s = %s" % (key, x["v"]))

    if not doc["services"]:
        return "services = []\n"
    for s in doc["services"]:
        l.append("[[services]]")
        put("name", s["name"])
        for side in ("bind", "connect"):
            d = s[side]
            l.append("[services.%s]" % side)
            put("encryption", d["enc"])
            put("host", d["host"])
            put("port", d["port"])
            if d["id"]["t"] == "table":
                l.append("[services.%s.identity]" % side)
                put("type", d["id"]["kind"])
                for k, f, ext in (("cert", "certificate_chain_path", "pem"), ("key", "leaf_key_path", "key")):
                    l.append("%s = %s" % (f, json.dumps(os.path.join(CERTS, "%s.%s" % (d["id"][k]["v"], ext)))))
    return "\n".join(l) + "\n"


def steps(p):
    d = {"t": "dial", "i": 0, "to": p["to"], "tls": p["client"] == "tls", "any": True}
    u = {"t": "up", "i": 0, "how": "refuse" if p["up"] == "refuse" else "ok"}
    if p["up"] not in ("refuse", "plain"):
        u["tls"] = p["up"]
    l = [d, u, {"t": "in", "i": 0, "u": GREETING}, {"t": "in", "i": 0, "c": COMMAND}]
    # Should it dial again: the same is there, then somebody without TLS.
    for v in (u, dict(u, tls=None)):
        l += [dict(x, again=True) for x in (v, l[2], l[3])]
    return l + [{"t": "tick", "i": 0}]


def observed(log):
    seen = [x for e in log for x in e["seen"]]
    x = seen[-1]
    co, uo = "".join(y["co"] for y in seen), "".join(y["uo"] for y in seen)
    o = {k: x[k] for k in ("refused", "hs", "cert", "ck", "uk", "uhs", "sni")}
    o["to"] = x["to"].replace("[", "").replace("]", "")
    o["greeted"], o["relayed"] = GREETING in co, COMMAND in uo
    return o


def start(r, exe, docs):
    """docs: [{doc, busy, probes}]; what was found there."""
    def one(k):
        d = docs[k]
        cfg, jobs, out = (r.path("boot%d.%s" % (k, x)) for x in ("toml", "jobs", "out"))
        open(cfg, "w").write(toml(d["doc"]))
        jobs_ = [steps(p) for p in d["probes"]]
        with open(jobs, "w") as f:
            f.writelines(json.dumps(j) + "\n" for j in jobs_)
        p = r.sh([exe, "--config", cfg], 300, out=r.path("boot%d.log" % k), ok=None, what="pfake",
             env={"DRIVE_JOBS": jobs, "DRIVE_OUT": out, "DRIVE_CERTS": CERTS, "DRIVE_BUSY": " ".join(d["busy"]), "DRIVE_MORE": "1",
                  "SSL_CERT_FILE": os.path.join(CERTS, "roots.pem"), "RUST_LOG": "off"})
        l = [json.loads(x) for x in open(out) if x.endswith("\n")] if os.path.exists(out) else []
        for f in (jobs, out, cfg, r.path("boot%d.log" % k)):
            if os.path.exists(f):
                os.remove(f)
        t = {"name": "%s%s busy %s" % (" | ".join(summary(s) for s in d["doc"]["services"]) or "no services", "", d["busy"]),
             "doc": d["doc"], "busy": d["busy"], "bound": [], "ended": True, "hang": any(x["hang"] for x in l), "probes": []}
        if l:
            t["bound"], t["ended"] = l[0].get("bound", []), l[0]["ended"]
            if len(l) < len(jobs_) and not t["hang"]:
                raise ToolError("the driver ended after %d of %d probes: %s" % (len(l), len(jobs_), p.stderr.decode(errors="replace")[-800:]))
            for x in l:
                if not x["hang"]:
                    t["probes"].append({"p": d["probes"][x["n"]], "obs": observed(x["log"])})
            # listening must not change, whatever clients do
            if l[-1].get("bound", t["bound"]) != t["bound"] or l[-1]["ended"] != t["ended"]:
                t["bound"], t["ended"] = l[-1].get("bound", []), l[-1]["ended"]
        return t

    with ThreadPoolExecutor(8) as ex:
        return list(ex.map(one, range(len(docs))))


def summary(s):
    def side(d):
        return "%s %s:%s" % (d["enc"]["v"] or "?", d["host"]["v"], d["port"]["n"] if d["port"]["t"] == "port" else d["port"]["v"] or "-")
    return "%s -> %s" % (side(s["bind"]), side(s["connect"]))


def suits(s, p):
    """Does the prober speak what this service says?"""
    b, c = s["bind"], s["connect"]
    up = {"localhost": "leaf", "127.0.0.1": "leaf"}.get(c["host"]["v"], c["host"]["v"].split(".")[0]) if c["enc"]["v"] == "Tls" else "plain"
    return p["to"].startswith(b["host"]["v"] + ":") and (p["client"] == "tls") == (b["enc"]["v"] == "Tls") and p["up"] == up


def judge(r, list_, what):
    hung = [t for t in list_ if t["hang"]]
    for t in hung:
        r.violation(["P06", "K03"], "%s: the proxy hangs" % t["name"], t)
    list_ = [t for t in list_ if not t["hang"]]
    for i, t in enumerate(list_):
        t["name"] = "%s %d: %s" % (what, i, t["name"])
    f = r.path(what + ".json")
    json.dump(list_, open(f, "w"))
    out, _, _ = r.tlc("TraceBoot", env={"TRACES": f})
    ok = sum(1 for l in open(out, errors="replace") if l.startswith('"@ok'))
    bad = list(marked(out))
    if ok + len(bad) != len(list_):
        raise ToolError("TraceBoot judged %d of %d" % (ok + len(bad), len(list_)))
    by = {t["name"]: t for t in list_}
    for b in bad:
        r.violation(b["blame"], "%s: listens at %s (expected %s)%s; %s" % (
            b["bad"][:300], b["bound"], b["listen"], ", ended" if b["ended"] else "",
            "; ".join("%s: got %s, allowed %s" % (json.dumps(x["p"]), json.dumps(x["got"]), json.dumps(x["allowed"])) for x in b["probes"][:2])[:1500]),
            {"verdict": b, "toml": toml(by[b["bad"]]["doc"])})
    n = sum(len(t["probes"]) for t in list_)
    if list_:
        t = list_[len(list_) // 2]
        r.sample("%s: %s" % (t["name"], "; ".join("%s/%s/%s -> %s" % (x["p"]["to"], x["p"]["client"], x["p"]["up"],
                 "refused" if x["obs"]["refused"] else "to %s, greeted %s" % (x["obs"]["to"], x["obs"]["greeted"])) for x in t["probes"][:4])))
    r.validated += n
    r.note(what, documents=len(list_), probes=n, rejected=len(bad))


def boot(r):
    """Runs after the other suites."""
    try:
        exe = r.cargo("pfake")
    except ToolError as e:
        if "skipped" in r.detail.get("config", {}):
            raise
        # Not for this check to decide.
        r.log("the proxy doesn't build with its stand-ins; not started: %s" % str(e)[:300])
        r.note("boot", skipped="build")
        return
    r.assumptions = r.assumptions + ASSUME
    thorough = r.tier == "thorough"
    g = rnd.Random("%d/boot" % r.seed)
    for part, share in (("one", 1.0), ("many", 0.3), ("none", 1.0)):
        out, dist, gen = r.tlc("MCBoot", env={"EMIT": "1", "PART": part})
        docs = [(d["doc"], sorted(d["busy"]), sorted(d["addrs"])) for d in marked(out)]
        r.note("MCBoot_" + part, states=dist, transitions=gen, documents=len(docs))
        if not thorough and share < 1:
            docs = g.sample(docs, int(len(docs) * share))
        todo = []
        for doc, busy, addrs in docs:
            ps = [{"to": a, "client": c, "up": u} for a in addrs for c in ("plain", "tls") for u in ("refuse", "plain", "leaf", "imap", "mail", "other")]
            if thorough:
                g.shuffle(ps)
            else:
                m = [x for x in ps if any(suits(s, x) for s in doc["services"])]
                ps = m + g.sample(ps, 9)
            todo.append({"doc": doc, "busy": busy, "probes": ps})
        judge(r, start(r, exe, todo), "boot_" + part)
        os.remove(out)
