"""What the proxy logs: sessions full of marked secrets, judged by TraceLog."""
import base64, glob, json, os, random as rnd
import proxies
from core import ToolError, marked
from proxies import BOTH, PLAIN, TLSB, TLSU, Session, alone

# Levels at which the log is taken; at trace, raw bytes of the stream are left out.
LEVELS = {"info": "info", "debug": "debug", "trace": "trace,imap_next::stream=off"}
ODD = ["", "", "", "\\", "%", " ", "{", "ä"]


class Marks:
    """Secrets that occur nowhere else."""

    def __init__(self, r, name):
        self.r, self.n, self.name, self.parts = r, 0, name, []

    def new(self, part, odd=False):
        self.n += 1
        s = "".join(self.r.choice("BCDFGHJKLMNPQRSTVWXZbcdfghjkmnpqrstvwxz") for _ in range(10)) + str(self.n)
        if odd:
            k = self.r.randrange(1, 6)
            s = s[:k] + self.r.choice(ODD[:7]) + s[k:]
        self.parts.append({"part": part, "text": s, "seen": []})
        return s


def b64(s):
    return base64.b64encode(s.encode("latin1")).decode()


def session(r, name, to):
    m = Marks(r, name)
    s = Session(name, to).dial().up()
    q = []
    hi = r.random()
    if hi < 0.15:
        q.append(("u", "%s nonsense %s\r\n" % (r.choice(["*", "", "A1", "+"]), m.new("discarded"))))
    elif hi < 0.25:
        q.append(("u", "* OK %s\n" % m.new("discarded")))
    q.append(("u", "* OK %s\r\n" % r.choice(["hi", "[CAPABILITY IMAP4REV1 XFOO] there"])))
    for n in range(r.choice([2, 3, 4, 6])):
        t = "A%d" % (n + 1)
        k = r.choice(["login", "login", "login", "auth", "auth", "authir", "badc", "badu", "early", "idle", "toolong", "append"])
        end = ("u", "%s %s\r\n" % (t, r.choice(["OK in", "NO sorry", "BAD wrong", "NO [ALERT] locked"])))
        if k == "login":
            p = m.new("password", True)
            u = m.new("open")
            how = r.choice(["q", "s", "s", "n", "a", "refused"])
            if how == "a":
                p = m.new("password")
                q.append(("c", "%s LOGIN %s %s\r\n" % (t, u, p)))
            elif how == "q":
                q.append(("c", '%s LOGIN %s "%s"\r\n' % (t, u, p.replace("\\", "\\\\").replace('"', '\\"'))))
            elif how == "n":
                q.append(("c", "%s LOGIN %s {%d+}\r\n%s\r\n" % (t, u, len(p), p)))
            elif how == "s":
                q += [("c", "%s LOGIN %s {%d}\r\n" % (t, u, len(p))), ("c", p + "\r\n"), ("u", "+ go\r\n")]
            else:
                q += [("c", "%s LOGIN %s {%d}\r\n" % (t, u, len(p))), ("c", p + "\r\n"), ("u", "%s BAD %s\r\n" % (t, r.choice(["no", "[ALERT] no"])))]
                end = None
            if end:
                q.append(end)
        elif k in ("auth", "early", "authir"):
            p = m.new("initial" if k == "authir" else "data", True)
            line = b64("\0" + m.new("open") + "\0" + p)
            mech = r.choice(["PLAIN", "LOGIN", "XOAUTH2", "SCRAM-SHA-256"])
            if k == "authir":
                q.append(("c", "%s AUTHENTICATE %s %s\r\n" % (t, mech, line)))
            else:
                q.append(("c", "%s AUTHENTICATE %s\r\n" % (t, mech)))
                l = [("u", "+ %s\r\n" % r.choice(["", "QUJD"])), ("c", line + "\r\n")]
                q += l[::-1] if k == "early" else l
                if r.random() < 0.3:
                    q.append(("c", "%s!!\r\n" % m.new("discarded")))
                if r.random() < 0.4:
                    q += [("u", "+ \r\n"), ("c", r.choice([b64(m.new("data")), "*"]) + "\r\n")]
            q.append(end)
        elif k == "badc":
            x = m.new("discarded")
            q.append(("c", r.choice(["%s\r\n", "A9 LOGIN %s\r\n", "A9 LOGIN a %s\n", "%s NOOP NOOP\r\n", "A9 SELECT {3}\r\nabc %s\r\n", "\0%s\r\n"]) % x))
        elif k == "toolong":
            q.append(("c", "A9 LOGIN %s {99999999%s}\r\n" % (m.new("discarded"), r.choice(["", "+"]))))
        elif k == "badu":
            x = m.new("discarded")
            q.append(("u", r.choice(["%s\r\n", "* 1 FETCH (BODY[] {3}\r\nabc %s\r\n", "* OK %s\n", "A1 %s\r\n", "* %s nonsense\r\n"]) % x))
        elif k == "idle":
            q += [("c", t + " IDLE\r\n"), ("u", "+ idling\r\n"), ("c", r.choice(["DONE\r\n", "DONE\r\n", m.new("discarded") + "\r\nDONE\r\n"])), ("u", t + " OK done\r\n")]
        else:
            x = m.new("open")
            q += [("c", "%s APPEND in {%d+}\r\n%s\r\n" % (t, len(x), x)), end]
    while q:
        side, b = q.pop(0)
        while q and q[0][0] == side and r.random() < 0.4:
            b += q.pop(0)[1]
        cut = r.randrange(1, len(b)) if len(b) > 1 and r.random() < 0.3 else 0
        for p in (b[:cut], b[cut:]):
            if p:
                s.io(c=p if side == "c" else "", u=p if side == "u" else "")
    how = r.choice(["half", "gone", "reset", ""])
    if how:
        s.io(**{r.choice(["cx", "ux"]): how})
    s.tick()
    return s, m


def forms(s):
    """What a secret may look like in a log: parts of it, raw, escaped, as numbers, in base64."""
    out = set()
    raw = s.encode("latin1")
    for i in range(0, len(raw) - 5):
        w = raw[i:i + 6]
        out.add(w.decode("latin1"))
        out.add("".join("\\\\" if c == 92 else chr(c) for c in w))
        for sep in (", ", ","):
            out.add(sep.join(str(c) for c in w))
        for f in ("%02x", "%02X"):
            out.add("".join(f % c for c in w))
    for pad in range(3):
        e = base64.b64encode(b"\0" * pad + raw).decode()
        e = e[4 if pad else 0:len(e) - 4]
        out |= {e[i:i + 7] for i in range(0, len(e) - 6)}
    return out


def logs(r, px=None, count=None, salt=0):
    r.assumptions = proxies.ASSUME
    px = px or proxies.Proxy(r)
    count = count or (3000 if r.tier == "thorough" else 400)
    g = rnd.Random("%d/logs/%s" % (r.seed, salt))
    kinds = [PLAIN, PLAIN, PLAIN, TLSB, TLSU, BOTH]
    both = [session(g, "log/%s/%d" % (salt, i), g.choice(kinds)) for i in range(count)]
    ended = []
    size = {}
    for level, spec in LEVELS.items():
        before = set(glob.glob(r.path("out*")))
        res = px.run([alone(s).steps for s, _ in both], log=spec)
        text = "".join(open(f, errors="replace").read() for f in sorted(set(glob.glob(r.path("out*"))) - before))
        size[level] = len(text)
        ended += [s.name for (s, _), x in zip(both, res) if x is None or x["hang"] or x["ended"]]
        # Forms by their beginnings: one pass over the log.
        have = {}
        for _, m in both:
            for p in m.parts:
                for f in forms(p["text"]):
                    have.setdefault(f[:6], []).append((f, p))
        keys = set(have)
        for i in range(len(text) - 5):
            w = text[i:i + 6]
            if w in keys:
                for f, p in have[w]:
                    if level not in p["seen"] and text.startswith(f, i):
                        p["seen"].append(level)
    if len(ended) > count // 2:
        raise ToolError("most sessions ended early: %s" % ended[:3])
    traces = [{"name": s.name, "parts": [{k: p[k] for k in ("part", "text", "seen")} for p in m.parts]} for s, m in both]
    f = r.path("log-traces.json")
    json.dump(traces, open(f, "w"))
    out, _, _ = r.tlc("TraceLog", env={"TRACES": f}, timeout=300)
    bad = list(marked(out))
    ok = sum(1 for l in open(out, errors="replace") if l.startswith('"@ok'))
    if ok + len(bad) != len(traces):
        raise ToolError("TraceLog judged %d of %d" % (ok + len(bad), len(traces)))
    steps = {s.name: s.steps for s, _ in both}
    for b in bad:
        r.violation(b["blame"], "%s: the log shows %s" % (b["bad"], json.dumps(b["got"])), {"verdict": b, "steps": steps[b["bad"]]})
    r.validated += len(traces)
    n = {}
    for t in traces:
        for p in t["parts"]:
            n[p["part"]] = n.get(p["part"], 0) + 1
    r.note("logs", sessions=count, parts=n, bytes=size, open_parts_seen=sum(1 for t in traces for p in t["parts"] if p["part"] == "open" and p["seen"]))
    r.sample("%s: %s" % (traces[0]["name"], json.dumps(traces[0]["parts"])))
