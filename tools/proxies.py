"""The proxy: schedules of MCProxy and random sessions on the real imapproxy over a scripted network, judged by TraceProxy."""
import json, os, random as rnd
from concurrent.futures import ThreadPoolExecutor
from core import HARNESS, ToolError, known_findings, marked

ASSUME = [
    "tokio's sockets, timers and runtime behave like the stand-ins in harness/faketokio (one thread, virtual time)",
    "imap-types/imap-codec (stand-in in harness/compat) decide what is a well-formed message and how it is written",
]
ALL = ["P01", "P02", "P03", "P04", "P05", "P06", "P07"]
PLAIN, TLSB, TLSU, BOTH = "127.0.0.1:2001", "127.0.0.1:2002", "127.0.0.1:2003", "127.0.0.1:2004"
SERVICES = {  # bind address: (client TLS, upstream TLS, upstream address)
    PLAIN: (False, False, "127.0.0.1:3001"), TLSB: (True, False, "127.0.0.1:3002"),
    TLSU: (False, True, "localhost:3003"), BOTH: (True, True, "localhost:3004"),
}


def config(path):
    certs = os.path.join(HARNESS, "certs")
    with open(path, "w") as f:
        for b, (ctls, utls, up) in SERVICES.items():
            f.write('[[services]]\nname = "%s"\n[services.connect]\nencryption = "%s"\nhost = "%s"\nport = %s\n' % (
                b, "Tls" if utls else "Insecure", *up.rsplit(":", 1)))
            f.write('[services.bind]\nencryption = "%s"\nhost = "%s"\nport = %s\n' % ("Tls" if ctls else "Insecure", *b.rsplit(":", 1)))
            if ctls:
                f.write('identity = { type = "CertificateChainAndLeafKey", certificate_chain_path = "%s/leaf.pem", leaf_key_path = "%s/leaf.key" }\n' % (certs, certs))


# -- a session: what is sent, and the steps in which it is sent ------------------------------------

FAILS = ["aborted", "files", "memory", "interrupted"]


class Session:
    def __init__(self, name, to=PLAIN, i=0):
        self.name, self.to, self.i = name, to, i
        self.c = self.u = ""
        self.steps = []
        self.judged = True

    def add(self, t, **kw):
        self.steps.append(dict(kw, t=t, i=self.i))
        return self

    def dial(self, room=None):
        d = {"to": self.to, "tls": SERVICES[self.to][0]}
        if room is not None:
            d["room"] = room
        return self.add("dial", **d)

    def fail(self, kind):
        """A connection that can't even be accepted."""
        self.judged = False
        return self.add("accfail", to=self.to, kind=kind)

    def up(self, how="ok", room=None, cert="leaf"):
        d = {"how": how}
        if SERVICES[self.to][1]:
            d["tls"] = cert
        if room is not None:
            d["room"] = room
        return self.add("up", **d)

    def io(self, c="", u="", cx=None, ux=None):
        self.c += c
        self.u += u
        d = {"c": c, "u": u}
        if cx:
            d["cx"] = cx
        if ux:
            d["ux"] = ux
        return self.add("in", **d)

    def tick(self):
        return self.add("tick")


class Job:
    """Steps of one or several sessions, in the order in which they are taken."""

    def __init__(self, sessions, order=None, steps=None):
        self.sessions = sessions
        self.steps = steps if steps is not None else [s for x in sessions for s in x.steps]


def alone(s):
    return Job([s])


# -- running ---------------------------------------------------------------------------------------

class Proxy:
    def __init__(self, r):
        self.r = r
        self.exe = r.cargo("pfake")
        self.gen = r.cargo("pgen")
        self.n = 0
        self.cfg = r.path("config.toml")
        config(self.cfg)

    def tables(self, list_):
        """Scripts with what the codecs make of them."""
        self.n += 1
        parts = split(list_, 8)

        def one(k):
            a, b = self.r.path("pgen%d-%d.in" % (self.n, k)), self.r.path("pgen%d-%d.out" % (self.n, k))
            json.dump(parts[k], open(a, "w"))
            self.r.sh([self.gen, a, b], 300, what="tables")
            return json.load(open(b))

        with ThreadPoolExecutor(8) as ex:
            return [x for p in ex.map(one, range(len(parts))) for x in p]

    def run(self, jobs, procs=8, log="off"):
        """One result per job: {hang, ended, panics, log}."""
        self.n += 1
        certs = os.path.join(HARNESS, "certs")
        parts = split(list(range(len(jobs))), procs)
        res = [None] * len(jobs)

        def one(k):
            todo, n = parts[k], 0
            while todo:
                n += 1
                a, b = self.r.path("jobs%d-%d-%d" % (self.n, k, n)), self.r.path("seen%d-%d-%d" % (self.n, k, n))
                with open(a, "w") as f:
                    for j in todo:
                        f.write(json.dumps(jobs[j]) + "\n")
                p = self.r.sh([self.exe, "--config", self.cfg], 900, out=self.r.path("out%d-%d" % (self.n, k)),
                          env={"DRIVE_JOBS": a, "DRIVE_OUT": b, "DRIVE_CERTS": certs, "SSL_CERT_FILE": os.path.join(certs, "ca.pem"),
                               "RUST_LOG": log}, ok=None, what="pfake")
                if p.stderr:
                    with open(self.r.path("out%d-%d-%d.err" % (self.n, k, n)), "wb") as f:
                        f.write(p.stderr)
                out = [json.loads(l) for l in open(b)] if os.path.exists(b) else []
                for o in out:
                    res[todo[o["n"]]] = o
                done = max([o["n"] for o in out], default=-1) + 1
                os.remove(a)
                if os.path.exists(b):
                    os.remove(b)
                if done < len(todo) and not (out and out[-1]["hang"]):
                    # It ended by itself.
                    res[todo[done]] = {"n": done, "hang": False, "ended": True, "panics": ["the process ended"], "log": []}
                    done += 1
                todo = todo[done:]
                if n > 5:
                    return

        with ThreadPoolExecutor(procs) as ex:
            list(ex.map(one, range(len(parts))))
        return res


def split(l, n):
    k = max(1, (len(l) + n - 1) // n)
    return [l[i:i + k] for i in range(0, len(l), k)]


def traces(job, res):
    """What each session of the job experienced."""
    out = []
    for s in job.sessions:
        log, cn, un, noup, last = [], 0, 0, True, None
        for st, e in zip(job.steps, res["log"]):
            mine = st["i"] == s.i
            seen = [x for x in e["seen"] if x["i"] == s.i]
            t = st["t"] if mine else "other"
            if t == "steps":
                t = "other"
            if t == "tick" or st["t"] == "tick":
                t = "tick"
            if not seen:
                if t != "tick" or last is None:
                    continue
                seen = [dict(last, co="", uo="")]
            x = last = seen[0]
            if t == "up" and st["how"] == "ok" and x["asks"]:
                noup = False
            if t == "in":
                cn += len(st.get("c", ""))
                un += len(st.get("u", ""))
            log.append({"t": t, "how": (st["how"] if st.get("tls") != "other" else "refuse") if t == "up" else "", "cn": cn, "un": un,
                        "cx": st.get("cx", "") if t == "in" else "", "ux": st.get("ux", "") if t == "in" else "",
                        "co": x["co"], "uo": x["uo"], "cd": x["cd"], "ud": x["ud"], "cb": x["cb"], "ub": x["ub"],
                        "asks": x["asks"], "dials": e["dials"], "to": x["to"], "noup": noup})
        out.append(log)
    return out


def judge(r, list_, what):
    """list_: [{name, multi, log, + tables}]"""
    if not list_:
        return
    f = r.path("%s-traces.json" % what)
    json.dump(list_, open(f, "w"))
    out, _, _ = r.tlc("TraceProxy", env={"TRACES": f}, timeout=800)
    ok = sum(1 for l in open(out, errors="replace") if l.startswith('"@ok'))
    skip = sum(1 for l in open(out, errors="replace") if l.startswith('"@skip'))
    bad = list(marked(out))
    if ok + len(bad) + skip != len(list_):
        raise ToolError("TraceProxy judged %d of %d" % (ok + len(bad), len(list_)))
    if skip * 20 > len(list_) + 100:
        raise ToolError("TraceProxy could not judge %d of %d" % (skip, len(list_)))
    by = {t["name"]: t for t in list_}
    for b in bad:
        t = by[b["bad"]]
        d = {"verdict": b, "name": t["name"], "client": t["c"]["inp"], "upstream": t["u"]["inp"], "log": t["log"]}
        g = b["got"]
        r.violation(b["blame"], "%s step %d (%s): client got %r, upstream got %r, closed %s/%s; allowed: %s" % (
            b["bad"][:100], b["step"], g["t"], g["co"][:300], g["uo"][:300], g["cd"], g["ud"], json.dumps(b["exp"])[:1500]), d, b["sig"] or None)
    t = list_[len(list_) // 2]
    r.sample("%s: %s" % (t["name"], " ; ".join("%s c=%r u=%r" % (e["t"], e["co"], e["uo"]) for e in t["log"][:12])))
    r.validated += len(list_) - skip
    r.note(what, judged=len(list_) - skip, too_large=skip, entries=sum(len(t["log"]) for t in list_), rejected=len(bad))


def go(r, px, jobs, what):
    """Runs the jobs and judges every session."""
    tabs = px.tables([{"name": s.name, "c": s.c, "u": s.u} for j in jobs for s in j.sessions])
    res = px.run([j.steps for j in jobs])
    n, l = 0, []
    for j, x in zip(jobs, res):
        t = tabs[n:n + len(j.sessions)]
        n += len(j.sessions)
        if x is None:
            continue
        if x["hang"] or x["ended"]:
            r.violation(ALL, "%s: the proxy %s %s" % (j.sessions[0].name, "hangs" if x["hang"] else "ended", x["panics"][:1]),
                        {"steps": j.steps, "result": x})
            continue
        for s, tab, log in zip(j.sessions, t, traces(j, x)):
            if s.judged:
                l.append(dict(tab, multi=len(j.sessions) > 1, to=SERVICES[s.to][2], log=log))
    judge(r, l, what)


# -- conversations ---------------------------------------------------------------------------------

CAPS = ["IMAP4rev1", "imap4rev1", "AUTH=PLAIN", "AUTH=LOGIN", "AUTH=XOAUTH2", "AUTH=SCRAM-SHA-1", "AUTH=SCRAM-SHA-256",
        "AUTH=SCRAM-SHA-1-PLUS", "AUTH=SCRAM-SHA-256-PLUS", "AUTH=CRAM-MD5", "AUTH=GSSAPI", "auth=plain", "AUTH=", "AUTH",
        "SASL-IR", "QUOTA", "QUOTA=RES-STORAGE", "QUOTA=RES-X", "QUOTASET", "MOVE", "LITERAL+", "LITERAL-", "UNSELECT", "ID", "IDLE",
        "STARTTLS", "LOGINDISABLED", "NAMESPACE", "UIDPLUS", "CONDSTORE", "ENABLE", "BINARY", "METADATA", "METADATA-SERVER",
        "COMPRESS=DEFLATE", "SORT", "SORT=DISPLAY", "THREAD=REFERENCES", "XFOO", "IDLEX", "MOVES", "QUOTA=", "LITERAL", "IMAP4REV2", "UTF8=ACCEPT"]
BADU = ["*  nonsense\r\n", "* 1 EXISTS\n", "* OK bare\n", "xyz\r\n", "\r\n", "* FLAGS (\r\n", "* LIST {3}\r\nabc\r\n", "+\r\n", "A OK\n"]
BADC = ["nonsense\r\n", "A9 NOOP\n", "\r\n", "A9 LOGIN\r\n", "A9 LOGIN {2}\nab\r\n", "* OK x\r\n", "A9 XYZ\r\n", "\n", "A9 IDLE x\r\n", "A9 LOGIN a {1}\r\nb\n"]
TEXTS = ["done", "x", "please [see] this", "[ALERT", "proxy: Command rejected by server", "{3}", "a\tb"]
CODES = ["", "", "", "[ALERT] ", "[READ-WRITE] ", "[PARSE] ", "[UIDNEXT 4] ", "[X-FOO bar] ", "CAPS"]


# Commands of all kinds: $ is a string in any form, % a literal.
COMMANDS = ["LOGIN $ $", "SELECT $", "EXAMINE $", "CREATE $", "DELETE $", "RENAME $ $", "SUBSCRIBE $", "UNSUBSCRIBE $", "LIST $ $", "LSUB $ $",
            "STATUS $ (MESSAGES UIDNEXT)", "APPEND $ %", "APPEND $ (\\Seen \\Draft) %", "APPEND in %", "COPY 1:2 $", "UID COPY 3 $", "MOVE 4 $", "UID MOVE 2:* $",
            "GETQUOTA $", "GETQUOTAROOT $", "ID (& &)", "select $", "Append $ %"]
PLAIN_COMMANDS = ["CAPABILITY", "NOOP", "LOGOUT", "STARTTLS", "CHECK", "CLOSE", "EXPUNGE", "UNSELECT", "ENABLE CONDSTORE", "ENABLE IDLE X", "FETCH 1:* (FLAGS)",
                  "FETCH 1 ALL", "UID FETCH 5 (UID RFC822.SIZE)", "STORE 2 +FLAGS (\\Deleted)", "UID STORE 1:3 -FLAGS.SILENT (\\Seen)", "ID NIL", "noop", "LIST \"\" *"]


MORE_DATA = ["* 0 EXISTS\r\n", "* 4294967295 EXISTS\r\n", "* 2 RECENT\r\n", "* 1 EXPUNGE\r\n", "* FLAGS ()\r\n", "* FLAGS (\\Seen \\X-a)\r\n", "* SEARCH\r\n",
             "* SEARCH 2 3 4294967295\r\n", '* LIST () NIL {4}\r\na\r\nb\r\n', '* LSUB () "." in\r\n', "* STATUS {2}\r\nin (MESSAGES 2)\r\n", "* ENABLED CONDSTORE\r\n",
             "* ENABLED IDLE X-Y\r\n", '* QUOTAROOT in ""\r\n', "* ID NIL\r\n", '* ID ("name" {2}\r\n\r\n)\r\n', "* 1 FETCH (FLAGS (\\Seen \\Recent) UID 3)\r\n",
             "* 1 FETCH (BODY[] {0}\r\n RFC822 {3}\r\n)\r\n)\r\n", "* OK [UIDVALIDITY 1] x\r\n", "* OK [PERMANENTFLAGS (\\Seen \\*)] y\r\n", "* NO [TRYCREATE] z\r\n",
             "* BAD [X-NEW a b] w\r\n", "* BAD command rejected\r\n", "* NO [ALERT] full\r\n", "* BYE [ALERT] going\r\n", "* PREAUTH again\r\n", "* OK [BADCHARSET (x)] q\r\n"]


class Talk:
    """Dialogues: what the two sides say in which order."""

    def __init__(self, r):
        self.r, self.n = r, 0

    def tag(self):
        self.n += 1
        return self.r.choice(["A%d", "t%d", "%d", "x.%d", "A%d", "a]b}%d", "OK%d", "~!#$&',-./:;<=>?@[^_`|%d"]) % self.n

    def caps(self):
        return " ".join(self.r.choice(CAPS) for _ in range(self.r.choice([1, 1, 2, 3, 5, 9])))

    def code(self):
        c = self.r.choice(CODES)
        return "[CAPABILITY %s] " % self.caps() if c == "CAPS" else c

    def status(self, tag, st=None):
        return "%s %s %s%s\r\n" % (tag, st or self.r.choice(["OK", "OK", "OK", "NO", "BAD"]), self.code(), self.r.choice(TEXTS[:3]))

    def cont(self):
        return "+ " + self.r.choice(["go", "YWJj", "idling", self.code() + "x", "abc"]) + "\r\n"

    def greeting(self):
        r = self.r
        return r.choice(["* OK hi\r\n", "* OK hi\r\n", "* PREAUTH in\r\n", "* BYE no\r\n", "* OK [ALERT] look\r\n",
                         "* OK [CAPABILITY %s] hello\r\n" % self.caps(), "* OK [CAPABILITY %s] hello\r\n" % self.caps(),
                         "* PREAUTH [CAPABILITY %s] hello\r\n" % self.caps(), "* BYE [CAPABILITY %s] hello\r\n" % self.caps()])

    def data(self):
        r = self.r
        if r.random() < 0.3:
            return r.choice(MORE_DATA)
        return r.choice(["* 3 EXISTS\r\n", "* 12 EXPUNGE\r\n", "* FLAGS (\\Seen \\Deleted)\r\n", "* SEARCH 2 3\r\n", "* CAPABILITY %s\r\n" % self.caps(),
                         "* 1 FETCH (BODY[] {5}\r\nhello UID 4)\r\n", '* LIST (\\Noselect) "/" {3}\r\na b\r\n', "* OK [UNSEEN 3] first\r\n",
                         "* OK [CAPABILITY %s] list\r\n" % self.caps(), "* NO warn\r\n", "* BAD [ALERT] hm\r\n", "* BYE soon\r\n",
                         "* BYE [CAPABILITY %s] soon\r\n" % self.caps(), '* STATUS "in" (MESSAGES 2)\r\n', "* 1 FETCH (FLAGS (\\Seen))\r\n",
                         '* QUOTA "" (STORAGE 10 512)\r\n', '* ID ("name" "x")\r\n', '* 1 FETCH (BODY[TEXT] {300}\r\n%s)\r\n' % ("z" * 300)])

    def string(self, form=None):
        """Pieces of a string; behind each but the last waits a literal's continuation. And whether it does."""
        r = self.r
        v = r.choice(["a", "bob", "x y", "", "m" * 40, "a\r\nb", "q\"q", "{3}", "*", "A1 BAD x\r\n", "\r\n"])
        form = form or r.choice("aqSSNN")
        if form in "aq" and not set(v) & set("\r\n\"{*") and (form == "q" or v.isalnum()):
            return [v if form == "a" else '"%s"' % v]
        return ["{%d%s}\r\n" % (len(v), "+" if form == "N" else ""), v] if form != "N" else ["{%d+}\r\n%s" % (len(v), v)]

    def any_command(self):
        """A command of any kind, refused at any of its literals, or not."""
        r, t = self.r, self.tag()
        if r.random() < 0.25:
            return [("c", "%s %s\r\n" % (t, r.choice(PLAIN_COMMANDS))), ("u", self.status(t))]
        parts = [t + " "]
        for ch in r.choice(COMMANDS):
            p = self.string() if ch == "$" else self.string(r.choice("qSN")) if ch == "&" else self.string(r.choice("SSN")) if ch == "%" else [ch]
            parts[-1] += p[0]
            parts += p[1:]
        parts[-1] += "\r\n"
        n = len(parts) - 1
        at = r.choice([n, n, r.randrange(n + 1)])
        l = [("c", parts[0])]
        eager = r.random() < 0.5
        if eager:
            l += [("c", p) for p in parts[1:]]
        for i in range(n):
            if i == at:
                text = "%s %s%s\r\n" % (r.choice(["BAD", "BAD", "BAD", "BAD", "NO", "OK"]), self.code(), r.choice(TEXTS))
                l.append(("u", t + " " + text))
                if not eager:   # it was sent all the same
                    l += [("c", p) for p in parts[1 + i:]]
                return l
            if r.random() < 0.15:
                l.append(("u", self.data()))
            l.append(("u", r.choice(["+ ok\r\n", "+ \r\n", self.cont()])))
            if not eager:
                l.append(("c", parts[1 + i]))
        return l + [("u", self.data()) for _ in range(r.choice([0, 0, 1]))] + [("u", self.status(t))]

    def command(self):
        """[(side, bytes)]"""
        r = self.r
        if r.random() < 0.4:
            return self.any_command()
        t = self.tag()
        k = r.randrange(17)
        data = [("u", self.data()) for _ in range(r.choice([0, 0, 1, 2]))]
        end = [("u", self.status(t))]
        simple = ["NOOP", "CAPABILITY", "SELECT inbox", "LIST \"\" *", "FETCH 1:* (FLAGS)", "LOGIN alice \"pass word\"", "UID SEARCH ALL", "LOGOUT",
                  "STORE 1 +FLAGS (\\Seen)", "EXPUNGE", "NAMESPACE", "ENABLE CONDSTORE", "ID NIL", "UNSELECT", "STARTTLS", "CREATE \"a b\""]
        if k < 5:
            return [("c", "%s %s\r\n" % (t, r.choice(simple)))] + data + end
        if k < 8:   # synchronising literals; each may be refused
            l = [("c", "%s LOGIN {5}\r\n" % t)]
            at = r.choice([0, 1, 2, 2, 2])
            refuse = self.status(t, r.choice(["BAD", "BAD", "BAD", "NO"]))
            if r.random() < 0.4:
                refuse = "%s BAD %s%s\r\n" % (t, r.choice(["[ALERT] ", "", "[CAPABILITY ID] "]), r.choice(TEXTS))
            for i, b in enumerate(["alice {4}\r\n", "pass\r\n"]):
                l.append(("c", b))
            tail = []
            for i in range(2):
                if i == at:
                    tail.append(("u", refuse))
                    break
                tail.append(("u", r.choice(["+ ok\r\n", "+ more\r\n", self.cont()])))
            else:
                tail += data + end
            m = r.random()
            return l + tail if m < 0.5 else [l[0], tail[0]] + l[1:] + tail[1:] if m < 0.75 else [l[0], l[1], tail[0], l[2]] + tail[1:]
        if k < 10:  # literals without synchronisation, alone and mixed
            return [("c", r.choice(["%s LOGIN {5+}\r\nalice {4+}\r\npass\r\n", "%s LOGIN {5+}\r\nalice \"x\"\r\n", "%s CREATE {3+}\r\na b\r\n"]) % t)] + data + end
        if k == 10:
            n = r.choice([0, 1, 11, 300, 5000, 66000])
            return [("c", "%s APPEND in (\\Seen) {%d%s}\r\n" % (t, n, r.choice(["", "+"]))), ("c", "m" * n + "\r\n"), ("u", self.cont())] + end
        if k == 11:
            return [("c", r.choice(["%s LOGIN {26214401}\r\n", "%s LOGIN {26214401+}\r\n", "%s CREATE {99999999}\r\n"]) % t)]
        if k < 15:  # authentication
            l = [("c", "%s AUTHENTICATE %s\r\n" % (t, r.choice(["PLAIN", "LOGIN", "PLAIN AGEAYg==", "SCRAM-SHA-256", "XOAUTH2", "PLAIN ="])))]
            for _ in range(r.choice([0, 1, 1, 2, 3])):
                x = [("u", r.choice(["+ \r\n", "+ YWJj\r\n", self.cont()])), ("c", r.choice(["YWxpY2U=\r\n", "AGEAYg==\r\n", "\r\n", "*\r\n", "=\r\n", "not base64!\r\n"]))]
                if r.random() < 0.15:
                    x.reverse()
                if r.random() < 0.25:
                    x.insert(1, ("u", self.data()))
                l += x
            return l + data + end
        x = [("c", "%s IDLE\r\n" % t)]
        m = r.random()
        if m < 0.25:
            return x + [("u", self.status(t, r.choice(["NO", "BAD"])))]
        l = x + [("u", self.cont())] + data
        if m < 0.45:
            l += [("u", self.status(t, r.choice(["BAD", "NO", "OK"]))), ("c", "DONE\r\n")]
        else:
            l += [("c", r.choice(["DONE\r\n", "done\r\n", "DONE\r\n", "DONE \r\nDONE\r\n"]))] + end
        return l

    def conversation(self, size):
        r = self.r
        l = []
        for _ in range(size):
            p = r.random()
            if p < 0.68:
                d = self.command()
            elif p < 0.82:
                d = [("u", self.data())]
            elif p < 0.88:
                d = [("c", r.choice(BADC))]
            elif p < 0.94:
                d = [("u", r.choice(BADU))]
            elif p < 0.97:
                d = [("u", self.cont())]
            else:
                d = [("u", self.status("A%d" % max(1, self.n)))]
            # pipelining: the client's parts may come before what is still to be said
            if l and r.random() < 0.35:
                k = len(l)
                while k and l[k - 1][0] == "u":
                    k -= 1
                l[k:k] = [d[0]] if d[0][0] == "c" else []
                d = d[1:] if d[0][0] == "c" else d
            l += d
        return l


def pieces(r, l):
    """[(c, u)]: what arrives at once. Parts are cut, joined and put next to what the other side sends."""
    q = []
    for side, b in l:
        while len(b) > 1 and r.random() < 0.18:
            k = r.randint(1, len(b) - 1)
            q.append([side, b[:k]])
            b = b[k:]
        q.append([side, b])
    out = []
    for side, b in q:
        if out and r.random() < 0.3:
            # joins what came before, at the same side or at the other one
            out[-1][0 if side == "c" else 1] += b
        else:
            out.append([b, ""] if side == "c" else ["", b])
    return out


def random_session(r, name, i=0, size=None, to=None):
    talk = Talk(r)
    to = to or r.choice([PLAIN] * 7 + [TLSB, TLSU, BOTH])
    tls = SERVICES[to]
    s = Session(name, to, i)
    room = lambda t: r.choice([0, 1, 5, 30]) if not t and r.random() < 0.08 else None
    croom, uroom = room(tls[0]), room(tls[1])
    early = r.random() < 0.15
    s.dial(croom)
    l = talk.conversation(size or r.choice([1, 2, 2, 3, 3, 4, 6]))
    g = talk.greeting() if r.random() < 0.97 else r.choice(BADU)
    if early:   # the client talks before upstream has answered
        k = next((k for k, x in enumerate(l) if x[0] == "c"), None)
        if k is not None:
            s.io(c=l.pop(k)[1])
    if r.random() < 0.01:
        s.up("refuse")
        return s.tick()
    s.up("ok", uroom)
    p = pieces(r, [("u", g)] + l)
    stop = r.random()
    end = r.randint(1, len(p)) if stop < 0.35 else len(p)
    opened = croom is None and uroom is None
    for k, (c, u) in enumerate(p[:end]):
        if not opened and r.random() < 0.3:
            s.add("room", **{w: r.choice([1, 3, 20, -1]) for w in ("c", "u")})
        if r.random() < 0.03:
            s.add("steps", r=r.choice([0, 1, 7]), w=r.choice([0, 1, 9]))
        last = k == end - 1
        cx = ux = None
        if last and stop < 0.75:
            how = r.choice(["half", "half", "gone", "reset"])
            x = r.random()
            if x < 0.45:
                cx = how if how != "half" or not tls[0] else r.choice(["half", "notify"])
            elif x < 0.9:
                ux = how if how != "half" or not tls[1] else r.choice(["half", "notify"])
            else:
                cx, ux = how, r.choice(["half", "gone", "reset"])
        s.io(c, u, cx, ux)
    if not opened and r.random() < 0.8:
        s.add("room", c=-1, u=-1)
    return s.tick()


def stranger(r, name, i):
    """A client or an upstream that misbehaves at the start; not judged itself."""
    to = r.choice([PLAIN, TLSB, TLSB, TLSB, TLSU, BOTH])
    s = Session(name, to, i)
    s.judged = False
    k = r.randrange(7)
    if k == 6:
        s.fail(r.choice(FAILS))
    elif k < 3 and SERVICES[to][0]:   # no TLS, half of a handshake, or nothing at all
        s.add("dial", to=to, tls=False)
        if k:
            s.add("raw", c=r.choice(["A1 LOGIN a b\r\n", "\x16\x03\x01", "\x16\x03\x01\x02\x00" + "\x01" * 40, "\x00" * 300]))
        if r.random() < 0.4:
            s.add("in", cx=r.choice(["half", "gone", "reset"]))
    else:
        s.dial()
        x = r.randrange(5)
        if x == 0:
            s.up("refuse")
        elif x == 1 and SERVICES[to][1]:
            s.up("ok", cert="other")
        elif x == 2:
            s.steps.append({"t": "up", "how": "ok", "i": i})
            s.add("raw", u=r.choice(["* OK hi\r\n", "garbage\r\n", "\x15\x03\x03\x00\x02\x02\x28"]))
        elif x == 3:
            s.up()
            s.io(u=r.choice(BADU), c="A1 NOOP\r\n", ux=r.choice([None, "half", "reset"]))
        else:
            s.io(cx=r.choice(["half", "gone", "reset"]))   # the upstream never answers
    return s


def probe(name, to, i):
    s = Session(name, to, i).dial().up().io(u="* OK [CAPABILITY IMAP4rev1 IDLE XFOO] p%d\r\n" % i)
    return s.io(c="p%d LOGIN {3}\r\n" % i).io(c="abc x\r\n", u="* %d EXISTS\r\n" % (i + 1)).io(u="+ go\r\n").io(u="p%d OK done\r\n" % i)


def crowd(r, name):
    """Several sessions at once, on some services, with strangers in between; then a probe of each service."""
    n = r.choice([2, 2, 3, 4])
    l = []
    for i in range(n):
        if r.random() < 0.4:
            l.append(stranger(r, "%s.x%d" % (name, i), i))
        else:
            s = random_session(r, "%s.%d" % (name, i), i, size=r.choice([1, 2, 3]))
            if s.steps[-1]["t"] == "tick" and r.random() < 0.7:
                s.steps.pop()
            l.append(s)
    todo = [list(s.steps) for s in l]
    steps = []
    while any(todo):
        k = r.choice([k for k in range(n) if todo[k]])
        steps.append(todo[k].pop(0))
        while todo[k] and r.random() < 0.3:
            steps.append(todo[k].pop(0))
    for j, to in enumerate(r.sample(list(SERVICES), 2)):
        p = probe("%s.p%d" % (name, j), to, n + j)
        steps += p.steps
        l.append(p)
    return Job(l, steps=steps)


def throng(r, name, n):
    """Many sessions at once, most of them left open; then a probe of each service."""
    l = []
    for i in range(n):
        x = r.random()
        if x < 0.2:
            l.append(stranger(r, "%s.x%d" % (name, i), i))
        elif x < 0.4:
            s = random_session(r, "%s.%d" % (name, i), i, size=1)
            s.steps = [st for st in s.steps if st["t"] != "tick"]
            l.append(s)
        else:
            l.append(probe("%s.%d" % (name, i), r.choice(list(SERVICES)), i))
    todo, steps, first = [list(s.steps) for s in l], [], 0
    while any(todo):
        while first < n and not todo[first]:
            first += 1
        k = r.choice([k for k in range(first, min(n, first + 6)) if todo[k]])
        steps.append(todo[k].pop(0))
    for j, to in enumerate(SERVICES):
        p = probe("%s.p%d" % (name, j), to, n + j)
        steps += p.steps
        l.append(p)
    return Job(l, steps=steps)


def throngs(r, px, sizes, salt):
    g = rnd.Random("%d/throng/%s" % (r.seed, salt))
    go(r, px, [throng(g, "t%s-%d" % (salt, n), n) for n in sizes], "throngs%s" % salt)


def random(r, px, count, salt):
    g = rnd.Random("%d/%s" % (r.seed, salt))
    go(r, px, [alone(random_session(g, "s%s-%d" % (salt, n))) for n in range(count)], "random%s" % salt)


def crowds(r, px, count, salt):
    g = rnd.Random("%d/crowd/%s" % (r.seed, salt))
    go(r, px, [crowd(g, "m%s-%d" % (salt, n)) for n in range(count)], "crowds%s" % salt)


# -- schedules of MCProxy --------------------------------------------------------------------------

def sc(name, c, u, stops=("half",)):
    return {"name": name, "cp": list(c), "up": list(u), "stops": list(stops)}


HI = "* OK hi\r\n"


def fixed():
    l = []
    l.append(sc("pipelined", ["A1 NOOP\r\nA2 LOGIN a b\r\n", "A3 LOGOUT\r\n"], [HI, "A1 OK x\r\n* 3 EXISTS\r\n", "A2 NO [ALERT] y\r\n", "* BYE z\r\nA3 OK x\r\n"], ["half", "gone", "reset"]))
    l.append(sc("cut", ["A1 NO", "OP\r\nA2 SEL", "ECT in\r\n"], ["* OK", " hi\r\nA1 O", "K x\r\n* 1 FETCH (BODY[] {5}\r\nhe", "llo)\r\nA2 OK y\r\n"]))
    l.append(sc("login", ["A1 LOGIN {3}\r\n", "abc {2}\r\n", "de\r\nA2 NOOP\r\n"], [HI, "+ a\r\n", "+ b\r\n", "A1 OK in\r\n", "A2 OK x\r\n"]))
    l.append(sc("refused-first", ["A1 LOGIN {3}\r\n", "abc {2}\r\nde\r\n", "A2 NOOP\r\n"], [HI, "A1 BAD [CAPABILITY X] no\r\n", "+ late\r\n", "A2 OK x\r\n"]))
    l.append(sc("refused-second", ["A1 LOGIN {3}\r\nabc {2}\r\nde\r\n", "A2 LOGIN {1}\r\nx y\r\n"], [HI, "+ a\r\n", "A1 BAD [ALERT] disk full\r\n", "* 1 EXISTS\r\n", "A2 BAD no\r\n"]))
    l.append(sc("refused-no", ["A1 LOGIN {3}\r\nabc x\r\n", "A2 NOOP\r\n"], [HI, "A1 NO busy\r\n", "A1 BAD [ALERT] really\r\n", "A2 OK x\r\n"]))
    l.append(sc("refused-other", ["A1 LOGIN {3}\r\nabc x\r\n", "A2 NOOP\r\n"], [HI, "A2 BAD hm\r\n", "* BAD hm\r\n", "+ a\r\nA1 BAD no\r\n", "A2 OK x\r\n"]))
    l.append(sc("nonsync", ["A1 LOGIN {3+}\r\nabc {2}\r\nde\r\n", "A2 CREATE {1+}\r\nx\r\n"], [HI, "+ a\r\n", "A1 OK x\r\n", "A2 OK y\r\n"]))
    l.append(sc("append", ["A1 APPEND in {4}\r\n", "mail\r\n", "A2 NOOP\r\n"], [HI, "* 2 EXISTS\r\n+ go\r\n", "A1 OK x\r\nA2 OK x\r\n"]))
    l.append(sc("too-long", ["A1 LOGIN {26214401}\r\n", "A2 NOOP\r\n", "A3 LOGIN {26214401+}\r\nA4 NOOP\r\n"], [HI, "A2 OK x\r\n"]))
    l.append(sc("malformed-client", ["nonsense\r\nA1 NOOP\r\n", "A2 NOOP\nA3 NOOP\r\n", "\r\nA4 LOGIN {2}\r\nab\nA5 NOOP\r\n"], [HI, "A1 OK x\r\n", "A3 OK x\r\n"]))
    l.append(sc("malformed-upstream", ["A1 NOOP\r\n", "A2 LOGIN {1}\r\na b\r\n"], [HI + "nonsense\r\n", "* 1 EXISTS\nA1 OK x\r\n", "A2 OK\n+ go\r\n", "* 5 EXPUNGE\r\nA2 OK x\r\n"]))
    l.append(sc("bad-greeting", ["A1 NOOP\r\n"], ["nonsense\r\n", HI], ["half", "gone"]))
    l.append(sc("lf-greeting", ["A1 NOOP\r\n"], ["* OK hi\n", HI]))
    l.append(sc("bye-greeting", ["A1 NOOP\r\n"], ["* BYE [CAPABILITY IMAP4rev1 X] go\r\n", "* 1 EXISTS\r\n"], ["half", "gone", "reset"]))
    l.append(sc("preauth", ["A1 LIST \"\" {1}\r\n*\r\n"], ["* PREAUTH [CAPABILITY X Y] in\r\n+ go\r\n", "* LIST () \"/\" {1}\r\na\r\nA1 OK x\r\n"]))
    l.append(sc("auth", ["A1 AUTHENTICATE PLAIN\r\n", "YWJj\r\n", "A2 NOOP\r\n"], [HI, "+ \r\n", "A1 OK [CAPABILITY IMAP4rev1 STARTTLS IDLE] in\r\n", "A2 OK x\r\n"], ["half", "reset"]))
    l.append(sc("auth-rounds", ["A1 AUTHENTICATE LOGIN\r\n", "YWJj\r\n", "ZGVm\r\n"], [HI, "+ VXNlcg==\r\n", "* 1 EXISTS\r\n+ UGFzcw==\r\n", "A1 OK in\r\n"]))
    l.append(sc("auth-cancel", ["A1 AUTHENTICATE PLAIN\r\n", "*\r\n", "A2 AUTHENTICATE PLAIN AGEAYg==\r\n"], [HI, "+ x\r\n", "A1 BAD cancelled\r\n", "A2 NO [CAPABILITY LOGINDISABLED] no\r\n"]))
    l.append(sc("auth-early", ["A1 AUTHENTICATE LOGIN\r\nYWJj\r\nZGVm\r\n", "eHl6\r\n", "A2 AUTHENTICATE PLAIN\r\n"], [HI, "+ a\r\n", "+ b\r\n", "A1 OK in\r\n", "+ c\r\n"]))
    l.append(sc("auth-malformed", ["A1 AUTHENTICATE PLAIN\r\n", "!!\r\nYWJj\n", "YWJj\r\n"], [HI, "+ [CAPABILITY X] a\r\n", "+ b\r\n", "A1 BAD no\r\n"]))
    l.append(sc("auth-behind", ["A1 LOGIN {1}\r\na b\r\nA2 AUTHENTICATE PLAIN\r\n", "YWJj\r\n"], [HI, "+ a\r\n", "+ b\r\n", "A1 NO x\r\nA2 OK x\r\n"]))
    l.append(sc("idle", ["A1 IDLE\r\n", "DONE\r\n", "A2 NOOP\r\n"], [HI, "+ idling\r\n", "* 4 EXISTS\r\n", "A1 OK x\r\n", "A2 OK x\r\n"], ["half", "gone"]))
    l.append(sc("idle-refused", ["A1 IDLE\r\n", "A2 IDLE\r\nDONE\r\n", "A3 NOOP\r\n"], [HI, "A1 NO [CAPABILITY STARTTLS] x\r\n", "+ [CAPABILITY ID X] y\r\n", "A2 OK x\r\n"]))
    l.append(sc("idle-ended", ["A1 IDLE\r\n", "DONE\r\n", "A2 IDLE\r\n"], [HI, "+ i\r\n", "A1 BAD [CAPABILITY X] timeout\r\n", "+ j\r\n", "A2 OK x\r\n"]))
    l.append(sc("idle-early-done", ["A1 IDLE\r\nDONE\r\nA2 NOOP\r\n", "A3 IDLE\r\nDONE\r\n"], [HI, "+ i\r\n", "A1 OK x\r\n", "+ k\r\nA2 OK x\r\n"]))
    l.append(sc("idle-malformed", ["A1 IDLE\r\n", "NOOP\r\nDONE\n", "done\r\nA2 NOOP\r\n"], [HI, "+ i\r\n", "* 1 EXISTS\r\n", "A1 OK x\r\n"]))
    caps = "AUTH=PLAIN AUTH=SCRAM-SHA-256-PLUS IDLE STARTTLS QUOTA=RES-STORAGE LITERAL+ XFOO MOVE"
    l.append(sc("caps", ["A1 CAPABILITY\r\n", "A2 LOGIN a b\r\n"], ["* OK [CAPABILITY %s] hi\r\n" % caps, "* CAPABILITY %s\r\n" % caps, "A1 OK [CAPABILITY XFOO] x\r\n", "* OK [CAPABILITY %s] y\r\n+ [CAPABILITY X] z\r\n" % caps, "* BYE [CAPABILITY ID X] w\r\n"]))
    l.append(sc("caps-auth", ["A1 AUTHENTICATE PLAIN\r\n", "YWJj\r\n"], [HI, "+ [CAPABILITY %s] c\r\n" % caps, "* CAPABILITY X\r\n* OK [CAPABILITY Y ID] q\r\n", "A1 NO [CAPABILITY %s] y\r\n" % caps]))
    l.append(sc("caps-idle", ["A1 IDLE\r\n", "DONE\r\n"], [HI, "+ [CAPABILITY %s] c\r\n" % caps, "* CAPABILITY X\r\n", "A1 BAD [CAPABILITY %s] y\r\n" % caps]))
    l.append(sc("unsolicited", ["A1 NOOP\r\n"], [HI, "+ what\r\n", "A9 OK who\r\n", "* 1 FETCH (FLAGS (\\Seen))\r\n", "A1 OK x\r\n"], ["half", "gone", "reset"]))
    return l


def generated(seed, count):
    r = rnd.Random("%d/mcproxy" % seed)
    l = []
    for n in range(count):
        t = Talk(r)
        d = [("u", t.greeting())] + t.conversation(r.choice([1, 2, 2, 3]))
        q = {"c": [], "u": []}
        for side, b in d:
            if len(b) > 200:
                continue
            if q[side] and (len(q[side]) >= (4 if side == "c" else 5) or r.random() < 0.25):
                q[side][-1] += b
            elif len(b) > 3 and len(q[side]) < 3 and r.random() < 0.2:
                k = r.randint(1, len(b) - 1)
                q[side] += [b[:k], b[k:]]
            else:
                q[side].append(b)
        l.append(sc("gen%d" % n, q["c"], q["u"], [r.choice(["half", "half", "gone", "reset"])]))
    return l


def ends(l):
    out, n = [], 0
    for x in l:
        n += len(x)
        out.append(n)
    return out


def schedules(tlc, r, cap):
    """Ways through the printed graph of each script that together take every action at every point."""
    import collections
    g = collections.defaultdict(dict)   # node -> action -> {(co, uo): node}
    scr, to = {}, set()
    for m in marked(tlc):
        f, t = (m["s"], m["f"], m["g"]), (m["s"], m["t"], m["u"])
        g[f].setdefault(m["a"], {})[(m["co"], m["uo"])] = t
        scr[f] = m["s"]
        to.add(t)
    roots = [f for f in g if f not in to]
    out = []
    for root in roots:
        # breadth first: the first way to every node
        way, todo = {root: []}, [root]
        for f in todo:
            for a, os_ in g.get(f, {}).items():
                for o, t in os_.items():
                    if t not in way:
                        way[t] = way[f] + [a]
                        todo.append(t)
        done = set()
        mine = []
        for f in reversed(todo):
            for a in g.get(f, {}):
                if (f, a) in done:
                    continue
                w, at = way[f] + [a], r.choice(list(g[f][a].values()))
                done.add((f, a))
                while g.get(at):
                    # on with something new if there is any
                    new = [b for b in g[at] if (at, b) not in done]
                    b = r.choice(sorted(new) or sorted(g[at]))
                    done.add((at, b))
                    w.append(b)
                    at = r.choice(list(g[at][b].values()))
                mine.append(w)
        out += [(scr[root], root, w) for w in mine]
    r.shuffle(out)
    return g, out[:cap], len(out)


def steps_of(s, actions, i=0, to=PLAIN):
    """The session that takes these actions."""
    x = Session(s["name"], to, i).dial().up()
    c = u = 0
    for a in actions:
        if a == "t":
            x.tick()
            continue
        k = a[0] if a[0] in "cub" else ""
        cb = ub = ""
        if k in ("c", "b"):
            cb, c = s["cp"][c], c + 1
        if k in ("u", "b"):
            ub, u = s["up"][u], u + 1
        how = a[len(k) + 1:]
        side = a[len(k):len(k) + 1]
        x.io(cb, ub, how if side == "C" else None, how if side == "U" else None)
    return x


def model(r, px, scripts, what, cap, tls=0.15):
    tabs = px.tables([{"name": s["name"], "c": "".join(s["cp"]), "u": "".join(s["up"]), "cps": ends(s["cp"]), "ups": ends(s["up"]), "stops": s["stops"]} for s in scripts])
    f = r.path(what + "-scripts.json")
    json.dump(tabs, open(f, "w"))
    out, dist, gen = r.tlc("MCProxy", env={"SCRIPTS": f, "EMIT": "1"}, timeout=800)
    rg = rnd.Random("%d/%s" % (r.seed, what))
    g, sched, total = schedules(out, rg, cap)
    os.remove(out)
    kinds = [PLAIN, TLSB, TLSU, BOTH]
    runs = [steps_of(scripts[s - 1], w, to=rg.choice(kinds[1:]) if rg.random() < tls and not any(x.endswith("reset") for x in w) else PLAIN) for s, _, w in sched]
    res = px.run([x.steps for x in runs])
    differ, stuck, keep = 0, 0, []
    for n, ((s, root, w), x, o) in enumerate(zip(sched, runs, res)):
        if o is None:
            continue
        x.name = "%s/%s#%d" % (scripts[s - 1]["name"], ".".join(w), n)
        if o["hang"] or o["ended"]:
            r.violation(ALL, "%s: the proxy %s %s" % (x.name, "hangs" if o["hang"] else "ended", o["panics"][:1]), {"steps": x.steps, "result": o})
            continue
        log = traces(alone(x), o)[0]
        at, ok = root, log[0]["asks"] and log[0]["dials"] == 1 and log[0]["to"] == SERVICES[x.to][2] and not log[1]["co"] and not log[1]["uo"]
        cgone = ugone = False
        for a, e in zip(w, log[2:]):
            cgone, ugone = cgone or "C" in a, ugone or "U" in a
            nxt = g.get(at, {}).get(a, {}).get(("*" if cgone else e["co"], "*" if ugone else e["uo"]))
            if a == "t":
                nxt = nxt if e["cd"] and e["ud"] else None
            if nxt is None or ((e["cd"] or e["ud"]) and not (cgone or ugone or scripts[s - 1]["name"].startswith(("bad", "lf", "gen")))):
                ok = False
                # Left before the greeting (known-findings): a few will do.
                if a == "t" and nxt is None and not e["cd"] and not any(y["co"] for y in log):
                    stuck += 1
                    ok = stuck > 10
                break
            at = nxt
        if not ok:
            differ += 1
        if not ok or n % 400 == 0:
            tab = tabs[s - 1]
            keep.append(dict({k: tab[k] for k in ("c", "u", "cmds", "auths", "resps")}, name=x.name, multi=False, to=SERVICES[x.to][2], log=log))
    r.note(what, scripts=len(scripts), states=dist, transitions=gen, schedules=total, replayed=len(sched), differ=differ)
    r.log("replayed %d of %d schedules, %d differ" % (len(sched), total, differ))
    r.validated += len(sched) - len(keep)
    keep.sort(key=lambda t: len(t["log"]))
    judge(r, keep[:600], what + "_judged")


# -- schedules of MCCrowd --------------------------------------------------------------------------

class Crowd:
    """Sessions and, for each of their steps, what it means in the specification."""

    def __init__(self, name):
        self.name, self.sessions, self.spec = name, [], []

    def add(self, kind, to=PLAIN):
        i = len(self.sessions)
        s = Session("%s/%d-%s" % (self.name, i, kind), to, i)
        spec = []

        def step(t, hs="ok", how="ok", cx="", ux=""):
            spec.append({"t": t, "hs": hs, "how": how, "cn": len(s.c), "un": len(s.u), "cx": cx, "ux": ux})

        def io(c="", u="", cx="", ux=""):
            c, u = c.replace("#", "#%d" % i), u.replace("#", "#%d" % i)
            s.io(c, u, cx or None, ux or None)
            step("io", cx=cx, ux=ux)

        if kind in FAILS:
            s.fail(kind)
            step("dial", hs="bad")
        elif kind in ("stall", "garbage"):
            s.judged = False
            s.add("dial", to=to, tls=False)
            step("dial", hs="bad")
            if kind == "garbage":
                s.add("raw", c="#%d LOGIN a b\r\n" % i)
                step("io")
                s.add("in", cx="gone")
                step("io", cx="gone")
        else:
            s.dial()
            step("dial")
            if kind == "silent":
                io(c="#a NOOP\r\n", cx="gone")
            elif kind == "refused":
                s.up("refuse")
                step("up", how="refuse")
            else:
                s.up()
                step("up")
                for x in KINDS[kind]:
                    io(*x)
        self.sessions.append(s)
        self.spec.append(spec)
        return self


KINDS = {   # the exchanges after both connections are there; "#" becomes the session's mark
    "good": [("#a LOGIN {2}\r\n", "* OK # hi\r\n"), ("#x y\r\n", "+ #go\r\n"), ("", "* OK # more\r\n#a OK # in\r\n")],
    "short": [("#a NOOP\r\n", "* OK # hi\r\n#a OK # done\r\n")],
    "rejected": [("#a LOGIN {2}\r\n#x y\r\n#b NOOP\r\n", "* OK # hi\r\n"), ("", "#a BAD # no\r\n#b OK # x\r\n")],
    "malformed": [("#\r\n#a NOOP\r\n", "* OK # hi\r\n* # ?\r\n"), ("#b XYZ\n", "#a OK # x\r\n")],
    "bad-greeting": [("#a NOOP\r\n", "# nonsense\r\n")],
    "bye": [("#a NOOP\r\n", "* BYE # not now\r\n", "", "half")],
    "client-gone": [("#a NOOP\r\n", "* OK # hi\r\n"), ("#b NOOP\r\n", "#a OK # x\r\n", "gone")],
    "client-half": [("#a NOOP\r\n", "* OK # hi\r\n"), ("#b NOOP\r\n", "", "half"), ("", "#a OK # x\r\n")],
    "upstream-reset": [("#a NOOP\r\n", "* OK # hi\r\n"), ("#b NOOP\r\n", "#a OK # x\r\n", "", "reset")],
    "upstream-half": [("#a NOOP\r\n", "* OK # hi\r\n"), ("", "#a OK # x\r\n* OK # bye\r\n", "", "half")],
    "auth": [("#a AUTHENTICATE PLAIN\r\n", "* OK # hi\r\n"), ("YWJj\r\n", "+ \r\n"), ("", "#a OK # in\r\n")],
    "auth-early": [("#a AUTHENTICATE LOGIN\r\nYWJj\r\nZGVm\r\n", "* OK # hi\r\n"), ("", "+ \r\n"), ("", "+ \r\n#a NO # x\r\n")],
    "idle": [("#a IDLE\r\n", "* OK # hi\r\n"), ("", "+ # idling\r\n"), ("DONE\r\n", "#a BAD # over\r\n")],
}


def fixed_crowds():
    l = []
    def c(name, *kinds):
        x = Crowd(name)
        for k in kinds:
            x.add(*(k if isinstance(k, tuple) else (k,)))
        l.append(x)
    c("twins", "good", "good")
    c("triplets", "short", "short", "good")
    c("stalled", ("stall", TLSB), ("good", TLSB), ("good", PLAIN))
    c("stalled-two", ("stall", TLSB), ("garbage", TLSB), ("short", TLSB), ("short", BOTH))
    c("stalled-both", ("stall", BOTH), ("good", BOTH), ("short", BOTH))
    c("garbage", ("garbage", TLSB), ("good", TLSB), ("garbage", BOTH))
    c("silent", "silent", "good", "silent")
    c("silent-tls", ("silent", TLSU), ("good", TLSU), ("short", PLAIN))
    c("refused", "refused", "good", "refused")
    c("refused-tls", ("refused", BOTH), ("good", BOTH), ("short", TLSU))
    c("bad-greeting", "bad-greeting", "good", "bye")
    c("rejected", "rejected", "good", "malformed")
    c("panics", "auth-early", "idle", "short")
    c("dialogues", "auth", "idle", "short")
    c("gone", "client-gone", "good", "upstream-reset")
    c("half", "client-half", "upstream-half", "short")
    c("accept-fails", "files", "good", "short", "aborted")
    c("accept-fails-tls", ("interrupted", TLSB), ("short", TLSB), ("memory", TLSB), ("short", PLAIN))
    c("accept-fails-between", "short", "files", "memory", "short")
    c("reset", "upstream-reset", "upstream-reset", "good")
    return l


def random_crowds(r, count):
    l = []
    for n in range(count):
        c = Crowd("rc%d" % n)
        for _ in range(r.choice([2, 3, 3])):
            k = r.choice(sorted(KINDS) + ["stall", "garbage", "silent", "refused"] + FAILS)
            c.add(k, r.choice([TLSB, BOTH]) if k in ("stall", "garbage") else r.choice([PLAIN, PLAIN, TLSB, TLSU, BOTH]))
        l.append(c)
    return l


def crowd_model(r, px, crowds_, what, cap):
    tabs = px.tables([{"name": s.name, "c": s.c, "u": s.u} for c in crowds_ for s in c.sessions])
    for c in crowds_:
        c.tabs, tabs = tabs[:len(c.sessions)], tabs[len(c.sessions):]
    f = r.path(what + "-crowds.json")
    json.dump([{"name": c.name, "sess": [dict({k: t[k] for k in ("c", "u", "cmds", "auths", "resps")}, steps=s) for t, s in zip(c.tabs, c.spec)]}
               for c in crowds_], open(f, "w"))
    out, dist, gen = r.tlc("MCCrowd", env={"SCRIPTS": f, "EMIT": "1"}, timeout=800)
    rg = rnd.Random("%d/%s" % (r.seed, what))
    g, sched, total = schedules(out, rg, cap)
    os.remove(out)
    jobs = []
    for k, root, w in sched:
        c = crowds_[k - 1]
        at, steps = [0] * len(c.sessions), []
        for a in w:
            steps.append(c.sessions[a - 1].steps[at[a - 1]])
            at[a - 1] += 1
        jobs.append(steps + [{"t": "tick", "i": 0}])
    res = px.run(jobs)
    differ, keep = 0, []
    for n, ((k, root, w), steps, o) in enumerate(zip(sched, jobs, res)):
        if o is None:
            continue
        c = crowds_[k - 1]
        name = "%s/%s#%d" % (c.name, "".join(map(str, w)), n)
        if o["hang"] or o["ended"]:
            r.violation(ALL, "%s: the proxy %s %s" % (name, "hangs" if o["hang"] else "ended", o["panics"][:1]), {"steps": steps, "result": o})
            continue
        at, ok, cgone, ugone = root, True, set(), set()
        for a, st, e in zip(w, steps, o["log"]):
            if st.get("cx"):
                cgone.add(a - 1)
            if st.get("ux"):
                ugone.add(a - 1)
            co = uo = ""
            for x in e["seen"]:
                if x["i"] == a - 1:
                    if c.sessions[a - 1].judged:   # otherwise it is the alert of a failed handshake
                        co, uo = x["co"], x["uo"]
                    if st["t"] == "dial" and c.sessions[a - 1].judged and not (x["asks"] and e["dials"] == 1 and x["to"] == SERVICES[st["to"]][2]):
                        ok = False
                elif not c.sessions[x["i"]].judged:
                    pass
                elif (x["co"] and x["i"] not in cgone) or (x["uo"] and x["i"] not in ugone):
                    ok = False
            nxt = g.get(at, {}).get(a, {}).get(("*" if a - 1 in cgone else co, "*" if a - 1 in ugone else uo))
            if nxt is None or not ok:
                ok = False
                break
            at = nxt
        differ += not ok
        if not ok or n % 20 == 0:
            job = Job(c.sessions, steps=steps)
            for s, tab, log in zip(c.sessions, c.tabs, traces(job, o)):
                if s.judged:
                    keep.append(dict({k: tab[k] for k in ("c", "u", "cmds", "auths", "resps")}, name="%s:%s" % (name, s.name),
                                     multi=True, to=SERVICES[s.to][2], log=log))
    r.note(what, crowds=len(crowds_), states=dist, transitions=gen, schedules=total, replayed=len(sched), differ=differ)
    r.log("replayed %d of %d schedules, %d differ" % (len(sched), total, differ))
    r.validated += len(sched)
    judge(r, keep[:2000], what + "_judged")


def accept(r, clients):
    """The design of accepting clients."""
    _, d, g = r.tlc("Accept", env={"CLIENTS": str(clients)})
    r.note("Accept", clients=clients, states=d, transitions=g)


# --------------------------------------------------------------------------------------------------

def clean(r):
    """No violation but known ones?"""
    known = known_findings()
    return not any(all(not any(k[0] == p and k[1] == v[3] for k in known) for p in v[0]) for v in r.violations)


def proxy(r):
    r.assumptions = ASSUME
    thorough = r.tier == "thorough"
    px = Proxy(r)
    accept(r, 3 if thorough else 2)
    crowds(r, px, 400 if thorough else 100, 0)
    throngs(r, px, [40, 150, 300, 1100, 4000] if thorough else [40, 300, 1100] if r.prop == "P06" else [40], 0)
    if clean(r):
        random(r, px, 3000 if thorough else 700, 0)
    if clean(r):
        model(r, px, fixed(), "MCProxy", 10 ** 9 if thorough else 22000)
    if clean(r):
        crowd_model(r, px, fixed_crowds() + random_crowds(rnd.Random("%d/crowds" % r.seed), 40 if thorough else 6), "MCCrowd", 10 ** 9 if thorough else 3000)
    if clean(r):
        model(r, px, generated(r.seed, 60 if thorough else 10), "MCProxy_generated", 10 ** 9 if thorough else 3000)
    n = 0
    while thorough and clean(r) and r.left() > 150:
        n += 1
        random(r, px, 3000, n)
        crowds(r, px, 400, n)
        if r.left() > 150:
            model(r, px, generated(r.seed * 100 + n, 40), "MCProxy_generated%d" % n, 20000)
        if r.left() > 150:
            crowd_model(r, px, random_crowds(rnd.Random("%d/crowds%d" % (r.seed, n)), 40), "MCCrowd%d" % n, 8000)
