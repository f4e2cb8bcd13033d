------------------------------- MODULE MCBoot -------------------------------
(* Documents, worlds and probes. Services start in any order: who gets an
   address that is wanted twice is open. For each document and world all that
   may be probed is printed; the driver starts the real proxy with it.       *)
EXTENDS Boot, Json, IOUtils

Emit == "EMIT" \in DOMAIN IOEnv
Part == IOEnv.PART

NoIdent == [t |-> "none", kind |-> Missing, cert |-> Missing, key |-> Missing]
Pair(c, k) == [t |-> "table", kind |-> Str("CertificateChainAndLeafKey"), cert |-> Str(c), key |-> Str(k)]
Ident(c) == Pair(c, c)
Side(e, h, p, i) == [enc |-> Str(e), host |-> Str(h), port |-> p, id |-> i]
Service(n, b, c) == [name |-> Str(n), bind |-> b, connect |-> c]
Doc(l) == [syntax |-> "", services |-> l]

Local == "127.0.0.1"
Binds == {Side("Insecure", h, p, NoIdent) : h \in {Local, "localhost"}, p \in {Missing, Port(1143), Port(993), Port(65535)}}
         \union {Side("Tls", h, p, Ident(c)) : h \in {Local}, p \in {Missing, Port(143), Port(2993)}, c \in {"leaf", "imap"}}
         \union {Side("Tls", Local, Missing, i) : i \in {Ident("nothing"), Ident("full"), Pair("leaf", "imap"), Pair("junk", "leaf"), Pair("imap", "nothing")}}
Connects == {Side(e, h, p, NoIdent) : e \in {"Insecure", "Tls"}, h \in {Local, "localhost", "imap.example.org", "mail.example.org"},
                                      p \in {Missing, Port(143), Port(993), Port(3143)}}
Some == {Service("plain", Side("Insecure", Local, Missing, NoIdent), Side("Tls", "imap.example.org", Missing, NoIdent)),
         Service("plain too", Side("Insecure", Local, Port(143), NoIdent), Side("Insecure", Local, Port(3143), NoIdent)),
         Service("tls", Side("Tls", Local, Missing, Ident("leaf")), Side("Insecure", "mail.example.org", Missing, NoIdent)),
         Service("tls", Side("Tls", Local, Port(143), Ident("imap")), Side("Tls", "localhost", Port(143), NoIdent)),
         Service("", Side("Insecure", "localhost", Port(993), NoIdent), Side("Tls", "mail.example.org", Port(2993), NoIdent)),
         Service("no key", Side("Tls", Local, Port(993), Ident("nothing")), Side("Tls", "mail.example.org", Missing, NoIdent))}
Wrong == {Service("w", Side("Tls", Local, Missing, NoIdent), Side("Insecure", Local, Missing, NoIdent)),
          Service("w", Side("Insecure", Local, Missing, NoIdent), Side("tls", Local, Missing, NoIdent)),
          Service("w", Side("Insecure", Local, BadInt("65679"), NoIdent), Side("Tls", Local, Missing, NoIdent)),
          Service("w", [Side("Insecure", Local, Missing, NoIdent) EXCEPT !.enc = Missing], Side("Tls", Local, Missing, NoIdent))}
Busy == {{}, {"127.0.0.1:143"}, {"127.0.0.1:993"}, {"127.0.0.1:143", "127.0.0.1:993"}}

VARIABLES doc, busy, on, seen
vars == <<doc, busy, on, seen>>
cfg == Config_(doc)
Known == {cfg[i].bind.addr : i \in 1 .. Len(cfg)} \union {"127.0.0.1:143", "127.0.0.1:993"}
Probes == [to : Known, client : {"plain", "tls"}, up : {"refuse", "plain"} \union Certs]

Init ==
  /\ on = {} /\ seen = [st |-> "new"]
  /\ CASE Part = "one" -> busy = {} /\ \E b \in Binds, c \in Connects : doc = Doc(<<Service("one", b, c)>>)
       [] Part = "many" ->
            /\ busy \in Busy
            /\ \/ \E a, b \in Some : doc = Doc(<<a, b>>)
               \/ \E a, b, c \in Some : doc = Doc(<<a, b, c>>)
       [] Part = "none" ->
            /\ busy = {}
            /\ \/ doc = Doc(<<>>)
               \/ \E w \in Wrong : doc = Doc(<<w>>)
               \/ \E w \in Wrong, a \in Some : doc \in {Doc(<<w, a>>), Doc(<<a, w>>)}

\* One service after the other binds its address.
Binds_(i) ==
  /\ seen.st = "new" /\ i \notin on
  /\ cfg[i].bind.addr \notin busy
  /\ \A j \in on : cfg[j].bind.addr # cfg[i].bind.addr
  /\ on' = on \union {i} /\ UNCHANGED <<doc, busy, seen>>
Ready ==
  /\ seen.st = "new"
  /\ ~\E i \in 1 .. Len(cfg) : ENABLED Binds_(i)
  /\ seen' = [st |-> "up"] /\ UNCHANGED <<doc, busy, on>>
Probe ==
  /\ seen.st = "up"
  /\ \E p \in Probes : \E o \in Outcomes(cfg, on, p) : seen' = [st |-> "seen", p |-> p, o |-> o]
  /\ UNCHANGED <<doc, busy, on>>
Next == (\E i \in 1 .. Len(cfg) : Binds_(i)) \/ Ready \/ Probe
Spec == Init /\ [][Next]_vars

-----------------------------------------------------------------------------
\* What was seen, against the words of the document.
Says(side, key, x) == side[key] = Str(x)
At(d, a) == \E i \in 1 .. Len(d.services) : LET b == d.services[i].bind IN
  a = b.host.v \o ":" \o (IF b.port.t = "port" THEN ToString(b.port.n) ELSE IF b.enc.v = "Tls" THEN "993" ELSE "143")
Ask(P(_)) == seen.st = "seen" => P(seen)
AllOf(d, P(_)) == \A i \in 1 .. Len(d.services) : P(d.services[i])

\* Plaintext is seen only at a service that has a plaintext side; and a client is greeted only
\* if it and upstream speak what one service says.
K01 == Ask(LAMBDA x :
  /\ x.o.ck = "plain" => \E i \in 1 .. Len(doc.services) : Says(doc.services[i].bind, "enc", "Insecure")
  /\ x.o.uk = "plain" => \E i \in 1 .. Len(doc.services) : Says(doc.services[i].connect, "enc", "Insecure")
  /\ x.o.greeted => \E i \in 1 .. Len(doc.services) :
       /\ Says(doc.services[i].bind, "enc", IF x.p.client = "tls" THEN "Tls" ELSE "Insecure")
       /\ Says(doc.services[i].connect, "enc", IF x.p.up = "plain" THEN "Insecure" ELSE "Tls")
       /\ x.p.up # "plain" => x.p.up # "other" /\ doc.services[i].connect.host.v \in Names(x.p.up)
  /\ x.o.cert # "" => \E i \in 1 .. Len(doc.services) : doc.services[i].bind.id.cert = Str(x.o.cert))
K02 == Ask(LAMBDA x :
  /\ ~x.o.refused => At(doc, x.p.to) /\ x.p.to \notin busy
  /\ x.o.to # "" => \E i \in 1 .. Len(doc.services) : LET c == doc.services[i].connect IN
       x.o.to = c.host.v \o ":" \o (IF c.port.t = "port" THEN ToString(c.port.n) ELSE IF c.enc.v = "Tls" THEN "993" ELSE "143"))
K03 == Ask(LAMBDA x : (Valid(doc) /\ At(doc, x.p.to) /\ x.p.to \notin busy) => ~x.o.refused)
K03_None == Ask(LAMBDA x : ~Valid(doc) => x.o.refused)
\* The order of starting yields just what the judge allows.
Same == seen.st = "up" => on \in Listening(cfg, busy)

EmitStart ==
  ~Emit \/ ~(seen.st = "new" /\ on = {} /\ (seen'.st = "up" \/ on' = {CHOOSE i \in 1 .. Len(cfg) : ENABLED Binds_(i)}))
  \/ PrintT("@@" \o ToJson([doc |-> doc, busy |-> busy, addrs |-> Known]))
=============================================================================
