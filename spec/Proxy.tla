------------------------------- MODULE Proxy -------------------------------
(* A proxied session: the server towards the client (ServerFlow) and the client
   towards the upstream server (ClientFlow), joined by the proxy's rules
   (proxy/src/proxy.rs, util.rs): what is forwarded, what is rewritten, and what
   happens when one side goes away.

   Script: sc.c, sc.u: what the client and the upstream server send, with the
   codecs' answers (Framing); sc.cmds[p], sc.auths[p], sc.resps[p]: how the
   message p is written: commands [tag, kind, p, frags], authentication data,
   responses [wire, caps, pre, post, alert, text].                          *)
EXTENDS Naturals, Sequences, FiniteSets, TLC

C == INSTANCE ClientFlow
S == INSTANCE ServerFlow

LiteralAccept == "proxy: Literal accepted by proxy"
LiteralReject == "proxy: Literal rejected by proxy"
Rejected == "proxy: Command rejected by server"

\* What the proxy can handle.
Supported ==
  {"IMAP4REV1", "AUTH=PLAIN", "AUTH=LOGIN", "AUTH=XOAUTH2", "AUTH=SCRAM-SHA-1", "AUTH=SCRAM-SHA-256", "SASL-IR",
   "QUOTA", "QUOTASET", "MOVE", "LITERAL+", "LITERAL-", "UNSELECT", "ID", "IDLE"}
Keep(c) == c \in Supported \/ (Len(c) > 10 /\ SubSeq(c, 1, 10) = "QUOTA=RES-")
Filter(l) == LET k == SelectSeq(l, Keep) IN IF k = <<>> THEN <<"IMAP4REV1">> ELSE k
RECURSIVE Join(_)
Join(l) == IF Len(l) = 1 THEN l[1] ELSE l[1] \o " " \o Join(Tail(l))

\* A response as the client gets it.
Wire(sc, p) ==
  LET r == sc.resps[p] IN
  IF r.caps = <<>> THEN r.wire ELSE r.pre \o Join(Filter(r.caps)) \o r.post

(* ph: "conn"    the client is there, the upstream connection is not
       "greet"   waiting for the upstream greeting
       "run"
       "drainu"  the client is gone; what it sent still goes upstream
       "drainc"  upstream is gone; what it sent still goes to the client
       "dead"
   s, c      the two machines
   cmds      commands forwarded; early: authentication data sent ahead of its challenge
   said      what the client said so far, in order: commands, authentication data, DONE
   cf, uf    bytes received from client and upstream; cx, ux: how they stopped
   co, uo    bytes for the client and upstream that have not been observed
   cl, ul    writing has failed: what was sent and not yet read may be lost
   wait      a TLS closing message alone need not be noticed
   rej, dlg  has a command been refused, has there been a dialogue? (for blame) *)
ProxyInit ==
  [ph |-> "conn", s |-> <<>>, c |-> C!ClientInit, cmds |-> <<>>, early |-> <<>>, said |-> <<>>, cf |-> 0, uf |-> 0,
   cx |-> "", ux |-> "", co |-> "", uo |-> "", wait |-> FALSE, cl |-> FALSE, ul |-> FALSE, rej |-> FALSE, dlg |-> FALSE]

UScript(sc, st) == [sc.u EXCEPT !.cmds = st.cmds]
Greet(sc, p) ==
  LET s == S!ServerInit([greeting |-> [p |-> p, b |-> Wire(sc, p)]])
  IN S!ServerText(S!ServerText(s, "acc", LiteralAccept, TRUE), "rej", LiteralReject, TRUE)
Say(s, a, p, b) == S!ServerCall([resps |-> <<[p |-> p, b |-> b]>>], s, a, 1)
Supply(c, sc, st, p) == C!ClientSetAuth([cmds |-> st.cmds, auths |-> <<[d |-> sc.auths[p]]>>], c, 1)
Wanted(st) == C!AuthWanted([cmds |-> st.cmds], st.c)

\* What the proxy does about an event of the client's side, ...
FromClient(sc, st0, o) ==
  LET say(k, p) == [st0 EXCEPT !.said = Append(@, [k |-> k, p |-> p])]
      st == CASE o.e \in {"Command", "AuthCommand"} -> say("cmd", o.q)
              [] o.e = "IdleCommand" -> say("idle", o.q)
              [] o.e = "AuthData" -> say("auth", o.q)
              [] o.e = "IdleDone" -> say("done", "")
              [] OTHER -> st0
  IN CASE o.e \in {"Command", "AuthCommand"} ->
         [st EXCEPT !.cmds = Append(@, sc.cmds[o.q]), !.c = C!ClientEnqueue(@),
                    !.dlg = st.dlg \/ o.e = "AuthCommand"]
    [] o.e = "IdleCommand" ->
         [st EXCEPT !.cmds = Append(@, [tag |-> o.q, kind |-> "idle", p |-> "L" \o o.q \o " IDLE\r\n",
                                        frags |-> <<[d |-> o.q \o " IDLE\r\n", m |-> "L"]>>]),
                    !.c = C!ClientEnqueue(@), !.dlg = TRUE]
    [] o.e = "AuthData" ->
         IF Wanted(st) THEN [st EXCEPT !.c = Supply(@, sc, st, o.q)]
         ELSE [st EXCEPT !.early = Append(@, o.q)]
    [] o.e = "IdleDone" -> [st EXCEPT !.c = C!ClientSetDone([cmds |-> st.cmds], @)]
    [] OTHER -> st

\* ... and of the upstream side.
FromUpstream(sc, st, o) ==
  LET enq(p) == [st EXCEPT !.s = Say(@, "enq", p, Wire(sc, p))]
      call(a) == [st EXCEPT !.s = IF S!Allowed(@, a) THEN Say(@, a, o.q, Wire(sc, o.q)) ELSE Say(@, "enq", o.q, Wire(sc, o.q))]
  IN CASE o.e \in {"Data", "Status", "Cont"} -> enq(o.q)
       [] o.e = "CommandRejected" ->
            LET r == sc.resps[o.q]
                b == st.cmds[o.h].tag \o " BAD " \o (IF r.alert THEN "[ALERT] " \o r.text ELSE Rejected) \o "\r\n"
            IN [st EXCEPT !.s = Say(@, "enq", "L" \o b, b), !.rej = TRUE]
       [] o.e = "AuthCont" ->
            LET t == call("acont") IN
            IF st.early = <<>> THEN t
            ELSE [t EXCEPT !.c = Supply(@, sc, t, Head(t.early)), !.early = Tail(@)]
       [] o.e = "AuthStatus" -> [call("afin") EXCEPT !.early = <<>>]
       [] o.e = "IdleAccepted" -> call("iacc")
       [] o.e = "IdleRejected" -> call("irej")
       [] OTHER -> st

\* Everything that came from a side has been looked at; nothing more will come.
Stopped(st, how, over) ==
  IF how = "" \/ st.wait THEN {} ELSE {over} \union (IF how = "notify" THEN {[st EXCEPT !.wait = TRUE]} ELSE {})
\* The steps each side can take; the order between them is not determined.
ClientSide(sc, st) ==
  LET x == S!ServerNext(sc.c, st.s, st.cf)
      t == [st EXCEPT !.s = x[1]]
      o == x[2]
      over == [st EXCEPT !.ph = IF st.ph = "run" THEN "drainu" ELSE "dead"]
  IN CASE o.o = "more" -> Stopped(st, st.cx, over)
       [] o.o = "out"  -> IF st.cx \in {"gone", "reset"} THEN {[t EXCEPT !.cl = TRUE], over} ELSE {[t EXCEPT !.co = @ \o o.b]}
       [] o.o = "ev"   -> {IF st.ph = "run" THEN FromClient(sc, t, o) ELSE t} \union (IF st.cl THEN {over} ELSE {})
       [] OTHER -> {t} \union (IF st.cl THEN {over} ELSE {})
UpstreamSide(sc, st) ==
  LET x == C!ClientNext(UScript(sc, st), st.c, st.uf)
      t == [st EXCEPT !.c = x[1]]
      o == x[2]
      over == [st EXCEPT !.ph = IF st.ph = "run" THEN "drainc" ELSE "dead"]
  IN CASE o.o = "more" -> Stopped(st, st.ux, over)
       [] o.o = "out"  -> IF st.ux \in {"gone", "reset"} THEN {[t EXCEPT !.ul = TRUE], over} ELSE {[t EXCEPT !.uo = @ \o o.b]}
       [] o.o = "ev"   -> {IF st.ph = "run" THEN FromUpstream(sc, t, o) ELSE t} \union (IF st.ul THEN {over} ELSE {})
       [] OTHER -> {t} \union (IF st.ul THEN {over} ELSE {})
Micro(sc, st) ==
  CASE st.ph = "greet" ->
         (LET x == C!ClientNext(UScript(sc, st), st.c, st.uf) IN
          CASE x[2].o = "more" -> Stopped(st, st.ux, [st EXCEPT !.ph = "dead"])
            [] x[2].e = "Greeting" -> {[st EXCEPT !.ph = "run", !.c = x[1], !.s = Greet(sc, x[2].q)]}
            [] OTHER -> {[st EXCEPT !.ph = "dead"]})
    [] st.ph = "run" -> ClientSide(sc, st) \union UpstreamSide(sc, st)
    [] st.ph = "drainu" -> UpstreamSide(sc, st)
    [] st.ph = "drainc" -> ClientSide(sc, st)
    [] OTHER -> {}

\* Everything that can be the case on the way (up to some number of states; then TooMany),
\* and when nothing moves any more.
TooMany(ways) == Cardinality(ways) > 1500
RECURSIVE Reach(_, _, _)
Reach(sc, new, seen) ==
  IF new = {} \/ TooMany(seen) THEN seen
  ELSE LET n == (UNION {Micro(sc, st) : st \in new}) \ seen IN Reach(sc, n, seen \union n)
Ways(sc, set) == Reach(sc, set, set)
Rests(sc, ways) == {st \in ways : Micro(sc, st) = {}}

-----------------------------------------------------------------------------
\* What happens to a session from outside.
Up(st, how) == [st EXCEPT !.ph = IF how = "ok" THEN "greet" ELSE "dead"]
\* More has arrived. While one side is being seen off, it may or may not be looked at.
\* Output that is still waiting for room fails when its reader goes away.
Arrive(st, cn, un, cx, ux) ==
  LET t == [st EXCEPT !.cf = cn, !.uf = un, !.cx = IF cx = "" THEN @ ELSE cx, !.ux = IF ux = "" THEN @ ELSE ux]
      fails(how, out) == how \in {"gone", "reset"} /\ out # ""
      f == [t EXCEPT !.cl = @ \/ fails(cx, st.co), !.ul = @ \/ fails(ux, st.uo)]
  IN {t, f} \union (IF st.ph \in {"drainu", "drainc"} THEN {st} ELSE {})

IsPrefix(a, b) == Len(a) <= Len(b) /\ SubSeq(b, 1, Len(a)) = a
Gone(st) == st.cx # "" \/ st.ux # ""
MustEnd(st) == st.cx \notin {"", "notify"} \/ st.ux \notin {"", "notify"}
\* The rest after some output has been observed.
Seen(st, co, uo) ==
  [st EXCEPT !.co = SubSeq(@, Len(co) + 1, Len(@)), !.uo = SubSeq(@, Len(uo) + 1, Len(@))]
=============================================================================
