------------------------------ MODULE MCClient ------------------------------
(* Model checks ClientFlow: for every script in SCRIPTS, every order of user
   calls, every way of cutting the input at the script's cut points.

   `log` is what an observer of the client has seen; the properties C01..C07,
   F01..F04 are stated on it and on the script, not on how ClientFlow works.

   With EMIT set every transition is printed: its path, the predicted
   answer and the fingerprint of the state it leads to. The harness replays these schedules into the real client.        *)
EXTENDS ClientFlow, Json, IOUtils, FiniteSets, TLCExt

Scripts == JsonDeserialize(IOEnv.SCRIPTS)
Emit == "EMIT" \in DOMAIN IOEnv

VARIABLES sid, st, fed, log, idle, hist, last
vars == <<sid, st, fed, log, idle, hist, last>>
view == <<sid, st, fed, log, idle>>

Sc == Scripts[sid]

Init == /\ sid \in 1 .. Len(Scripts)
        /\ st = ClientInit /\ fed = 0 /\ log = <<>>
        /\ idle = FALSE      \* the last call was a `next` that asked for input
        /\ hist = "" /\ last = Silent

Entry(k, a, b, o) == [k |-> k, a |-> a, b |-> b, o |-> o]
  \* k: "out" bytes handed out; "send" event about sending; "recv" a message
  \* (a, b] with its event or error; "eat" a message without event; "call"

RecvEvents == {"Greeting", "CommandRejected", "AuthCont", "AuthStatus", "IdleAccepted",
               "IdleRejected", "Data", "Status", "Cont"}

Feed ==
  \E i \in 1 .. Len(Sc.cuts) :
    /\ Sc.cuts[i] > fed
    /\ fed' = Sc.cuts[i]
    /\ hist' = hist \o " f" \o ToString(Sc.cuts[i] - fed)
    /\ last' = Silent /\ idle' = FALSE
    /\ UNCHANGED <<sid, st, log>>
Enqueue ==
  /\ st.enq < Len(Sc.cmds)
  /\ st' = ClientEnqueue(st)
  /\ hist' = hist \o " e" /\ last' = Silent /\ idle' = FALSE
  /\ UNCHANGED <<sid, fed, log>>
SetAuth ==
  /\ Len(Sc.auths) > 0
  \* the user never repeats a refused call at the same point (no effect)
  /\ LET used == Cardinality({i \in 1 .. Len(log) : log[i].k = "call" /\ log[i].o.e = "auth"})
         n    == (used % Len(Sc.auths)) + 1
     IN
     /\ st' = ClientSetAuth(Sc, st, n)
     /\ log' = IF AuthWanted(Sc, st) THEN Append(log, Entry("call", n, st.cur, Ev("auth", st.cur, "", ""))) ELSE log
     /\ last' = [Silent EXCEPT !.e = IF AuthWanted(Sc, st) THEN "accepted" ELSE "refused",
                               !.h = IF AuthWanted(Sc, st) THEN st.cur ELSE 0]
     /\ hist' = hist \o " a" \o ToString(n)
     /\ idle' = (idle /\ ~AuthWanted(Sc, st))
  /\ UNCHANGED <<sid, fed>>
SetDone ==
  /\ st' = ClientSetDone(Sc, st)
  /\ log' = IF DoneWanted(Sc, st) THEN Append(log, Entry("call", 0, st.cur, Ev("done", st.cur, "", ""))) ELSE log
  /\ last' = [Silent EXCEPT !.e = IF DoneWanted(Sc, st) THEN "accepted" ELSE "refused",
                            !.h = IF DoneWanted(Sc, st) THEN st.cur ELSE 0]
  /\ hist' = hist \o " d"
  /\ idle' = (idle /\ ~DoneWanted(Sc, st))
  /\ UNCHANGED <<sid, fed>>
Progress ==
  /\ ~idle      \* asking again without new input has no effect
  /\ LET x  == ClientNext(Sc, st, fed)
         t  == x[1]
         o  == x[2]
         a  == st.rx.start
         b  == t.rx.start
         e1 == IF b > a /\ (o.o = "out" \/ o.o = "more") THEN <<Entry("eat", a, b, Silent)>> ELSE <<>>
         e2 == CASE o.o = "out" -> <<Entry("out", 0, 0, o)>>
                 [] o.o = "more" -> <<>>
                 [] o.o = "err" \/ (o.o = "ev" /\ o.e \in RecvEvents) -> <<Entry("recv", a, b, o)>>
                 [] OTHER -> <<Entry("send", 0, 0, o)>>
     IN /\ st' = t /\ log' = log \o e1 \o e2
        /\ idle' = (o.o = "more") /\ last' = o
  /\ hist' = hist \o " n"
  /\ UNCHANGED <<sid, fed>>

Next == Feed \/ Enqueue \/ SetAuth \/ SetDone \/ Progress
Spec == Init /\ [][Next]_vars

EmitTransition ==
  Emit => PrintT("@@" \o ToJson([s |-> sid, p |-> hist', o |-> last',
                                  f |-> TLCFP(view'), g |-> TLCFP(<<view', "another fingerprint of the same">>)]))

-----------------------------------------------------------------------------
\* Reading the log.

Sel(P(_)) == SelectSeq(log, P)
RECURSIVE Concat(_, _)
Concat(seq, i) == IF i > Len(seq) THEN "" ELSE seq[i].o.b \o Concat(seq, i + 1)
Out == Concat(Sel(LAMBDA x : x.k = "out"), 1)
Final == {"CommandSent", "CommandRejected", "AuthStatus", "IdleRejected", "IdleDoneSent"}
Finals == Sel(LAMBDA x : x.o.e \in Final)
Recvs == Sel(LAMBDA x : x.k \in {"recv", "eat"})
Greeted(x) == x.a > 0 /\ \E i \in 1 .. Len(log) : log[i].o.e = "Greeting" /\ log[i].b <= x.a

\* The whole response that starts at `a`, as the decoders see it (literals
\* followed to the end).
RECURSIVE Whole(_, _, _)
Whole(codec, rx, avail) ==
  LET r == RecvNext(Sc, codec, rx, avail) IN
  IF r.r = "dec" /\ r.d.r = "lit" THEN Whole(codec, Literal(rx, r.end, r.d.len), avail) ELSE r
Message(x) == Whole(IF Greeted(x) THEN "response" ELSE "greeting", Finish(Rx0, x.a), Sc.n)

IsPrefix(a, b) == Len(a) <= Len(b) /\ SubSeq(b, 1, Len(a)) = a
Rest(a, b) == SubSeq(b, Len(a) + 1, Len(b))

RECURSIVE Wire(_, _, _)
Wire(fr, i, n) == IF i > n THEN "" ELSE fr[i].d \o Wire(fr, i + 1, n)
WireAll(c) == Wire(c.frags, 1, Len(c.frags))
\* Prefixes of a command at which a literal may be refused.
Refusable(c) == {Wire(c.frags, 1, i - 1) : i \in {j \in 1 .. Len(c.frags) : c.frags[j].m = "S"}}
\* What is written for command i: its line, then what the user supplied.
RECURSIVE Supplied(_, _)
Supplied(i, k) ==
  IF k > Len(log) THEN ""
  ELSE (IF log[k].k = "call" /\ log[k].b = i
        THEN IF log[k].o.e = "auth" THEN Sc.auths[log[k].a].d ELSE DoneLine
        ELSE "") \o Supplied(i, k + 1)
Written(i) ==
  LET c == Sc.cmds[i]
      f == SelectSeq(Finals, LAMBDA x : x.o.h = i)
  IN IF f # <<>> /\ f[1].o.e = "CommandRejected" THEN Refusable(c)
     ELSE {WireAll(c) \o Supplied(i, 1)}
RECURSIVE Remain(_, _)     \* what can be left of the output after commands 1..i
Remain(i, suffixes) ==
  IF i > Len(Finals) THEN suffixes
  ELSE Remain(i + 1, UNION {{Rest(w, s) : w \in {v \in Written(i) : IsPrefix(v, s)}} : s \in suffixes})

-----------------------------------------------------------------------------
C01 ==  \* one command after the other, each byte once
  LET left == Remain(1, {Out})
      n    == Len(Finals) + 1
  IN /\ \E s \in left : IF n > st.enq THEN s = ""
                        ELSE \E w \in Written(n) : IsPrefix(s, w)
     /\ idle /\ st.greeted /\ st.cur = 0 => Len(Finals) = st.enq
C01_Rejected ==  \* an AUTHENTICATE or IDLE is always written completely
  \A i \in 1 .. Len(Finals) : Finals[i].o.e = "CommandRejected" => Refusable(Sc.cmds[i]) # {}

\* Synchronising literals whose payload went out (or may go out now).
Released ==
  LET n == Len(Finals)
      sync(i) == {j \in 1 .. Len(Sc.cmds[i].frags) : Sc.cmds[i].frags[j].m = "S"}
      of(i) == LET f == Finals[i].o.e IN
               IF f = "CommandSent" THEN Cardinality(sync(i)) ELSE 0
      RECURSIVE Sum(_)
      Sum(i) == IF i = 0 THEN 0 ELSE of(i) + Sum(i - 1)
  IN Sum(n)
Eaten == Len(Sel(LAMBDA x : x.k = "eat"))
C02 ==
  \* only continuation requests are consumed silently, one per literal
  /\ \A i \in 1 .. Len(log) : log[i].k = "eat" => Message(log[i]).d.k = "cont"
  /\ Released <= Eaten
  \* the output after the k-th consumed request starts with a payload, and
  \* before it ended just in front of that payload
  /\ \A i \in 1 .. Len(log) : log[i].k = "eat" =>
        /\ i < Len(log) /\ log[i + 1].k = "out"
  \* without a consumed request nothing behind a sync literal is written
  /\ LET n == Len(Finals) + 1 IN
     (n <= st.enq /\ Sc.cmds[n].kind = "cmd") =>
       LET mine == Cardinality({i \in 1 .. Len(log) : log[i].k = "eat" /\
                     \A j \in i .. Len(log) : ~(log[j].o.e \in Final)})
           syncs == {j \in 1 .. Len(Sc.cmds[n].frags) : Sc.cmds[n].frags[j].m = "S"}
           allowed == {Wire(Sc.cmds[n].frags, 1, j - 1) :
                         j \in {k \in syncs : Cardinality({m \in syncs : m < k}) = mine}}
           max == IF Cardinality(syncs) <= mine THEN WireAll(Sc.cmds[n]) ELSE CHOOSE w \in allowed : TRUE
       IN \E s \in Remain(1, {Out}) : IsPrefix(s, max)

C03 ==
  /\ \A i \in 1 .. Len(Finals) : Finals[i].o.h = i
  /\ \A i \in 1 .. Len(Finals) :
       Finals[i].o.e \in {"CommandSent", "CommandRejected", "AuthStatus"} => Finals[i].o.p = Sc.cmds[i].p
  /\ \A i \in 1 .. Len(Finals) :
       Finals[i].o.e \in (CASE Sc.cmds[i].kind = "cmd" -> {"CommandSent", "CommandRejected"}
                            [] Sc.cmds[i].kind = "auth" -> {"AuthStatus"}
                            [] OTHER -> {"IdleRejected", "IdleDoneSent"})
  \* intermediate events belong to the command right behind the last outcome
  /\ \A i \in 1 .. Len(log) :
       log[i].o.e \in {"AuthStarted", "AuthCont", "IdleSent", "IdleAccepted"} =>
         /\ log[i].o.h = 1 + Cardinality({j \in 1 .. i : log[j].o.e \in Final})
         /\ log[i].o.h <= st.enq

C04 ==
  LET g == {i \in 1 .. Len(log) : log[i].o.e = "Greeting"} IN
  /\ Cardinality(g) <= 1
  /\ (st.greeted <=> g # {})
  /\ \A i \in 1 .. Len(log) : (\A j \in g : i < j) => log[i].o.o = "err"
  /\ \A j \in g : log[j].o.q = Message(log[j]).d.p

C05 ==  \* every response surfaces once, in order, with its content and class
  \A i \in 1 .. Len(Recvs) :
    LET x == Recvs[i]
        m == Message(x)
    IN /\ m.end = x.b
       /\ x.k = "recv" /\ x.o.o = "ev" =>
            /\ m.r = "dec" /\ m.d.r = "ok" /\ m.d.p = x.o.q
            /\ CASE m.d.k = "data" -> x.o.e = "Data"
                 [] m.d.k = "cont" -> x.o.e \in {"Cont", "AuthCont", "IdleAccepted"}
                 [] m.d.k = "status" ->
                      x.o.e \in {"Status", "CommandRejected", "AuthStatus", "IdleRejected"}
                      /\ (x.o.e # "Status" => m.d.tag = Sc.cmds[x.o.h].tag)
                 [] OTHER -> x.o.e = "Greeting"

C06 ==  \* AUTHENTICATE: request, data, request, data, ..., status
  \A i \in 1 .. Len(log) :
    /\ log[i].o.e = "auth" =>
         \* answers the last request of this command, which nothing answered yet
         \E j \in 1 .. i - 1 : /\ log[j].o.e = "AuthCont" /\ log[j].o.h = log[i].b
                               /\ \A k \in j + 1 .. i - 1 : ~(log[k].o.e \in {"auth", "AuthStatus"})
    /\ log[i].o.e = "AuthCont" =>
         \A j \in 1 .. i - 1 : log[j].o.e = "AuthCont" /\ log[j].o.h = log[i].o.h =>
           \E k \in j + 1 .. i - 1 : log[k].o.e = "auth"
    /\ log[i].o.e = "AuthStatus" => \E j \in 1 .. i - 1 : log[j].o.e = "AuthStarted" /\ log[j].o.h = log[i].o.h

C07 ==  \* IDLE: accepted, then asked for, then DONE, then reported
  \A i \in 1 .. Len(log) :
    /\ log[i].o.e = "done" =>
         \E j \in 1 .. i - 1 : /\ log[j].o.e = "IdleAccepted" /\ log[j].o.h = log[i].b
                               /\ \A k \in j + 1 .. i - 1 : ~(log[k].o.e \in {"done", "IdleRejected"})
    /\ log[i].o.e = "IdleDoneSent" =>
         \E j \in 1 .. i - 1 : log[j].o.e = "done" /\ log[j].b = log[i].o.h
    /\ log[i].o.e = "IdleAccepted" =>
         \A j \in 1 .. i - 1 : ~(log[j].o.e = "IdleAccepted" /\ log[j].o.h = log[i].o.h)

F01 ==  \* waiting is the only answer more input can change
  Monotone(Sc, IF st.greeted THEN "response" ELSE "greeting", st.rx, fed)
F01_Wait == \* asking for input leaves everything unread
  [][last'.o = "more" => st'.rx.start = st.rx.start]_vars

F02 ==  \* messages and errors partition the input
  \A i \in 1 .. Len(Recvs) :
    /\ Recvs[i].a = (IF i = 1 THEN 0 ELSE Recvs[i - 1].b)
    /\ Recvs[i].b > Recvs[i].a /\ Recvs[i].b <= fed
    /\ Recvs[i].o.o = "err" => Recvs[i].o.b = Piece(Sc, Recvs[i].a, Recvs[i].b)

EndsBare(b) == b = 1 \/ SubSeq(Sc.inp, b - 1, b - 1) # "\r"
F03 ==
  \A i \in 1 .. Len(Recvs) :
    LET x == Recvs[i] IN
    IF x.o.o = "err" /\ x.o.e = "lf" THEN ~Sc.relaxed /\ EndsBare(x.b)
    ELSE Sc.relaxed \/ ~EndsBare(x.b)

F04 ==  \* waiting means: nothing allowed to write, no message complete
  idle =>
    /\ st.pend = ""
    /\ st.greeted => (st.cur # 0 \/ st.nxt > st.enq)
    /\ LET m == Whole(IF st.greeted THEN "response" ELSE "greeting",
                      Finish(Rx0, st.rx.start), fed)
       IN m.r = "more"
=============================================================================
