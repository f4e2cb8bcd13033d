------------------------------ MODULE MCServer ------------------------------
(* Model checks ServerFlow: for every script in SCRIPTS, every order of user
   calls (also refused ones), every way of cutting the input at the script's
   cut points. See MCClient.                                                *)
EXTENDS ServerFlow, Json, IOUtils, FiniteSets, TLCExt

Scripts == JsonDeserialize(IOEnv.SCRIPTS)
Emit == "EMIT" \in DOMAIN IOEnv

VARIABLES sid, st, fed, used, log, idle, hist, last
vars == <<sid, st, fed, used, log, idle, hist, last>>
view == <<sid, st, fed, used, log, idle>>

Sc == Scripts[sid]
Silent == Obs("none", "", 0, "", "", "")

\* The texts as configured by the script's calls.
RECURSIVE Configured(_, _, _)
Configured(sc, i, s) ==
  IF i > Len(sc.opts) THEN s
  ELSE Configured(sc, i + 1, ServerText(s, sc.opts[i].which, sc.opts[i].text, sc.opts[i].valid))

Init == /\ sid \in 1 .. Len(Scripts)
        /\ st = Configured(Sc, 1, ServerInit(Sc))
        /\ fed = 0 /\ log = <<>> /\ used = 0
        /\ idle = FALSE
        /\ hist = "" /\ last = Silent

\* k: "out", "sent" (event about sending), "recv" (message (a, b] with event
\* or error), "int" (a response the server produced itself), "call"
Entry(k, a, b, o) == [k |-> k, a |-> a, b |-> b, o |-> o]

Feed ==
  \E i \in 1 .. Len(Sc.cuts) :
    /\ Sc.cuts[i] > fed
    /\ fed' = Sc.cuts[i]
    /\ hist' = hist \o " f" \o ToString(Sc.cuts[i] - fed)
    /\ last' = Silent /\ idle' = FALSE
    /\ UNCHANGED <<sid, st, used, log>>
\* The user hands over the next response of the script in any way its kind
\* allows.
Ways(r) == CASE r.k = "data"   -> {<<"enq", "e">>}
             [] r.k = "status" -> {<<"enq", "e">>, <<"afin", "F">>, <<"irej", "R">>}
             [] OTHER          -> {<<"enq", "e">>, <<"acont", "C">>, <<"iacc", "A">>}
Call ==
  /\ used < Len(Sc.resps)
  /\ \E w \in Ways(Sc.resps[used + 1]) :
       LET n  == used + 1
           ok == Allowed(st, w[1])
       IN /\ st' = ServerCall(Sc, st, w[1], n)
          /\ used' = IF ok THEN n ELSE used
          /\ log' = IF ok THEN Append(log, Entry("call", n, 0, [Silent EXCEPT !.e = w[1]])) ELSE log
          /\ last' = [Silent EXCEPT !.e = IF ok THEN "accepted" ELSE "refused",
                                    !.h = IF ok THEN st'.hs ELSE 0]
          /\ idle' = (idle /\ ~ok)
          /\ hist' = hist \o " " \o w[2] \o ToString(n)
  /\ UNCHANGED <<sid, fed>>
Progress ==
  /\ ~idle
  /\ LET x == ServerNext(Sc, st, fed)
         t == x[1]
         o == x[2]
         own == CASE o.o = "out" /\ st.pend = "" /\ st.q = <<>> ->
                       <<Entry("int", 0, 0, [Silent EXCEPT !.b = o.b])>>
                  [] o.o = "err" /\ t.q # st.q ->
                       <<Entry("int", 0, 0, [Silent EXCEPT !.b = t.q[Len(t.q)].b])>>
                  [] OTHER -> <<>>
         e == CASE o.o = "out"  -> <<Entry("out", 0, 0, o)>>
                [] o.o = "more" -> <<>>
                [] o.o = "ev" /\ o.e \in {"GreetingSent", "ResponseSent"} -> <<Entry("sent", 0, 0, o)>>
                [] OTHER -> <<Entry("recv", st.rx.start, t.rx.start, o)>>
     IN /\ st' = t /\ log' = log \o own \o e
        /\ idle' = (o.o = "more") /\ last' = o
  /\ hist' = hist \o " n"
  /\ UNCHANGED <<sid, fed, used>>

Next == Feed \/ Call \/ Progress
Spec == Init /\ [][Next]_vars

EmitTransition ==
  Emit => PrintT("@@" \o ToJson([s |-> sid, p |-> hist', o |-> last',
                                 f |-> TLCFP(view'), g |-> TLCFP(<<view', "another fingerprint of the same">>)]))

-----------------------------------------------------------------------------
RECURSIVE Concat(_, _, _)
Concat(seq, i, n) == IF i > n THEN "" ELSE seq[i] \o Concat(seq, i + 1, n)
IsPrefix(a, b) == Len(a) <= Len(b) /\ SubSeq(b, 1, Len(a)) = a
Upto(i) == SubSeq(log, 1, i)
OutOf(l) == LET o == SelectSeq(l, LAMBDA x : x.k = "out") IN Concat([i \in 1 .. Len(o) |-> o[i].o.b], 1, Len(o))
\* Everything to be written, in the order in which it arose.
Given(l) ==
  LET g == SelectSeq(l, LAMBDA x : x.k \in {"call", "int"}) IN
  <<Sc.greeting.b>> \o [i \in 1 .. Len(g) |-> IF g[i].k = "int" THEN g[i].o.b ELSE Sc.resps[g[i].a].b]
Calls(l) == SelectSeq(l, LAMBDA x : x.k = "call")
Recvs == SelectSeq(log, LAMBDA x : x.k = "recv")
Count(l, e) == Len(SelectSeq(l, LAMBDA x : x.o.e = e))

\* The dialogue state as an observer concludes it from the log.
RECURSIVE ModeAt(_)
ModeAt(i) ==    \* before entry i + 1
  IF i = 0 THEN "cmd"
  ELSE LET e == log[i].o.e IN
       CASE e = "AuthCommand" -> "auth"
         [] e = "IdleCommand" -> "idleacc"
         [] e \in {"afin", "irej", "IdleDone"} -> "cmd"
         [] e = "iacc" -> "idledone"
         [] OTHER -> ModeAt(i - 1)
CodecAt(i) == CASE ModeAt(i) = "cmd" -> "command" [] ModeAt(i) = "auth" -> "authdata" [] OTHER -> "idledone"

\* The message starting at `a` with all literals of acceptable size.
RECURSIVE Whole(_, _, _)
Whole(codec, rx, avail) ==
  LET r == RecvNext(Sc, codec, rx, avail) IN
  IF r.r = "dec" /\ r.d.r = "lit" /\ r.d.len <= Sc.maxlit
  THEN Whole(codec, Literal(rx, r.end, r.d.len), avail) ELSE r
\* What the server has to say about the literals of the message at rx, up to
\* position `to`.
RECURSIVE Says(_, _)
Says(rx, to) ==
  LET r == RecvNext(Sc, "command", rx, to) IN
  IF r.r = "dec" /\ r.d.r = "lit"
  THEN (IF r.d.mode # "S" THEN <<>>
        ELSE IF r.d.len <= Sc.maxlit THEN <<AcceptLine(st)>> ELSE <<RejectLine(st, r.d.tag)>>)
       \o (IF r.d.len <= Sc.maxlit THEN Says(Literal(rx, r.end, r.d.len), to) ELSE <<>>)
  ELSE <<>>

S01 ==
  /\ IsPrefix(OutOf(log), Concat(Given(log), 1, Len(Given(log))))
  /\ \A i \in 1 .. Len(log) : log[i].k = "sent" =>
       LET before == Upto(i - 1)
           g == Given(before)
           h == log[i].o.h
           \* position of the h-th response of the user among everything given
           pos == IF log[i].o.e = "GreetingSent" THEN 1
                  ELSE LET cs == SelectSeq(before, LAMBDA x : x.k \in {"call", "int"})
                       IN 1 + (CHOOSE n \in 1 .. Len(cs) : cs[n].k = "call" /\ cs[n].a = h)
       IN /\ OutOf(before) = Concat(g, 1, pos)
          /\ IF log[i].o.e = "GreetingSent"
             THEN log[i].o.p = Sc.greeting.p /\ Count(before, "GreetingSent") = 0
             ELSE /\ h = Count(before, "ResponseSent") + 1
                  /\ h <= Len(Calls(before))
                  /\ log[i].o.p = Sc.resps[Calls(before)[h].a].p
  /\ idle => OutOf(log) = Concat(Given(log), 1, Len(Given(log)))

S02 ==
  LET ints == SelectSeq(log, LAMBDA x : x.k = "int")
      cmds == SelectSeq([i \in 1 .. Len(log) |-> [x |-> log[i], m |-> ModeAt(i - 1)]],
                        LAMBDA y : y.x.k = "recv" /\ y.m = "cmd")
      RECURSIVE All(_)
      All(i) == IF i > Len(cmds) THEN
                  (IF st.mode = "cmd" THEN Says(Finish(Rx0, st.rx.start), st.rx.seen) ELSE <<>>)
                ELSE Says(Finish(Rx0, cmds[i].x.a), cmds[i].x.b) \o All(i + 1)
  IN [i \in 1 .. Len(ints) |-> ints[i].o.b] = All(1)
S02_Refused ==
  \A i \in 1 .. Len(log) : log[i].k = "recv" =>
    LET m == Whole(CodecAt(i - 1), Finish(Rx0, log[i].a), log[i].b) IN
    (log[i].o.e = "littoolong") <=> (m.r = "dec" /\ m.d.r = "lit" /\ m.d.len > Sc.maxlit)

S03 ==
  \A i \in 1 .. Len(log) : log[i].k = "recv" /\ log[i].o.o = "ev" =>
    LET m == Whole(CodecAt(i - 1), Finish(Rx0, log[i].a), Sc.n) IN
    /\ m.r = "dec" /\ m.d.r = "ok" /\ m.end = log[i].b
    /\ CASE log[i].o.e = "Command"     -> m.d.k = "cmd" /\ log[i].o.q = m.d.p
         [] log[i].o.e = "AuthCommand" -> m.d.k = "auth" /\ log[i].o.q = m.d.p
         [] log[i].o.e = "IdleCommand" -> m.d.k = "idle" /\ log[i].o.q = m.d.tag
         [] log[i].o.e = "AuthData"    -> m.d.k = "authdata" /\ log[i].o.q = m.d.p
         [] OTHER                      -> m.d.k = "idledone"
S04 ==
  \A i \in 1 .. Len(log) :
    /\ log[i].o.e \in {"acont", "afin", "AuthData"} => ModeAt(i - 1) = "auth"
    /\ log[i].o.e \in {"Command", "AuthCommand", "IdleCommand"} => ModeAt(i - 1) = "cmd"
S05 ==
  \A i \in 1 .. Len(log) :
    /\ log[i].o.e \in {"iacc", "irej"} => ModeAt(i - 1) = "idleacc"
    /\ log[i].o.e = "IdleDone" => ModeAt(i - 1) = "idledone"
    /\ log[i].k = "recv" => ModeAt(i - 1) # "idleacc"
S0405_Refused ==   \* refused calls leave no trace
  [][last'.e = "refused" => st' = st /\ log' = log]_vars
S06 ==
  /\ \A i \in 1 .. Len(log) : log[i].k = "recv" =>
       /\ log[i].b - log[i].a <= Sc.max
       /\ log[i].o.e = "toolong" => log[i].b - log[i].a = Sc.max
       \* nothing of acceptable size was there
       /\ log[i].o.e = "toolong" =>
            Whole(CodecAt(i - 1), Finish(Rx0, log[i].a), log[i].a + Sc.max).r = "toolong"
  /\ idle /\ ModeAt(Len(log)) # "idleacc" => fed < st.rx.start + Sc.max

F01 == st.mode # "idleacc" => Monotone(Sc, Codec(st), st.rx, fed)
F01_Wait == [][last'.o = "more" => st'.rx.start = st.rx.start]_vars
F02 ==
  \A i \in 1 .. Len(Recvs) :
    /\ Recvs[i].a = (IF i = 1 THEN 0 ELSE Recvs[i - 1].b)
    /\ Recvs[i].b > Recvs[i].a /\ Recvs[i].b <= fed
    /\ Recvs[i].o.o = "err" => Recvs[i].o.b = Piece(Sc, Recvs[i].a, Recvs[i].b)
EndsBare(b) == b = 1 \/ SubSeq(Sc.inp, b - 1, b - 1) # "\r"
F03 ==
  \A i \in 1 .. Len(Recvs) :
    LET x == Recvs[i] IN
    IF x.o.e = "lf" THEN ~Sc.relaxed /\ EndsBare(x.b)
    ELSE Sc.relaxed \/ x.o.e = "toolong" \/ ~EndsBare(x.b)
F04 ==
  idle => /\ st.pend = "" /\ st.cur = <<>> /\ st.q = <<>>
          /\ ModeAt(Len(log)) # "idleacc" =>
               Whole(CodecAt(Len(log)), Finish(Rx0, st.rx.start), fed).r = "more"
=============================================================================
