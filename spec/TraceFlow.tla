------------------------------ MODULE TraceFlow ------------------------------
(* Validates recorded runs of the real Client and Server against ClientFlow
   and ServerFlow. The file named by TRACES holds the runs: the script and a
   log of every call with its answer. Roles: "c" a client, "s" a server, "x"
   both connected to each other (byte channels recorded as feeds).

   The specification predicts every answer; a run that differs is printed
   with the properties the difference breaks.                               *)
EXTENDS Naturals, Sequences, TLC, Json, IOUtils, FiniteSets

C == INSTANCE ClientFlow
S == INSTANCE ServerFlow
M == INSTANCE Memory

Traces == JsonDeserialize(IOEnv.TRACES)

VARIABLES id,      \* index of the run
          step,    \* log entries done
          cs, ss,  \* states of the two machines
          cfed, sfed, \* bytes each has received
          cut,     \* [c, s]: last piece boundary
          hw,      \* the most bytes that were outstanding
          res      \* "run" | "ok" | "bad"
vars == <<id, step, cs, ss, cfed, sfed, cut, hw, res>>

T == Traces[id]
CS == IF T.role = "x" THEN T.c ELSE T
SS == IF T.role = "x" THEN T.s ELSE T

None == [o |-> "none", e |-> "", h |-> 0, p |-> "", q |-> "", b |-> ""]

Init ==
  /\ id \in 1 .. Len(Traces)
  /\ step = 0
  /\ cs = IF T.role = "s" THEN 0 ELSE C!ClientInit
  /\ ss = IF T.role = "c" THEN 0 ELSE S!ServerInit(SS)
  /\ cfed = 0 /\ sfed = 0
  /\ cut = [c |-> FALSE, s |-> FALSE]
  /\ hw = 0
  /\ res = "run"

IsPrefix(a, b) == Len(a) <= Len(b) /\ SubSeq(b, 1, Len(a)) = a

-----------------------------------------------------------------------------
\* Which properties a difference breaks.

CEvent(e) ==
  CASE e = "Greeting" -> {"C04"}
    [] e = "CommandSent" -> {"C01", "C03"}
    [] e = "CommandRejected" -> {"C02", "C03", "C05"}
    [] e = "AuthStarted" -> {"C03", "C06"}
    [] e = "AuthCont" -> {"C05", "C06"}
    [] e = "AuthStatus" -> {"C03", "C05", "C06"}
    [] e \in {"IdleSent", "IdleDoneSent"} -> {"C03", "C07"}
    [] e \in {"IdleAccepted", "IdleRejected"} -> {"C03", "C05", "C07"}
    [] e \in {"Data", "Status", "Cont"} -> {"C05"}
    [] OTHER -> {}
SEvent(e) ==
  CASE e \in {"GreetingSent", "ResponseSent"} -> {"S01"}
    [] e = "Command" -> {"S03"}
    [] e = "AuthCommand" -> {"S03", "S04"}
    [] e = "AuthData" -> {"S04"}
    [] e = "IdleCommand" -> {"S03", "S05"}
    [] e = "IdleDone" -> {"S05"}
    [] OTHER -> {}
Error(x) ==
  IF x.o # "err" THEN {}
  ELSE {"F02"} \union (CASE x.e = "lf" -> {"F03"}
                         [] x.e = "toolong" -> {"S06"}
                         [] x.e = "littoolong" -> {"S02"}
                         [] OTHER -> {})

HasSync(c) == \E i \in 1 .. Len(c.frags) : c.frags[i].m = "S"

CContext(s) ==
  LET k == C!Kind(CS, s) IN
  (IF k = "auth" THEN {"C06"} ELSE {})
  \union (IF k = "idle" THEN {"C07"} ELSE {})
  \union (IF k = "cmd" /\ HasSync(CS.cmds[s.cur]) THEN {"C02"} ELSE {})
  \union (IF ~s.greeted THEN {"C04"} ELSE {})

\* s, t: the state before and as predicted after the call.
CBlame(s, t, exp, got, pieces) ==
  LET kinds == {exp.o, got.o}
      base ==
        CEvent(exp.e) \union CEvent(got.e) \union Error(exp) \union Error(got)
        \union (IF "out" \in kinds THEN {"C01"} ELSE {})
        \union (IF exp.o = "err" \/ got.o = "err" THEN {"C05"} ELSE {})
        \union (IF got.o = "more" THEN {"F04"} ELSE {})
        \union (IF exp.o = "more" THEN {"F02"} ELSE {})
        \union (IF exp.o = "ev" /\ exp.h # 0 /\ got.o = "ev" /\ got.e = exp.e /\ got.h # exp.h
                THEN {"C03", "H01"} ELSE {})
        \union CContext(s) \union CContext(t)
        \union (IF pieces /\ kinds # {"out"} THEN {"F01"} ELSE {})
        \union (IF got.o = "panic" THEN {"C05", "F02", "F04"} ELSE {})
  IN IF base = {} THEN {"C05"} ELSE base

SContext(s) ==
  (IF s.mode = "auth" THEN {"S04"} ELSE {})
  \union (IF s.mode \in {"idleacc", "idledone"} THEN {"S05"} ELSE {})
  \union (IF s.rx.inlit \/ s.rx.seen > s.rx.start
             \/ (s.cur # <<>> /\ s.cur[1].k = "i") THEN {"S02"} ELSE {})

SBlame(s, t, exp, got, pieces, fed) ==
  LET kinds == {exp.o, got.o}
      base ==
        SEvent(exp.e) \union SEvent(got.e) \union Error(exp) \union Error(got)
        \union (IF "out" \in kinds THEN {"S01"} ELSE {})
        \union (IF exp.o = "err" \/ got.o = "err" THEN {"S03"} ELSE {})
        \union (IF got.o = "more" THEN {"F04"} ELSE {})
        \union (IF exp.o = "more" THEN {"F02"} ELSE {})
        \union (IF exp.o = "ev" /\ exp.h # 0 /\ got.o = "ev" /\ got.e = exp.e /\ got.h # exp.h
                THEN {"S01", "H01"} ELSE {})
        \union SContext(s) \union SContext(t)
        \union (IF SS.max # 0 /\ fed >= s.rx.start + SS.max THEN {"S06"} ELSE {})
        \union (IF pieces /\ kinds # {"out"} THEN {"F01"} ELSE {})
        \union (IF got.o = "panic" THEN {"S03", "F02", "F04"} ELSE {})
  IN IF base = {} THEN {"S03"} ELSE base

-----------------------------------------------------------------------------
\* One log entry: the predicted answer `exp` and state; `ok` if they agree.

Same(exp, got) == exp.o = got.o /\ exp.e = got.e /\ exp.h = got.h
                  /\ exp.p = got.p /\ exp.q = got.q /\ exp.b = got.b

\* [ok, st, exp, blame]
Verdict(ok, st, exp, blame) == [ok |-> ok, st |-> st, exp |-> exp, blame |-> blame]

Answer(ok, h, ret) == [o |-> "ret", e |-> "", h |-> h, p |-> "", q |-> "",
                       b |-> (IF ok THEN "accepted" ELSE "refused ") \o ret]

JudgeC(e) ==
  CASE e.a = "feed" ->
         Verdict(e.obs.o = "none", cs, None, {"F02", "F04", "C05"})
    [] e.a = "enq" ->
         LET t == C!ClientEnqueue(cs) IN
         Verdict(e.obs.o = "none" /\ e.h = t.enq, t, Answer(TRUE, t.enq, ""), {"C03", "H01"})
    [] e.a = "sauth" ->
         LET w == C!AuthWanted(CS, cs) IN
         Verdict(e.obs.o = "none" /\ e.ok = w /\ (w => e.h = cs.cur)
                   /\ (~w => e.ret = CS.auths[e.n].p),
                 C!ClientSetAuth(CS, cs, e.n),
                 Answer(w, IF w THEN cs.cur ELSE 0, IF w THEN "" ELSE CS.auths[e.n].p),
                 {"C06"} \union (IF w /\ e.ok /\ e.h # cs.cur THEN {"C03", "H01"} ELSE {}))
    [] e.a = "sdone" ->
         LET w == C!DoneWanted(CS, cs) IN
         Verdict(e.obs.o = "none" /\ e.ok = w /\ (w => e.h = cs.cur),
                 C!ClientSetDone(CS, cs),
                 Answer(w, IF w THEN cs.cur ELSE 0, ""),
                 {"C07"} \union (IF w /\ e.ok /\ e.h # cs.cur THEN {"C03", "H01"} ELSE {}))
    [] e.a = "next" ->
         LET x   == C!ClientNext(CS, cs, cfed)
             exp == x[2]
         IN IF exp.o = "out" /\ e.obs.o = "out" /\ e.obs.b # ""
               /\ IsPrefix(e.obs.b, exp.b)
            THEN Verdict(TRUE, C!Drain(x[1], exp.b, Len(e.obs.b)), exp, {})
            ELSE IF Same(exp, e.obs) THEN Verdict(TRUE, x[1], exp, {})
            ELSE Verdict(FALSE, cs, exp, CBlame(cs, x[1], exp, e.obs, cut.c))

JudgeS(e) ==
  CASE e.a = "feed" ->
         Verdict(e.obs.o = "none", ss, None, {"F02", "F04", "S03"})
    [] e.a = "opt" ->
         LET t == S!ServerText(ss, e.which, e.text, e.valid) IN
         Verdict(e.obs.o = "none" /\ e.ok = e.valid /\ (~e.valid => e.ret = e.text)
                   /\ e.obs.p = t.acc /\ e.obs.q = t.rej,
                 t, [None EXCEPT !.p = t.acc, !.q = t.rej], {"S02"})
    [] e.a \in {"enq", "acont", "afin", "iacc", "irej"} ->
         LET w == S!Allowed(ss, e.a)
             t == S!ServerCall(SS, ss, e.a, e.n)
         IN Verdict(e.obs.o = "none" /\ e.ok = w /\ (w => e.h = t.hs)
                      /\ (~w => e.ret = SS.resps[e.n].p),
                    t, Answer(w, IF w THEN t.hs ELSE 0, IF w THEN "" ELSE SS.resps[e.n].p),
                    (IF w /\ e.ok THEN {"H01"} ELSE {})
                    \union (CASE e.a = "enq" -> {"S01"}
                              [] e.a \in {"acont", "afin"} -> {"S04"}
                              [] OTHER -> {"S05"}))
    [] e.a = "next" ->
         LET x   == S!ServerNext(SS, ss, sfed)
             exp == x[2]
         IN IF exp.o = "out" /\ e.obs.o = "out" /\ e.obs.b # ""
               /\ IsPrefix(e.obs.b, exp.b)
            THEN Verdict(TRUE, S!Drain(x[1], exp.b, Len(e.obs.b)), exp, {})
            ELSE IF Same(exp, e.obs) THEN Verdict(TRUE, x[1], exp, {})
            ELSE Verdict(FALSE, ss, exp, SBlame(ss, x[1], exp, e.obs, cut.s, sfed))

\* A conversation between client and server has come to rest.
AtRest ==
  /\ cs.greeted /\ cs.cur = 0 /\ cs.nxt = cs.enq + 1 /\ cs.rx.start = cfed
  /\ ss.q = <<>> /\ ss.cur = <<>> /\ ss.mode = "cmd" /\ ss.rx.start = sfed
\* The server may refuse a command only for its literal; the client never errs.
ProtocolError(e) ==
  /\ T.role = "x" /\ e.obs.o = "err"
  /\ ~(e.w = "s" /\ e.obs.e = "littoolong")

\* Bytes received and not done with, and messages given: see Memory.
Given == IF T.role = "x" THEN T.c.given + T.s.given ELSE T.given
Outstanding == Given + (IF T.role = "s" THEN 0 ELSE cfed - cs.rx.start)
                     + (IF T.role = "c" THEN 0 ELSE sfed - ss.rx.start)
Fixed == 256
Modest(e, most) == M!Within(e.kib, Fixed, 8, most) /\ M!Within(e.peak, Fixed, 16, most)
\* Differences of any kind, whatever the call was.
Always(e, most) ==
  (IF e.obs.o = "panic" \/ ~Modest(e, most) THEN {"F05"} ELSE {})
  \union (IF e.leak THEN {"D01"} ELSE {})

Report(blame, exp, got) ==
  PrintT("@@" \o ToJson([bad |-> T.name, step |-> step + 1, blame |-> blame,
                         exp |-> exp, got |-> got]))

Step ==
  /\ res = "run" /\ step < Len(T.log)
  /\ LET e    == T.log[step + 1]
         v    == IF e.w = "c" THEN JudgeC(e) ELSE JudgeS(e)
         perr == ProtocolError(e)
         most == M!Max(hw, Outstanding + (IF e.a = "feed" THEN e.n ELSE 0))
         also == Always(e, most)
     IN
     /\ step' = step + 1
     /\ hw' = most
     /\ IF v.ok /\ ~perr /\ also = {} THEN res' = "run"
        ELSE /\ res' = "bad"
             /\ Report((IF v.ok THEN {} ELSE v.blame) \union also
                         \union (IF T.role = "x" /\ (perr \/ ~v.ok) THEN {"E01"} ELSE {}), v.exp, e)
     /\ cs' = IF e.w = "c" /\ v.ok THEN v.st ELSE cs
     /\ ss' = IF e.w = "s" /\ v.ok THEN v.st ELSE ss
     /\ cfed' = IF e.w = "c" /\ e.a = "feed" THEN cfed + e.n ELSE cfed
     /\ sfed' = IF e.w = "s" /\ e.a = "feed" THEN sfed + e.n ELSE sfed
     \* Has a message been received in more than one piece?
     /\ cut' = IF e.a # "feed" THEN cut
               ELSE IF e.w = "c" THEN [cut EXCEPT !.c = @ \/ cfed > 0]
               ELSE [cut EXCEPT !.s = @ \/ sfed > 0]
  /\ UNCHANGED id

Done ==
  /\ res = "run" /\ step = Len(T.log)
  /\ IF T.role = "x" /\ T.whole /\ ~(T.quiet /\ AtRest)
     THEN res' = "bad" /\ Report({"E01", "F04"}, None, None)
     ELSE res' = "ok" /\ PrintT("@ok")
  /\ UNCHANGED <<id, step, cs, ss, cfed, sfed, cut, hw>>

Next == Step \/ Done
Spec == Init /\ [][Next]_vars
=============================================================================
