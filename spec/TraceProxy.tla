---------------------------- MODULE TraceProxy ----------------------------
(* Judges recorded sessions of the real proxy. T.log, one entry per step:
     t    dial | up | in | room | tick | other (a step of another session)
     how  (up) ok | refuse
     cn, un, cx, ux   bytes received so far from client and upstream, and how
                      they stopped in this step ("" if not)
     co, uo  what client and upstream received in this step
     cd, ud  has the proxy closed the connection?
     cb, ub  does the proxy have no room left to write?
     asks, dials      has the upstream connection been asked for; how many were
   T.multi: there were other sessions at the same time.                      *)
EXTENDS Proxy, Json, IOUtils

Runs == JsonDeserialize(IOEnv.TRACES)

VARIABLES run, step, set, res
vars == <<run, step, set, res>>
T == Runs[run]

Init == run \in 1 .. Len(Runs) /\ step = 0 /\ set = {ProxyInit} /\ res = "run"

Stimulus(e) ==
  CASE e.t = "up" -> {Up(st, e.how) : st \in set}
    [] e.t = "in" -> UNION {Arrive(st, e.cn, e.un, e.cx, e.ux) : st \in set}
    [] e.t = "tick" -> {IF st.ph \in {"drainu", "drainc"} \/ (st.ph = "run" /\ MustEnd(st)) THEN [st EXCEPT !.ph = "dead"] ELSE st : st \in set}
    [] OTHER -> set

\* The observations agree with a state in which the proxy may be.
CFits(st, e) == IsPrefix(e.co, st.co) /\ (st.co = e.co \/ e.cb \/ st.cx # "")
UFits(st, e) == IsPrefix(e.uo, st.uo) /\ (st.uo = e.uo \/ e.ub \/ st.ux # "")
DFits(st, e) ==
  /\ (e.cd \/ e.ud) => Gone(st) \/ st.ph = "dead"
  /\ (st.ph = "dead" /\ e.t \in {"tick", "up"}) => e.cd /\ (e.ud \/ e.noup)
Fits(st, e) == CFits(st, e) /\ UFits(st, e) /\ DFits(st, e)
\* Closed by the proxy: nothing more to come.
After(st, e) == IF e.cd /\ (e.ud \/ e.noup) THEN [Seen(st, e.co, e.uo) EXCEPT !.ph = "dead", !.co = "", !.uo = ""]
                ELSE Seen(st, e.co, e.uo)

Contains(s, w) == \E i \in 1 .. Len(s) - Len(w) + 1 : SubSeq(s, i, i + Len(w) - 1) = w
Blame(e, all) ==
  LET some == CHOOSE st \in all : TRUE
      c == \A st \in all : ~CFits(st, e)
      u == \A st \in all : ~UFits(st, e)
      d == \A st \in all : ~DFits(st, e)
      rej == \E st \in all : st.rej
      dlg == \E st \in all : st.dlg
      cap == Contains(e.co, "CAPABILITY") \/ \E st \in all : Contains(st.co, "CAPABILITY")
      gone == \E st \in all : Gone(st)
      early == d /\ ~gone    \* closed although nobody left
  IN (IF c \/ ~(u \/ d) THEN {"P02"} \union (IF cap THEN {"P03"} ELSE {}) ELSE {})
     \union (IF u \/ ~(c \/ d) THEN {"P01"} ELSE {})
     \union (IF d /\ gone THEN {"P07"} ELSE {})
     \union (IF early THEN {"P01", "P02"} ELSE {})
     \union (IF (c \/ u \/ early) /\ rej THEN {"P04"} ELSE {})
     \union (IF (c \/ u \/ early) /\ dlg THEN {"P05"} ELSE {})
     \union (IF (c \/ u) /\ gone THEN {"P07"} ELSE {})
     \union (IF T.multi THEN {"P06"} ELSE {})

Exp(st) == [ph |-> st.ph, co |-> st.co, uo |-> st.uo, cx |-> st.cx, ux |-> st.ux]
Tell(blame, sig, all, e) ==
  PrintT("@@" \o ToJson([bad |-> T.name, step |-> step + 1, blame |-> blame, sig |-> sig,
                         exp |-> {Exp(st) : st \in all}, got |-> e]))

Entry(e) ==
  LET s0 == Stimulus(e)
      ways == Ways(T, s0)
      rest == Rests(T, ways)
      may == IF e.cb \/ e.ub THEN ways ELSE rest
      ok == {st \in may : Fits(st, e)}
  IN IF e.t = "dial" /\ (~e.asks \/ e.dials # 1 \/ e.to # T.to)
     THEN set' = set /\ res' = "bad" /\ Tell({"P06", "P01", "P02"}, "no-upstream", set, e)
     ELSE IF TooMany(ways)
     THEN set' = set /\ res' = "skip" /\ PrintT("@skip")
     ELSE IF ok # {}
     THEN set' = {After(st, e) : st \in ok} /\ res' = res
     ELSE /\ set' = set /\ res' = "bad"
          /\ Tell(Blame(e, rest), "", rest, e)
Step ==
  /\ res = "run" /\ step < Len(T.log)
  /\ step' = step + 1
  /\ Entry(T.log[step + 1])
  /\ UNCHANGED run
\* The client leaves before upstream has greeted: nobody notices.
Stuck == \E st \in set : st.ph \in {"conn", "greet"} /\ st.cx # "" /\ T.log[step].t = "tick"
Done ==
  /\ res = "run" /\ step = Len(T.log)
  /\ IF step > 0 /\ Stuck THEN res' = "bad" /\ Tell({"P07"}, "before-greeting", set, T.log[step])
     ELSE res' = "ok" /\ PrintT("@ok")
  /\ UNCHANGED <<run, step, set>>
Spec == Init /\ [][Step \/ Done]_vars
=============================================================================
