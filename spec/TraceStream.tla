---------------------------- MODULE TraceStream ---------------------------
(* Judges recorded runs of the real Stream. The log has, in order:
     send n        the peer's next n bytes have arrived completely
     part n        of the peer's next n bytes (TLS), some have arrived
     stop how      the peer has stopped
     call c        the user starts "next" or "flush"
     poll          the pending call is polled again
     drop          the user abandons the pending call
     in n same     the protocol state was given n bytes; the expected ones?
     st o n        what the protocol state answered: "out" (n bytes), "ev",
                   "err" (n: its number), "more"
     got n same    the peer received n more bytes; the expected ones?
     ret o n       what the call returned: "ev", "err", "closed", "io", "tls",
                   "ok" (flush), "pending"; and, for pending: unread (arrived
                   and not read, -1: not known), room (what the transport
                   would still take, -1: not known), early (was not waited
                   for), spin (never comes to rest)
     rest          the peer has waited for all it can expect
   T.hand, T.placed: bytes received and put into the TLS layer before.
   T.exact: the log shows what the transport has taken (in "got") before every
   "ret"; otherwise flushed output must be there at the next "rest".        *)
EXTENDS Naturals, Integers, Sequences, TLC, Json, IOUtils, FiniteSets

Runs == JsonDeserialize(IOEnv.TRACES)

VARIABLES run, step, v, res
vars == <<run, step, v, res>>
T == Runs[run]

\* v: sent, fin, del (given to the state), prod (handed out), got, due,
\*    call ("" or the pending call), ans (state's last answer since the last
\*    input and the start of the call), dropped (has a call been abandoned?)
None == [o |-> "", n |-> 0]
Init ==
  /\ run \in 1 .. Len(Runs) /\ step = 0 /\ res = "run"
  /\ v = [sent |-> Runs[run].hand, part |-> 0, fin |-> "open", del |-> 0, prod |-> Runs[run].placed, got |-> 0, due |-> 0,
          call |-> "", ans |-> None, dropped |-> FALSE, over |-> FALSE]

Ctx == (IF v.dropped THEN {"T02"} ELSE {})
       \union (IF T.hand > 0 \/ T.placed > 0 THEN {"T05"} ELSE {})
Tell(bad, e) ==
  /\ res' = "bad"
  /\ PrintT("@@" \o ToJson([bad |-> T.name, step |-> step + 1, blame |-> bad \union Ctx, exp |-> v, got |-> e]))
Must(ok, blame, e, w) ==
  IF ok THEN v' = w /\ res' = res ELSE v' = v /\ Tell(blame, e)

Immediate == v.ans.o \in {"ev", "err"}  \* must be returned now
Broken == v.fin \in {"gone", "reset"}

Pending(e) ==
  /\ ~e.spin
  /\ v.call = "flush" \/ e.unread <= 0
  /\ ~Broken /\ (v.fin # "half" \/ v.call = "flush")
  /\ IF T.exact
     THEN IF v.call = "flush" THEN v.got < v.prod /\ e.room = 0
          ELSE /\ v.del >= v.sent
               /\ \/ v.got < v.prod /\ e.room = 0 /\ v.ans.o \in {"out", "more"}
                  \/ v.got = v.prod /\ v.ans.o = "more"
     ELSE v.call = "next" /\ v.ans.o = "more" /\ v.del >= v.sent
WhyPending(e) ==
  (IF e.spin THEN {"T03", "T04"} ELSE {})
  \union (IF v.call = "flush" \/ (e.room > 0 /\ v.got < v.prod) THEN {"T04", "T01"} ELSE {})
  \union (IF e.unread > 0 \/ v.del < v.sent THEN {"T04", "T01"} ELSE {})
  \union (IF v.ans.o # "more" THEN {"T06", "T04"} ELSE {})
  \union (IF v.fin \notin {"open", "notify"} THEN {"T03"} ELSE {})

Entry(e) ==
  CASE e.a = "send" -> v' = [v EXCEPT !.sent = @ + e.n, !.part = 0] /\ res' = res
    [] e.a = "part" -> v' = [v EXCEPT !.part = e.n] /\ res' = res
    [] e.a = "stop" -> v' = [v EXCEPT !.fin = e.how] /\ res' = res
    [] e.a = "call" -> v' = [v EXCEPT !.call = e.c, !.ans = None] /\ res' = res
    [] e.a = "poll" -> v' = v /\ res' = res
    [] e.a = "drop" -> v' = [v EXCEPT !.call = "", !.dropped = TRUE, !.ans = None] /\ res' = res
    [] e.a = "in" ->
         Must(v.call = "next" /\ e.same /\ v.del + e.n <= v.sent + v.part /\ ~Immediate,
              IF Immediate THEN {"T06"} ELSE {"T01"} \union (IF v.fin # "open" THEN {"T03"} ELSE {}), e,
              [v EXCEPT !.del = @ + e.n, !.ans = None])
    [] e.a = "st" ->
         Must(v.call = "next" /\ ~Immediate, {"T06"}, e,
              [v EXCEPT !.ans = [o |-> e.o, n |-> e.n], !.prod = IF e.o = "out" THEN @ + e.n ELSE @])
    [] e.a = "got" ->
         Must(e.same /\ v.got + e.n <= v.prod, {"T01"}, e, [v EXCEPT !.got = @ + e.n])
    [] e.a = "rest" ->
         Must(v.over \/ Broken \/ v.got >= v.due, {"T01", "T04"}, e, v)
    [] e.a = "ret" ->
         LET w == [v EXCEPT !.call = "", !.ans = None] IN
         CASE e.o \in {"ev", "err"} ->
                Must(v.call = "next" /\ v.ans = [o |-> e.o, n |-> e.n], {"T06"}, e, w)
           [] Immediate -> Must(FALSE, {"T06"}, e, w)
           [] e.o = "closed" ->
                Must(v.call = "next" /\ v.fin # "open" /\ (Broken \/ v.del >= v.sent),
                     {"T03"} \union (IF v.fin = "open" THEN {"T01"} ELSE {}), e, [w EXCEPT !.over = TRUE])
           [] e.o = "io" ->
                Must(Broken, {"T03", "T01"} \union (IF v.call = "flush" THEN {"T04"} ELSE {}), e, [w EXCEPT !.over = TRUE])
           [] e.o = "tls" -> Must(FALSE, {"T01", "T03"}, e, w)
           [] e.o = "ok" ->
                Must(v.call = "flush" /\ (T.exact => v.got = v.prod \/ Broken), {"T04"}, e, [w EXCEPT !.due = v.prod])
           [] e.o = "pending" /\ e.early -> Must(TRUE, {}, e, v)
           [] e.o = "pending" ->
                Must(Pending(e), WhyPending(e), e, [v EXCEPT !.due = IF T.exact THEN @ ELSE v.prod])
           [] OTHER -> Must(FALSE, {"T01", "T02", "T03", "T04", "T06"}, e, w)   \* a panic or a hang
    [] OTHER -> Must(FALSE, {"T01"}, e, v)

Step ==
  /\ res = "run" /\ step < Len(T.log)
  /\ step' = step + 1
  /\ Entry(T.log[step + 1])
  /\ UNCHANGED run
Done ==
  /\ res = "run" /\ step = Len(T.log)
  /\ IF T.whole /\ ~(v.got = v.prod /\ v.del = v.sent)
     THEN res' = "bad" /\ PrintT("@@" \o ToJson([bad |-> T.name, step |-> step, blame |-> {"T01", "T04"} \union Ctx, exp |-> v, got |-> "end"]))
     ELSE res' = "ok" /\ PrintT("@ok")
  /\ UNCHANGED <<run, step, v>>
Spec == Init /\ [][Step \/ Done]_vars
=============================================================================
