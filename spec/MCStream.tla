------------------------------ MODULE MCStream -----------------------------
(* All schedules of a user, a transport and a peer around one stream, for the
   scripts of the file SCRIPTS:
     [name, tls, hand, placed, script, chunks, grants, stops, waits, flushes, polls, drops]
   User:      n  waits for the next event    f  flushes
              p  polls the pending call again (if something has moved)
              d  abandons the pending call
   Transport: o<k> takes k more bytes        O  takes everything from now on
   Peer:      w<k> sends its next chunk      a<k>, b  its first and second part (TLS)
              s<how> stops                                                   *)
EXTENDS Stream, TLC, TLCExt, Json, IOUtils

Scripts == JsonDeserialize(IOEnv.SCRIPTS)
Emit == "EMIT" \in DOMAIN IOEnv

VARIABLES id, s, call, moved, chunk, part, grant, stopped, budget, did, path, last
vars == <<id, s, call, moved, chunk, part, grant, stopped, budget, did, path, last>>
view == <<id, s, call, moved, chunk, part, grant, stopped, budget, did>>

P == Scripts[id]

RECURSIVE Sum(_)
Sum(q) == IF q = <<>> THEN 0 ELSE Head(q) + Sum(Tail(q))

Init ==
  /\ id \in 1 .. Len(Scripts)
  /\ s = StreamInit(P.hand, P.placed)
  /\ call = "" /\ moved = FALSE /\ chunk = 1 /\ part = FALSE /\ grant = 1 /\ stopped = 1
  /\ budget = [n |-> P.waits, f |-> P.flushes, p |-> P.polls, d |-> P.drops]
  /\ did = [evs |-> <<>>, over |-> FALSE, flushed |-> 0]
  /\ path = "" /\ last = [o |-> "none"]

\* Where the script stands, apart from demands already met.
RECURSIVE At(_, _)
At(pc, sent) ==
  IF pc <= Len(P.script) /\ P.script[pc].k = "need" /\ P.script[pc].n <= sent THEN At(pc + 1, sent) ELSE pc

Log(name, o) == path' = path \o " " \o name /\ last' = o
Env == moved' = TRUE /\ UNCHANGED <<id, call, budget, did>>

Runs(name, c) ==
  LET as == CASE c = "f" -> Flush(s) [] name = "n" -> Wait(P.script, s) [] OTHER -> Resume(P.script, s) IN
  \E a \in as :
    /\ s' = a.st
    /\ call' = IF a.o = "pending" THEN c ELSE ""
    /\ moved' = FALSE
    /\ did' = [evs |-> IF a.o \in {"ev", "err"} THEN Append(did.evs, a.n) ELSE did.evs,
               over |-> did.over \/ a.o \in {"closed", "io"},
               flushed |-> IF a.o = "ok" /\ ~Broken(s.fin) THEN s.prod ELSE did.flushed]
    \* the outcome is part of the name: what follows depends on it
    /\ Log(name \o "~" \o a.o \o ToString(a.n) \o "/" \o ToString(a.st.pc), [o |-> a.o, n |-> a.n, pc |-> At(a.st.pc, a.st.sent), all |-> {[o |-> b.o, n |-> b.n] : b \in as}])
    /\ UNCHANGED <<id, chunk, part, grant, stopped>>
Spend(b) == budget[b] > 0 /\ budget' = [budget EXCEPT ![b] = @ - 1]

\* A user that got the end does not go on for ever: calls are bounded anyway.
Waits   == call = "" /\ Spend("n") /\ Runs("n", "n")
Flushes == call = "" /\ Spend("f") /\ Runs("f", "f")
Polls   == call # "" /\ moved /\ Spend("p") /\ Runs("p", call)
Drops ==
  /\ call # "" /\ Spend("d") /\ call' = "" /\ moved' = FALSE
  /\ Log("d", [o |-> "none"])
  /\ UNCHANGED <<id, s, chunk, part, grant, stopped, did>>
Sends ==
  /\ s.fin = "open" /\ chunk <= Len(P.chunks)
  /\ LET k == ToString(P.chunks[chunk]) IN
     \/ /\ ~part /\ s' = PeerSends(s, P.chunks[chunk]) /\ chunk' = chunk + 1 /\ part' = part
        /\ Log("w" \o k, [o |-> "none"])
     \/ /\ P.tls /\ ~part /\ part' = TRUE /\ UNCHANGED <<s, chunk>>
        /\ Log("a" \o k, [o |-> "none"])
     \/ /\ part /\ part' = FALSE /\ s' = PeerSends(s, P.chunks[chunk]) /\ chunk' = chunk + 1
        /\ Log("b", [o |-> "none"])
  /\ Env /\ UNCHANGED <<grant, stopped>>
Grants ==
  /\ grant <= Len(P.grants) /\ grant' = grant + 1
  /\ LET k == P.grants[grant] IN
     \* How many encrypted bytes an output takes is not known here; a few never suffice.
     /\ s' = IF P.tls /\ k # Unlimited THEN s ELSE Grant(s, k)
     /\ Log(IF k = Unlimited THEN "O" ELSE "o" \o ToString(k), [o |-> "none"])
  /\ Env /\ UNCHANGED <<chunk, part, stopped>>
Stops ==
  /\ stopped <= Len(P.stops) /\ ~part /\ stopped' = stopped + 1
  /\ s' = PeerStops(s, P.stops[stopped])
  /\ Log("s" \o P.stops[stopped], [o |-> "none"])
  /\ Env /\ UNCHANGED <<chunk, part, grant>>

Next == Waits \/ Flushes \/ Polls \/ Drops \/ Sends \/ Grants \/ Stops
Spec == Init /\ [][Next]_vars

-----------------------------------------------------------------------------
\* Of the script's events, exactly those passed have been returned, in order.
Passed == SelectSeq([i \in 1 .. Len(P.script) |-> IF i < s.pc /\ P.script[i].k \in {"ev", "err"} THEN i ELSE 0],
                    LAMBDA x : x # 0)
T06 == did.evs = Passed
\* The state never gets past a demand that the peer has not met.
T01_Input == \A i \in 1 .. Len(P.script) : (i < s.pc /\ P.script[i].k = "need") => s.sent >= P.script[i].n
T01_Output == s.prod = P.placed + Sum([i \in 1 .. Len(P.script) |-> IF i < s.pc /\ P.script[i].k = "out" THEN P.script[i].n ELSE 0])
\* Only a peer that stopped ends the stream.
T03 == did.over => s.fin # "open"
\* A stopped peer leaves no call pending (a TLS closing message alone may).
T03_Ends == (call = "n" /\ ~moved) => s.fin \in {"open", "notify"}
\* Flushed means taken by the transport.
T04 == did.flushed <= s.cap
\* A call is pending only for input not sent or output not taken.
T04_Reason == (call # "" /\ ~moved) =>
  \/ s.cap < s.prod
  \/ call = "n" /\ (s.pc > Len(P.script) \/ (P.script[s.pc].k = "need" /\ P.script[s.pc].n > s.sent))

EmitTransition ==
  ~Emit \/ PrintT("@@" \o ToJson([s |-> id, p |-> path', o |-> last',
                                  f |-> TLCFP(view'), g |-> TLCFP(<<view', "another fingerprint of the same">>)]))
=============================================================================
