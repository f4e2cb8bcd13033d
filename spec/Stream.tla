------------------------------- MODULE Stream ------------------------------
(* The I/O driver (src/stream.rs) as its user, its transport and its peer see
   it.

   The protocol state is a script of what it answers when asked to progress:
     [k |-> "out", n]   hands out n bytes for writing
     [k |-> "ev"|"err"] returns an event or an error
     [k |-> "need", n]  asks for input until n bytes have been given to it
   and asks for input for ever at its end.

   The peer sends plaintext (`sent` bytes have arrived completely; with TLS a
   record counts when its last byte has arrived). The transport takes `cap`
   bytes in all before it blocks. The peer may stop:
     fin = "open", "notify" (TLS closing message only), "half" (end of file;
     writing still works), "gone" (end of file, writing fails), "reset"
     (reading and writing fail).                                             *)
EXTENDS Naturals, Sequences, FiniteSets

Unlimited == 1000000000

\* pc: next item of the script; prod: bytes handed out (or put into the TLS
\* layer before) so far.
StreamInit(handover, placed) ==
  [pc |-> 1, prod |-> placed, cap |-> 0, sent |-> handover, fin |-> "open"]

Broken(fin) == fin \in {"gone", "reset"}

\* What a wait may end with once there is nothing left to deliver.
End(fin) == CASE fin = "open"   -> {"pending"}
              [] fin = "notify" -> {"pending", "closed"}
              [] fin = "half"   -> {"closed"}
              [] fin = "gone"   -> {"closed", "io"}
              [] fin = "reset"  -> {"io", "closed"}

\* Possible answers of a wait for the next event, run until nothing moves: a
\* set of [o, n, st].
RECURSIVE Wait(_, _)
Wait(script, s) ==
  LET early == End(s.fin) \ {"pending"}
      stop(os, t) == {[o |-> o, n |-> 0, st |-> t] : o \in os}
  IN IF s.pc > Len(script) THEN stop(End(s.fin), s)
     ELSE LET i == script[s.pc] IN
     CASE i.k = "out" ->
            LET t == [s EXCEPT !.pc = @ + 1, !.prod = @ + i.n]
            IN Wait(script, t)
               \* While output is pending, the end may be noticed at any time,
               \* and the stream may wait for the transport before it asks the
               \* state again.
               \union stop(early, t)
               \union (IF t.cap < t.prod /\ s.fin \in {"open", "notify"} THEN stop({"pending"}, t) ELSE {})
       [] i.k = "need" ->
            IF s.sent >= i.n
            THEN Wait(script, [s EXCEPT !.pc = @ + 1])
                 \union (IF Broken(s.fin) /\ s.prod > 0 THEN stop({"io"}, s) ELSE {})
            ELSE stop(End(s.fin), s)
       [] OTHER -> {[o |-> i.k, n |-> s.pc, st |-> [s EXCEPT !.pc = @ + 1]]}
            \union (IF s.prod > 0 THEN stop(early \ {"closed"}, s) ELSE {})

\* A wait that was pending goes on: it may still be waiting for the transport,
\* or notice the end there.
Resume(script, s) ==
  Wait(script, s)
  \union {[o |-> o, n |-> 0, st |-> s] :
            o \in (IF s.prod > 0 THEN End(s.fin) \ {"pending"} ELSE {})
                 \union (IF s.cap < s.prod /\ s.fin \in {"open", "notify"} THEN {"pending"} ELSE {})}

\* Flushing is over when the transport has taken everything.
Flush(s) ==
  {[o |-> o, n |-> 0, st |-> s] :
     o \in IF Broken(s.fin) THEN IF s.prod = 0 THEN {"ok"} ELSE {"ok", "io"}
           ELSE IF s.cap >= s.prod THEN {"ok"} ELSE {"pending"}}

PeerSends(s, n) == [s EXCEPT !.sent = @ + n]
PeerStops(s, how) == [s EXCEPT !.fin = how]
Grant(s, n) == [s EXCEPT !.cap = IF n = Unlimited THEN n ELSE @ + n]
=============================================================================
