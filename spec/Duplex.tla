------------------------------- MODULE Duplex ------------------------------
(* Two parties, each a stream around a protocol state, joined by two bounded
   channels; every partial read and write is a step. Each state hands out
   Total items and wants all of the other's. With TLS an item travels as two
   raw units and is readable only when both have arrived; Held items of the
   peer are already in the TLS layer when the stream starts.

   MODE: "both"    reads and writes progress together (the design)
         "serial"  writing first, reading only when nothing is left to write
   CANCEL: waits are abandoned at any point.                                *)
EXTENDS Naturals, Sequences, FiniteSets, TLC, IOUtils

Env(n, d) == IF n \in DOMAIN IOEnv THEN atoi(IOEnv[n]) ELSE d
Mode == IF "MODE" \in DOMAIN IOEnv THEN IOEnv.MODE ELSE "both"
Tls == "TLS" \in DOMAIN IOEnv
Cap == Env("CAP", 2)
Total == Env("TOTAL", 3)
Held == Env("HELD", 0)
Close == "CLOSE" \in DOMAIN IOEnv

Party == {"a", "b"}
Other(p) == IF p = "a" THEN "b" ELSE "a"
Units == IF Tls THEN 2 ELSE 1
Raw(i) == IF Tls THEN <<2 * i - 1, 2 * i>> ELSE <<i>>

VARIABLES at,      \* "top": about to give input and ask the state; "io": waiting for the transport; "done"; "closed"
          made,    \* items handed out by the state
          wbuf, rbuf, held, del, \* raw units; items
          chan,    \* chan[p]: raw units p has written and the other has not read
          shut     \* has p closed its side?
vars == <<at, made, wbuf, rbuf, held, del, chan, shut>>

Init ==
  /\ at = [p \in Party |-> "top"]
  /\ made = [p \in Party |-> Held]     \* the held ones have been sent during the handshake
  /\ wbuf = [p \in Party |-> <<>>] /\ rbuf = [p \in Party |-> <<>>]
  /\ held = [p \in Party |-> [i \in 1 .. Held |-> i]]
  /\ del = [p \in Party |-> <<>>]
  /\ chan = [p \in Party |-> <<>>]
  /\ shut = [p \in Party |-> FALSE]

\* Items that can be taken out of raw units, and the rest.
Whole(r) == [i \in 1 .. (Len(r) \div Units) |-> r[i * Units] \div Units]
RestOf(r) == SubSeq(r, (Len(r) \div Units) * Units + 1, Len(r))

\* Give input to the state and ask it: it hands out all it has, one by one,
\* then asks for input until it has everything.
Top(p) ==
  /\ at[p] = "top"
  /\ LET d == del[p] \o held[p] \o Whole(rbuf[p]) IN
     /\ del' = [del EXCEPT ![p] = d]
     /\ held' = [held EXCEPT ![p] = <<>>]
     /\ rbuf' = [rbuf EXCEPT ![p] = RestOf(@)]
     /\ IF made[p] < Total
        THEN /\ made' = [made EXCEPT ![p] = @ + 1]
             /\ wbuf' = [wbuf EXCEPT ![p] = @ \o Raw(made[p] + 1)]
             /\ at' = [at EXCEPT ![p] = "io"]
        ELSE /\ UNCHANGED <<made, wbuf>>
             /\ at' = [at EXCEPT ![p] = IF Len(d) = Total /\ wbuf[p] = <<>> THEN "done" ELSE "io"]
  /\ UNCHANGED <<chan, shut>>

Read(p) ==
  LET q == Other(p) IN
  /\ at[p] = "io" /\ chan[q] # <<>>
  /\ Mode = "both" \/ wbuf[p] = <<>>
  /\ \E n \in 1 .. Len(chan[q]) :
       /\ rbuf' = [rbuf EXCEPT ![p] = @ \o SubSeq(chan[q], 1, n)]
       /\ chan' = [chan EXCEPT ![q] = SubSeq(@, n + 1, Len(@))]
  /\ at' = [at EXCEPT ![p] = "top"]
  /\ UNCHANGED <<made, wbuf, held, del, shut>>
Write(p) ==
  /\ at[p] = "io" /\ wbuf[p] # <<>> /\ Len(chan[p]) < Cap
  /\ \E n \in 1 .. Len(wbuf[p]) :
       /\ Len(chan[p]) + n <= Cap
       /\ chan' = [chan EXCEPT ![p] = @ \o SubSeq(wbuf[p], 1, n)]
       /\ wbuf' = [wbuf EXCEPT ![p] = SubSeq(@, n + 1, Len(@))]
       /\ at' = [at EXCEPT ![p] = IF n = Len(wbuf[p]) THEN "top" ELSE "io"]
  /\ UNCHANGED <<made, rbuf, held, del, shut>>
\* The user abandons the wait and starts a new one.
Cancel(p) ==
  /\ "CANCEL" \in DOMAIN IOEnv
  /\ at[p] = "io" /\ at' = [at EXCEPT ![p] = "top"]
  /\ UNCHANGED <<made, wbuf, rbuf, held, del, chan, shut>>
\* A party that has everything closes; the other reads up to the end.
Shut(p) ==
  /\ Close /\ at[p] = "done" /\ ~shut[p]
  /\ shut' = [shut EXCEPT ![p] = TRUE]
  /\ UNCHANGED <<at, made, wbuf, rbuf, held, del, chan>>
Eof(p) ==
  /\ at[p] = "io" /\ shut[Other(p)] /\ chan[Other(p)] = <<>>
  /\ at' = [at EXCEPT ![p] = "closed"]
  /\ UNCHANGED <<made, wbuf, rbuf, held, del, chan, shut>>

Step(p) == Top(p) \/ Read(p) \/ Write(p) \/ Eof(p)
Next == \E p \in Party : Step(p) \/ Cancel(p) \/ Shut(p)
Spec == Init /\ [][Next]_vars
\* The transport does not starve a side for ever (tokio's select is random).
Fair == Spec /\ \A p \in Party : SF_vars(Top(p)) /\ SF_vars(Read(p)) /\ SF_vars(Write(p))

RECURSIVE Count(_, _)
Count(a, b) == IF a > b THEN <<>> ELSE <<a>> \o Count(a + 1, b)
RawUpTo(n) == Count(1, n * Units)

\* T01, T02, T05: whatever was sent is somewhere on its way, in order.
T01 == \A p \in Party :
  LET q == Other(p) IN
  /\ del[q] \o held[q] = Count(1, Len(del[q]) + Len(held[q]))
  /\ Count(1, (Len(del[q]) + Len(held[q])) * Units) \o rbuf[q] \o chan[p] \o wbuf[p] = RawUpTo(made[p])
\* T03: at the end everything that was sent has been delivered.
T03 == \A p \in Party : at[p] = "closed" => shut[Other(p)] /\ Len(del[p]) = made[Other(p)]
\* T04: it cannot get stuck.
T04 == \/ \A p \in Party : at[p] \in {"done", "closed"}
       \/ ENABLED (\E p \in Party : Step(p))
T04_Finishes == <>(\A p \in Party : at[p] = "done")
=============================================================================
