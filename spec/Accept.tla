------------------------------- MODULE Accept -------------------------------
(* Who waits for whom when clients arrive: the accept loops of the services and
   the tasks of the clients. A handshake may stall or fail, upstream may refuse
   or never answer, a session may crash, accepting itself may fail: none of it
   keeps the others from being served. With SERIAL (the handshake as part of
   the accept loop) or FRAGILE (the loop ends when accepting fails) it does.   *)
EXTENDS Naturals, FiniteSets, Sequences, TLC, IOUtils

N == atoi(IOEnv.CLIENTS)
Services == {"a", "b"}
Serial == "SERIAL" \in DOMAIN IOEnv
Fragile == "FRAGILE" \in DOMAIN IOEnv
Faults == {"none", "lost", "stall", "fail", "refuse", "silent", "crash"}

VARIABLES fate, at, ph, queue, busy
vars == <<fate, at, ph, queue, busy>>
Clients == 1 .. N

Init ==
  /\ fate \in [Clients -> Faults] /\ at \in [Clients -> Services]
  /\ ph = [c \in Clients |-> "away"]
  /\ queue = [s \in Services |-> <<>>]
  /\ busy = [s \in Services |-> 0]      \* the client the accept loop is occupied with

Dial(c) ==
  /\ ph[c] = "away" /\ ph' = [ph EXCEPT ![c] = "queued"]
  /\ queue' = [queue EXCEPT ![at[c]] = Append(@, c)] /\ UNCHANGED <<fate, at, busy>>
Accept(s) ==
  /\ queue[s] # <<>> /\ busy[s] = 0
  /\ LET c == Head(queue[s]) IN
     /\ ph' = [ph EXCEPT ![c] = IF fate[c] = "lost" THEN "over" ELSE "handshake"]
     /\ busy' = [busy EXCEPT ![s] = IF (fate[c] = "lost" /\ Fragile) \/ (fate[c] # "lost" /\ Serial) THEN c ELSE 0]
  /\ queue' = [queue EXCEPT ![s] = Tail(@)] /\ UNCHANGED <<fate, at>>
Move(c, to) == ph' = [ph EXCEPT ![c] = to] /\ busy' = [s \in Services |-> IF busy[s] = c THEN 0 ELSE busy[s]] /\ UNCHANGED <<fate, at, queue>>
Handshake(c) == ph[c] = "handshake" /\ fate[c] # "stall" /\ Move(c, IF fate[c] = "fail" THEN "over" ELSE "connect")
Connect(c) == ph[c] = "connect" /\ fate[c] # "silent" /\ Move(c, IF fate[c] = "refuse" THEN "over" ELSE "served")
Ends(c) == ph[c] = "served" /\ Move(c, "over")
Next == (\E c \in Clients : Dial(c) \/ Handshake(c) \/ Connect(c) \/ Ends(c)) \/ (\E s \in Services : Accept(s))
Spec == Init /\ [][Next]_vars
        /\ \A s \in Services : WF_vars(Accept(s))
        /\ \A c \in Clients : WF_vars(Handshake(c)) /\ WF_vars(Connect(c))

P06_Served == \A c \in Clients : (ph[c] = "queued" /\ fate[c] \in {"none", "crash"}) ~> ph[c] \in {"served", "over"}
P06_Accepted == \A c \in Clients : (ph[c] = "queued") ~> (ph[c] # "queued")
=============================================================================
