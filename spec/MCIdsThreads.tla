---------------------------- MODULE MCIdsThreads ---------------------------
(* Threads that create connections and use them at the same time. Creating a
   connection is one atomic step. A schedule says which thread takes its next
   step; the driver runs the real code with its atomic operations as the
   steps. Grain is how many steps a thread may need for one creation: an
   implementation may take several, and the invariants must hold all the
   same, which the SPLIT variant (read, then write) does not.               *)
EXTENDS Ids, TLC, Json, IOUtils

Emit == "EMIT" \in DOMAIN IOEnv
Split == "SPLIT" \in DOMAIN IOEnv
Threads == 1 .. (IF "THREADS" \in DOMAIN IOEnv THEN atoi(IOEnv.THREADS) ELSE 2)
Steps == IF "STEPS" \in DOMAIN IOEnv THEN atoi(IOEnv.STEPS) ELSE 4

VARIABLES s, left, read, path
vars == <<s, left, read, path>>

Init == s = IdsInit /\ left = [t \in Threads |-> Steps] /\ read = [t \in Threads |-> <<>>] /\ path = ""

Create(t) ==
  IF ~Split
  THEN LET a == NewConn(s) IN s' = Hand(a, Len(a.live)) /\ UNCHANGED read
  ELSE IF read[t] = <<>> THEN read' = [read EXCEPT ![t] = <<s.next>>] /\ UNCHANGED s
  ELSE LET a == [s EXCEPT !.next = read[t][1] + 1,
                          !.live = Append(@, [no |-> read[t][1], next |-> 0, on |-> TRUE])]
       IN s' = Hand(a, Len(a.live)) /\ read' = [read EXCEPT ![t] = <<>>]

Next == \E t \in Threads :
  /\ left[t] > 0
  /\ left' = [left EXCEPT ![t] = @ - 1]
  /\ Create(t)
  /\ path' = path \o ToString(t)

Spec == Init /\ [][Next]_vars

H01 == DistinctWithin(s)
H02 == DistinctAcross(s)

EmitSchedule == ~Emit \/ (\E t \in Threads : left'[t] > 0) \/ PrintT("@@" \o ToJson([p |-> path']))
=============================================================================
