------------------------------- MODULE MCIds -------------------------------
(* All short histories of creating, using and dropping connections on up to
   two threads. Each is printed; the driver runs it on the real code, every
   step also repeated many times over, and expects every identity handed out
   to differ from every other.                                              *)
EXTENDS Ids, TLC, Json, IOUtils

Emit == "EMIT" \in DOMAIN IOEnv
MaxConns == 3
MaxOps == 7

VARIABLES s, path, ops
vars == <<s, path, ops>>

Init == s = IdsInit /\ path = "" /\ ops = 0

Do(t, name) == s' = t /\ path' = path \o " " \o name /\ ops' = ops + 1

Next ==
  /\ ops < MaxOps
  /\ \/ Len(s.live) < MaxConns
        /\ \E th \in {"", "'"} : Do(NewConn(s), "n" \o th)
     \/ \E c \in 1 .. Len(s.live) :
          s.live[c].on /\
          \/ Do(Hand(s, c), "h" \o ToString(c))
          \/ Do(Drop(s, c), "d" \o ToString(c))

Spec == Init /\ [][Next]_vars

H01 == DistinctWithin(s)
H02 == DistinctAcross(s)
H03 == H01 /\ H02

\* Only histories of full length; shorter ones are their beginnings.
EmitHistory == ~Emit \/ ops' < MaxOps \/ PrintT("@@" \o ToJson([p |-> path', made |-> Len(s'.made)]))
=============================================================================
