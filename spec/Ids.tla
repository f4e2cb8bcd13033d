-------------------------------- MODULE Ids --------------------------------
(* Identities handed out by a process: handles of connections (client
   commands, server responses) and tags of tag generators. A connection takes
   a number of its own when it is created (one atomic step, whatever thread
   does it) and numbers what it hands out. A connection that is gone does not
   return its number: what it handed out may still be around.               *)
EXTENDS Naturals, Sequences, FiniteSets

IdsInit == [next |-> 0, live |-> <<>>, made |-> <<>>]

\* s.live[c] = [no, next, on]: connection c in order of creation.
NewConn(s) ==
  [s EXCEPT !.next = @ + 1, !.live = Append(@, [no |-> s.next, next |-> 0, on |-> TRUE])]
Hand(s, c) ==
  [s EXCEPT !.live[c].next = @ + 1,
            !.made = Append(@, [conn |-> c, no |-> s.live[c].no, id |-> s.live[c].next])]
Drop(s, c) == [s EXCEPT !.live[c].on = FALSE]

Equal(a, b) == a.no = b.no /\ a.id = b.id

\* H01, H03: within one connection or generator
DistinctWithin(s) ==
  \A i, j \in 1 .. Len(s.made) :
    i # j /\ s.made[i].conn = s.made[j].conn => ~Equal(s.made[i], s.made[j])
\* H02, H03: across them
DistinctAcross(s) ==
  \A i, j \in 1 .. Len(s.made) :
    s.made[i].conn # s.made[j].conn => ~Equal(s.made[i], s.made[j])
=============================================================================
