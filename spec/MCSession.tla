----------------------------- MODULE MCSession -----------------------------
(* Client and server of this crate connected by two reliable byte channels,
   with a user on each side. Property E01: every conversation completes,
   without protocol errors, whatever the scheduling and fragmentation.

   Script: sc.c and sc.s as for ClientFlow and ServerFlow (decoders listed by
   content), sc.replies[tag]: the alternatives the server's user has for
   answering, each a sequence of [a, n] calls; key "tag" for the command,
   "tag+" for authentication data, "tag." for the end of idling.
   sc.grain: how finely the channels cut: 1 whole or in front of an LF,
   2 also behind it, 3 also single bytes.                                   *)
EXTENDS Naturals, Sequences, TLC, Json, IOUtils, FiniteSets, TLCExt

C == INSTANCE ClientFlow
S == INSTANCE ServerFlow

Scripts == JsonDeserialize(IOEnv.SCRIPTS)
Emit == "EMIT" \in DOMAIN IOEnv

VARIABLES sid,
          cs, ss,       \* the two machines
          cbuf, sbuf,   \* bytes received and not consumed yet
          c2s, s2c,     \* bytes on their way
          cidle, sidle, \* asked for input
          auth, done,   \* the client's user owes authentication data / DONE
          nauth,        \* authentication data used
          todo,         \* what the server's user is about to do
          tag,          \* command the server's user is dealing with
          rounds,       \* continuations used in this dialogue
          fin,          \* final outcomes at the client
          del,          \* commands delivered at the server
          given, surf,  \* responses given to the server / surfaced at the client
          errs,         \* protocol errors
          hist, last
vars == <<sid, cs, ss, cbuf, sbuf, c2s, s2c, cidle, sidle, auth, done, nauth, todo, tag,
          rounds, fin, del, given, surf, errs, hist, last>>
view == <<sid, cs, ss, cbuf, sbuf, c2s, s2c, cidle, sidle, auth, done, nauth, todo, tag,
          rounds, fin, del, given, surf, errs>>

Sc == Scripts[sid]
Silent == [o |-> "none", e |-> "", h |-> 0, p |-> "", q |-> "", b |-> ""]

\* A machine's script with the bytes it currently holds as its input.
Holding(sc, buf) ==
  LET at == {i \in 1 .. Len(buf) : SubSeq(buf, i, i) = "\n"}
      RECURSIVE Sorted(_)
      Sorted(x) == IF x = {} THEN <<>>
                   ELSE LET m == CHOOSE y \in x : \A z \in x : y <= z IN <<m>> \o Sorted(x \ {m})
      lf == Sorted(at)
  IN [sc EXCEPT !.inp = buf, !.n = Len(buf), !.lf = lf,
                !.cr = [i \in 1 .. Len(lf) |-> lf[i] > 1 /\ SubSeq(buf, lf[i] - 1, lf[i] - 1) = "\r"]]
Shift(rx) == [rx EXCEPT !.start = 0, !.seen = rx.seen - rx.start]

Init ==
  /\ sid \in 1 .. Len(Scripts)
  /\ cs = C!ClientInit /\ ss = S!ServerInit(Sc.s)
  /\ cbuf = "" /\ sbuf = "" /\ c2s = "" /\ s2c = ""
  /\ cidle = FALSE /\ sidle = FALSE
  /\ auth = 0 /\ done = 0 /\ nauth = 0 /\ todo = <<>> /\ tag = "" /\ rounds = 0
  /\ fin = <<>> /\ del = <<>> /\ given = <<>> /\ surf = <<>> /\ errs = 0
  /\ hist = "" /\ last = Silent

Step(a) == hist' = IF Emit THEN hist \o " " \o a ELSE ""

Enqueue ==
  /\ cs.enq < Len(Sc.c.cmds)
  /\ cs' = C!ClientEnqueue(cs) /\ cidle' = FALSE
  /\ Step("ce") /\ last' = Silent
  /\ UNCHANGED <<sid, ss, cbuf, sbuf, c2s, s2c, sidle, auth, done, nauth, todo, tag, rounds,
                 fin, del, given, surf, errs>>

ClientStep ==
  /\ ~cidle
  /\ LET x == C!ClientNext(Holding(Sc.c, cbuf), cs, Len(cbuf))
         t == x[1]
         o == x[2]
     IN /\ cs' = [t EXCEPT !.rx = Shift(@)]
        /\ cbuf' = SubSeq(cbuf, t.rx.start + 1, Len(cbuf))
        /\ cidle' = (o.o = "more")
        /\ c2s' = IF o.o = "out" THEN c2s \o o.b ELSE c2s
        /\ auth' = CASE o.e = "AuthCont" -> 1 [] o.e = "AuthStatus" -> 0 [] OTHER -> auth
        /\ done' = CASE o.e = "IdleAccepted" -> 1 [] o.e = "IdleRejected" -> 0 [] OTHER -> done
        /\ fin' = IF o.e \in {"CommandSent", "CommandRejected", "AuthStatus", "IdleRejected", "IdleDoneSent"}
                  THEN Append(fin, <<o.h, o.e>>) ELSE fin
        /\ surf' = IF o.e \in {"Data", "Status", "Cont", "CommandRejected", "AuthCont", "AuthStatus",
                              "IdleAccepted", "IdleRejected"}
                   THEN Append(surf, o.q) ELSE surf
        /\ errs' = IF o.o = "err" THEN errs + 1 ELSE errs
        /\ last' = o
  /\ Step("cn")
  /\ UNCHANGED <<sid, ss, sbuf, s2c, sidle, nauth, todo, tag, rounds, del, given>>

Supply ==
  /\ \/ /\ auth = 1 /\ C!AuthWanted(Sc.c, cs)
        /\ LET n == (nauth % Len(Sc.c.auths)) + 1 IN
           cs' = C!ClientSetAuth(Sc.c, cs, n) /\ Step("ca" \o ToString(n))
        /\ auth' = 0 /\ nauth' = (nauth + 1) % Len(Sc.c.auths) /\ done' = done
     \/ /\ done = 1 /\ C!DoneWanted(Sc.c, cs)
        /\ cs' = C!ClientSetDone(Sc.c, cs) /\ Step("cd")
        /\ done' = 0 /\ UNCHANGED <<auth, nauth>>
  /\ cidle' = FALSE /\ last' = [Silent EXCEPT !.e = "accepted", !.h = cs.cur]
  /\ UNCHANGED <<sid, ss, cbuf, sbuf, c2s, s2c, sidle, todo, tag, rounds, fin, del, given, surf, errs>>

\* How the server's user reacts to an event.
Reactions(o) ==
  LET key == CASE o.e \in {"Command", "AuthCommand"} -> Sc.tagof[o.q]
               [] o.e = "IdleCommand" -> o.q
               [] o.e = "AuthData" -> tag \o "+"
               [] o.e = "IdleDone" -> tag \o "."
               [] OTHER -> ""
  IN IF key = "" THEN {<<"", <<>>>>}
     ELSE LET all == {<<"/" \o ToString(i), Sc.replies[key][i]>> : i \in 1 .. Len(Sc.replies[key])}
              few == {r \in all : \A i \in 1 .. Len(r[2]) : r[2][i].a # "acont"}
          IN IF rounds >= 2 THEN few ELSE all

ServerStep ==
  /\ ~sidle
  /\ LET x == S!ServerNext(Holding(Sc.s, sbuf), ss, Len(sbuf))
         t == x[1]
         o == x[2]
     IN \E r \in Reactions(o) :
        /\ ss' = [t EXCEPT !.rx = Shift(@)]
        /\ sbuf' = SubSeq(sbuf, t.rx.start + 1, Len(sbuf))
        /\ sidle' = (o.o = "more")
        /\ s2c' = IF o.o = "out" THEN s2c \o o.b ELSE s2c
        /\ todo' = todo \o r[2]
        /\ tag' = CASE o.e \in {"Command", "AuthCommand"} -> Sc.tagof[o.q]
                    [] o.e = "IdleCommand" -> o.q [] OTHER -> tag
        /\ rounds' = IF o.e = "AuthCommand" THEN 0 ELSE IF o.e = "AuthData" THEN rounds + 1 ELSE rounds
        /\ del' = CASE o.e \in {"Command", "AuthCommand"} -> Append(del, o.q)
                    [] o.e = "IdleCommand" -> Append(del, o.q) [] OTHER -> del
        \* a refusal is a response, too
        /\ given' = IF o.e = "littoolong" THEN Append(given, "L" \o t.q[Len(t.q)].b) ELSE given
        /\ errs' = IF o.o = "err" /\ o.e # "littoolong" THEN errs + 1 ELSE errs
        /\ last' = o
        \* the reaction chosen is part of the schedule
        /\ Step("sn" \o r[1])
  /\ UNCHANGED <<sid, cs, cbuf, c2s, cidle, auth, done, nauth, fin, surf>>

React ==
  /\ todo # <<>>
  /\ LET a == Head(todo).a
         n == Head(todo).n
         k == CASE a = "enq" -> "e" [] a = "acont" -> "C" [] a = "afin" -> "F"
                [] a = "iacc" -> "A" [] OTHER -> "R"
     IN /\ ss' = S!ServerCall(Sc.s, ss, a, n)
        /\ given' = IF S!Allowed(ss, a) THEN Append(given, Sc.s.resps[n].p) ELSE given
        /\ errs' = IF S!Allowed(ss, a) THEN errs ELSE errs + 1
        /\ last' = [Silent EXCEPT !.e = "accepted", !.h = ss'.hs]
        /\ Step("s" \o k \o ToString(n))
  /\ todo' = Tail(todo) /\ sidle' = FALSE
  /\ UNCHANGED <<sid, cs, cbuf, sbuf, c2s, s2c, cidle, auth, done, nauth, tag, rounds, fin, del, surf>>

Pieces(b) ==
  LET lf == {i \in 1 .. Len(b) : SubSeq(b, i, i) = "\n"}
      first == IF lf = {} THEN Len(b) ELSE CHOOSE i \in lf : \A j \in lf : i <= j
  IN {k \in ({Len(b)} \union {first - 1}
             \union (IF Sc.grain >= 2 THEN {first} ELSE {})
             \union (IF Sc.grain >= 3 THEN {1} ELSE {})) : k > 0}
DeliverC ==
  /\ s2c # ""
  /\ \E k \in Pieces(s2c) :
       /\ cbuf' = cbuf \o SubSeq(s2c, 1, k) /\ s2c' = SubSeq(s2c, k + 1, Len(s2c))
       /\ Step("cf" \o ToString(k))
  /\ cidle' = FALSE /\ last' = Silent
  /\ UNCHANGED <<sid, cs, ss, sbuf, c2s, sidle, auth, done, nauth, todo, tag, rounds, fin, del,
                 given, surf, errs>>
DeliverS ==
  /\ c2s # ""
  /\ \E k \in Pieces(c2s) :
       /\ sbuf' = sbuf \o SubSeq(c2s, 1, k) /\ c2s' = SubSeq(c2s, k + 1, Len(c2s))
       /\ Step("sf" \o ToString(k))
  /\ sidle' = FALSE /\ last' = Silent
  /\ UNCHANGED <<sid, cs, ss, cbuf, s2c, cidle, auth, done, nauth, todo, tag, rounds, fin, del,
                 given, surf, errs>>

Complete ==
  /\ cs.enq = Len(Sc.c.cmds) /\ Len(fin) = cs.enq
  /\ Len(surf) = Len(given)
  /\ cs.cur = 0 /\ ss.mode = "cmd"
  /\ cbuf = "" /\ sbuf = "" /\ c2s = "" /\ s2c = ""
  /\ todo = <<>> /\ ss.q = <<>> /\ ss.cur = <<>>
  /\ cidle /\ sidle
Terminated == Complete /\ UNCHANGED vars

Act == Enqueue \/ ClientStep \/ Supply \/ ServerStep \/ React \/ DeliverC \/ DeliverS
Next == Act \/ Terminated
Spec == Init /\ [][Next]_vars
Fair == Spec /\ WF_vars(Act)

EmitTransition ==
  Emit => PrintT("@@" \o ToJson([s |-> sid, p |-> hist', o |-> last', f |-> TLCFP(view'), g |-> TLCFP(<<view', "another fingerprint of the same">>)]))

-----------------------------------------------------------------------------
\* E01: nothing goes wrong on the way (every state without a successor is
\* Complete: TLC's deadlock check), ...
E01_NoErrors == errs = 0
\* ... what surfaces is what was given, in order, ...
E01_Responses == Len(surf) <= Len(given) /\ surf = SubSeq(given, 1, Len(surf))
\* ... each command is delivered once, in order, or refused on both sides ...
E01_Commands ==
  Complete =>
    LET sent == SelectSeq(fin, LAMBDA x : x[2] # "CommandRejected")
        id(i) == IF Sc.c.cmds[i].kind = "idle" THEN Sc.c.cmds[i].tag ELSE Sc.c.cmds[i].p
    IN del = [i \in 1 .. Len(sent) |-> id(sent[i][1])]
E01_Order == \A i \in 1 .. Len(fin) : fin[i][1] = i
\* ... and it always comes to its end.
E01_Completes == <>Complete
=============================================================================
