------------------------------ MODULE MCProxy ------------------------------
(* All schedules of a proxied session for the scripts of the file SCRIPTS:
   Proxy's scripts with cps, ups: where the pieces of the two sides end, and
   stops: the ways in which a side may go away.
     c, u, b     the next piece of the client, of upstream, of both at once
     C<how>, U<how>   the side stops;  X<how>: right behind its last piece
     t           time passes
   A state of this specification is what can be known from outside: the set of
   the proxy's states that agree with everything seen.                      *)
EXTENDS Proxy, TLCExt, Json, IOUtils

Scripts == JsonDeserialize(IOEnv.SCRIPTS)
Emit == "EMIT" \in DOMAIN IOEnv

VARIABLES id, ci, ui, end, set, tc, tu, last
vars == <<id, ci, ui, end, set, tc, tu, last>>
view == <<id, ci, ui, end, set, tc, tu>>
P == Scripts[id]
At(ps, i) == IF i = 0 THEN 0 ELSE ps[i]

Init ==
  /\ id \in 1 .. Len(Scripts) /\ ci = 0 /\ ui = 0 /\ end = ""
  /\ set = {Up(ProxyInit, "ok")} /\ tc = "" /\ tu = "" /\ last = [a |-> "", co |-> "", uo |-> ""]

\* What is seen of a state; a side that is gone sees nothing.
CO(st) == IF st.cx = "" THEN st.co ELSE "*"
UO(st) == IF st.ux = "" THEN st.uo ELSE "*"
Quiet(st) == [st EXCEPT !.co = "", !.uo = ""]
\* It runs until nothing moves; then one of the possible outcomes is seen.
Run(a, s0) ==
  LET rest == Rests(P, Ways(P, s0)) IN
  \E o \in {<<CO(st), UO(st)>> : st \in rest} :
    /\ set' = {Quiet(st) : st \in {x \in rest : <<CO(x), UO(x)>> = o}}
    /\ tc' = IF o[1] = "*" THEN tc ELSE tc \o o[1]
    /\ tu' = IF o[2] = "*" THEN tu ELSE tu \o o[2]
    /\ last' = [a |-> a, co |-> o[1], uo |-> o[2]]
Push(a, c, u, cx, ux) ==
  /\ ci' = c /\ ui' = u /\ end' = IF cx # "" THEN "c" ELSE IF ux # "" THEN "u" ELSE end
  /\ UNCHANGED id
  /\ Run(a, UNION {Arrive(st, At(P.cps, c), At(P.ups, u), cx, ux) : st \in set})

MoreC == ci < Len(P.cps)
MoreU == ui < Len(P.ups)
ClientPiece   == end = "" /\ MoreC /\ Push("c", ci + 1, ui, "", "")
UpstreamPiece == end = "" /\ MoreU /\ Push("u", ci, ui + 1, "", "")
BothPieces    == end = "" /\ MoreC /\ MoreU /\ Push("b", ci + 1, ui + 1, "", "")
Stops == end = "" /\ \E i \in 1 .. Len(P.stops) :
  \/ Push("C" \o P.stops[i], ci, ui, P.stops[i], "")
  \/ Push("U" \o P.stops[i], ci, ui, "", P.stops[i])
  \/ MoreC /\ Push("cC" \o P.stops[i], ci + 1, ui, P.stops[i], "")
  \/ MoreU /\ Push("uU" \o P.stops[i], ci, ui + 1, "", P.stops[i])
  \/ MoreC /\ MoreU /\ Push("bU" \o P.stops[i], ci + 1, ui + 1, "", P.stops[i])
  \/ MoreC /\ MoreU /\ Push("bC" \o P.stops[i], ci + 1, ui + 1, P.stops[i], "")
\* While one side is being seen off, the other one may still speak.
Late ==
  \/ end = "c" /\ MoreU /\ Push("u", ci, ui + 1, "", "")
  \/ end = "u" /\ MoreC /\ Push("c", ci + 1, ui, "", "")
\* A client that leaves before the greeting goes unnoticed (see known-findings).
Tick ==
  /\ end \in {"c", "u"} /\ end' = "t" /\ UNCHANGED <<id, ci, ui, tc, tu>>
  /\ set' = {[st EXCEPT !.ph = IF st.ph \in {"conn", "greet"} THEN @ ELSE "dead"] : st \in set}
  /\ last' = [a |-> "t", co |-> IF end = "c" THEN "*" ELSE "", uo |-> IF end = "u" THEN "*" ELSE ""]

Next == ClientPiece \/ UpstreamPiece \/ BothPieces \/ Stops \/ Late \/ Tick
Spec == Init /\ [][Next]_vars

-----------------------------------------------------------------------------
\* An independent account of what has to arrive, from the bytes alone.
Starts(s, w) == Len(w) <= Len(s) /\ SubSeq(s, 1, Len(w)) = w
After(s, w) == SubSeq(s, Len(w) + 1, Len(s))
UScr == [P.u EXCEPT !.cmds = <<>>]

\* The messages upstream has sent completely, in order.
RECURSIVE Messages(_, _, _, _)
Messages(codec, rx, fed, acc) ==
  LET r == C!RecvNext(UScr, codec, rx, fed) IN
  CASE r.r = "more" -> acc
    [] r.r = "dec" /\ r.d.r = "ok" -> Messages("response", C!Finish(rx, r.end), fed, Append(acc, r.d))
    [] r.r = "dec" /\ r.d.r = "lit" -> Messages(codec, C!Literal(rx, r.end, r.d.len), fed, acc)
    [] OTHER -> Messages(codec, C!Finish(rx, r.end), fed, acc)
Sent == Messages("greeting", C!Rx0, At(P.ups, ui), <<>>)

\* The line the text starts with.
FirstLine(s) ==
  LET k == CHOOSE i \in 1 .. Len(s) - 1 : SubSeq(s, i, i + 1) = "\r\n" /\ \A j \in 1 .. i - 1 : SubSeq(s, j, j + 1) # "\r\n"
  IN SubSeq(s, 1, k + 1)
Ends(s, w) == Len(w) <= Len(s) /\ SubSeq(s, Len(s) - Len(w) + 1, Len(s)) = w
Own(l) == l = "+ " \o LiteralAccept \o "\r\n" \/ Ends(l, " BAD " \o LiteralReject \o "\r\n")
Tagged(d) == "tag" \in DOMAIN d /\ d.tag # ""
Refusal(d) == Tagged(d) /\ d.st = "BAD"
InPlace(d) ==
  LET r == P.resps[d.p] IN d.tag \o " BAD " \o (IF r.alert THEN "[ALERT] " \o r.text ELSE Rejected) \o "\r\n"
IsCont(d) == "k" \in DOMAIN d /\ d.k = "cont"

\* The client got the messages, each once and in order. Missing may only be a
\* continuation request, which can be the answer to a literal.
RECURSIVE MatchC(_, _, _, _)
MatchC(s, ms, i, full) ==
  \/ s = "" /\ (~full \/ \A j \in i .. Len(ms) : IsCont(ms[j]))
  \/ s # "" /\ Own(FirstLine(s)) /\ MatchC(After(s, FirstLine(s)), ms, i, full)
  \/ /\ s # "" /\ i <= Len(ms)
     /\ \/ Starts(s, Wire(P, ms[i].p)) /\ MatchC(After(s, Wire(P, ms[i].p)), ms, i + 1, full)
        \/ Refusal(ms[i]) /\ Starts(s, InPlace(ms[i])) /\ MatchC(After(s, InPlace(ms[i])), ms, i + 1, full)
        \/ IsCont(ms[i]) /\ MatchC(s, ms, i + 1, full)

RECURSIVE Bytes(_, _)
Bytes(fr, n) == IF n = 0 THEN "" ELSE Bytes(fr, n - 1) \o fr[n].d
Refused(tag, ms) == \E i \in 1 .. Len(ms) : Refusal(ms[i]) /\ ms[i].tag = tag
\* Upstream got what the client said, each once and in order. A command may be
\* cut before a literal, if it was refused or (the last) waits for permission;
\* authentication data and DONE are void when their dialogue is over.
RECURSIVE MatchU(_, _, _, _, _)
MatchU(s, said, i, ms, full) ==
  \/ s = "" /\ (~full \/ \A j \in i .. Len(said) : said[j].k \in {"auth", "done"})
  \/ /\ s # "" /\ i <= Len(said)
     /\ LET x == said[i]
            next(w) == Starts(s, w) /\ MatchU(After(s, w), said, i + 1, ms, full)
        IN CASE x.k = "cmd" ->
                  LET fr == P.cmds[x.p].frags IN
                  \E n \in 0 .. Len(fr) :
                    /\ n = Len(fr) \/ (fr[n + 1].m = "S" /\ (Refused(P.cmds[x.p].tag, ms) \/ (~full /\ s = Bytes(fr, n))))
                    /\ next(Bytes(fr, n))
             [] x.k = "idle" -> next(x.p \o " IDLE\r\n")
             [] x.k = "auth" -> next(P.auths[x.p]) \/ MatchU(s, said, i + 1, ms, full)
             [] OTHER -> next("DONE\r\n") \/ MatchU(s, said, i + 1, ms, full)

Live(st) == st.ph \in {"run", "drainu", "drainc"}
Free(st) == st.c.cur = 0
\* After an abrupt end (writing fails), what was not read yet may be lost.
Orderly(how) == how \in {"", "half", "notify"}
P01_Order == \A st \in set : MatchU(tu, st.said, 1, Sent, FALSE)
\* Nothing is kept back unless upstream still owes an answer.
P01_Complete == \A st \in set : (Live(st) /\ Free(st) /\ end # "u" /\ Orderly(st.cx)) => MatchU(tu, st.said, 1, Sent, TRUE)
P02_Order == MatchC(tc, Sent, 1, FALSE)
P02_Complete == \A st \in set : (Live(st) /\ end # "c" /\ Orderly(st.ux)) => MatchC(tc, Sent, 1, TRUE)
P02_Greeting == tc # "" => Starts(tc, Wire(P, Sent[1].p))

RECURSIVE Tokens(_, _, _)
Tokens(s, i, from) ==   \* the words from `from` on, until the list ends
  IF SubSeq(s, i, i) \in {"]", "\r", ""} THEN {SubSeq(s, from, i - 1)}
  ELSE IF SubSeq(s, i, i) = " " THEN {SubSeq(s, from, i - 1)} \union Tokens(s, i + 1, i + 1)
  ELSE Tokens(s, i + 1, from)
P03_Supported ==
  \A i \in 1 .. Len(last.co) - 11 :
    SubSeq(last.co, i, i + 10) = "CAPABILITY " =>
      LET t == Tokens(last.co, i + 11, i + 11) IN t # {} /\ \A x \in t : Keep(x)

\* The two sides agree about the dialogue in progress.
P05_Agree == \A st \in set : st.ph = "run" =>
  LET k == IF Free(st) THEN "none" ELSE st.cmds[st.c.cur].kind
      waits == \E i \in st.c.nxt .. Len(st.cmds) : st.cmds[i].kind \in {"auth", "idle"}
  IN /\ k = "auth" => st.s.mode = "auth"
     /\ (k = "idle" /\ st.c.ph = "resp") => st.s.mode = "idleacc"
     /\ (st.s.mode = "auth" /\ ~waits) => k = "auth"
     /\ (st.s.mode = "idleacc" /\ ~waits) => k = "idle"

\* After a side stopped, the session ends; what that side had said was passed on.
P07_Ends == end = "t" => \A st \in set : st.ph = "dead" \/ (st.ph = "greet" /\ st.cx # "")
P04_Refused == \A st \in set : \A i \in 1 .. Len(st.cmds) :
  (Free(st) /\ Live(st) /\ end = "") => i < st.c.nxt

EmitTransition ==
  ~Emit \/ PrintT("@@" \o ToJson([s |-> id, f |-> TLCFP(view), g |-> TLCFP(<<view, "another fingerprint of the same">>), a |-> last'.a, co |-> last'.co, uo |-> last'.uo,
                                  t |-> TLCFP(view'), u |-> TLCFP(<<view', "another fingerprint of the same">>)]))
=============================================================================
