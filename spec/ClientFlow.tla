----------------------------- MODULE ClientFlow -----------------------------
(* The client state machine (src/client.rs, client_send.rs, client_receive.rs):
   which bytes `Client::next` hands out, which events it reports and when it
   asks for more input, for every order of calls and every input.

   Script (besides Framing): sc.cmds, the commands the user enqueues, each
   [tag, kind: cmd | auth | idle, p: canonical content,
    frags: sequence of [d: bytes, m: "L" line | "S" sync lit | "N" non-sync]]
   and sc.auths, the authentication data [p, d].                            *)
EXTENDS Framing

DoneLine == "DONE\r\n"

ClientInit ==
  [greeted |-> FALSE,
   enq  |-> 0,       \* commands enqueued so far
   cur  |-> 0,       \* command in progress, 0 = none
   nxt  |-> 1,       \* next command to start
   ph   |-> "",      \* its phase:
                     \*   cmd:  send, wait (for permission to send a literal)
                     \*   auth: send, resp (server's turn), set (user's turn), dsend
                     \*   idle: send, resp, set (accepted), dsend
   pend |-> "",      \* bytes of it that may go out now
   fi   |-> 1,       \* first fragment not in pend (cmd)
   rx   |-> Rx0]

\* One answer of `next`.
Obs(o, e, h, p, q, b) == [o |-> o, e |-> e, h |-> h, p |-> p, q |-> q, b |-> b]
More       == Obs("more", "", 0, "", "", "")
Output(b)  == Obs("out", "", 0, "", "", b)
Ev(e, h, p, q) == Obs("ev", e, h, p, q, "")
Err(e, b)  == Obs("err", e, 0, "", "", b)

Kind(sc, s) == IF s.cur = 0 THEN "none" ELSE sc.cmds[s.cur].kind

Silent     == Obs("none", "", 0, "", "", "")   \* nothing to report

\* Bytes of fragments i.. up to (not including) the next synchronising
\* literal, and the index of that literal (or Len + 1).
RECURSIVE Push(_, _, _)
Push(fr, i, acc) ==
  IF i > Len(fr) THEN <<acc, i>>
  ELSE IF fr[i].m = "S" THEN <<acc, i>>
  ELSE Push(fr, i + 1, acc \o fr[i].d)

StartNext(sc, s) ==
  LET c == sc.cmds[s.nxt]
      p == Push(c.frags, 1, "")
  IN [s EXCEPT !.cur = s.nxt, !.nxt = s.nxt + 1, !.ph = "send",
               !.pend = p[1], !.fi = p[2]]

\* The server permits the pending literal.
Accept(sc, s) ==
  LET fr == sc.cmds[s.cur].frags
      p  == Push(fr, s.fi + 1, fr[s.fi].d)
  IN [s EXCEPT !.ph = "send", !.pend = p[1], !.fi = p[2]]

Idle0(s) == [s EXCEPT !.cur = 0, !.ph = "", !.fi = 1]

\* What a decoded response means for the command in progress:
\* <<state, event or Silent>>; rx is already moved behind the response.
OnResponse(sc, s, d) ==
  LET k == Kind(sc, s)
      c == sc.cmds[s.cur]
      mine == d.k = "status" /\ s.cur # 0 /\ d.tag = c.tag /\ d.tag # ""
  IN CASE d.k = "data" -> <<s, Ev("Data", 0, "", d.p)>>
       [] d.k = "status" ->
            (CASE mine /\ k = "cmd" /\ d.st = "BAD" ->
                    <<Idle0(s), Ev("CommandRejected", s.cur, c.p, d.p)>>
               [] mine /\ k = "auth" ->
                    <<Idle0(s), Ev("AuthStatus", s.cur, c.p, d.p)>>
               [] mine /\ k = "idle" ->
                    <<Idle0(s), Ev("IdleRejected", s.cur, "", d.p)>>
               [] OTHER -> <<s, Ev("Status", 0, "", d.p)>>)
       [] d.k = "cont" ->
            (CASE k = "cmd" /\ s.ph = "wait" -> <<Accept(sc, s), Silent>>
               [] k = "auth" /\ s.ph = "resp" ->
                    <<[s EXCEPT !.ph = "set"], Ev("AuthCont", s.cur, "", d.p)>>
               [] k = "idle" /\ s.ph = "resp" ->
                    <<[s EXCEPT !.ph = "set"], Ev("IdleAccepted", s.cur, "", d.p)>>
               [] OTHER -> <<s, Ev("Cont", 0, "", d.p)>>)

\* `Client::next` with `fed` bytes received: <<new state, answer>>.
\* With output pending the answer is Output of all of it; a caller that got
\* only a part of it continues from Drain.
RECURSIVE ClientNext(_, _, _)
ClientReceive(sc, s, fed) ==
  LET codec == IF s.greeted THEN "response" ELSE "greeting"
      r     == RecvNext(sc, codec, s.rx, fed)
      gone  == [s EXCEPT !.rx = Finish(s.rx, r.end)]
      bytes == Piece(sc, s.rx.start, r.end)
  IN CASE r.r = "more" -> <<s, More>>
       [] r.r = "lf"   -> <<gone, Err("lf", bytes)>>
       [] r.r = "dec" /\ r.d.r = "fail" -> <<gone, Err("malformed", bytes)>>
       [] r.r = "dec" /\ r.d.r = "lit"  ->
            ClientNext(sc, [s EXCEPT !.rx = Literal(s.rx, r.end, r.d.len)], fed)
       [] r.r = "dec" /\ r.d.r = "ok" /\ ~s.greeted ->
            <<[gone EXCEPT !.greeted = TRUE], Ev("Greeting", 0, "", r.d.p)>>
       [] OTHER ->
            LET x == OnResponse(sc, gone, r.d) IN
            IF x[2] = Silent THEN ClientNext(sc, x[1], fed) ELSE x

ClientNext(sc, s, fed) ==
  LET k == Kind(sc, s) IN
  IF ~s.greeted THEN ClientReceive(sc, s, fed)
  ELSE IF s.cur = 0
  THEN IF s.nxt <= s.enq THEN ClientNext(sc, StartNext(sc, s), fed)
       ELSE ClientReceive(sc, s, fed)
  ELSE IF s.pend # "" THEN <<[s EXCEPT !.pend = ""], Output(s.pend)>>
  ELSE CASE s.ph = "send" /\ k = "cmd" /\ s.fi > Len(sc.cmds[s.cur].frags) ->
              <<Idle0(s), Ev("CommandSent", s.cur, sc.cmds[s.cur].p, "")>>
         [] s.ph = "send" /\ k = "cmd" ->
              ClientReceive(sc, [s EXCEPT !.ph = "wait"], fed)
         [] s.ph = "send" /\ k = "auth" ->
              <<[s EXCEPT !.ph = "resp"], Ev("AuthStarted", s.cur, "", "")>>
         [] s.ph = "send" /\ k = "idle" ->
              <<[s EXCEPT !.ph = "resp"], Ev("IdleSent", s.cur, "", "")>>
         [] s.ph = "dsend" /\ k = "auth" ->
              ClientReceive(sc, [s EXCEPT !.ph = "resp"], fed)
         [] s.ph = "dsend" /\ k = "idle" ->
              <<Idle0(s), Ev("IdleDoneSent", s.cur, "", "")>>
         [] OTHER -> ClientReceive(sc, s, fed)

\* Only `k` bytes of the output were handed out.
Drain(s, pend, k) == [s EXCEPT !.pend = SubSeq(pend, k + 1, Len(pend))]

ClientEnqueue(s) == [s EXCEPT !.enq = s.enq + 1]

AuthWanted(sc, s) == Kind(sc, s) = "auth" /\ s.ph = "set"
DoneWanted(sc, s) == Kind(sc, s) = "idle" /\ s.ph = "set"
ClientSetAuth(sc, s, i) ==
  IF AuthWanted(sc, s) THEN [s EXCEPT !.ph = "dsend", !.pend = sc.auths[i].d] ELSE s
ClientSetDone(sc, s) ==
  IF DoneWanted(sc, s) THEN [s EXCEPT !.ph = "dsend", !.pend = DoneLine] ELSE s
=============================================================================
