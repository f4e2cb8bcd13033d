----------------------------- MODULE ServerFlow -----------------------------
(* The server state machine (src/server.rs, server_send.rs, server_receive.rs).

   Script (besides Framing): sc.greeting [p, b], sc.resps the responses the
   user hands over [k: data | status | cont, p, b], sc.maxlit.              *)
EXTENDS Framing

Obs(o, e, h, p, q, b) == [o |-> o, e |-> e, h |-> h, p |-> p, q |-> q, b |-> b]
More       == Obs("more", "", 0, "", "", "")
Output(b)  == Obs("out", "", 0, "", "", b)
Ev(e, h, p, q) == Obs("ev", e, h, p, q, "")
Err(e, b)  == Obs("err", e, 0, "", "", b)

\* Something to be sent: the greeting (g), a response of the user (r) with
\* handle h, or a response the server produced itself (i).
Item(k, h, p, b) == [k |-> k, h |-> h, p |-> p, b |-> b]

DefaultText == "..."

ServerInit(sc) ==
  [q    |-> <<Item("g", 0, sc.greeting.p, sc.greeting.b)>>,
   cur  |-> <<>>,     \* the item being sent, at most one
   pend |-> "",       \* its bytes not handed out yet
   mode |-> "cmd",    \* cmd | auth | idleacc (the user's turn) | idledone
   hs   |-> 0,        \* handles given out
   acc  |-> DefaultText,
   rej  |-> DefaultText,
   rx   |-> Rx0]

Codec(s) == CASE s.mode = "cmd"  -> "command"
              [] s.mode = "auth" -> "authdata"
              [] OTHER           -> "idledone"

AcceptLine(s)      == "+ " \o s.acc \o "\r\n"
RejectLine(s, tag) == tag \o " BAD " \o s.rej \o "\r\n"

RECURSIVE ServerNext(_, _, _)
ServerReceive(sc, s, fed) ==
  LET r     == RecvNext(sc, Codec(s), s.rx, fed)
      gone  == [s EXCEPT !.rx = Finish(s.rx, r.end)]
      bytes == Piece(sc, s.rx.start, r.end)
  IN CASE s.mode = "idleacc"  -> <<s, More>>
       [] s.mode # "idleacc" /\ r.r = "more"    -> <<s, More>>
       [] s.mode # "idleacc" /\ r.r = "toolong" -> <<gone, Err("toolong", bytes)>>
       [] s.mode # "idleacc" /\ r.r = "lf"      -> <<gone, Err("lf", bytes)>>
       [] s.mode # "idleacc" /\ r.r = "dec" /\ r.d.r = "fail" ->
            <<gone, Err("malformed", bytes)>>
       [] s.mode # "idleacc" /\ r.r = "dec" /\ r.d.r = "lit" ->
            (IF r.d.len > sc.maxlit
             THEN <<IF r.d.mode = "S"
                    THEN [gone EXCEPT !.q = Append(@, Item("i", 0, "", RejectLine(s, r.d.tag)))]
                    ELSE gone,
                    Err("littoolong", bytes)>>
             ELSE LET t == [s EXCEPT !.rx = Literal(s.rx, r.end, r.d.len)] IN
                  ServerNext(sc, IF r.d.mode = "S"
                                 THEN [t EXCEPT !.q = Append(@, Item("i", 0, "", AcceptLine(s)))]
                                 ELSE t, fed))
       [] OTHER ->
            (CASE s.mode = "auth" -> <<gone, Ev("AuthData", 0, "", r.d.p)>>
               [] s.mode = "idledone" ->
                    <<[gone EXCEPT !.mode = "cmd"], Ev("IdleDone", 0, "", "")>>
               [] r.d.k = "auth" ->
                    <<[gone EXCEPT !.mode = "auth"], Ev("AuthCommand", 0, "", r.d.p)>>
               [] r.d.k = "idle" ->
                    <<[gone EXCEPT !.mode = "idleacc"], Ev("IdleCommand", 0, "", r.d.tag)>>
               [] OTHER -> <<gone, Ev("Command", 0, "", r.d.p)>>)

ServerNext(sc, s, fed) ==
  IF s.pend # "" THEN <<[s EXCEPT !.pend = ""], Output(s.pend)>>
  ELSE IF s.cur # <<>>
  THEN LET i == s.cur[1]
           t == [s EXCEPT !.cur = <<>>]
       IN CASE i.k = "g" -> <<t, Ev("GreetingSent", 0, i.p, "")>>
            [] i.k = "r" -> <<t, Ev("ResponseSent", i.h, i.p, "")>>
            [] OTHER     -> ServerNext(sc, t, fed)   \* never reported
  ELSE IF s.q # <<>>
  THEN ServerNext(sc, [s EXCEPT !.cur = <<Head(s.q)>>, !.pend = Head(s.q).b,
                                !.q = Tail(@)], fed)
  ELSE ServerReceive(sc, s, fed)

Drain(s, pend, k) == [s EXCEPT !.pend = SubSeq(pend, k + 1, Len(pend))]

\* The i-th response of the script is queued under a new handle.
Respond(sc, s, i) ==
  [s EXCEPT !.hs = s.hs + 1,
            !.q = Append(@, Item("r", s.hs + 1, sc.resps[i].p, sc.resps[i].b))]

Allowed(s, a) == CASE a \in {"acont", "afin"} -> s.mode = "auth"
                   [] a \in {"iacc", "irej"}  -> s.mode = "idleacc"
                   [] OTHER -> TRUE
ServerCall(sc, s, a, i) ==
  IF ~Allowed(s, a) THEN s
  ELSE [Respond(sc, s, i) EXCEPT
          !.mode = CASE a \in {"afin", "irej"} -> "cmd"
                     [] a = "iacc" -> "idledone"
                     [] OTHER -> s.mode]
\* Configuring the texts used for literals.
ServerText(s, which, text, valid) ==
  IF ~valid THEN s
  ELSE IF which = "acc" THEN [s EXCEPT !.acc = text] ELSE [s EXCEPT !.rej = text]
=============================================================================
