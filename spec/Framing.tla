------------------------------ MODULE Framing ------------------------------
(* How a received byte stream is divided into messages (src/receive.rs).

   A script `sc` describes one connection from one side's point of view:
     sc.inp      the bytes that side receives, one character per byte
     sc.n        their number
     sc.lf       positions (1-based) of all LF bytes
     sc.cr       for each of them: is the byte before it a CR?
     sc.relaxed  may a line end with a bare LF?
     sc.max      largest message in bytes, 0 = unlimited
     sc.bycontent, sc.dec  what the decoders say about the bytes (start, end] of the
                 stream: sc.dec[codec]["start_end"]

   The decoders themselves (imap-codec) are not part of the system: the
   specification decides which byte ranges are offered to them and what
   follows from their answer.                                              *)
EXTENDS Naturals, Sequences, TLC

\* A receiver: where the current message starts, how much of it is settled
\* (complete lines and literals), and the literal being received (0 = a line).
Rx0 == [start |-> 0, seen |-> 0, lit |-> 0, inlit |-> FALSE]

Finish(rx, at) == [start |-> at, seen |-> at, lit |-> 0, inlit |-> FALSE]

Min(a, b) == IF a < b THEN a ELSE b
Piece(sc, a, b) == SubSeq(sc.inp, a + 1, b)

\* Answer of the decoder for the bytes (a, b]; a script may also list the
\* answers by content.
Decode(sc, codec, a, b) ==
  IF sc.bycontent THEN sc.dec[codec][Piece(sc, a, b)]
  ELSE sc.dec[codec][ToString(a) \o "_" \o ToString(b)]

\* Bytes of the current message that may be looked at.
Limit(sc, rx, avail) ==
  IF sc.max = 0 THEN avail ELSE Min(avail, rx.start + sc.max)
Full(sc, rx, avail) ==
  sc.max # 0 /\ avail >= rx.start + sc.max

\* Index into sc.lf of the first LF after position p; 0 if there is none.
RECURSIVE LfIdx(_, _, _, _)
LfIdx(lf, p, lo, hi) ==   \* binary search: first index in lo..hi with lf[i] > p
  IF lo > hi THEN 0
  ELSE IF lf[lo] > p THEN lo
  ELSE LET mid == (lo + hi + 1) \div 2 IN
       IF lf[mid] > p
       THEN (IF mid = lo + 1 THEN mid ELSE LET m == LfIdx(lf, p, lo + 1, mid - 1) IN IF m = 0 THEN mid ELSE m)
       ELSE LfIdx(lf, p, mid + 1, hi)

(* The next thing the receiver finds, with `avail` bytes received:
     more     nothing yet, more input is needed
     toolong  the message exceeds the limit: (start, start+max] is refused
     lf       a line ended with a bare LF: (start, end] is refused
     dec      (start, end] is offered to the decoder, answering `d`       *)
RECURSIVE RecvNext(_, _, _, _)
RecvNext(sc, codec, rx, avail) ==
  LET limit == Limit(sc, rx, avail)
      none  == [r |-> IF Full(sc, rx, avail) THEN "toolong" ELSE "more",
                end |-> IF Full(sc, rx, avail) THEN rx.start + sc.max ELSE rx.start,
                d |-> 0]
  IN IF rx.inlit
     THEN IF limit - rx.seen < rx.lit THEN none
          ELSE RecvNext(sc, codec, [rx EXCEPT !.seen = rx.seen + rx.lit,
                                              !.lit = 0, !.inlit = FALSE], avail)
     ELSE LET i == LfIdx(sc.lf, rx.seen, 1, Len(sc.lf)) IN
          IF i = 0 THEN none
          ELSE LET q == sc.lf[i] IN
               IF q > limit THEN none
               ELSE IF ~sc.relaxed /\ (q = rx.seen + 1 \/ ~sc.cr[i])
               THEN [r |-> "lf", end |-> q, d |-> 0]
               ELSE [r |-> "dec", end |-> q,
                     d |-> Decode(sc, codec, rx.start, q)]

\* The decoder asked for a literal of `len` bytes behind position `at`.
Literal(rx, at, len) == [rx EXCEPT !.seen = at, !.lit = len, !.inlit = TRUE]

\* What RecvNext says never changes when more bytes arrive: waiting is the
\* only answer that new input may revise (chunk independence, F01).
Monotone(sc, codec, rx, avail) ==
  LET a == RecvNext(sc, codec, rx, avail) IN
  a.r # "more" => \A b \in avail .. sc.n : RecvNext(sc, codec, rx, b) = a
=============================================================================
