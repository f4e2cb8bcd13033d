--------------------------------- MODULE Log ---------------------------------
(* What may appear in the proxy's log. A conversation consists of parts; some
   of them are nobody's business:
     password   of LOGIN, in whatever form it is sent
     initial    response sent along with AUTHENTICATE
     data       lines of an authentication dialogue, as sent or decoded
     discarded  bytes of a message that was refused, of either side
   The raw bytes that a debug build can be asked for (imap_next::stream at
   level trace) are exempt.                                                  *)
EXTENDS Naturals, Sequences

Parts == {"password", "initial", "data", "discarded", "open"}
Secret == {"password", "initial", "data", "discarded"}
May(part) == part \notin Secret
=============================================================================
