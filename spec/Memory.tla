------------------------------- MODULE Memory -------------------------------
(* How much memory a client or server may hold. Outstanding is what it cannot
   forget: bytes received that do not yet make up a message, and messages it
   was given and has not finished with. A machine may hold a fixed amount and
   a small multiple of the most that was ever outstanding: nothing on account
   of sizes that were merely announced or of what is long done with.         *)
EXTENDS Naturals

Max(a, b) == IF a < b THEN b ELSE a

\* In KiB. `hw`: the most bytes that were ever outstanding.
Within(kib, fixed, factor, hw) == kib <= fixed + (factor * hw) \div 1024
=============================================================================
