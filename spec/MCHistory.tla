------------------------------ MODULE MCHistory ------------------------------
(* Rounds of a conversation after which nothing is outstanding, and all words
   of them up to a length: what the real machines are put through again and
   again. In the specification a round leads back to the state it began in
   (see ClientFlow, ServerFlow), up to positions and handles; so every lap
   must be answered like the first one, and no lap may leave memory behind.  *)
EXTENDS Naturals, Sequences, TLC, Json, IOUtils

Both == {"cmd", "lit", "non", "auth", "idle", "idleno", "data", "many", "bad", "lf", "refuse"}
Rounds(role) == IF role = "c" THEN Both \union {"rej", "authno", "badlit"}
                ELSE Both \union {"toolit", "toolitn", "long", "authir"}
\* The second half of a message and the first half of the next: nothing is ever complete.
Halves == {"cut", "cutlit"}
Words == IF "WORDS" \in DOMAIN IOEnv THEN atoi(IOEnv.WORDS) ELSE 2
Roles == IF "ROLE" \in DOMAIN IOEnv THEN {IOEnv.ROLE} ELSE {"c", "s"}
Times == IF "TIMES" \in DOMAIN IOEnv THEN atoi(IOEnv.TIMES) ELSE 1

\* Laps: many for a single round, fewer for longer words.
Laps(w, anew) == Times * (IF anew THEN 300 ELSE CASE Len(w) = 1 -> 2000 [] Len(w) = 2 -> 150 [] OTHER -> 30)

VARIABLES role, word, anew
vars == <<role, word, anew>>
Init == role \in Roles /\ word = <<>> /\ anew \in BOOLEAN
Next == /\ Len(word) < (IF anew THEN 1 ELSE Words)
        /\ \E k \in Rounds(role) \union (IF word = <<>> THEN Halves ELSE {}) : word' = Append(word, k)
        /\ \A i \in 1 .. Len(word) : word[i] \notin Halves
        /\ UNCHANGED <<role, anew>>
Spec == Init /\ [][Next]_vars

EmitWord == PrintT("@@" \o ToJson([role |-> role, word |-> word', anew |-> anew, laps |-> Laps(word', anew)]))
=============================================================================
