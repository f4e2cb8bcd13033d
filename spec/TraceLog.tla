------------------------------- MODULE TraceLog -------------------------------
(* Judges what sessions of the real proxy left in its log: T.parts lists the
   marked parts of the conversation, with the levels at which any of their
   bytes were found (raw, escaped, as numbers, in base64).                   *)
EXTENDS Log, TLC, Json, IOUtils

Runs == JsonDeserialize(IOEnv.TRACES)
VARIABLES id, done
vars == <<id, done>>
T == Runs[id]

Shown == {i \in 1 .. Len(T.parts) : T.parts[i].part \in Parts /\ ~May(T.parts[i].part) /\ T.parts[i].seen # <<>>}

Init == id \in 1 .. Len(Runs) /\ done = FALSE
Judge ==
  /\ ~done /\ done' = TRUE /\ UNCHANGED id
  /\ IF Shown = {} THEN PrintT("@ok")
     ELSE PrintT("@@" \o ToJson([bad |-> T.name, blame |-> {"P08"}, got |-> [i \in Shown |-> T.parts[i]]]))
Spec == Init /\ [][Judge]_vars
=============================================================================
