------------------------------ MODULE TraceIds -----------------------------
(* Validates recorded histories of handed out identities. Each entry: the
   connection, the number of the first identity it is equal to (by ==, and as
   a key of a hashed set), and its text (tags).                             *)
EXTENDS Ids, TLC, Json, IOUtils

Runs == JsonDeserialize(IOEnv.TRACES)

VARIABLES run, step, s, first, res
vars == <<run, step, s, first, res>>

Init == run \in 1 .. Len(Runs) /\ step = 0 /\ s = IdsInit /\ first = <<>> /\ res = "run"

T == Runs[run]

TagChars == {"0","1","2","3","4","5","6","7","8","9","!","#","$","&","'",",","-",".","/",":",";","<","=",">","?",
             "@","[","]","^","_","`","|","}","~",
             "a","b","c","d","e","f","g","h","i","j","k","l","m","n","o","p","q","r","s","t","u","v","w","x","y","z",
             "A","B","C","D","E","F","G","H","I","J","K","L","M","N","O","P","Q","R","S","T","U","V","W","X","Y","Z"}
\* entry.chars: the text's characters
ValidTag(chars) == Len(chars) > 0 /\ \A i \in 1 .. Len(chars) : chars[i] \in TagChars

Bad(blame, e) ==
  res' = "bad" /\ PrintT("@@" \o ToJson([bad |-> T.name, step |-> step + 1, blame |-> blame, got |-> e]))

Step ==
  /\ res = "run" /\ step < Len(T.log)
  /\ step' = step + 1
  /\ LET e == T.log[step + 1] IN
     CASE e.a = "new" -> s' = NewConn(s) /\ UNCHANGED <<first, res>>
       [] e.a = "drop" -> s' = Drop(s, e.c) /\ UNCHANGED <<first, res>>
       [] e.a = "hand" ->
            LET t   == Hand(s, e.c)
                me  == Len(t.made)
                \* the only earlier identity it may equal is itself
                ok  == e.eq = me /\ e.key = me /\ e.copy
                other == IF e.eq < me THEN e.eq ELSE IF e.key < me THEN e.key ELSE me
            IN /\ s' = t
               /\ first' = first
               /\ IF ~ok
                  THEN Bad(IF T.kind = "tag" THEN {"H03"}
                           ELSE IF t.made[other].conn = e.c THEN {"H01"} ELSE {"H02"}, e)
                  ELSE IF T.kind = "tag" /\ ~ValidTag(e.chars) THEN Bad({"H03"}, e)
                  ELSE res' = res
  /\ UNCHANGED run

Done ==
  /\ res = "run" /\ step = Len(T.log)
  /\ res' = "ok" /\ PrintT("@ok")
  /\ UNCHANGED <<run, step, s, first>>

Spec == Init /\ [][Step \/ Done]_vars
=============================================================================
