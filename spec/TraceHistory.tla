----------------------------- MODULE TraceHistory -----------------------------
(* Judges long histories of the real Client and Server (MCHistory's words):
     seen   samples of the memory held after a lap, and during it
     tails  the same after big things began or passed
     rest   what is still held when the machine is gone
     other  the first lap that was answered unlike the first one (0: none)   *)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json, IOUtils, Memory

Runs == JsonDeserialize(IOEnv.TRACES)
VARIABLES id, done
vars == <<id, done>>
T == Runs[id]

Fixed == 16
Modest(e) == Within(e.kib, Fixed, 8, e.out) /\ Within(e.peak, 96, 16, e.out)
\* An announced literal may be prepared for, within reason.
Prepared(e) == Within(e.kib, 160, 8, e.out) /\ Within(e.peak, 160, 16, e.out)

Concerns(role, k) ==
  IF role = "c"
  THEN CASE k \in {"cmd", "many"} -> {"C01", "C03", "C05"}
         [] k \in {"lit", "rej", "non"} -> {"C01", "C02", "C03"}
         [] k \in {"auth", "authno"} -> {"C06"}
         [] k \in {"idle", "idleno"} -> {"C07"}
         [] k \in {"data", "cut", "cutlit"} -> {"C05"}
         [] k = "refuse" -> {"C06", "C07"}
         [] OTHER -> {"F02", "F03"}
  ELSE CASE k \in {"cmd", "many", "data", "cut"} -> {"S01", "S03"}
         [] k \in {"lit", "non", "toolit", "toolitn", "cutlit"} -> {"S02"}
         [] k \in {"auth", "authir"} -> {"S04"}
         [] k \in {"idle", "idleno"} -> {"S05"}
         [] k = "refuse" -> {"S04", "S05"}
         [] k = "long" -> {"S06"}
         [] OTHER -> {"F02", "F03"}
Rounds == {T.word[j] : j \in 1 .. Len(T.word)}

Wrong ==
  (IF \E i \in 1 .. Len(T.seen) : ~Modest(T.seen[i]) THEN {"F05"} ELSE {})
  \union (IF \E i \in 1 .. Len(T.tails) : ~Prepared(T.tails[i]) THEN {"F05"} ELSE {})
  \union (IF T.rest > Fixed THEN {"F05"} ELSE {})
  \union (IF T.other = 0 THEN {}
          ELSE {"F05"} \union UNION {Concerns(T.role, k) : k \in Rounds}
               \union (IF (T.got.h # T.exp.h \/ T.got.obs.h # T.exp.obs.h) THEN {"H01"} ELSE {}))

Init == id \in 1 .. Len(Runs) /\ done = FALSE
Judge ==
  /\ ~done /\ done' = TRUE /\ UNCHANGED id
  /\ IF Wrong = {} THEN PrintT("@ok")
     ELSE PrintT("@@" \o ToJson([bad |-> T.name, step |-> T.other, blame |-> Wrong, exp |-> T.exp,
                                 got |-> [got |-> T.got, seen |-> T.seen, rest |-> T.rest]]))
Spec == Init /\ [][Judge]_vars
=============================================================================
