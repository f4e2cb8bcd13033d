------------------------------ MODULE TraceBoot -----------------------------
(* Judges what was found at the real proxy started with a document:
     [name, doc, busy, bound, ended, probes: [p, obs]]
   bound: the addresses listened at after the start; ended: is the program over? *)
EXTENDS Boot, Json, IOUtils

Runs == JsonDeserialize(IOEnv.TRACES)
VARIABLES run, res
vars == <<run, res>>
Init == run \in 1 .. Len(Runs) /\ res = "run"
T == Runs[run]
ToSet(q) == {q[i] : i \in 1 .. Len(q)}
cfg == Config_(T.doc)
Ons == Listening(cfg, ToSet(T.busy))

Misfits(on) == {k \in 1 .. Len(T.probes) : T.probes[k].obs \notin Outcomes(cfg, on, T.probes[k].p)}
Start(on) == /\ ToSet(T.bound) = {cfg[i].bind.addr : i \in on}
             /\ T.ended => ~\E i \in on : Usable(cfg[i].bind)
Fits(on) == Start(on) /\ Misfits(on) = {}

Differ(f, o, x) == o[f] # x[f]
BlameOf(o, exp) ==
  \* the nearest of what is allowed: the fewest fields differ
  LET fields == DOMAIN o
      far(x) == Cardinality({f \in fields : Differ(f, o, x)})
      near == CHOOSE x \in exp : \A y \in exp : far(x) <= far(y)
      bad == {f \in fields : Differ(f, o, near)} IN
  UNION {CASE f = "refused" -> {"K02", "K03", "P06"}
           [] f = "to" -> {"K02"}
           [] f = "sni" -> {"K01", "K02"}
           [] f = "cert" -> {"K01", "K03"}
           [] f \in {"hs", "ck", "uk", "uhs"} -> {"K01"}
           [] OTHER -> {"K01"} : f \in bad}
Blame(on) ==
  (IF ToSet(T.bound) # {cfg[i].bind.addr : i \in on} THEN {"K02", "K03", "P06"} ELSE {})
  \union (IF ~Start(on) THEN {"K03", "P06"} ELSE {})
  \union UNION {BlameOf(T.probes[k].obs, Outcomes(cfg, on, T.probes[k].p)) : k \in Misfits(on)}

Judge ==
  /\ res = "run" /\ UNCHANGED run
  /\ IF \E on \in Ons : Fits(on) THEN res' = "ok" /\ PrintT("@ok")
     ELSE LET best == CHOOSE a \in Ons : \A b \in Ons : Cardinality(Blame(a)) <= Cardinality(Blame(b))
              m == Misfits(best) IN
          /\ res' = "bad"
          /\ PrintT("@@" \o ToJson([bad |-> T.name, blame |-> Blame(best), listen |-> {cfg[i].bind.addr : i \in best}, bound |-> T.bound, ended |-> T.ended,
                 probes |-> {[p |-> T.probes[k].p, got |-> T.probes[k].obs, allowed |-> Outcomes(cfg, best, T.probes[k].p)] : k \in m}]))
Spec == Init /\ [][Judge]_vars
=============================================================================
