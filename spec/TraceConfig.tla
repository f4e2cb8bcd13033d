---------------------------- MODULE TraceConfig ----------------------------
(* Judges recorded loads of documents by the real code. Each entry:
   [name, doc, obs]; obs: [ok, panic, services, again] where `again` says
   whether loading what was saved gave the same.                            *)
EXTENDS Config, TLC, Json, IOUtils

Runs == JsonDeserialize(IOEnv.TRACES)
VARIABLES run, res
vars == <<run, res>>
Init == run \in 1 .. Len(Runs) /\ res = "run"
T == Runs[run]

SideBlame(exp, got) ==
  (IF exp.enc # got.enc THEN {"K01", "K02"} ELSE {})
  \union (IF exp.host # got.host \/ exp.port # got.port \/ exp.addr # got.addr THEN {"K02"} ELSE {})
  \union (IF exp.url # got.url THEN {"K02"} ELSE {})
  \union (IF exp.cert # got.cert \/ exp.key # got.key THEN {"K03"} ELSE {})

\* What is wrong with a document that should be refused.
SideFaults(d, listens) ==
  (IF d.enc \notin {Str("Insecure"), Str("Tls")} THEN {"K01"} ELSE {})
  \union (IF listens /\ d.enc = Str("Tls") /\ ~ValidIdentity(d.id) THEN {"K01"} ELSE {})
  \union (IF ~ValidPort(d.port) THEN {"K02"} ELSE {})
Faults(doc) ==
  {"K03"} \union UNION {SideFaults(doc.services[i].bind, TRUE) \union SideFaults(doc.services[i].connect, FALSE) : i \in 1 .. Len(doc.services)}

Blame(doc, obs) ==
  IF obs.panic THEN {"K03"}
  ELSE IF ~Valid(doc) THEN IF obs.ok THEN Faults(doc) ELSE {}
  ELSE IF ~obs.ok THEN IF DoubtfulDoc(doc) THEN {} ELSE {"K01", "K02", "K03"}
  ELSE LET exp == Loaded(doc, ToString) IN
    IF Len(exp) # Len(obs.services) THEN {"K03"}
    ELSE (IF ~obs.again THEN {"K03"} ELSE {})
         \union UNION {(IF exp[i].name # obs.services[i].name THEN {"K03"} ELSE {})
                       \union SideBlame(exp[i].bind, obs.services[i].bind)
                       \union SideBlame(exp[i].connect, obs.services[i].connect) : i \in 1 .. Len(exp)}

Judge ==
  /\ res = "run"
  /\ UNCHANGED run
  /\ LET b == Blame(T.doc, T.obs) IN
     IF b = {} THEN res' = "ok" /\ PrintT("@ok")
     ELSE res' = "bad" /\ PrintT("@@" \o ToJson([bad |-> T.name, blame |-> b,
            exp |-> IF Valid(T.doc) THEN Loaded(T.doc, ToString) ELSE <<>>]))
Spec == Init /\ [][Judge]_vars
=============================================================================
