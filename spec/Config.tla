------------------------------ MODULE Config -------------------------------
(* What loading a configuration must yield. A document is a list of services;
   a setting is a value (of a type) or missing. Loading is one step: all
   services as written, or an error.

   A setting: [t |-> type, v |-> text]; t is "none" (missing), "str", "int"
   (v is a number as text, n its value if it is a port), or something else.  *)
EXTENDS Naturals, Sequences, FiniteSets

Missing == [t |-> "none", v |-> "", n |-> 0]
Str(x) == [t |-> "str", v |-> x, n |-> 0]
Port(p) == [t |-> "port", v |-> "", n |-> p]   \* an integer 0 .. 65535
\* an integer that is not a port, and values of other types
BadInt(x) == [t |-> "int", v |-> x, n |-> 0]
Other(x) == [t |-> "other", v |-> x, n |-> 0]  \* v: the value as written

\* doc: [syntax |-> "" or what is wrong with the file as such,
\*       services |-> sequence of [name, bind, connect]]
\* side: [enc, host, port, id]; id: [t |-> "none"|"table"|"other", kind, cert, key]

DefaultPort(enc) == IF enc = "Tls" THEN 993 ELSE 143

IsStr(x) == x.t = "str"
ValidPort(x) == x.t \in {"none", "port"}
ValidIdentity(i) ==
  i.t = "table" /\ i.kind = Str("CertificateChainAndLeafKey") /\ IsStr(i.cert) /\ IsStr(i.key)

ValidSide(d, listens) ==
  /\ d.enc \in {Str("Insecure"), Str("Tls")}
  /\ IsStr(d.host)
  /\ ValidPort(d.port)
  /\ (listens /\ d.enc = Str("Tls")) => ValidIdentity(d.id)
\* An identity on a side that does not need one, and settings nobody knows, may be ignored or
\* refused. (A side with one of the latter: extra |-> [k, v], its key and value.)
Doubtful(d, listens) ==
  \/ ~(listens /\ d.enc = Str("Tls")) /\ d.id.t # "none"
  \/ "extra" \in DOMAIN d /\ d.extra.k # ""

ValidService(d) == IsStr(d.name) /\ ValidSide(d.bind, TRUE) /\ ValidSide(d.connect, FALSE)
Valid(doc) == doc.syntax = "" /\ \A i \in 1 .. Len(doc.services) : ValidService(doc.services[i])
DoubtfulDoc(doc) == \E i \in 1 .. Len(doc.services) :
  Doubtful(doc.services[i].bind, TRUE) \/ Doubtful(doc.services[i].connect, FALSE)

LoadedPort(d) == IF d.port.t = "none" THEN DefaultPort(d.enc.v) ELSE d.port.n
Url(enc, host, port, text) ==
  IF enc = "Tls" THEN "imaps://" \o host \o ":" \o text \o " (TLS)"
  ELSE "imap://" \o host \o ":" \o text \o " (insecure)"

LoadedSide(d, listens, PortText(_)) ==
  LET p == LoadedPort(d) IN
  [enc |-> d.enc.v, host |-> d.host.v, port |-> p,
   cert |-> IF listens /\ d.enc.v = "Tls" THEN d.id.cert.v ELSE "",
   key  |-> IF listens /\ d.enc.v = "Tls" THEN d.id.key.v ELSE "",
   addr |-> d.host.v \o ":" \o PortText(p),
   url  |-> Url(d.enc.v, d.host.v, p, PortText(p))]
LoadedService(d, PortText(_)) ==
  [name |-> d.name.v, bind |-> LoadedSide(d.bind, TRUE, PortText),
   connect |-> LoadedSide(d.connect, FALSE, PortText)]

\* The configuration a valid document denotes; saving and loading keeps it.
Loaded(doc, PortText(_)) == [i \in 1 .. Len(doc.services) |-> LoadedService(doc.services[i], PortText)]
=============================================================================
