-------------------------------- MODULE Boot --------------------------------
(* What becomes of a configuration: which addresses the proxy listens at, and
   what somebody finds there: is TLS spoken, with which certificate, whom does
   the proxy dial, is TLS spoken there, whose certificate is accepted.

   An identity path is the name of a certificate here; a certificate names
   hosts. The world: busy (addresses somebody else listens at).
   A probe: [to, client |-> "plain"|"tls", up |-> "refuse"|"plain"|certificate];
   the prober says something in its way, upstream greets if asked in its way,
   then a command is sent.                                                   *)
EXTENDS Config, TLC

Certs == {"leaf", "imap", "mail", "other"}
Names(c) == CASE c = "leaf" -> {"localhost", "127.0.0.1"}
              [] c = "imap" -> {"imap.example.org"}
              [] c = "mail" -> {"mail.example.org"}
              [] OTHER -> {"localhost", "127.0.0.1"}
Trusted(c) == c # "other"
IsAddress(host) == host \in {"127.0.0.1", "0.0.0.0", "::1"}

Config_(doc) == IF Valid(doc) THEN Loaded(doc, ToString) ELSE <<>>
\* (full: the certificate imap with its issuer's)
KeyOf(c) == CASE c = "full" -> {"imap", "full"} [] c = "imap" -> {"imap", "full"} [] OTHER -> {c}
Usable(bind) == bind.enc = "Tls" => (bind.cert \in Certs \union {"full"} /\ bind.key \in KeyOf(bind.cert))

\* The services that may come to listen: one for each address that is free. A
\* service without a usable certificate may or may not.
Listening(cfg, busy) ==
  {on \in SUBSET (1 .. Len(cfg)) :
     /\ \A i \in on : cfg[i].bind.addr \notin busy
     /\ \A i, j \in on : i # j => cfg[i].bind.addr # cfg[j].bind.addr
     /\ \A i \in (1 .. Len(cfg)) \ on :
          \/ cfg[i].bind.addr \in busy
          \/ ~Usable(cfg[i].bind)
          \/ \E j \in on : cfg[j].bind.addr = cfg[i].bind.addr}

Nothing == [refused |-> FALSE, hs |-> FALSE, cert |-> "", to |-> "", ck |-> "", uk |-> "", uhs |-> FALSE, sni |-> "",
            greeted |-> FALSE, relayed |-> FALSE]

\* What happens upstream, once the client has been let in (o: so far).
Upstream(s, up, o) ==
  LET d == [o EXCEPT !.to = s.connect.addr]
      name == IF IsAddress(s.connect.host) THEN "" ELSE s.connect.host
      served(x) == [x EXCEPT !.greeted = TRUE, !.relayed = TRUE] IN
  CASE up = "refuse" -> {d}
    [] s.connect.enc = "Insecure" /\ up = "plain" -> {served([d EXCEPT !.uk = "plain"])}
    [] s.connect.enc = "Insecure" -> {d}
    [] up \in Certs /\ Trusted(up) /\ s.connect.host \in Names(up) -> {served([d EXCEPT !.uk = "tls", !.uhs = TRUE, !.sni = name])}
    [] OTHER -> {[d EXCEPT !.uk = "tls", !.sni = n] : n \in {"", name}}

Outcomes(cfg, on, p) ==
  LET at == {i \in on : cfg[i].bind.addr = p.to} IN
  IF at = {} THEN {[Nothing EXCEPT !.refused = TRUE]}
  ELSE LET s == cfg[CHOOSE i \in at : TRUE] IN
    CASE s.bind.enc = "Tls" /\ (~Usable(s.bind) \/ p.client = "plain") -> {[Nothing EXCEPT !.ck = k] : k \in {"", "tls"}}
      [] s.bind.enc = "Tls" -> {[o EXCEPT !.hs = TRUE, !.cert = s.bind.cert, !.ck = "tls"] : o \in Upstream(s, p.up, Nothing)}
      [] p.client = "plain" -> {[o EXCEPT !.ck = IF o.greeted THEN "plain" ELSE ""] : o \in Upstream(s, p.up, Nothing)}
      \* TLS where none is spoken: the greeting is sent, and means nothing to the client.
      [] OTHER -> {[o EXCEPT !.ck = IF o.greeted THEN "plain" ELSE "", !.uk = IF o.uk = "plain" THEN "" ELSE o.uk,
                             !.greeted = FALSE, !.relayed = FALSE] : o \in Upstream(s, p.up, Nothing)}
=============================================================================
