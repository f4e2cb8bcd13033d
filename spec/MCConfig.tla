------------------------------ MODULE MCConfig -----------------------------
(* Documents, and what loading each of them yields. The properties are stated
   on the outcome directly. Every document is printed for the driver.       *)
EXTENDS Config, TLC, Json, IOUtils

Emit == "EMIT" \in DOMAIN IOEnv
\* Which part of the documents: "sides", "lists", "ports"
Part == IOEnv.PART
Offset == IF "OFFSET" \in DOMAIN IOEnv THEN atoi(IOEnv.OFFSET) ELSE 0

Encs == {Str("Insecure"), Str("Tls"), Missing, Str("tls"), Str("TLS"), Str("insecure"), Str("None"), Str("StartTls"),
         Str(""), Str("Tls "), Str("0"), Other("true"), Other("1"), Other("[\"Tls\"]"), Other("{ Tls = true }")}
\* Names somebody might take for one of the two, too.
MoreEncs == {Str(x) : x \in {"SSL", "Ssl", "ssl", "STARTTLS", "starttls", "StartTLS", "Starttls", "start_tls", "TLSv1.2", "TLSv1.3", "Tls13", "tLS", "TLs", "tls ", " Tls", "Tls\n",
   "Plain", "plain", "PlainText", "Plaintext", "plaintext", "Clear", "Cleartext", "none", "NONE", "No", "no", "Off", "off", "Disabled", "false", "False", "true", "1",
   "Unencrypted", "unencrypted", "INSECURE", "inSecure", "InSecure", "Insecure ", " Insecure", "Insecure\t", "NotSecure", "Unsecure", "Secure", "secure", "SECURE", "Encrypted",
   "Imap", "imap", "IMAP", "Imaps", "imaps", "IMAPS", "Tcp", "tcp", "Auto", "auto", "Default", "default", "Any", "Both", "Optional", "Opportunistic", "Required",
   "Implicit", "Explicit", "Mtls", "MTLS", "Native", "NativeTls", "Rustls", "Quic", "Tls,Insecure", "Tls|Insecure", "InsecureTls", "Insecurre", "Tsl", "T", "I", "tls1", "Unix"}}
MoreKinds == {Str(x) : x \in {"", "None", "none", "Default", "Pem", "PEM", "pem", "Der", "Pkcs8", "PKCS8", "Pkcs12", "Files", "File", "Path", "Paths", "SelfSigned", "Certificate", "CertificateChain",
   "CertificateAndKey", "CertificateChainAndKey", "CertificateChainAndLeafkey", "certificateChainAndLeafKey", "certificate_chain_and_leaf_key", "certificate-chain-and-leaf-key",
   "CERTIFICATECHAINANDLEAFKEY", "CertificateChainAndLeafKey ", "ChainAndKey", "LeafKey", "Acme"}}
\* Settings somebody might write instead of the right ones (and the value).
Extras == {[k |-> "tls", v |-> "true"], [k |-> "tls", v |-> "false"], [k |-> "Tls", v |-> "{}"], [k |-> "Insecure", v |-> "{}"], [k |-> "insecure", v |-> "true"], [k |-> "Encryption", v |-> "\"Insecure\""],
   [k |-> "ENCRYPTION", v |-> "\"Tls\""], [k |-> "encrypt", v |-> "\"Insecure\""], [k |-> "encrypted", v |-> "false"], [k |-> "enc", v |-> "\"Tls\""], [k |-> "crypto", v |-> "\"Tls\""],
   [k |-> "security", v |-> "\"Insecure\""], [k |-> "mode", v |-> "\"Tls\""], [k |-> "type", v |-> "\"Insecure\""], [k |-> "kind", v |-> "\"Tls\""], [k |-> "protocol", v |-> "\"imaps\""],
   [k |-> "scheme", v |-> "\"imap\""], [k |-> "ssl", v |-> "true"], [k |-> "hostname", v |-> "\"h\""], [k |-> "Host", v |-> "\"h\""], [k |-> "HOST", v |-> "\"h\""], [k |-> "address", v |-> "\"h\""],
   [k |-> "addr", v |-> "\"h\""], [k |-> "server", v |-> "\"h\""], [k |-> "ip", v |-> "\"10.0.0.9\""], [k |-> "listen", v |-> "\"10.0.0.9\""], [k |-> "url", v |-> "\"imaps://h:7\""],
   [k |-> "Port", v |-> "7"], [k |-> "PORT", v |-> "7"], [k |-> "ports", v |-> "7"], [k |-> "port_number", v |-> "7"],
   [k |-> "identities", v |-> "[]"], [k |-> "Identity", v |-> "{ type = \"CertificateChainAndLeafKey\", certificate_chain_path = \"a\", leaf_key_path = \"b\" }"],
   [k |-> "certificate", v |-> "\"a\""], [k |-> "certificate_chain_path", v |-> "\"a\""], [k |-> "leaf_key_path", v |-> "\"b\""], [k |-> "x", v |-> "1"]}
Hosts == {Str("127.0.0.1"), Str("imap.Example.org"), Missing, Other("127"), Other("[\"a\"]")}
MoreHosts == {Str(""), Str("::1"), Str("[::1]"), Str("localhost"), Str(" spaced "), Str("bücher.example"),
              Str("host:1143"), Str("a.example."), Str("quote\"d"), Str("back\\slash"), Str("0.0.0.0"), Str("line\nbreak"), Str("$HOME"), Str("~")}
Ports == {Missing, Port(143), Port(993), Port(0), Port(65535), Port(1143), BadInt("65536"), BadInt("-1"),
          BadInt("65679"), BadInt("4294967439"), BadInt("9223372036854775807"), BadInt("-65393"),
          Other("\"143\""), Other("143.0"), Other("true"), Other("[143]"), Other("{}")}
Ident(cert, key) == [t |-> "table", kind |-> Str("CertificateChainAndLeafKey"), cert |-> Str(cert), key |-> Str(key)]
NoIdent == [t |-> "none", kind |-> Missing, cert |-> Missing, key |-> Missing]
GoodIdent == Ident("localhost.pem", "localhost-key.pem")
Idents == {NoIdent, GoodIdent, Ident("", ""), Ident("/a/../b c.pem", "~/kéy.pem"), Ident("same.pem", "same.pem"),
           [GoodIdent EXCEPT !.kind = Missing], [GoodIdent EXCEPT !.kind = Str("certificatechainandleafkey")],
           [GoodIdent EXCEPT !.kind = Str("Pkcs12")], [GoodIdent EXCEPT !.kind = Other("1")],
           [GoodIdent EXCEPT !.cert = Missing], [GoodIdent EXCEPT !.key = Missing],
           [GoodIdent EXCEPT !.cert = Other("1")], [GoodIdent EXCEPT !.key = Other("[\"k\"]")],
           [GoodIdent EXCEPT !.kind = Missing, !.cert = Missing, !.key = Missing],
           [NoIdent EXCEPT !.t = "other", !.kind = Other("\"localhost.pem\"")],
           [NoIdent EXCEPT !.t = "other", !.kind = Other("false")]}

Side(e, h, p, i) == [enc |-> e, host |-> h, port |-> p, id |-> i, extra |-> [k |-> "", v |-> ""]]
With(side, x) == [side EXCEPT !.extra = x]
Plain(p) == Side(Str("Insecure"), Str("10.0.0.1"), p, NoIdent)
TlsBind(p) == Side(Str("Tls"), Str("10.0.0.2"), p, GoodIdent)
TlsConnect(p) == Side(Str("Tls"), Str("10.0.0.3"), p, NoIdent)

Service(n, b, c) == [name |-> n, bind |-> b, connect |-> c]
Doc(l) == [syntax |-> "", services |-> l]
Name == Str("A Service")

GoodBinds == {Plain(Missing), TlsBind(Missing), Plain(Port(1143)), TlsBind(Port(143))}
GoodConnects == {Plain(Missing), TlsConnect(Missing), Plain(Port(993)), TlsConnect(Port(2993))}

Binds == {Side(e, h, p, i) : e \in Encs, h \in {Str("127.0.0.1")}, p \in {Missing, Port(993), BadInt("65536")}, i \in Idents}
         \union {Side(e, h, p, IF e = Str("Tls") THEN GoodIdent ELSE NoIdent) : e \in Encs, h \in Hosts, p \in Ports}
         \union {Side(e, h, Missing, IF e = Str("Tls") THEN GoodIdent ELSE NoIdent) : e \in {Str("Tls"), Str("Insecure")}, h \in MoreHosts}
         \union {Side(e, Str("127.0.0.1"), p, i) : e \in MoreEncs, p \in {Missing, Port(143), Port(993)}, i \in {NoIdent, GoodIdent}}
         \union {Side(Str("Tls"), Str("127.0.0.1"), Missing, [GoodIdent EXCEPT !.kind = k]) : k \in MoreKinds}
         \union {With(Side(e, h, Missing, i), x) : e \in {Str("Insecure"), Str("Tls"), Missing}, h \in {Str("127.0.0.1"), Missing}, i \in {NoIdent, GoodIdent, [GoodIdent EXCEPT !.cert = Missing]}, x \in Extras}
Connects == {Side(e, h, p, NoIdent) : e \in Encs, h \in Hosts, p \in Ports}
            \union {Side(e, Str("127.0.0.1"), Missing, i) : e \in Encs, i \in {GoodIdent, [GoodIdent EXCEPT !.cert = Missing]}}
            \union {Side(e, h, Port(7), NoIdent) : e \in {Str("Tls"), Str("Insecure")}, h \in MoreHosts}
            \union {Side(e, Str("127.0.0.1"), p, NoIdent) : e \in MoreEncs, p \in {Missing, Port(143), Port(993)}}
            \union {With(Side(e, h, Missing, NoIdent), x) : e \in {Str("Insecure"), Str("Tls"), Missing}, h \in {Str("127.0.0.1"), Missing}, x \in Extras}
Names == {Str("A Service"), Str(""), Str("中文 \"q\" \\ \n\t"), Str(" padded "), Missing, Other("7"), Other("[\"x\"]"), Other("true")}

Pool == {Service(Str("one"), Plain(Missing), TlsConnect(Missing)),
         Service(Str("one"), TlsBind(Port(1)), Plain(Port(1))),
         Service(Str("two"), TlsBind(Missing), Plain(Missing)),
         Service(Str("é"), Plain(Port(143)), Plain(Port(143))),
         Service(Str(""), TlsBind(Port(65535)), TlsConnect(Port(0))),
         Service(Missing, Plain(Missing), Plain(Missing)),
         Service(Str("bad"), Side(Missing, Str("h"), Missing, NoIdent), Plain(Missing)),
         Service(Str("bad"), Plain(Missing), Side(Str("Tls"), Str("h"), BadInt("65536"), NoIdent)),
         Service(Str("bad"), Side(Str("Tls"), Str("h"), Missing, NoIdent), Plain(Missing))}
GoodOnes == {s \in Pool : ValidService(s)}
Long(n) == [i \in 1 .. n |-> Service(Str("s" \o ToString((i * 7) % 50)),
                                     IF i % 3 = 0 THEN TlsBind(Port(i)) ELSE Plain(Missing),
                                     IF i % 2 = 0 THEN TlsConnect(Missing) ELSE Plain(Port(n - i)))]
Syntax == {"missing file", "directory", "empty file", "no services", "services not a list", "services of strings", "truncated", "unclosed string",
           "duplicate key", "duplicate table", "not utf-8", "no value", "bare word", "trailing garbage", "bind not a table", "no bind", "no connect",
           "connect not a table", "nul byte", "half a service"}
PortDoc(p, k) ==
  LET q == (p * 7919 + 1) % 65536 IN
  Doc(<<Service(Name, IF k % 2 = 0 THEN Plain(Port(p)) ELSE TlsBind(Port(p)),
                      IF (k \div 2) % 2 = 0 THEN Plain(Port(q)) ELSE TlsConnect(Port(q)))>>)

VARIABLES doc,   \* the document
          done,  \* has it been loaded?
          out    \* the outcome
vars == <<doc, done, out>>

Refused == [ok |-> FALSE, services |-> <<>>]

\* Each disjunct is a family of documents.
Sides ==
  \/ \E b \in Binds, c \in GoodConnects : doc = Doc(<<Service(Name, b, c)>>)
  \/ \E b \in GoodBinds, c \in Connects : doc = Doc(<<Service(Name, b, c)>>)
  \/ \E n \in Names, b \in GoodBinds, c \in GoodConnects : doc = Doc(<<Service(n, b, c)>>)
Lists ==
  \/ doc = Doc(<<>>)
  \/ \E a \in Pool : doc = Doc(<<a>>)
  \/ \E a, b \in Pool : doc = Doc(<<a, b>>)
  \/ \E a, b, c \in Pool : doc = Doc(<<a, b, c>>)
  \/ \E a, b, d \in GoodOnes, c \in Pool : doc = Doc(<<a, b, c, d>>)
  \/ \E n \in {5, 10, 16, 17, 32, 33, 64, 65, 100, 101, 128, 129, 256, 257, 300} : doc = Doc(Long(n))
  \/ \E x \in Syntax, a \in GoodOnes : doc = [syntax |-> x, services |-> <<a>>]
  \/ \E x \in Syntax, a, b \in GoodOnes : doc = [syntax |-> x, services |-> <<a, b>>]

Init ==
  /\ out = Refused /\ done = FALSE
  /\ CASE Part = "sides" -> Sides
       [] Part = "lists" -> Lists
       [] Part = "ports" -> \E p \in 0 .. 65535 : doc = PortDoc(p, p + Offset)
       [] Part = "allports" -> \E p \in 0 .. 65535, k \in 0 .. 3 : doc = PortDoc(p, k)

Load ==
  /\ ~done /\ done' = TRUE
  /\ out' = IF Valid(doc) THEN [ok |-> TRUE, services |-> Loaded(doc, ToString)] ELSE Refused
  /\ UNCHANGED doc

Spec == Init /\ [][Load]_vars

Did == done /\ out.ok

\* Transport security is what the document says, in so many words.
K01 == Did =>
  \A i \in 1 .. Len(out.services) :
    LET s == out.services[i] d == doc.services[i] IN
    /\ d.bind.enc.t = "str" /\ s.bind.enc = d.bind.enc.v /\ s.bind.enc \in {"Tls", "Insecure"}
    /\ d.connect.enc.t = "str" /\ s.connect.enc = d.connect.enc.v /\ s.connect.enc \in {"Tls", "Insecure"}
    /\ s.bind.enc = "Tls" => d.bind.id.t = "table" /\ d.bind.id.cert.t = "str" /\ d.bind.id.key.t = "str"
K02 == Did =>
  \A i \in 1 .. Len(out.services) : \A side \in {"bind", "connect"} :
    LET s == out.services[i][side] d == doc.services[i][side] IN
    /\ s.host = d.host.v
    /\ d.port.t = "port" => s.port = d.port.n
    /\ d.port.t = "none" => s.port = (IF d.enc.v = "Tls" THEN 993 ELSE 143)
    /\ s.addr = s.host \o ":" \o ToString(s.port)
K03 == Did =>
  /\ Len(out.services) = Len(doc.services)
  /\ \A i \in 1 .. Len(out.services) :
       out.services[i].name = doc.services[i].name.v
       /\ (out.services[i].bind.enc = "Tls" =>
             out.services[i].bind.cert = doc.services[i].bind.id.cert.v
             /\ out.services[i].bind.key = doc.services[i].bind.id.key.v)
K03_Whole == (done /\ ~out.ok) => out.services = <<>>

EmitDoc == ~Emit \/ PrintT("@@" \o ToJson([doc |-> doc, out |-> out', doubt |-> DoubtfulDoc(doc)]))
=============================================================================
