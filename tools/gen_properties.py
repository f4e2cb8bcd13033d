#!/usr/bin/env python3
"""Single source for properties.jsonl (run: python3 tools/gen_properties.py)."""
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mech, state=None, observe=None, hook=None):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=qtext), why_tests_cant=why,
        anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech],
            **({"state": [dict(name=a, meaning=b, where=c) for a, b, c in state]} if state else {}),
            **({"observe_at": observe} if observe else {}), hook_needed=hook)))
IT = "The integration tests run a handful of fixed conversations in lock-step over loopback TCP (and cannot even be compiled offline here)"
CS, CL, CR = "src/client_send.rs", "src/client.rs", "src/receive.rs"
SV, SS, SR = "src/server.rs", "src/server_send.rs", "src/server_receive.rs"

p("C01", "Client puts every command on the wire once, whole and in order",
  "Every command given to the client appears on the wire exactly once, in the order the commands were given, with no bytes of another command (or anything else) in between. A command may stop short only where it waits for permission to send a literal, and only if the server answers with a tagged BAD for that command; then nothing more of it is ever sent. Once the client asks for more input with no command waiting on the server, every accepted command has been handed over for writing completely.",
  ["inputs", "schedules", "histories"], "all sequences of enqueued commands (with any mix of literals), all server byte streams, all interleavings of enqueue/input/next calls",
  IT + "; they enqueue one command at a time and never interleave enqueueing with partially sent commands.",
  [CL, CS], [("FIFO queue and single current message", CS), ("fragments queue of current command", CS + " CommandState::push_to_buffer")],
  [("queued_messages/current_message", "what is still to be sent", CS)], ["Interrupt::Io(Io::Output) returned by Client::next"])
p("C02", "Synchronising literals wait for the server; non-synchronising ones do not",
  "The client sends the payload of a synchronising literal only after the server has sent one continuation request for it while the client was waiting for that permission, and the bytes before it have been handed over. Each such continuation is consumed for exactly one literal and never surfaces to the user; a tagged OK or NO, a BAD for another tag, data, or an untagged status never releases or cancels the literal. Payloads of non-synchronising literals go out without waiting.",
  ["inputs", "schedules", "histories"], "all commands with 0..n sync/non-sync literals, all response sequences arriving before, while and after the client waits",
  IT + "; unexpected responses are tried at one point of one command only.",
  [CL, CS], [("literal_continue / maybe_terminate", CS), ("limbo literal", CS + " CommandActivity")], None, ["Io::Output", "Client events"])
p("C03", "Each command reports exactly one outcome under the handle given at enqueue",
  "For each enqueued command the client reports, under the handle returned for it, exactly one final outcome: sent (with the identical command), rejected (with the identical command and the rejecting status), authentication status received, idle rejected, or idle done sent. Started/accepted/continuation events of a command come only after it was written completely and before its final outcome, and outcomes come in enqueue order. No event ever carries a handle that was not returned for such a command.",
  ["inputs", "schedules", "histories"], "all command sequences and server behaviours, including tagged replies that arrive early, late, twice or with foreign tags",
  IT + " and check one handle at a time.", [CL, CS], [("ClientSendEvent/ClientSendTermination mapping", CL)], None, ["client::Event"])
p("C04", "Client stays silent until the greeting, which is reported first and once",
  "Before the server's greeting has been received completely the client writes nothing, no matter what was enqueued. The greeting is reported exactly once, as the first message of the connection, with the content the server sent; everything after it is read as responses. Garbage in front of a greeting is reported as an error and does not unlock sending.",
  ["inputs", "schedules"], "all enqueue histories before the greeting, all chunkings of the greeting, malformed lines in front of it",
  IT + "; enqueueing before the greeting is exercised in one self-test.", [CL, "src/client_receive.rs"], [("progress_send guard", CL), ("Greeting -> Response state change", "src/client_receive.rs")], None, ["client::Event::GreetingReceived", "Io::Output"])
p("C05", "Every server response surfaces exactly once, in order, correctly classified",
  "Every well-formed response of the server surfaces as exactly one client event, in wire order and with unchanged content, except a continuation request that releases a literal. Data, statuses and continuation requests that do not belong to the command in progress surface as plain data/status/continuation events, and only the tagged status of the command in progress finishes it. Literals inside responses are accepted without limit of size or number.",
  ["inputs", "histories", "schedules"], "all response sequences (with and without literals) in all client states and all ways of cutting the byte stream",
  IT + "; each test has one or two responses.", [CL, CR], [("progress_receive", CL)], None, ["client::Event"])
p("C06", "Client AUTHENTICATE dialogue: data goes out only when the server asked for it",
  "During AUTHENTICATE, data supplied by the user is accepted exactly when the server has an unanswered continuation request for that command, is sent once and verbatim as a line of its own, and is otherwise handed back unchanged without any effect. Each continuation request while the command awaits a reply surfaces once under the command's handle; the tagged OK/NO/BAD for its tag ends the dialogue and is reported with the command's data and status. No other command is written before the dialogue has ended.",
  ["inputs", "schedules", "histories"], "all orders of continuation requests, user data (including cancel), foreign statuses and further enqueued commands",
  IT + "; at most one round of data and always in the expected order.", [CL, CS], [("AuthenticateActivity", CS)], None, ["Client::set_authenticate_data", "client::Event"])
p("C07", "Client IDLE dialogue: DONE is sent once and only after IDLE was accepted",
  "The client writes DONE only after the server accepted IDLE with a continuation request and the user asked for it, once per acceptance; asking at any other time has no effect and says so. While IDLE is in progress no other command is written, responses keep surfacing, and a tagged status with the IDLE tag ends it as rejected. After DONE has been written (reported once) the queue continues with the next command.",
  ["inputs", "schedules", "histories"], "all orders of server responses, user requests to stop idling and further commands",
  IT + "; only the two straight-line idle dialogues.", [CL, CS], [("IdleActivity", CS)], None, ["Client::set_idle_done", "client::Event"])

p("S01", "Server sends greeting first, then each response once and in order",
  "The greeting is the first thing the server writes, exactly once. Every response given to the server is written exactly once, complete, byte-exact and in the order given (including those it produces itself for literals, in the position at which they arose), and reported as sent exactly once with its own handle and content, after its bytes were handed over and before the next response is written. Responses the server produces itself are never reported.",
  ["inputs", "schedules", "histories"], "all sequences of enqueued data/status/continuation responses, interleaved with any client input",
  IT + " with one response at a time.", [SV, SS], [("FIFO response queue", SS), ("internal responses carry no handle", SV)], None, ["Io::Output", "server::Event::ResponseSent"])
p("S02", "Server answers announced literals by size and mode with the configured texts",
  "An announced literal up to the configured maximum is accepted: a synchronising one with exactly one continuation request carrying the configured text, a non-synchronising one silently. A larger one is refused with an error naming the discarded bytes and, if synchronising, exactly one tagged BAD with the command's tag and configured text; a refused command is never delivered. Texts that could not be sent as such are refused at configuration time and leave the old text in force.",
  ["inputs", "configurations", "histories"], "all literal sizes around all limits, both modes, any number of literals per command, any configured texts",
  IT + "; one size per mode, default texts.", [SV], [("LiteralFound handling", SV + " progress_receive"), ("Options::set_literal_*_text", SV)], None, ["Io::Output", "server::Error"])
p("S03", "Server delivers each command exactly once, intact and in order",
  "Every well-formed command of the client is delivered as exactly one event, in wire order, with its tag and content (including literal bytes) unchanged; AUTHENTICATE and IDLE are delivered as their own events and nothing else is. No event is produced for bytes that are not a complete well-formed command.",
  ["inputs", "schedules"], "all command sequences incl. pipelining and literals containing line breaks or command-like text, all ways the byte stream is cut",
  IT + "; one command in flight at a time.", [SV, CR], [("progress_receive", SV)], None, ["server::Event"])
p("S04", "Server AUTHENTICATE dialogue gates what is read and what may be answered",
  "From AUTHENTICATE until the user finishes it, each client line is taken as authentication data (reported once, with the exact decoded bytes or the cancellation), never as a command; when finished, reading continues with commands at the next unread byte. Continue/finish are accepted exactly during that time (finish only once) and otherwise hand the argument back unchanged and send nothing. Malformed data is an error that leaves the dialogue open.",
  ["inputs", "schedules", "histories"], "all client line sequences and all orders of continue/finish calls, including pipelined data and commands",
  IT + "; at most one data line.", [SV, SR], [("NextExpectedMessage transitions", SR)], None, ["Server::authenticate_continue/_finish", "server::Event"])
p("S05", "Server IDLE dialogue gates what is read and what may be answered",
  "After IDLE the server reads nothing until the user accepts or rejects it; exactly one of these calls is accepted, any other call in any other state hands its argument back and sends nothing. After acceptance only DONE ends idling (reported once), other lines are errors; afterwards, or after rejection, reading continues with commands at the next unread byte and no byte received meanwhile is lost.",
  ["inputs", "schedules", "histories"], "all orders of accept/reject calls, client bytes arriving before, during and after idling (including partial lines)",
  IT + "; the two straight-line dialogues.", [SV, SR], [("IdleAccept/IdleDone states", SR)], None, ["Server::idle_accept/idle_reject", "server::Event"])
p("S06", "Command size limit: never delivered above it, never refused below it",
  "With a configured maximum command size, a message (literals included) of at most that many bytes is never refused for its size, and a longer one is never delivered: it yields one error carrying exactly the first maximum-size bytes, after which reading resumes at the following byte. The server keeps reading (never asks for more input while over the limit) and this holds in every dialogue state.",
  ["inputs", "configurations", "schedules"], "all message sizes around all limits, with and without literals, all chunkings",
  IT + "; one too-long line and one too-long literal.", [CR, SV], [("max_readable_bytes / MessageTooLong", CR)], None, ["server::Error::CommandTooLong"])

p("F01", "How bytes are cut into chunks never changes what client or server report",
  "For a fixed byte stream and fixed user calls at fixed points of the event sequence, the events, errors and written bytes of client and server are the same however the stream is split into input pieces, down to single bytes.",
  ["inputs", "schedules"], "all splits of all byte streams, including splits inside CRLF, literal headers and literals, with and without size limits",
  "Existing tests deliver whole messages; a split is whatever TCP happens to do.", [CR, CL, SV], [("seen_bytes / seen_bytes_in_line bookkeeping", CR)], [("next_fragment, seen_bytes", "how far the current message was scanned", CR)], ["events and errors of next()"])
p("F02", "Errors report exactly the discarded bytes and reading resumes right after them",
  "Every byte received belongs to exactly one reported message, one reported error, or the still incomplete tail, in stream order: nothing is lost, duplicated or reported twice. A malformed or badly terminated message yields one error with exactly its bytes, and the next message starts at the byte after it.",
  ["inputs", "histories"], "all byte streams mixing well-formed, malformed, oversized and badly terminated messages",
  IT + "; one malformed line per connection and nothing after it.", [CR, CL, SV], [("discard_message/finish_message", CR)], None, ["client::Error / server::Error discarded_bytes"])
p("F03", "Line endings: bare LF is refused in strict mode and accepted in relaxed mode",
  "In strict mode a line that ends in LF without a preceding CR of the same line is refused with the dedicated error, in relaxed mode it is accepted, and CRLF is accepted in both; this holds for every line of a message, for every message kind and in every dialogue state, on both sides. LF bytes inside literals are never line ends.",
  ["inputs", "configurations", "schedules"], "all placements of CR and LF, including CR as last byte of a literal and CR/LF split across input pieces",
  IT + "; one missing CR per message kind.", [CR], [("find_crlf", CR)], None, ["ExpectedCrlfGotLf errors"])
p("F04", "More input is requested only when nothing else can be done",
  "Client and server ask for more input only when they have nothing left to write that they are allowed to write and no complete message left to report. So a user that alternates progress calls and input never has to call again without new input to make pending work happen.",
  ["schedules", "histories", "inputs"], "all states reachable by any interleaving of enqueues, inputs and dialogue calls, including responses queued behind internally produced ones",
  "A stall shows only for particular queue contents and orders; tests have one message in flight.", [CL, SV, CS, SS], [("loop in State::next", CL + ", " + SV)], None, ["Io::NeedMoreInput"])
p("F05", "Client and server never panic, and neither memory nor behaviour wears out",
  "Whatever bytes arrive, in whatever pieces, and in whatever order the interface is used, no call of client or server panics or fails to return. The memory a client or server holds stays within a fixed amount plus a small multiple of what was outstanding at most (bytes received and not yet consumed, messages given to it and not yet done with): it grows neither with sizes that were merely announced nor with the number of messages the connection has seen, and is given back when the object is dropped. An exchange that leaves nothing outstanding is answered the same way after any number of earlier exchanges as it was the first time.",
  ["inputs", "histories", "schedules"], "all input streams and call orders; all announced literal sizes; arbitrarily long repetitions of all kinds of exchanges",
  "Tests run a handful of messages per connection, announce only what they send, and don't look at memory.", [CR, CL, CS, SV, SS], [("ReceiveState::start_literal/finish_message/discard_message", CR), ("send queues", CS + ", " + SS)],
  [("read_buffer", "received and not consumed", CR)], ["Client::next", "Server::next", "memory of the process"])
p("D01", "Printing events, errors or the objects themselves never reveals secrets",
  "Formatting (Debug or Display) an error of client or server never shows the bytes that were discarded; formatting an event never shows initial responses of AUTHENTICATE or authentication data; formatting a client or server never shows what it has received or is about to send. The bytes are available only by asking for them explicitly.",
  ["inputs", "histories"], "all discarded messages, authentication data and states",
  "Tests never print anything but literals of their own.", [CL, SV, "src/types.rs"], [("Secret<Box<[u8]>> in Error", CL + ", " + SV), ("Debug for Client/Server", CL + ", " + SV), ("CommandAuthenticate", "src/types.rs")], None, ["Debug and Display of client::Error, server::Error, events, Client, Server"])
p("E01", "Client and server of this crate always complete conversations with each other",
  "When the crate's client and server talk to each other over a reliable byte stream, every conversation completes without deadlock and without protocol errors, under every scheduling and fragmentation: every command within the server's size limits is delivered, one with a synchronising literal above the configured maximum is refused and reported so on both sides, and every response given to the server surfaces once at the client.",
  ["schedules", "inputs", "configurations"], "all programs of commands (literals, AUTHENTICATE, IDLE) and responses, all interleavings and transfer sizes",
  "Ten fixed client/server dialogues in lock-step.", [CL, SV, CS, SS, CR], [("both flows", "src")], None, ["events on both sides"])

p("T01", "Stream carries bytes exactly, in both directions, with and without TLS",
  "What the protocol state hands out for writing arrives at the peer complete, once and in order, and what the peer sends reaches the protocol state complete, once and in order, over plain TCP as well as TLS, for any message size and any pattern of partial reads and writes.",
  ["inputs", "schedules"], "all message sizes (beyond TLS record and buffer limits), partial reads/writes, slow peers, both TLS roles",
  "Tests use plain TCP only; no test ever runs the TLS path.", ["src/stream.rs"], [("read_buffer/write_buffer, encrypt/decrypt", "src/stream.rs")], None, ["bytes at the raw peer", "State::enqueue_input"])
p("T02", "Abandoning a pending stream operation loses, repeats and reorders nothing",
  "Dropping a pending wait for the next event (or a pending flush) at any point and calling again continues exactly where it stopped: no received byte is lost, no output is lost, repeated or reordered, in plain and TLS mode.",
  ["schedules", "crash_points"], "every await point at which the future can be dropped, any number of times, with partial writes pending",
  "No test cancels; the proxy relies on it in every select.", ["src/stream.rs"], [("buffers live in Stream, not in the future", "src/stream.rs")], None, ["bytes at the peer and at the state"])
p("T03", "A closed connection is reported as such after everything received was delivered",
  "When the peer closes the connection (orderly or not, with or without a TLS closing message), everything received before is first delivered to the protocol state and then the stream reports closed or an I/O error in bounded time; it never spins, hangs or invents bytes. While the peer stays connected the stream never reports closed.",
  ["fault_sequences", "schedules"], "close at every point of the byte stream, TLS close_notify with and without TCP close, reset",
  "No test closes a connection.", ["src/stream.rs"], [("byte_count == 0 checks, decrypt loop", "src/stream.rs")], None, ["stream::Error"])
p("T04", "Reading and writing progress together; big transfers never deadlock",
  "While output is pending the stream keeps reading, and while input is awaited pending output keeps being written, so two parties that both send more than the transport buffers before reading still finish. Nothing waits for the peer to send something before pending output is written, and flush returns only after all bytes produced so far are handed to the transport.",
  ["schedules", "inputs"], "all sizes and orders of mutual transfers with both sides busy writing, plain and TLS",
  "One test with large messages in one pattern, plain TCP only.", ["src/stream.rs"], [("select! over read and write", "src/stream.rs")], None, ["completion of both peers"])
p("T05", "TLS upgrade loses nothing that arrived with the handshake",
  "Whatever application data the TLS layer already holds when the stream is created from an established TLS connection is delivered to the protocol state without waiting for further network input, and data the application already placed in the TLS layer is sent.",
  ["schedules", "inputs"], "all ways the first application records coalesce with the last handshake flight, both roles, TLS 1.2 and 1.3",
  "No test uses TLS.", ["src/stream.rs"], [("Stream::tls / decrypt", "src/stream.rs")], None, ["State::enqueue_input"])
p("T06", "Events and errors of the state pass through the stream unchanged and at once",
  "Each event or error the protocol state produces is returned by the stream exactly once, in order, without waiting for the network; an error or event does not lose pending output or unread input and the stream remains usable afterwards.",
  ["schedules", "histories"], "all interleavings of events, errors, outputs and input at any buffer state",
  "Tests stop after the first error.", ["src/stream.rs"], [("Stream::next loop", "src/stream.rs")], None, ["Stream::next results"])

p("H01", "No two handles of one connection are ever equal",
  "Within one connection every enqueued command or response gets a handle different from all handles handed out before, no matter how many there are; a handle stays equal to its copies (also as a key in hashed collections) and to nothing else.",
  ["histories", "inputs"], "any number of enqueues (beyond 2^32), in any mix with other calls",
  "The unit test looks at the first 100 handles.", ["src/handle.rs", CL, SV], [("next_handle_id counter", "src/handle.rs")], None, ["CommandHandle/ResponseHandle equality, hash, Debug"])
p("H02", "Handles of different connections are never equal, even across threads",
  "Handles of two different connections are never equal, however many connections exist, and even when connections are created concurrently from many threads.",
  ["schedules", "histories"], "all interleavings of concurrent creation, any number of connections",
  "The unit test creates 100 generators on one thread.", ["src/handle.rs"], [("atomic counter fetch_add", "src/handle.rs HandleGeneratorGenerator::generate")], None, ["handle equality"])
p("H03", "Generated tags are valid and never repeat within a process",
  "Every tag produced by any tag generator of the process is a valid IMAP tag and different from every other one produced, however many generators and tags there are and from however many threads.",
  ["schedules", "histories"], "all interleavings of concurrent generators, any counts",
  "One test with 1000 threads of 5 tags that cannot be compiled offline; ids stay tiny.", ["tag-generator/src/lib.rs"], [("global atomic and per-generator counter", "tag-generator/src/lib.rs")], None, ["TagGenerator::generate"])

p("P01", "Proxy forwards every client command upstream once, in order, unchanged",
  "Every well-formed command of a connected client reaches the upstream server exactly once, in order and with unchanged meaning (tag, arguments and literal contents), whatever the upstream sends meanwhile. Messages the proxy discards (malformed, wrong line ending) reach the upstream in no part and leave the session usable.",
  ["inputs", "schedules", "histories"], "all command sequences incl. pipelining and literals, any interleaving with upstream traffic",
  "The proxy's message path has no tests at all.", ["proxy/src/proxy.rs"], [("handle_client_event", "proxy/src/proxy.rs")], None, ["bytes at a scripted upstream"])
p("P02", "Proxy forwards every upstream response to the client once and in order",
  "The upstream's greeting, data, statuses and continuation requests reach the client exactly once, in order and unchanged, apart from the documented rewriting of capabilities and of rejected commands; malformed upstream messages are dropped without disturbing the others. The client gets the greeting before anything else.",
  ["inputs", "schedules", "histories"], "all response sequences in all proxy states",
  "No tests of the message path.", ["proxy/src/proxy.rs"], [("handle_server_event", "proxy/src/proxy.rs")], None, ["bytes at a scripted client"])
p("P03", "No message to the client advertises a capability the proxy cannot handle",
  "Every capability list that reaches the client, in whatever message it travels (greeting, data, any status, any continuation request, also during and after AUTHENTICATE and IDLE), contains only capabilities from the proxy's supported set, keeps the supported ones in order, and is never empty.",
  ["inputs", "histories"], "all capability lists in all carrying messages and all proxy states",
  "No test covers the filter.", ["proxy/src/util.rs", "proxy/src/proxy.rs"], [("filter_capabilities*", "proxy/src/util.rs"), ("call sites in handle_server_event", "proxy/src/proxy.rs")], None, ["bytes at a scripted client"])
p("P04", "A command the upstream refuses mid-literal yields one tagged BAD at the client",
  "If the upstream refuses a forwarded command while a literal is pending, the client gets exactly one tagged BAD with its own tag for it, with a generic text unless the upstream marked its text as an alert, which is passed on; nothing more of the command goes upstream and the session continues with the next command.",
  ["inputs", "histories"], "all commands with sync literals, refusal at each literal, all status codes and texts",
  "No tests.", ["proxy/src/proxy.rs"], [("CommandRejected handling", "proxy/src/proxy.rs")], None, ["bytes on both sides"])
p("P05", "Proxy relays AUTHENTICATE and IDLE dialogues step by step",
  "AUTHENTICATE and IDLE dialogues pass through the proxy with every challenge, response line, cancellation, acceptance, DONE and final status relayed once, in order and verbatim, over any number of rounds, after which commands flow again.",
  ["inputs", "histories", "schedules"], "all dialogue shapes: any number of rounds, cancellation, acceptance or refusal at any point, interleaved untagged data",
  "No tests.", ["proxy/src/proxy.rs"], [("authenticate/idle event handlers", "proxy/src/proxy.rs")], None, ["bytes on both sides"])
p("P06", "Proxy sessions are isolated from each other and from failing ones",
  "Bytes of one client's session never appear in another session, each client has its own upstream connection, and no failure or misbehaviour in one session (disconnects, malformed traffic, refused upstream, failed or stalled handshakes) ends or blocks other sessions, other services or the accepting of new clients.",
  ["schedules", "fault_sequences"], "any number of concurrent sessions and services, failures at any point of any of them",
  "No tests.", ["proxy/src/main.rs", "proxy/src/proxy.rs"], [("one task per client", "proxy/src/main.rs handle_service")], None, ["bytes at scripted peers"])
p("P07", "Ending either side of a proxied session ends the other, nothing hangs",
  "When the client or the upstream closes its connection, the proxy closes the other one in bounded time, and everything the closing side had sent before closing (already received by the proxy) is first delivered to the other side.",
  ["fault_sequences", "schedules"], "close of either side at any point, including directly after a last message",
  "No tests.", ["proxy/src/proxy.rs"], [("ControlFlow::Abort", "proxy/src/proxy.rs start_conversation")], None, ["EOF at scripted peers"])
p("P08", "The proxy's log shows no passwords, authentication data or discarded bytes",
  "Whatever is said through the proxy, nothing it writes to its log or output, at any log level, contains (raw or in any plain re-encoding) a password of LOGIN, an initial response or line of an authentication dialogue, or bytes of a message that was discarded. The only exception is the raw traffic that a debug build of the stream can be asked to trace.",
  ["inputs", "histories", "configurations"], "all sessions (accepted, refused and interrupted logins in every form, malformed messages of either side, TLS or not), all log levels",
  "Nothing looks at the log.", ["proxy/src/proxy.rs", "proxy/src/util.rs", "proxy/src/main.rs", "src/stream.rs", CS], [("trace!/error! of events", "proxy/src/proxy.rs handle_client_event/handle_server_event"), ("Discard client message", "proxy/src/proxy.rs")], None, ["output of the proxy's process"])
p("K01", "Configuration decides transport security explicitly and never downgrades",
  "Each service's two sides use exactly the encryption its configuration names: a side without a stated encryption, with an unknown one, or a TLS listener without a complete identity is refused at load time, never silently treated as insecure (or the reverse). A TLS listener presents the certificate its own service names; a side configured for TLS never exchanges plaintext IMAP, whatever the other end speaks, and an upstream whose certificate is not trusted or not valid for the configured host is not talked to.",
  ["configurations", "inputs"], "all combinations of present, absent and misspelt keys on both sides of a service",
  "One valid example document.", ["proxy/src/config.rs", "proxy/src/proxy.rs"], [("serde tag = encryption, no default", "proxy/src/config.rs"), ("match on Bind/Connect", "proxy/src/proxy.rs")], None, ["Config::load result", "bytes on the wire"])
p("K02", "Hosts and ports are used as configured; omitted ports follow the encryption",
  "An explicitly configured host and port is the one bound or dialled, for every representable port; an omitted port means 143 for an insecure side and 993 for a TLS side, independently for both sides of a service. The address and the displayed URL of a side state exactly that host, port and encryption.",
  ["configurations", "inputs"], "all hosts, all 65536 ports or none, both encryptions, both sides",
  "The one example document has explicit ports everywhere.", ["proxy/src/config.rs"], [("serde default functions, addr_port, Display", "proxy/src/config.rs")], None, ["Bind/Connect::addr_port and Display"])
p("K03", "Loading a configuration keeps every service, or fails as a whole",
  "A configuration file yields all of its services, in order, with exactly the configured names, sides and identity paths, and loading what was saved gives the same configuration; a file with any invalid service, wrong value type, out-of-range port or syntax error, or a missing file, is refused with an error rather than partly loaded.",
  ["configurations", "inputs"], "all documents over the configuration keys with any number of services",
  "One valid example document.", ["proxy/src/config.rs"], [("Config::load", "proxy/src/config.rs")], None, ["Config::load result"])
out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for x in P:
        assert len(x["title"]) <= 80, x["id"]
        f.write(json.dumps(x) + "\n")
print(len(P))
