"""Property -> (level, suites, technique, level note). tools/gen_manifest.py writes MANIFEST.json from it."""
import boot
import conf
import flows
import ids
import logs
import proxies
import streams

CHECKS = {}


def add(props, suites, technique, note):
    for p in props:
        CHECKS[p] = ("model_checking", suites, technique, note)


FLOW_T = ("TLA+/TLC: %s checked exhaustively over enumerated scripts; every printed transition replayed on the real code; "
          "recorded random runs validated against the specification (TraceFlow)")
FLOW_N = ("All interleavings of progress calls, user calls and input pieces are explored for each script (tens of short scripts, "
          "plus seeded random ones); the real code takes every transition printed (or an even sample) and every answer is compared. "
          "Beyond the scripts: seeded random runs, each judged at every call. Trusts the recorder's projection of messages to text and "
          "the imap-types/imap-codec stand-in, which decides what is a well-formed message.")
add(["C01", "C02", "C03", "C04", "C05", "C06", "C07"], [flows.client], FLOW_T % "ClientFlow", FLOW_N)
add(["S01", "S02", "S03", "S04", "S05", "S06"], [flows.server], FLOW_T % "ServerFlow", FLOW_N)
add(["F01", "F02", "F03", "F04"], [flows.client, flows.server], FLOW_T % "ClientFlow and ServerFlow", FLOW_N)
add(["F05"], [flows.history, flows.client, flows.server],
    "TLA+/TLC: Memory bounds what may be held by what is outstanding; words of rounds enumerated (MCHistory), the real code put through each up to tens of thousands "
    "of times, memory and answers judged (TraceHistory); memory, panics and hangs of every recorded call judged by TraceFlow",
    "All words of up to two (thorough: three) out of some fifteen rounds per role, memory sampled with a counting allocator; announced and real sizes up to 4 GiB and 2 MB. "
    "Factors are generous (8 held, 16 during a call, 16 KiB fixed at rest). Memory the codec needs for messages of many small parts isn't explored.")
add(["D01"], [flows.client, flows.server],
    "TLA+/TLC: " "ClientFlow and ServerFlow schedules and random runs, the formatted events, errors and machines of every call searched for secrets, judged by TraceFlow",
    FLOW_N + " Secrets are looked for as parts of five bytes: raw, escaped, as numbers, in hex.")
add(["E01"], [flows.session],
    "TLA+/TLC: ClientFlow and ServerFlow composed over byte channels: deadlock freedom, invariants and completion under fairness; "
    "schedules replayed on real client and server; random conversations validated",
    FLOW_N + " Completion is checked as a temporal property of the specification under fairness; for the code, every random conversation "
    "must come to rest with nothing outstanding.")

ID_N = ("Every history of creating, using and dropping up to three connections (7 steps, two threads) is enumerated by TLC and run on the real code, "
        "plain and with steps repeated up to tens of thousands of times; runs far beyond (2^32 handles of one connection, jumps near every "
        "power of two). Not covered: wrap-around of 64-bit counters.")
add(["H01", "H02"], [ids.handles],
    "TLA+/TLC: Ids histories and thread schedules enumerated and replayed on handle.rs (atomic operations as schedule steps), Client and Server; "
    "recorded histories validated (TraceIds)", ID_N)
add(["H03"], [ids.tags], "TLA+/TLC: Ids histories enumerated and replayed on TagGenerator; recorded tags validated (TraceIds)", ID_N)

add(["K01", "K02", "K03"], [conf.config, boot.boot],
    "TLA+/TLC: Config specifies what every document denotes; documents enumerated by TLC, written in six TOML styles and loaded by the real "
    "config.rs; outcomes compared and judged (TraceConfig); Boot specifies what is found at the started proxy: documents and probes enumerated (MCBoot), "
    "the real imapproxy started with them over a scripted network and judged (TraceBoot)",
    "Every combination of the listed settings per side, lists of up to four services with an invalid one at every place, all 65536 ports, "
    "twenty kinds of broken files, and seeded random documents. Does not decide what the toml crate accepts as TOML. The started proxy: some 1500 documents of one to "
    "three services (taken addresses, unusable certificates, invalid services) with clients and upstreams that do or don't speak TLS and four certificates.")

add(["T01", "T02", "T03", "T04", "T05", "T06"], [streams.stream],
    "TLA+/TLC: Duplex (two streams over bounded channels) checked for order, loss, deadlock and completion; MCStream enumerates schedules of "
    "arrivals, room, closing, waits, flushes, polls and abandonments, replayed on the real Stream over a scripted transport; recorded runs judged (TraceStream)",
    "Schedules of some twenty hand-written scripts (TLS 1.2 and 1.3, both roles, plain) and seeded random scripts; beyond them seeded random runs judged step by "
    "step. The transport, tokio's sockets and the handshake of tokio-rustls are stand-ins for determinism; rustls itself is the real one.")

PROXY_T, PROXY_N = (
    "TLA+/TLC: Proxy (ServerFlow and ClientFlow joined by the proxy's rules) checked for all schedules of scripted sessions (MCProxy) and of several sessions at once "
    "(MCCrowd), Accept for the acceptors; schedules replayed on the real imapproxy over a scripted network; recorded random sessions judged (TraceProxy)",
    "All interleavings of pieces of input and of stops for some thirty scripts and seeded random ones; crowds of two to four sessions; beyond them seeded random sessions "
    "with blocked output, cuts and TLS on either side. The network, tokio's runtime and the TLS handshake are stand-ins (one thread, virtual time, random select order); what the proxy logs is not looked at.")
add(["P01", "P02", "P03", "P04", "P05", "P07"], [proxies.proxy], PROXY_T, PROXY_N)
add(["P08"], [logs.logs],
    "TLA+/TLC: Log says which parts of a conversation may be logged; seeded random sessions full of marked parts on the real imapproxy, its log at three levels judged (TraceLog)",
    "Seeded random sessions of some ten dialogues with secrets in every form; no exhaustive enumeration. Parts of six bytes are looked for: raw, escaped, as numbers, in hex, in base64.")
add(["P06"], [proxies.proxy, boot.boot], PROXY_T + "; Boot for the starting of services", PROXY_N)

NOT_APPLICABLE = {}
