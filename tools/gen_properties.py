#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as Python so that the text stays reviewable)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mechanism, observe, state=()):
    assert len(title) <= 80, title
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why,
              "anchors": {"files": files,
                          "state": [{"name": a, "meaning": b, "where": c} for a, b, c in state],
                          "mechanism": [{"name": a, "where": b} for a, b in mechanism],
                          "observe_at": observe, "hook_needed": None}})

CS = "saltchannel/v2/salt_client_session.py"; SS = "saltchannel/v2/salt_server_session.py"
EC = "saltchannel/v2/encrypted_channel_v2.py"; AC = "saltchannel/v2/app_channel_v2.py"
PK = "saltchannel/v2/packets.py"; UP = "saltchannel/util/packets.py"; A = "saltchannel/a1a2/packets.py"
A1S = "saltchannel/a1a2/a1_client_session.py"; CH = "saltchannel/channel.py"; UT = "saltchannel/util/time.py"
UI = "saltchannel/util/__init__.py"; SL = "saltchannel/saltlib/saltlib.py"
SN = "saltchannel/saltlib/saltlib_native.py"; SP = "saltchannel/saltlib/saltlib_pynacl.py"
ST = "saltchannel/saltlib/saltlib_tweetnaclext.py"; MI = "saltchannel/dev/mitm_channel.py"
TU = "saltchannel/dev/tunnel.py"; CA = "saltchannel/dev/client_server_a.py"
NOTEST = "No existing test reaches sessions or channels at all (the 32 tests only dump and parse a few fixed packets). "

prop("C01", "A completed handshake authenticates the peer and the transcript",
 "If a client's or a server's handshake call returns normally with an established secure channel, the peer signing key it reports belongs to a party that holds the secret key and signed, under that party's own role label, exactly the first two handshake messages this side sent and received; if that party is an honest endpoint, both ends hold the same session key. "
 "No modification, truncation, replay, reflection or relaying of messages between sessions, and no peer lacking the claimed secret key, can make a handshake return normally with any other identity or transcript.",
 ["inputs", "histories", "fault_sequences"],
 "every strategy of an active network attacker (bounded message alphabet, concurrent helper sessions), every message position, every session configuration",
 NOTEST + "Attack strategies are unbounded histories of relayed, replayed and forged messages.",
 [CS, SS, PK, SL],
 [("signature over label and transcript hashes", CS + ": do_m4, validate_signature1"), ("signature over label and transcript hashes", SS + ": do_m3, validate_signature2"), ("transcript hashes", CS + ": do_m1, do_m2; " + SS + ": do_m1, do_m2, do_m3")],
 ["return/exception of handshake()", "client_sig_key, m3.ServerSigKey, session_key", "bytes on the transport"],
 [("m1_hash, m2_hash", "transcript of the first two messages", CS + ", " + SS)])

prop("C02", "Honest handshakes complete and follow the wire protocol exactly",
 "Between an honest client and an honest server over a reliable message transport, the handshake completes on both sides for every combination of buffering options, wanted-server setting, time source and key pairs, and both ends then report each other's true signing keys and the same session key. "
 "Every handshake message is byte for byte the one Salt Channel v2 prescribes for those keys and times, so either side also completes against an independent conforming implementation, and any number of successive handshakes works, also on the same session objects and after failed ones. With buffering on, M2 leaves in one transport write with M3, and M4 in one transport write with the first application packet.",
 ["configurations", "inputs"],
 "all configurations x key pairs x peers (this implementation or an independent reference)",
 NOTEST + "A symmetrical mistake (same wrong label or nonce on both sides) would even pass a loop-back test.",
 [CS, SS, EC, PK],
 [("handshake state machines", CS + ": handshake"), ("handshake state machines", SS + ": handshake")],
 ["bytes on the transport", "handshake() result, session_key, client_sig_key, m3.ServerSigKey"])

prop("C03", "Clients reach only the server they name; servers answer only for their key",
 "A client that names a wanted server key puts it in its first message and completes the handshake only with a server that proves exactly that key, otherwise failing without sending anything more; a client that receives a no-such-server answer fails with the no-such-server error and sends nothing more. "
 "A server whose first message names another key than its own answers with exactly one no-such-server message marked as last, fails with the no-such-server error, and never reveals its identity or a signature; with its own key or no key named it proceeds.",
 ["inputs", "configurations"],
 "every named key that differs from the server's in any bit, every flag combination of the answer, all configurations",
 NOTEST + "Needs every near-miss key, not one sample.",
 [CS, SS, PK],
 [("named key in M1 and check of M3", CS + ": do_m1, do_m3"), ("key comparison and NoSuchServer answer", SS + ": do_m1"), ("NoSuchServer handling", CS + ": do_m2")],
 ["bytes on the transport", "handshake() exception"])

prop("C04", "A receiver only ever gets the peer's authentic messages, in order",
 "On an established session the messages a receiver obtains are always a prefix of the messages its peer sent in that direction, whatever an attacker modifies, truncates, drops, reorders, replays, reflects, or injects from other sessions. "
 "Every packet whose body is not that of the next authentic packet is rejected with the bad-peer error and delivers nothing, and the receiver can still accept the authentic next packet afterwards.",
 ["histories", "fault_sequences", "inputs"],
 "every sequence of attacker deliveries up to the bound, in both directions, every bit and every truncation of a packet",
 NOTEST + "Replay and reorder resistance is a statement over all delivery histories.",
 [EC, AC, SN],
 [("nonce-bound authenticated decryption, nonce advanced only on success", EC + ": read, decrypt"), ("separate read and write nonce sequences", EC + ": __init__")],
 ["app_channel.read() results and exceptions"],
 [("read_nonce", "counter of accepted packets", EC)])

prop("C05", "Nonces are never reused and follow the prescribed sequence",
 "Within a session no two different plaintexts are ever encrypted under the same key and nonce, in either direction and across directions, whatever the mix of handshake messages, single, multiple and buffered writes, reads, failed, cancelled and concurrent writes. "
 "As long as no write fails or is cancelled, the n-th encrypted packet of the client uses counter 2n-1 and the n-th of the server 2n, for sessions of any length; encrypted channels that share a key under distinct session nonces never use the same nonce.",
 ["histories", "schedules", "fault_sequences"],
 "every operation history up to the bound including failing transports, plus sessions long enough to cross the 8- and 16-bit counter boundaries",
 NOTEST + "A nonce collision shows only in particular histories or after many messages.",
 [EC, SS, AC],
 [("odd/even counters with step 2", EC + ": Nonce, __init__"), ("advance before the packet leaves", EC + ": write; " + SS + ": do_m3")],
 ["ciphertexts handed to the transport, opened with an independent implementation"],
 [("write_nonce", "counter of encrypted packets", EC)])

prop("C06", "Only the prescribed messages travel in clear",
 "Apart from the first two handshake messages and address-query messages, everything a session puts on the transport is an encrypted packet authenticated under that session's key. "
 "Application payloads, signatures and the parties' signing public keys (other than the server key a client chose to name) never appear in clear on the transport, in any configuration, success or failure path.",
 ["configurations", "histories", "fault_sequences"],
 "all configurations, write shapes and failure points of handshakes and application traffic",
 NOTEST + "Confidentiality is about every message on every path.",
 [CS, SS, EC, AC],
 [("all writes after M2 go through the encrypted channel", EC + ": write, wrap, encrypt"), ("M3 encrypted by hand", SS + ": do_m3"), ("buffered M4 sent with first write", AC + ": write")],
 ["bytes on the transport"])

prop("C07", "Application messages arrive exactly once, in order, with their boundaries",
 "Every message handed to a successful write on an established session is returned by exactly one read of the peer, unchanged in content and boundary and in the order written, for any number of messages per write, any sizes including empty and above 65535 bytes, and any interleaving of reads and writes in both directions. "
 "A write marked as last sets the last flag on its final packet only and tells the transport so; after reading the final message of a write, the receiver's last indication equals the mark the sender gave.",
 ["inputs", "histories"],
 "every operation sequence up to the bound over a batch alphabet with the size and count boundaries, all buffering options",
 NOTEST + "Packaging into single or multi packets and queueing of surplus messages depend on counts, sizes and read/write history.",
 [AC, EC, PK],
 [("single/multi packaging", AC + ": write; " + PK + ": MultiAppPacket.should_use"), ("queue of surplus messages", AC + ": read"), ("LastFlag", EC + ": write, unwrap")],
 ["app_channel.write/read/last", "is_last at the transport, LastFlag on the wire"],
 [("readQ", "messages of a multi packet not yet returned", AC), ("buffered_m4", "M4 waiting for the first write", AC)])

prop("C08", "Packets serialise to the protocol layout and parse back unchanged",
 "For every packet type and all field values in range, the serialised bytes are exactly the little-endian Salt Channel v2 layout (sizes, flag bits, order), the reported size equals the number of bytes, and parsing those bytes yields the same field values and re-serialises to the same bytes. "
 "Packet objects are independent: building, changing or parsing one never changes another.",
 ["inputs", "histories"],
 "all packet types x boundary values of every field x payload lengths, and construction/parse sequences of several objects",
 "Existing tests compare one or two fixed dumps per packet type.",
 [PK, A, UP],
 [("ctypes little-endian packed structures", UP + ": SmartStructure, Packet"), ("optional parts", PK + ", " + A + ": _opt_factory")],
 ["bytes(packet), size, field access, from_bytes"])

prop("C09", "Malformed packets are rejected as bad peer data, never misread",
 "Parsing a byte string as a packet either yields field values that are literally the ones encoded in those bytes or raises the bad-peer error, and no other exception. "
 "It raises for an empty or too short input, a wrong packet type or protocol indicator, an encrypted body below the authentication tag size, lengths or counts that disagree with the data, address types or sizes outside the protocol, a missing last flag or protocol strings outside the allowed characters in an address answer, and embedded messages that overrun the packet.",
 ["inputs"],
 "all truncations and single-byte substitutions of valid packets and all short byte strings over a structured alphabet, for every packet type",
 "Existing tests try two short inputs of one packet type and one bad protocol string.",
 [PK, A, UP],
 [("size checks and validate()", UP + ": SmartStructure.from_bytes, Packet.validate"), ("validate()", PK + ", " + A)],
 ["result or exception of constructing or parsing packets from bytes"])

prop("C10", "Hostile peer input is contained",
 "Whatever messages a peer sends at any point of a handshake, an address query or an established channel, the pending call either treats them as the valid messages they are or fails with an error of the library's communication-error family. "
 "It never returns normally from a handshake that did not complete (an answered address query counts as complete), never delivers data that was not a well-formed message, never waits for input that is already there, and never lets another kind of exception escape.",
 ["inputs", "histories"],
 "every message of a structured alphabet (all truncations, byte substitutions, wrong types, degenerate keys, malformed plaintexts properly encrypted) at every protocol position, all configurations",
 NOTEST + "Callers catch only the communication-error family; any other exception is a remote crash.",
 [CS, SS, AC, EC, PK, A, UT, SL],
 [("BadPeer conversion", EC + ": decrypt; " + CS + ", " + SS), ("packet validation", PK + ", " + A), ("key agreement failure", SL + ": compute_shared_key")],
 ["exception class or result of handshake(), read(), do_a1a2()"])

prop("C11", "Transport failures always surface as communication errors",
 "If the transport fails or ends at any I/O operation during a handshake, an address query, a read or a write, that very call fails with an error of the communication-error family, for the socket transport, the stream transport and any transport that reports such errors itself. "
 "The call never reports success, never delivers a message that was not completely received, and never keeps waiting.",
 ["fault_sequences", "histories"],
 "a fault or end of stream at every I/O operation and every byte offset of a session history, all fault kinds, all configurations",
 NOTEST + "Needs a fault at each point of the history.",
 [CH, CA, CS, SS, EC, AC, A1S],
 [("ComException wrapping", CH + ": SocketChannel, AsyncioChannel"), ("exception propagation", CS + ", " + SS)],
 ["exception class of handshake(), read(), write(), do_a1a2()"])

prop("C12", "Transports preserve message boundaries under any segmentation",
 "For any sequence of messages of any sizes including empty ones, the socket and stream transports emit each as its 4-byte little-endian length followed by its bytes, in order, and reading returns exactly those messages however the byte stream is segmented into pieces and however reads and arrivals interleave. "
 "A stream that ends or fails for good inside a message never yields that message or any invented one, and negative lengths are refused.",
 ["inputs", "schedules", "fault_sequences"],
 "every segmentation of small streams, boundary message sizes with every split point of the header, end of stream at every byte",
 NOTEST + "The number of segmentations is exponential; tests use none.",
 [CH, CA],
 [("recv loop", CH + ": SocketChannel.recvall"), ("exact reads", CA + ": SaltChannelStreamReader.read_msg"), ("length prefix", CH + ": write_sync; " + CA + ": write_msg")],
 ["messages read, bytes written"])

prop("C13", "Address queries get the right answer and end the session",
 "A server that receives a well-formed address query answers with exactly one address answer marked as last: its configured protocol list (or the default list) for an any-address query or a query for its own key, and no-such-server for a query naming any other key; the session is then done (a handshake leaves it not done), without a secure channel and without revealing the server's key. "
 "The querying client sends its query as configured and reports exactly the answered flag and protocol strings.",
 ["inputs", "configurations"],
 "every queried key differing from the server's in any bit, every address form, injected and default answers with 0 to 127 entries, both API styles",
 NOTEST + "Packet tests do not involve the server's decision.",
 [SS, A, A1S],
 [("address decision", SS + ": do_a2"), ("query", A1S + ": do_a1a2, do_a1a2_sync")],
 ["bytes on the transport", "is_done, app_channel, a2"])

prop("C14", "Message times come from the session's own clock and are always checked",
 "Every message a session sends carries a time obtained from that session's own time source for that send, in the full 32-bit range: its first-message time in the first message, later times afterwards, one per send (a buffered M2 shares its first time with M3, a buffered M4 takes the time of the first application write). "
 "Every received time is given to the session's time checker exactly as received before anything from that message is accepted; if the checker objects, the call fails with its error and delivers nothing, and the default checker objects with the bad-peer error to a first time other than 0 or 1. "
 "Sessions with their own time sources or checkers never influence each other.",
 ["inputs", "histories", "configurations"],
 "all message positions x time values x checker verdicts x configurations, several sessions at once",
 NOTEST + "Time handling touches every message type and depends on buffering.",
 [UT, CS, SS, AC],
 [("time keeper and checker calls", CS + ", " + SS + ", " + AC), ("instances per session", UT)],
 ["time fields on the wire", "calls received by the time checker"])

prop("C15", "Blocking calls behave exactly like their coroutines, in any thread",
 "For every session, channel and address-query coroutine the blocking call with the corresponding name puts the same messages on the transport, returns the same results and raises the same errors, whatever the input. "
 "Blocking calls work in any thread, including threads that have no event loop yet, and on the event loop the object was given even if that is not the current one.",
 ["configurations", "histories", "inputs"],
 "all operations x configurations x peer behaviours, main and worker threads",
 NOTEST + "The blocking API is generated; nothing executes it.",
 [UI, CH, CS, SS, AC, EC, A1S],
 [("generated _sync methods", UI + ": Syncizer"), ("event loop per thread", UI + ": force_event_loop")],
 ["results, exceptions and bytes of both API styles"])

prop("C16", "Sessions and concurrent users of a session do not interfere",
 "Sessions in one process, run in any interleaving of tasks in one event loop or of threads, behave exactly as each would alone. "
 "Within one session, concurrent writer tasks and a reader task never corrupt it: the peer receives every message exactly once, messages of one write stay together and in order, and cancelling a pending read neither loses nor duplicates a message.",
 ["schedules", "histories"],
 "every order of I/O completions for the bounded task sets; every single preemption point (two in the thorough tier) of two threads at source-line granularity",
 NOTEST + "Interference needs particular interleavings.",
 [EC, AC, CS, SS, UT, UI, SL, PK],
 [("no suspension between nonce use and hand-over to the transport", EC + ": write"), ("all state in instances", CS + ", " + SS + ", " + AC)],
 ["messages, identities, keys and errors per session"])

prop("C17", "Crypto back ends are interchangeable and reject forgeries",
 "Every supported crypto back end produces the same bytes as NaCl for key generation from seed, signing, hashing, key agreement and authenticated encryption, opens what any other sealed or signed, and returns random strings of the requested length. "
 "A signature or ciphertext that was changed, truncated or made with another key or nonce is always refused with the corresponding library error, and key agreement with a public key of low order is refused, by the library object with the bad-peer error. "
 "Looking up a back end yields that back end, the library object works with the back end and random source it was first created with, and asking for the best yields the first available one or the no-such-library error.",
 ["inputs", "configurations"],
 "all message lengths up to the bound and around block boundaries, every bit or byte corruption and truncation, all back end pairs, all availability combinations",
 "tests/saltlib cannot run here (missing package) and use one message per function.",
 [SL, SN, SP, ST],
 [("back ends", SN + ", " + SP + ", " + ST), ("selection and facade", SL + ": SaltLib")],
 ["results and exceptions of the back end and facade functions"])

prop("C18", "Monitoring and in-memory channels are transparent",
 "Wrapping a channel in the man-in-the-middle monitor changes nothing for its users: every message, batch, last mark, result and error passes through unchanged, in both API styles; its byte counters equal the bytes that passed, and with a log every message is logged once, with its direction and content, in order, immediately or, with buffering on, at the flush. "
 "The in-memory tunnels deliver to each end exactly the messages written at the other, in order.",
 ["histories", "inputs", "fault_sequences"],
 "every operation sequence up to the bound, with failing inner channels",
 NOTEST + "Nothing in dev is executed by tests.",
 [MI, TU],
 [("decorator", MI + ": MitmChannel"), ("queues and pipes", TU + ": Tunnel, TunnelMP")],
 ["channel results, inner channel calls, counters, log records"])

prop("C19", "Connections and client-server pairs run independently and completely",
 "Every connection a stream server accepts is handed to the connection callback exactly once, and every opened connection to its opener, with a reader and a writer bound to that connection alone; data, malformed data, errors, a failing handler or the end of one connection never change what another one delivers or sends, whatever the interleaving. "
 "A client-server pair asked for n clients runs exactly n client sessions, each against a server session of its own, returns only when all of them have ended, lets the others complete when some fail, and accepts nothing any more once it is stopped.",
 ["schedules", "histories", "fault_sequences"],
 "every interleaving of connect, data and end events of the bounded connections, every pattern of failing clients, handlers and accepted connections, every order of session ends",
 NOTEST + "Isolation of concurrent connections is a statement over interleavings and failures of the neighbours.",
 [CA, "saltchannel/dev/client_server.py"],
 [("one reader, protocol and writer per connection", CA + ": open_saltchannel_connection, start_saltchannel_server, SaltChannelStreamReaderProtocol"), ("pairs", "saltchannel/dev/client_server.py: MpClientServerPair; " + CA + ": ClientServerPairA")],
 ["arguments and number of callback calls", "bytes per connection", "session results when a pair's run returns"])

EX = ["saltchannel/dev/" + n + ".py" for n in ("example_session1", "example_session1_a", "example_session2", "example_session2_a", "example_session3", "example_session3_a", "simple_echo_session", "simple_echo_session_a", "run_session", "run_session_a")]
prop("C20", "The bundled example sessions exchange exactly the traffic they describe",
 "Each bundled example session, blocking or asyncio, puts on the wire byte for byte the messages Salt Channel v2 prescribes for the example's fixed keys, requests, times and last flags (the echo examples: every message back unchanged), both halves end without error, and the keys, messages and byte counts the client prints and the messages it logs are those of that traffic; this holds also for several clients of one example at once, however their messages interleave and whatever segments the bytes arrive in. "
 "A client that vanishes at any point leaves the other sessions undisturbed and, in the blocking examples, lets its server session end normally. "
 "The server halves serve any conforming client: other keys, other messages, and in the blocking handshake examples further sessions on the same connection until one is marked last; the third example's client fails if an answer is not its request.",
 ["schedules", "fault_sequences", "histories"],
 "every interleaving of the deliveries of concurrent clients, every point at which a connection breaks, every segmentation, every bounded sequence of sessions or messages of a client",
 NOTEST + "The examples are never run; that concurrent sessions on one session object do not mix is a statement over interleavings.",
 EX,
 [("example sessions", "saltchannel/dev/example_session*.py: server_session, client_session"), ("echo sessions", "saltchannel/dev/simple_echo_session*.py"), ("programs", "main() of the example and run_session modules")],
 ["messages on the transport", "results of the session halves", "printed and logged lines"])

prop("C21", "Unusable keys, nonces and messages are refused without harm",
 "A key, seed or nonce of the wrong size is refused with an error by every crypto back end, the library object, the encrypted channel (a key: with ValueError) and the sessions (the library object may take a signing seed from the front of a longer value); nothing computed with it reaches the transport, a missing ephemeral key pair is a ValueError before any transport operation, and the same session object completes its handshake once the setting is corrected. "
 "A packet field given a value of the wrong size, or a server key in an M1 that announces none, is refused and the packet's bytes stay as they were. "
 "A write with a value that is no message (None, text, a number) is refused with nothing of it sent (a byte transport may have sent complete earlier messages of that batch, never part of one), and the session or encrypted channel, a still buffered handshake message included, carries on as if it had not been called.",
 ["inputs", "histories"],
 "all sizes up to the bound of every key, seed, nonce and field; every bounded history of accepted and refused writes",
 NOTEST + "Tests pass only well-formed arguments; that a refusal leaves nothing behind is a statement over histories.",
 [SN, SP, ST, SL, EC, AC, CS, SS, UI, CH, PK, UP, A],
 [("size checks of the back ends", SN + ", " + SP + ", " + ST), ("settings", CS + ": validate; " + SS + ": validate"), ("field assignment", UI + ": cbytes"), ("writes", AC + ": write; " + EC + ": write")],
 ["exceptions", "messages on the transport", "packet bytes", "results of later operations"])

with open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl"), "w") as f:
    for p in P:
        f.write(json.dumps(p) + "\n")
print(len(P))
