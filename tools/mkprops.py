#!/usr/bin/env python3
"""Writes properties.jsonl (kept as code so that the prose stays readable)."""
import json, os
A = "app/roster/src/application/server/"
D = "app/roster/src/domain/"
I = "app/roster/src/infrastructure/"
P = []
def prop(id, title, statement, over, text, why, files, mech, state=None, observe=None):
    anchors = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state: anchors["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    if observe: anchors["observe_at"] = observe
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why, "anchors": anchors})

FR, WR, CO, HA = A+"frame/mod.rs", A+"frame/write.rs", A+"connection.rs", A+"handle.rs"
ST, SV, TH = A+"server_thread.rs", A+"supervisor/mod.rs", A+"server_thread.rs"
CMD = A+"cmd/"
STO = D+"storage/mod.rs"

prop("P01", "No bytes sent by a client can make the server panic",
 "Whatever bytes a client sends, in whatever pieces, reading them, decoding them, executing the resulting commands and answering them never panics: there is no reachable failing unwrap or expect, explicit panic, out of bounds access, slice error or arithmetic overflow. A request which cannot be understood ends in an error for that connection, not in a panic.",
 ["inputs", "histories"], "every byte stream a client may send, every fragmentation of it, every command it can encode",
 "The tests send a few well formed requests; a panic needs one particular malformed byte, number or option among all the possible ones.",
 [FR, CO, CMD+"mod.rs", CMD+"parse.rs", CMD+"set.rs", HA],
 [("guards before every cursor access", "frame/mod.rs get_u8*/peek_u8*/skip*/get_line*"), ("checked arithmetic on announced lengths", "frame/mod.rs check_nested/parse_nested"), ("time to live upper bound", "cmd/set.rs Set::parse_frames")])
prop("P02", "Nesting of a request cannot exhaust the stack",
 "The depth of recursion needed to check, decode or drop a request is bounded by a constant, whatever the client sends: an array or map nested deeper than the bound is refused with an error.",
 ["inputs"], "every nesting depth of arrays and maps in a request",
 "A test would have to send the one request deep enough to overflow the stack, which kills the whole process; the existing tests nest at most one level.",
 [FR], [("depth budget consumed at each nested array or map", "frame/mod.rs check_nested/parse_nested")])
prop("P03", "Announced lengths never cost more memory than bytes received",
 "A length or count announced in a message header never makes the server reserve memory before the bytes it announces have been received, and computing with it never overflows: an announced length which does not fit is refused, one which is not there yet is waited for.",
 ["inputs"], "every value of every length and count a message header can announce",
 "Tests announce lengths of a few bytes; the failure needs a length near the integer limits or far above what is sent.",
 [FR, CO], [("checked_add on bulk lengths", "frame/mod.rs"), ("completeness check before any allocation", "connection.rs parse_frame")])
prop("P04", "Decoding does not depend on how the bytes are cut by the network",
 "The sequence of requests decoded on a connection depends only on the bytes the client sent: bytes received but not yet consumed are kept, in order, in front of the bytes received next; none is lost, repeated, overwritten or reordered, and decoding a message consumes exactly its bytes.",
 ["inputs", "schedules"], "every split of every byte stream into reads, including reads ending in the middle of a message and pipelined messages",
 "On the loopback interface the test requests always arrive in one read.",
 [CO], [("pending bytes kept in front of what is read next", "connection.rs ReadConnection::read_frame"), ("only the bytes checked are split off", "connection.rs ReadConnection::parse_frame")],
 state=[("buffer", "bytes received and not consumed yet", "connection.rs ReadConnection")])
prop("P05", "The completeness check and the decoder agree on every message type",
 "For every message type, the check that a whole message has been received and the decoder accept the same type bytes, consume the same bytes in the same order (line, announced number of bytes plus line break, announced number of elements), and the decoder gives the value which those bytes denote. A type byte known to neither is refused.",
 ["inputs"], "every message type, length and nesting",
 "The unit tests decode three messages; a disagreement shows only for the type, length or element count it concerns, and corrupts the messages after it.",
 [FR, CO], [("two parallel grammars", "frame/mod.rs Frame::check and Frame::parse")])
prop("P06", "End of stream and malformed input end the connection, never hang it",
 "When the client closes its side between two messages the connection ends without error, when it closes inside a message or sends a malformed one it ends with an error; a read which fails or returns no byte never makes the server loop, wait again or deliver a request.",
 ["inputs", "fault_sequences"], "every point of the stream at which the peer can close or the read can fail, every malformed message",
 "The tests never close in the middle of a message nor make a read fail.",
 [CO, FR, HA], [("zero size and error handling", "connection.rs ReadConnection::read_frame"), ("end of the reading task", "handle.rs Handler::run_internal")])

prop("R01", "Exactly one reply per executed request",
 "Each request which is executed produces exactly one reply, on the connection it came from, on every path through its execution; a request which is refused as malformed produces none, and no other event writes on a connection.",
 ["inputs", "histories"], "every command, argument and state of the store and of the connection",
 "Missing or doubled replies desynchronise a client only on the particular branch which forgets or repeats the write.",
 [HA, CMD+"mod.rs", CMD+"get.rs", CMD+"set.rs", CMD+"client/mod.rs"], [("one write_frame per apply", "cmd/*")])
prop("R02", "Requests of a connection are executed and answered one by one, in order",
 "The requests of one connection are executed in the order in which they were received, each one finishing (its effects done and its reply handed over) before the next one starts; none is skipped, repeated or executed concurrently with another one of the same connection.",
 ["schedules", "histories"], "every pipeline of requests and every interleaving of the reading and answering tasks",
 "The tests wait for each reply before they send the next request.",
 [HA], [("fifo channel between one reader and one executor", "handle.rs Handler::run_internal")])
prop("R03", "A one line reply never contains a line break",
 "The text of a simple string or error reply never contains a carriage return or a line feed on the wire, even when it includes text chosen by a client (command name, connection name): a client cannot forge replies.",
 ["inputs"], "every text that can reach a simple string or error reply",
 "No test names an unknown command with a line break in it.",
 [WR, CMD+"unknown.rs"], [("line breaks replaced when a line is encoded", "frame/write.rs")])
prop("R04", "Every reply is encoded as well formed RESP",
 "For every reply value the bytes produced are its RESP encoding: the right type byte, the decimal length or count equal to the number of bytes or entries which follow, every entry encoded once and in order, and the terminating line breaks.",
 ["inputs"], "every reply value: type, length, number of entries, integer",
 "Unit tests encode half a dozen values.",
 [WR], [("encoder", "frame/write.rs write_value/write_decimal")])
prop("R05", "A reply is written whole and flushed, and write errors are not ignored",
 "Each reply is handed over to the socket completely (short writes are resumed) and flushed before the execution of the request is considered done, and an error while writing ends that connection instead of being ignored.",
 ["fault_sequences", "inputs"], "every reply size, every short write and every write error",
 "The test replies are a few bytes: the kernel takes them in one write.",
 [WR, CO], [("write_all then flush", "frame/write.rs write_frame"), ("error propagation", "cmd/* apply, handle.rs")])

prop("K01", "Command names select their implementation, whatever their case",
 "ACL CAT, CLIENT GETNAME, ID, INFO, LIST, SETINFO, SETNAME and HELP, GET, HELLO, PING and SET are recognised by their name independently of the case of its letters, and each name runs its own command only.",
 ["inputs"], "every command name in every case",
 "The tests use one spelling of each name.",
 [CMD+"mod.rs", CMD+"client/mod.rs", CMD+"acl/mod.rs"], [("lower cased dispatch", "cmd/mod.rs Command::from_frame, client/mod.rs, acl/mod.rs")])
prop("K02", "A malformed request is refused and has no effect",
 "A request which is not an array starting with a name, or which lacks an argument its command needs, or has an argument of the wrong type, or has arguments left once its command has read its own, is refused with an error which ends the connection, before anything of it is executed: neither the store nor any connection metadata changes.",
 ["inputs"], "every array of frames of every type and number",
 "Tests try two or three malformed requests and never look at the store afterwards.",
 [CMD+"mod.rs", CMD+"parse.rs", CMD+"set.rs", CMD+"get.rs", HA], [("typed cursor over the arguments", "cmd/parse.rs Parse"), ("finish() before a command is returned", "cmd/mod.rs, client/mod.rs, acl/mod.rs")])
prop("K03", "An unknown command gets an error reply and the connection goes on",
 "A well formed request whose command or subcommand name is not known is answered by an error reply which quotes that name, has no effect on the store or on any connection metadata, and leaves the connection usable.",
 ["inputs"], "every name which is not a command or a subcommand",
 "No test sends an unknown command and goes on.",
 [CMD+"unknown.rs", CMD+"mod.rs", CMD+"client/mod.rs", CMD+"acl/mod.rs"], [("Unknown command", "cmd/unknown.rs")])
prop("K04", "PING answers PONG or exactly its argument",
 "PING without argument is answered by the simple string PONG, PING with an argument by a bulk string made of exactly the bytes of that argument; PING has no effect.",
 ["inputs"], "every argument",
 "Tests ping with at most one short text.",
 [CMD+"ping.rs"], [("Ping", "cmd/ping.rs")])
prop("K05", "HELLO describes the server and the asking connection",
 "HELLO is answered by a map holding server, version, proto (3), id, mode, role and modules, each once, where id is the id of the connection which asks: the same one CLIENT ID answers as an integer.",
 ["histories", "inputs"], "every connection, in every order of arrival",
 "The test looks at one connection on a fresh server.",
 [CMD+"hello.rs", CMD+"client/id.rs"], [("Hello", "cmd/hello.rs"), ("ClientID", "cmd/client/id.rs")])

prop("S01", "SET stores exactly its key and value, replacing what was there",
 "SET associates exactly the bytes of its value to exactly the bytes of its key, whether or not the key existed, by one atomic operation on the store, and answers OK only once that is done.",
 ["inputs", "histories", "schedules"], "every key and value, every previous state of the key, every interleaving with the other threads",
 "Tests set one fresh key; overwriting, binary values and concurrent writers are not exercised.",
 [STO, CMD+"set.rs"], [("insertion under one entry lock", "domain/storage StorageSegment::set_async")],
 state=[("db", "key bytes to value and expiry", "domain/storage StorageSegment")])
prop("S02", "GET answers the stored bytes, or null when there is none",
 "GET looks up exactly the bytes of its argument in the store SET writes to, and answers the stored value's bytes unchanged as a bulk string when the key holds a value which has not expired, null otherwise.",
 ["inputs", "histories"], "every key, every value, every state of the store",
 "Tests read back one short text.",
 [STO, CMD+"get.rs"], [("lookup", "domain/storage StorageSegment::get_async")])
prop("S03", "An expired value is never served and a live one never dropped",
 "A value whose time to live has elapsed is never answered, and the only removal of a key from the store is that of the very entry seen expired, under the same lock as that observation: a live value, or one set again meanwhile, is never removed or changed by anything but SET.",
 ["schedules", "histories", "inputs"], "every interleaving of GET and SET on a key around its expiry",
 "A test would have to hit the window between the expiry check and the removal.",
 [STO, CMD+"get.rs"], [("check and removal on one occupied entry", "domain/storage StorageSegment::get_async")])
prop("S04", "The time to live of a key is the one SET was given, from then on",
 "SET with EX n expires the key n seconds, with PX n n milliseconds, after a time read while that SET is executed, SET without option leaves the key without expiry, and each SET replaces any earlier expiry of the key; GET compares the expiry with a time read while it is executed.",
 ["inputs", "histories", "schedules"], "every number, unit and spelling of the option, every moment at which requests are executed on a connection of any age",
 "The only test of expiry sets one key; units, staleness of the clock and replacement are not observed.",
 [CMD+"set.rs", CMD+"get.rs", A+"context.rs", STO], [("unit conversion", "cmd/set.rs Set::parse_frames"), ("clock", "context.rs Context::now")])
prop("S05", "All the threads serve one and the same store",
 "There is one store in the process: whatever the worker thread and connection, each SET and GET operates on the same map, created before any connection is served and never replaced or cleared.",
 ["schedules", "configurations"], "every number of worker threads, every distribution of connections over them",
 "Tests use one connection; which thread serves it depends on the kernel.",
 [A+"mod.rs", STO, TH, A+"context.rs"], [("shared Arc handed out to each thread", "domain/storage Storage::part, server/mod.rs initialize")])
prop("S06", "No lock on the store or on connection data is kept while a task waits",
 "No guard on an entry of the store, on the connection registry or on a connection's name, and no blocking mutex guard is kept across a point where the task can be suspended: a slow client can never block the others on a lock.",
 ["schedules"], "every suspension point of every task, every interleaving",
 "The deadlock needs a client which stops reading at the right moment while another one touches the same bucket.",
 [STO, SV, CMD+"get.rs", CMD+"set.rs"], [("guards are dropped before the reply is written", "domain/storage, supervisor")])
prop("S07", "The hash slot of a key is CRC16 XMODEM modulo 16384, for reads and writes",
 "The slot of a key is the CRC16 (XMODEM) of exactly the bytes of the key modulo 16384, hence always in 0..16384, and GET and SET of the same key give the same slot.",
 ["inputs"], "every key",
 "The slot of no key is tested.",
 [I+"hash/mod.rs", CMD+"get.rs", CMD+"set.rs"], [("crc_hash", "infrastructure/hash")])

prop("N01", "Connection ids are unique and never reused",
 "Each accepted connection gets an id no other connection of this server ever had, greater than those of the connections accepted before it, which never changes during its life.",
 ["schedules", "histories"], "every interleaving of accepts on the worker threads, every history of connects and disconnects",
 "Tests open one or two connections, one after the other.",
 [SV, TH], [("one shared atomic counter", "supervisor assign_new_connection")],
 state=[("current_id", "next id", "supervisor Supervisor")])
prop("N02", "The failure of one connection does not affect the others",
 "Whatever error ends a connection, or prevents it from being accepted or set up, only that connection ends: the worker thread goes on accepting and serving the others, and the process does not exit.",
 ["fault_sequences", "histories"], "every error of accept, of socket setup, of reading, decoding, executing and writing, on any connection",
 "Tests never make a connection fail.",
 [TH, HA], [("errors handled per connection", "server_thread.rs accept loop and connection task")])
prop("N03", "The registry holds exactly the connections being served",
 "A connection is registered before its first request can be executed and is removed from the registry once the server is done with it, however it ended, and only itself: CLIENT LIST reports exactly the registered connections, one line each.",
 ["histories", "fault_sequences"], "every way a connection can end, every set of open connections",
 "The tests list connections while a single one is open and never after one closed.",
 [SV, TH, CMD+"client/list.rs"], [("assign before serve, release after", "server_thread.rs, supervisor")])
prop("N04", "Connection commands act on the connection which sent them",
 "CLIENT SETNAME, GETNAME, INFO and ID and HELLO read or change the metadata of the connection their request came from and of no other one, and that metadata describes it (own id, peer address, local address and descriptor).",
 ["schedules", "histories"], "every set of simultaneous connections",
 "Tests use one connection at a time.",
 [TH, A+"context.rs", SV, CMD+"client/set_name.rs", CMD+"client/get_name.rs", CMD+"client/info.rs"], [("context built from the connection accepted", "server_thread.rs")])
prop("N05", "A connection has the name last given to it, and only valid ones",
 "GETNAME answers exactly the bytes of the last name accepted by SETNAME on that connection, null if there is none or the last one was empty; a name holding white space or a control character is refused by an error reply and changes nothing.",
 ["inputs", "histories"], "every name, every sequence of SETNAME and GETNAME",
 "Tests set one valid name.",
 [CMD+"client/set_name.rs", CMD+"client/get_name.rs", SV], [("validation before set_name", "cmd/client/set_name.rs"), ("RwLock<Option<..>>", "supervisor MetadataConnection")])
prop("N06", "CLIENT LIST and CLIENT INFO describe a connection identically",
 "The line CLIENT INFO answers and the one CLIENT LIST answers for the same connection are produced alike and hold its id, peer address, local address, descriptor and name, each after its own label.",
 ["inputs", "histories"], "every connection and name",
 "Tests redact most of the line.",
 [SV, CMD+"client/info.rs", CMD+"client/list.rs"], [("format_conn", "supervisor MetadataConnection::format_conn")])
prop("N07", "The configured connection limit is enforced",
 "When the configured maximum number of connections is being served, no further connection is served until one of them ends.",
 ["configurations", "histories"], "every limit and every history of connects and disconnects",
 "No test opens as many connections as the limit.",
 [A+"mod.rs", TH, I+"config/mod.rs"], [("connections_limit", "server/mod.rs ServerConfig")])
prop("N08", "The server listens where it is configured, on every worker",
 "The address given in the configuration is the one every worker thread listens on, there is one worker per available CPU, each bound to its own CPU, and the process keeps running as long as its workers do.",
 ["configurations"], "every configuration and number of CPUs",
 "Tests start the server on one address on one machine and only talk to whichever worker answers.",
 [A+"mod.rs", TH, I+"config/mod.rs", "app/roster/src/main.rs"], [("initialize", "server/mod.rs ServerConfig::initialize"), ("join", "server/mod.rs ServerHandle::join")])
prop("S08", "The hash slots are partitioned among the segments",
 "For every number of segments, the slot ranges given to the segments cover 0..16384 without overlap and each part number maps to a segment.",
 ["configurations"], "every number of segments",
 "The server only ever builds one segment.",
 [STO, D+"dialer/mod.rs"], [("Storage::new", "domain/storage")])
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
with open(os.path.join(here, "properties.jsonl"), "w") as f:
    for p in P:
        f.write(json.dumps(p) + "\n")
print(len(P))
