ARQ="src/arq.rs"; PK="src/packet.rs"; DT="src/datatype.rs"; SO="src/socket.rs"; SE="src/server.rs"; FR="src/fragment.rs"

p("C01","Frame datagrams round-trip through the wire format",
 "Every datagram of frames the library can build - any reliability, flags, indices, fragment header, channel and payload, one frame or several - is decoded from its encoding to exactly the same frames. The encoder never fails on such a frame and never emits bytes its own decoder rejects.",
 "inputs","for all reliabilities, all 24-bit indices, all fragment headers and all payload bytes",
 "The tests encode a handful of literal frames; a field mixed up for one reliability, or only when a frame is a fragment, or for an index above 65 535, passes them.",
 f"{ARQ} {DT}", [("FrameSetPacket::serialize / deserialize, FrameVec", ARQ), ("RaknetWriter / RaknetReader", DT)],
 ["FrameSetPacket::serialize -> FrameVec::new"])
p("C02","Handshake and control messages round-trip, with any IPv4 or IPv6 address",
 "Each handshake and control message (pings, pongs, both open-connection requests and replies, incompatible version, already connected, connection request, accepted, new incoming connection, connected ping and pong) is decoded from its encoding to the same field values, for every IPv4 and IPv6 socket address it may carry (the time stamps at the end of connection accepted are not read back, by design). Encoding one never fails.",
 "inputs","for all field values, all IPv4 and IPv6 addresses and ports, MOTD bytes symbolic",
 "One literal per message is tested, with IPv4 addresses only.",
 f"{PK} {DT}", [("read_packet_* / write_packet_*", PK), ("read_address / write_address", DT)], ["write_packet_X -> read_packet_X"])
p("C03","ACK and NACK records round-trip",
 "Any list of acknowledged or missing datagram numbers and ranges is decoded from its encoding to the same list, in order, single numbers and ranges alike.",
 "inputs","for all 24-bit bounds of every record, for 0 to 4 records",
 "The tests decode one captured packet; only the solver covers all 24-bit bounds and single/range mixtures.",
 f"{PK} {DT}", [("write_packet_ack / read_packet_ack and nack", PK)], ["write_packet_ack -> read_packet_ack"])
p("C04","Decoding arbitrary bytes never panics",
 "Whatever bytes arrive in a datagram, every decoder either returns a value or an error: it never panics, overflows, reads out of bounds or loops forever.",
 "inputs","for all byte strings up to the stated lengths, for every decoder; and for valid messages with any one field mutated or cut short",
 "Tests feed well-formed packets only; a hostile datagram is one of 256^n inputs.",
 f"{PK} {ARQ} {DT}", [("read_packet_*", PK), ("FrameVec::new, FrameSetPacket::deserialize", ARQ), ("RaknetReader bounds checks", DT)], ["read_packet_X(bytes)", "FrameVec::new(bytes)"])
p("C05","Datagrams have the RakNet wire layout",
 "Every datagram the library encodes is byte for byte the layout other RakNet implementations expect. A frame datagram: id 0x84 (0x8c for every fragment but the first), 24-bit little-endian datagram number, flags, 16-bit bit length, then exactly the index fields that the reliability prescribes, the fragment header when the frame is a fragment, and the payload. An acknowledgement: record count, then single numbers and ranges. The handshake and control messages: big-endian numbers, the magic, addresses with inverted IPv4 octets, padding up to the MTU.",
 "inputs","for all reliabilities, indices, fragment headers and payload bytes; all field values of every control message; all records of acknowledgements",
 "A round trip through the same library cannot see a symmetric encoder/decoder mistake, and tests compare few literal captures.",
 f"{ARQ} {PK} {DT}", [("FrameSetPacket::serialize", ARQ), ("write_packet_*", PK), ("RaknetWriter", DT)], ["bytes of FrameSetPacket::serialize", "bytes of write_packet_X"])
p("C06","Reliable ordered messages are delivered in order, once, without gaps",
 "Whatever order, repetition or delay the network imposes, the receiver hands out reliable ordered messages exactly in the sender's order, each at most once and unmodified, and hands a message out as soon as it and all its predecessors have arrived.",
 "schedules inputs","for all arrival orders and repetitions of arbitrary 24-bit order indices within the stated number of arrivals, mixed with any other traffic, flushed at any points",
 "Tests insert one or two fixed orders; the guarantee is about all orders.",
 ARQ, [("RecvQ::insert / RecvQ::flush ordered queue", ARQ)], ["RecvQ::flush output after RecvQ::insert"])
p("C07","Sequenced messages never go backwards",
 "A sequenced message is delivered when it is newer than every sequenced message that arrived before it, and dropped otherwise, whatever arrives in whatever order; other traffic does not influence it.",
 "schedules inputs","for all sequences of arbitrary 24-bit sequence indices within the stated number of arrivals, both sequenced reliabilities, mixed with other traffic",
 "Tests use consecutive numbers in one order.",
 ARQ, [("RecvQ::insert sequenced branch", ARQ)], ["RecvQ::flush output"])
p("C08","Unordered messages are delivered at once, once per datagram, unmodified",
 "Unreliable and reliable unordered messages are handed out at the next opportunity, exactly once per received datagram and unmodified, whatever is still being held back for ordering or reassembly. A retransmission of a reliable message that had already arrived is not delivered again.",
 "schedules inputs","for all datagram numbers, payload bytes and interleavings with incomplete ordered and fragmented messages within the stated number of arrivals",
 "Tests deliver one such message to an empty queue.",
 ARQ, [("RecvQ::insert / flush", ARQ)], ["RecvQ::flush output"],
 note="The second sentence is known not to hold (see known_findings.json): the library keeps no record of reliable message numbers, and an existing test depends on that.")
p("C09","Fragmented messages are reassembled exactly",
 "A message split into fragments is delivered exactly once, as the concatenation of its fragments in their order, once all have arrived, for every arrival order and any duplicated fragments, with several messages interleaved; nothing of it stays behind. Fragment headers with arbitrary numbers cannot crash the receiver or corrupt other messages.",
 "schedules inputs","for all arrival orders and repetitions of the fragments of up to three interleaved messages, all fragment content bytes; and for all hostile fragment headers",
 "The test reassembles one message of three fragments in a fixed order.",
 f"{FR} {ARQ}", [("FragmentQ::insert / flush", FR), ("RecvQ::flush", ARQ)], ["RecvQ::flush output"])
p("C10","Acknowledgements cover exactly what was received",
 "Every received datagram, whatever it contains, is acknowledged in the next acknowledgement; nothing that was not received is acknowledged; and no acknowledgement is repeated without a new arrival.",
 "schedules inputs","for all sequences of arbitrary 24-bit datagram numbers (repeats and any order) and report points within the stated number of arrivals",
 "Tests acknowledge a few consecutive numbers; merging of ranges depends on the order of arrival.",
 ARQ, [("ACKSet::insert / get_ack", ARQ), ("RecvQ::insert", ARQ)], ["RecvQ::get_ack"])
p("C11","Missing datagrams are reported, received ones are not re-requested",
 "When a later datagram arrives first, every skipped number is reported missing in the next report, once; a number that had been received, or lies beyond the newest one, is never reported missing.",
 "schedules inputs","for all sequences of arbitrary datagram numbers and report points within the stated number of arrivals",
 "The tests have one gap.",
 ARQ, [("ACKSet::insert / get_nack", ARQ)], ["RecvQ::get_nack"], note="Number 0 is never reported missing (it is covered by the retransmission timeout); a number arriving late but before the report may be reported.")
p("C12","Sent datagrams fit the negotiated MTU and partition the message",
 "A message of any size sent reliable ordered leaves as datagrams that each fit the MTU, and whose payloads concatenated in fragment order are exactly the message, numbered consistently. This holds for every MTU a peer can announce, and the receiving side reassembles the message.",
 "inputs configurations","for message lengths around every fragment boundary up to the stated count, and every 16-bit announced MTU in the stated windows",
 "Tests send one size at one MTU.",
 ARQ, [("SendQ::new, SendQ::insert fragmentation", ARQ)], ["SendQ::flush output", "RecvQ::flush output"])
p("C13","Oversized unordered messages are refused without side effects",
 "A message too large for one datagram is refused with PacketSizeExceedMTU for every reliability that cannot be split, and accepted up to exactly that limit. A refused message sends nothing and leaves the numbering of later messages untouched.",
 "inputs","for payload lengths around and far beyond the limit, the four unsplit reliabilities",
 "Tests never exceed the limit, nor look at what a refusal leaves behind.",
 ARQ, [("SendQ::insert length checks", ARQ)], ["SendQ::insert result", "SendQ::flush output"])
p("C14","Reliable messages are retained until acknowledged",
 "A reliable message keeps being sent until one of its transmissions is acknowledged, and only that makes the sender forget it; acknowledged and unreliable messages are never sent again. This holds for every order of acknowledgements, negative acknowledgements and waits.",
 "histories schedules","for all histories of symbolic acknowledgements, negative acknowledgements and waits within the stated number of steps, for all mixtures of reliabilities",
 "The tests acknowledge everything, in order.",
 ARQ, [("SendQ::flush / ack / nack / tick", ARQ)], ["SendQ::flush output", "SendQ::is_empty"])
p("C15","Unacknowledged messages are retransmitted on time",
 "A reliable message that stays unacknowledged is sent again at the first opportunity after its retransmission timeout, and never before; the timeout grows by half with each retransmission.",
 "inputs schedules","for all clock values and waits (symbolic), over the stated number of retransmissions, with and without a measured round trip",
 "Tests sleep for one fixed time.",
 ARQ, [("SendQ::tick, SendQ::flush", ARQ)], ["SendQ::flush output against the clock"])
p("C16","The retransmission timeout stays within its bounds",
 "Whatever round trips are measured - including zero, negative (clock steps) and absurdly long ones - the retransmission timeout stays between 50 ms and 12 s.",
 "inputs histories","for all round-trip measurements within the stated ranges",
 "Tests measure the loopback round trip only.",
 ARQ, [("SendQ::update_rto", ARQ)], ["SendQ::get_rto"])
p("C17","Reported losses are retransmitted at once",
 "A reliable datagram that the peer reports missing, or that a later acknowledgement overtakes, is sent again at the next opportunity without waiting for its timeout; nothing else is.",
 "schedules inputs","for all mixtures of three messages, all symbolic ranges reported missing and acknowledged numbers",
 "The tests look at one negative acknowledgement, in one state.",
 ARQ, [("SendQ::nack, SendQ::ack", ARQ)], ["SendQ::flush output"])
p("C18","Datagram numbers are never reused",
 "Every datagram sent, retransmissions included, carries a number greater than all numbers sent before; a retransmission keeps its message numbers and content.",
 "histories schedules","for all histories of acknowledgements, negative acknowledgements and waits within the stated number of steps",
 "Tests look at the first transmissions only.",
 ARQ, [("SendQ sequence_number", ARQ)], ["SendQ::flush output"], note="Fewer than 2^24 datagrams: the library does not wrap its numbers.")
p("C19","Messages are numbered consecutively per kind",
 "Reliable, sequenced and ordered message numbers each count up by one from zero with every message that uses them and no other, fragments share their message's order number and compound id, and concurrent messages have different compound ids. Numbering goes on correctly past 65 536 messages.",
 "histories inputs","for all sequences of kinds of message within the stated length, any flush points; 65 538 split messages in one long run",
 "Tests number at most two messages; the 16-bit compound id wraps only after 65 536.",
 ARQ, [("SendQ::insert", ARQ)], ["SendQ::flush output"])
p("C20","Messages get through a lossy network",
 "Over a network that loses, repeats, delays and reorders datagrams and acknowledgements and then recovers, every reliable message reaches the receiver unmodified, ordered ones exactly once in order, sequenced ones never backwards; and the sender ends up with nothing outstanding.",
 "schedules fault_sequences","for all sequences of the stated number of loss, duplication, reordering, acknowledgement-loss and timeout events over up to three messages",
 "The tests run over loopback with at most a random loss rate; they see one schedule per run.",
 ARQ, [("SendQ and RecvQ together", ARQ)], ["RecvQ::flush output", "SendQ::is_empty"])
NET="the tokio model of /verif/model replaces the runtime; no hook in the crate"
p("C21","A hostile datagram cannot take a connection down",
 "Whatever bytes arrive on an established connection (other than a disconnect), the connection stays open, none of its tasks dies, and messages that follow are still delivered and sent.",
 "inputs","for all datagrams of the stated length and kinds with symbolic content, followed by a normal message",
 "Tests exchange well-formed packets only.",
 f"{SO} {ARQ}", [("receiver task error handling", SO)], ["recv / send after the datagram"], hook=NET)
p("C22","Control traffic is answered and never shown to the user",
 "Connected pings are answered with a pong carrying the ping's time, connection requests and acceptances with the next handshake message; none of these is delivered to the user as a message, and user messages never trigger a reply.",
 "inputs","for all time stamps and addresses, every control message, in any reliability",
 "The handshake is tested once end to end, with one peer.",
 SO, [("RaknetSocket::handle", SO)], ["datagrams sent, recv"], hook=NET)
p("C23","send() validates its input and never panics",
 "send() accepts exactly non-empty messages that start with 0xfe on an open connection and returns an error otherwise - on a closed or closing connection too, at any moment of the close; a refused message is not transmitted.",
 "inputs schedules","for all first bytes, lengths around the limits, all reliabilities, connection open or closed at any step",
 "Tests send valid messages on open connections.",
 SO, [("RaknetSocket::send", SO)], ["result of send, datagrams sent"], hook=NET)
p("C24","Closing a connection ends it for both sides",
 "After close() (or its second call) the peer is told with a disconnect, send() and recv() return ConnectionClosed once delivered messages are drained, and all tasks of the connection terminate.",
 "schedules","for all points at which close() is called relative to traffic and all task orders within the bounds",
 "Tests close once in one schedule.",
 SO, [("RaknetSocket::close, start_tick, start_sender", SO)], ["datagrams sent, results of send / recv, live tasks"], hook=NET)
p("C25","A disconnect from the peer closes the connection",
 "When the peer disconnects - by a raw datagram or inside a frame of any reliability - the connection closes: messages delivered before it can still be received, then recv() and send() return ConnectionClosed.",
 "schedules inputs","for both forms of disconnect, all reliabilities, at any point relative to other messages within the bounds",
 "Tests look at the recv() error only in one order.",
 SO, [("start_receiver, RaknetSocket::handle, RaknetSocket::recv", SO)], ["results of recv / send"], hook=NET)
p("C26","flush() returns only when everything is acknowledged",
 "flush() on an open connection returns success only once every reliable message sent before has been acknowledged, and returns ConnectionClosed if the connection closes first; it does not wait when nothing is outstanding.",
 "schedules","for all orders of acknowledgement, close and polling within the bounds",
 "The test waits once on loopback.",
 SO, [("RaknetSocket::flush", SO)], ["return of flush against the acknowledgements delivered"], hook=NET)
p("C27","Only idle connections time out",
 "A connection on which nothing has been received for more than 60 s is closed within one tick; as long as frames or acknowledgements keep arriving more often it is never closed by the library.",
 "schedules inputs","for all symbolic arrival gaps up to and beyond 60 s within the stated number of arrivals",
 "No test waits a minute.",
 SO, [("start_tick RECEIVE_TIMEOUT, last_heartbeat_time", SO)], ["is the connection open after the gap"], hook=NET)
p("C28","connect() completes the handshake and only then",
 "connect() returns a connection exactly after the peer has answered every step; it repeats a request whose answer is lost or is something else, answers an incompatible version with NotSupportVersion, malformed answers and a connection that ends before it was accepted with an error, and never panics on any answer.",
 "inputs schedules fault_sequences","for all answers with symbolic content at each step, losses and repeats of each within the bounds",
 "Tests connect to a cooperative local server.",
 SO, [("RaknetSocket::connect_with_version", SO)], ["result of connect, datagrams sent"], hook=NET)
p("C29","Dropping a connection closes it and frees its tasks",
 "When the last handle of a connection is dropped the connection closes as by close(): the peer is told and all its tasks terminate, at whatever moment the drop happens.",
 "schedules","for all drop points relative to traffic and all task orders within the bounds",
 "Tests never count tasks.",
 SO, [("Drop for RaknetSocket, drop_watcher", SO)], ["datagrams sent, live tasks"], hook=NET)
p("C30","A hostile datagram cannot stop the listener",
 "Whatever bytes arrive at a listener from whatever address, known or unknown, it goes on answering pings and accepting connections, and existing sessions of other addresses go on working.",
 "inputs","for all datagrams of the stated lengths and kinds with symbolic content, followed by a ping and a connection attempt",
 "Tests send well-formed packets only.",
 SE, [("RaknetListener::listen worker", SE)], ["pong / reply after the datagram"], hook=NET)
p("C31","Ping is answered with the current MOTD and a sane latency",
 "A listener answers each unconnected ping with a pong carrying its id and MOTD; ping() returns that MOTD and the time between its own ping and the pong on the local clock, retries when nothing or something else comes back, and never panics on any answer.",
 "inputs schedules","for all answers with symbolic content, all round-trip times and remote clocks",
 "The test pings once on loopback with synchronous clocks.",
 f"{SO} {SE}", [("RaknetSocket::ping", SO), ("listen worker UnconnectedPing", SE)], ["result of ping, datagrams sent"], hook=NET)
p("C32","Protocol versions are negotiated per peer",
 "A connection request with a supported protocol version is answered with a reply announcing the library's MTU and is recorded for exactly that peer; any other version is answered with an incompatible-version message naming the server's version, and creates nothing.",
 "inputs","for all 256 versions, any padding, several peers in any order",
 "Tests use two versions, one peer.",
 SE, [("listen worker OpenConnectionRequest1, version_map", SE)], ["datagrams sent, get_peer_raknet_version"], hook=NET)
p("C33","One session per address, isolated from the others",
 "A connection request from a connected address is answered with already-connected - except a repetition of the request that created the session, which is answered again - and does not disturb the session; datagrams reach the session of their source address and no other; when a session ends its address can connect again.",
 "schedules inputs","for all interleavings of requests, data and disconnects of two peers within the bounds",
 "Tests run one or two clients sequentially.",
 SE, [("listen worker sessions map, session collector", SE)], ["datagrams sent, accept, recv"], hook=NET)
p("C34","Closing a listener closes its sessions and returns",
 "close() tells every connected peer, closes every session, makes accept() return an error, frees its address and itself returns, whether or not listen() was ever called or called twice; a second close() returns at once and local_addr() afterwards is an error, not a panic.",
 "schedules","for all numbers of sessions within the bounds and all task orders and points of close",
 "Tests close once with one session.",
 SE, [("RaknetListener::close, session collector", SE)], ["results of close / accept / local_addr, datagrams sent"], hook=NET)
p("C35","Construction completes under every task order",
 "bind(), connect() and accepting a connection never wait for one of the library's own helper tasks to have been scheduled first: they complete whatever order the runtime runs tasks in.",
 "schedules","for both orders at every task creation and both branches at every select",
 "Tests run one order, that of the test machine.",
 f"{SO} {SE}", [("drop_watcher, Notify handshakes", SO)], ["completion of bind / connect / accept"], hook=NET)
p("C36","A slow consumer does not stop other connections",
 "An application that does not read from one connection, or does not accept connections, does not keep the listener from serving the other connections and pings; connections nobody accepted in time can still be made later.",
 "schedules","for queue lengths up to and beyond the library's channel capacities",
 "Tests always read.",
 SE, [("listen worker channel sends under the sessions lock", SE)], ["pong after the queue is full"], hook=NET,
 note="A connection nobody reads from does stop the listener once 110 messages are waiting (see known_findings.json).")
p("C37","A client and a server of this library understand each other",
 "A connect() to a listener of this library yields, on both sides, a connection over which messages of every reliability arrive unmodified, over a network that may lose, repeat or reorder handshake and data datagrams; closing one side closes the other.",
 "schedules fault_sequences inputs","for all payload bytes, loss or duplication of each single datagram, and both task orders at each spawn within the bounds",
 "Tests run over a loss-free loopback in one schedule.",
 f"{SO} {SE} {ARQ} {PK}", [("connect, listen, start_receiver, start_tick, start_sender", SO)], ["send / recv on both sides"], hook=NET)
p("C38","No data race or deadlock on the multi-threaded runtime",
 "Concurrent use of one connection or listener from several threads never deadlocks, loses a wake-up or corrupts state.",
 "schedules","for all thread schedules of the real tokio runtime",
 "Tests see the schedules the machine happens to produce.",
 f"{SO} {SE}", [("tokio Mutex / RwLock / Notify / Semaphore usage", SO)], [], hook=None,
 na="The schedules are those of tokio's multi-threaded scheduler and of its lock-free primitives; encoding that runtime's code with real threads is out of reach of the symbolic engine. The checks explore task orders at await points on a single-threaded model of the runtime instead (C21-C37).")
p("C39","Hostile traffic costs bounded time and memory",
 "A peer cannot make the library use memory or time out of proportion to the bytes it sends.",
 "inputs histories","for all histories of datagrams",
 "Tests send little.",
 f"{ARQ} {SE}", [("queue growth, acknowledgement ranges", ARQ)], [], hook=None,
 na="Does not hold by design (an ACK record of 7 bytes names 2^24 numbers, queues are unbounded) and a cost bound is a statement over unbounded histories, which bounded symbolic execution cannot decide.")
p("C40","A datagram that cannot be sent is a lost datagram",
 "When the operating system refuses to send a datagram, nothing more happens than if the network had lost it: connections, handshakes, closing and listeners go on, no task dies, reliable messages are sent again.",
 "fault_sequences","for every subset of the stated number of consecutive sends failing, in each phase",
 "Sends over loopback never fail.",
 f"{SO} {SE}", [("RaknetSocket::sendto and its callers", SO), ("send_to calls of the listen worker and the session collector", SE)], ["behaviour after failing send_to calls"], hook=NET)
p("C41","Every frame of a datagram is processed",
 "A datagram that carries several frames has the effect of its frames arriving one by one: each message is delivered exactly once and unmodified, in the order of the frames, control messages among them are answered, and empty or unknown ones disturb nothing; the datagram is acknowledged by its number.",
 "inputs","for any one frame of the datagram being any of the stated kinds, with any content byte, at any position",
 "This library sends one frame per datagram, so the tests never see two.",
 f"{SO} {PK} {ARQ}", [("start_receiver", SO), ("FrameVec::new", PK)], ["recv / datagrams sent"], hook=NET)
p("C42","Calls can be made concurrently and abandoned",
 "Several calls of send() or recv() on one connection can be under way at once, and any call of send, recv, flush or accept can be abandoned (its future dropped, as by a timeout or select!) at any moment: each message is sent or received whole and at most once, no message or connection that was not handed to an abandoned call is lost, ordered messages have consecutive order numbers, and the connection goes on.",
 "schedules","for all interleavings of polls, drops and tasks within the stated number of steps",
 "Tests await every call, one after the other.",
 f"{SO} {SE}", [("RaknetSocket::send / recv / flush", SO), ("RaknetListener::accept", SE)], ["datagrams sent, results of recv and accept"], hook=NET)
p("C43","Loss is reported promptly; reports take full effect",
 "Every datagram of frames is acknowledged at once by its number, a missing one is reported within 100 ms and nothing else ever is; every record of an incoming ACK or NACK takes effect for exactly the numbers it names: what is acknowledged is not sent again, what is reported missing is sent again at the next tick.",
 "histories inputs","for all subsets of datagrams missing or late and all pairs of ranges within the bounds",
 "Tests of the two queues never look at what a connection sends, and when.",
 f"{SO} {ARQ}", [("start_receiver, start_tick", SO), ("RecvQ::get_ack / get_nack, SendQ::ack / nack", ARQ)], ["datagrams sent after each datagram and tick"], hook=NET)
p("C44","Loss is simulated only on demand",
 "A connection discards none of its datagrams, outgoing or incoming, however many at once, unless set_loss_rate() has asked for it: what is sent appears on the wire once, what arrives is delivered and acknowledged once. With a stage set each outgoing datagram is sent or discarded, incoming ones are not affected, reliable messages still get through, and stage 10 ends the simulation.",
 "inputs schedules","for all stages and all outcomes of the random draws within the bounds",
 "The tests that simulate loss cannot tell a datagram discarded wrongly from one discarded on purpose.",
 SO, [("set_loss_rate, sendto", SO)], ["datagrams sent"], hook=NET)
p("C45","Logging changes nothing",
 "Whatever flags are given to enable_raknet_log(), connections behave as without logging: no message is lost, no task dies, no value that is printed can stop the library.",
 "inputs histories","for all flag values of the stated set and every branch of the stated history",
 "Logging is off in nearly all tests.",
 f"src/log.rs {SO}", [("raknet_log_* macros", "src/log.rs"), ("statistics printed by start_tick", SO)], ["recv / datagrams sent with logging on"], hook=NET)
p("C46","A connection listens to its peer only",
 "Datagrams from any other address than the peer's have no effect on a connection: they deliver, acknowledge and end nothing and are no sign of life; nor do they on a connection being established, once the server has answered the first request.",
 "inputs schedules","for datagrams of the stated kinds and arbitrary short content from addresses that differ from the peer's in host, port or family",
 "In the tests nobody else is there.",
 f"{SO} {SE}", [("RaknetSocket::connect_with_version receive loops", SO), ("listen worker sessions map", SE)], ["recv / send, datagrams sent, result of connect"], hook=NET)
p("C47","IPv6 peers are served like IPv4 ones",
 "connect() and ping() reach servers at IPv6 addresses, sessions and version negotiation work for peers at IPv6 addresses, and messages are exchanged in both directions, exactly as with IPv4.",
 "inputs schedules","for every server MTU, version, loss and clock value within the bounds, with all addresses IPv6",
 "No test uses an IPv6 address.",
 f"{SO} {SE} src/datatype.rs", [("RaknetSocket::connect_with_version, ping: bind", SO), ("listen worker", SE), ("read_address / write_address", "src/datatype.rs")], ["result of connect, ping and accept, datagrams sent"], hook=NET)
p("C48","The calls of listeners and connections do what they say in any order",
 "A listener can be made from an address or from a standard socket (which it makes non-blocking); an address that is in use cannot be bound (BindAdressError), that of a closed listener can. Before listen() and after close(), accept() returns NotListen and no peer is answered; listen() acts once, and never after close(); the motd can be set and read at any time, and only listen() fills in a default, if it is empty. local_addr() is the bound address until close(). A connection's send(), recv() and flush() succeed or wait while it is open and report ConnectionClosed after it ends, recv() only after the messages that were received before; close() always succeeds; addresses and version never change.",
 "histories","for every sequence of calls and peer actions within the stated length",
 "The calls are tested in the one order of the examples.",
 f"{SE} {SO}", [("RaknetListener::bind / from_std / listen / accept / set_motd / local_addr / close", SE), ("RaknetSocket::send / recv / flush / close / peer_addr / local_addr", SO)], ["results of the public API, datagrams sent"], hook=NET)
