#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (one place to edit the property texts)."""
import json, os
H="src/broker/client_packet_handler.rs"; L="src/mqtt/listener.rs"; M="src/broker/messaging/messaging_service.rs"
S="src/broker/messaging/subscriptions_repository.rs"; D="src/mqtt/transport/packet_decoder.rs"; E="src/mqtt/transport/packet_encoder.rs"
B="src/mqtt/transport/mqtt_bytes_stream.rs"; A="src/broker/authentication.rs"; AP="src/application.rs"; ST="src/settings/mod.rs"
SE="src/broker/session/session_entity.rs"; SR="src/broker/session/session_repository.rs"; P="ratelmq-passwd/src/main.rs"
props=[]
def p(id,title,statement,over,text,why,files,mech,state=(),observe=("bytes on the client's TCP connection",),hook=None):
    assert len(title)<=80,title
    props.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,state=[dict(name=a,meaning=b,where=c) for a,b,c in state],
      mechanism=[dict(name=a,where=b) for a,b in mech],observe_at=list(observe),hook_needed=hook)))

p("C01","Every publish reaches exactly the connected, matching subscribers",
 "When a connected client publishes a message, every client that is connected and holds a matching subscription at the moment the broker handles it (including the publisher itself) receives it with topic and payload unchanged, at least once and at most once per matching filter it holds. No other connection receives it, and nobody receives a message nobody published.",
 ["histories","schedules","inputs"],"every interleaving of connects, subscribes, unsubscribes, publishes and departures of several clients, and every task schedule of the broker that can carry them",
 "The tests never start a broker: they call the subscription tree with a few hand-picked filters; no test publishes a message, has two connected clients, or runs the packet handler, messaging service or connection tasks.",
 [H,M,S,L],[("publish fan-out: look up the subscribers' outgoing queues, copy the packet to each",H+" on_publish"),("subscription lookup",S+" subscribed_clients"),("session lookup of each subscriber's queue",M+" senders_to_publish")],
 [("subscription tree","client ids per filter",S),("sessions","client id -> outgoing queue",SR)])
p("C02","Topic filters match topics by the MQTT level rules",
 "A subscription receives a message exactly when its filter matches the topic: levels are separated by '/', '+' stands for exactly one level (possibly empty), a final '#' stands for the remaining one or more levels, every other level must be equal byte for byte and case-sensitively, and a filter whose first level is a wildcard never matches a topic starting with '$'. The MQTT rule that 'x/#' also matches 'x' itself is a known deviation that the project's own test pins.",
 ["inputs","programs"],"all filters and all topics over a small alphabet of levels (ordinary, empty, wildcard, $-prefixed, differing in case or prefix) up to four/five levels, alone and in combination with other filters in the same tree",
 "11 unit tests sample about 30 filter/topic pairs; none has empty levels, '$' topics, case differences, or leftovers of earlier subscriptions in the tree.",
 [S,M],[("descent over the tree following the literal, '+' and '#' child at each level",S+" subscribed_clients"),("insertion splits the filter at '/'",S+" subscribe")],[("subscription tree","one node per filter level",S)])
p("C03","One publisher's messages reach each subscriber in publishing order",
 "For every publisher connection and every subscriber, the messages of that publisher that the subscriber receives arrive in the order they were published, every copy of an earlier message before any copy of a later one. This holds under any task schedule, any number of other publishers, and any back-pressure from the subscriber.",
 ["schedules","histories"],"all schedules up to the deviation bound of scripts with several publishers and subscribers, pipelined bursts longer than the internal queues, and readers that stall and resume",
 "Ordering is a property of schedules; no test runs two tasks or sends two messages.",
 [L,H,M],[("one reader task per connection forwards packets in order into one queue",L+" connection_read_loop"),("a single handler task processes that queue sequentially",H+" run"),("one FIFO queue and one writer task per connection",L+" connection_write_loop")],
 [("client event queue","all clients' packets, FIFO",AP),("server event queue","per connection, FIFO",L)])
p("C04","A client's subscriptions behave as a set of filters",
 "Subscribing again to a filter the client already holds changes nothing about what is delivered: one subscription remains, so one copy per message. UNSUBSCRIBE ends exactly the named filters of exactly that client, completely and with effect no later than its UNSUBACK, whatever sequence of subscribes preceded it; other filters and other clients' subscriptions are untouched, and naming a filter that is not held is harmless.",
 ["histories"],"all sequences of SUBSCRIBE and UNSUBSCRIBE (single and multi-filter packets, duplicates inside one packet, prefix-related and wildcard filters) by two clients up to a depth, probed by publishes after every step",
 "No test calls unsubscribe at all, none subscribes the same client twice to a filter.",
 [S,H,M],[("list of client ids per tree node",S+" subscribe/unsubscribe"),("one operation per filter in a packet",H+" on_subscribe")],[("clients of a node","who holds the filter",S)])
p("C05","Every request gets exactly its reply, in request order",
 "On an accepted connection the first packet the broker sends is CONNACK (accepted, session-present 0), and then each SUBSCRIBE is answered by exactly one SUBACK with the same packet id and one granted-QoS-0 code per requested filter, each UNSUBSCRIBE by exactly one UNSUBACK with the same packet id, and each PINGREQ by exactly one PINGRESP, in the order the requests were sent. No reply appears that was not requested on that connection.",
 ["histories","schedules"],"all request sequences up to a depth on one or two connections, pipelined or one by one, interleaved with deliveries, under all schedules up to the deviation bound",
 "The tests encode single reply packets but never make the broker produce one.",
 [H,L,E],[("handler answers on the queue of the connection the request came from",H+" on_connect/on_subscribe/on_unsubscribe/on_ping_req"),("one FIFO per connection",L)])
p("C06","Nothing of a session survives its end",
 "When a client's connection ends - by DISCONNECT, by closing or resetting the connection, or because the broker closed it for a protocol error - its session and all its subscriptions are discarded and the broker closes its side of the connection. A later connection, with the same or another client id, starts with session-present 0 and no subscriptions and receives only messages matching filters it subscribed to itself.",
 ["histories","schedules","fault_sequences"],"all ways of ending a connection at every point of a history (also mid-packet), followed by every reuse of the id, under all schedules up to the deviation bound",
 "One unit test removes a client from the subscription tree; no test has a session, a connection or a reconnect.",
 [L,H,M,S],[("end of the reader task is reported as connection loss",L+" connection_read_loop"),("removal of session and subscriptions",M+" connection_lost/disconnect"),("removal of a client from every node",S+" remove_client")])
p("C07","A reused client id takes over cleanly; the old connection is inert",
 "When a client connects with an id that another live connection uses, the broker closes the older connection and the newer one is served normally with a fresh session. Nothing the older connection sent or does afterwards (queued packets, DISCONNECT, close) changes the newer one's session, subscriptions or connection, and from then on the older one receives no deliveries, whatever the schedule.",
 ["schedules","histories"],"all interleavings of two or three connections sharing an id, with packets still queued and closes racing the new CONNECT, up to the deviation bound",
 "Needs two connections with one id and a race between them; the tests have neither.",
 [H,M,L,SR],[("session replaced and older queue told to disconnect",H+" on_connect"),("packets are honoured only from the connection that owns the session",H+" run"),("sessions keyed by client id",SR)],[("session.sender","identity of the owning connection",SE)])
p("C08","A named user is admitted exactly with the password on file",
 "A CONNECT that carries a user name is accepted if and only if the credential file has an entry for exactly that name and the presented password verifies against the hash in it; in every other case (unknown user, wrong, empty or missing password, unusable hash) it is answered with CONNACK 'not authorized', session-present 0, and the connection is closed. A CONNECT without user name is accepted as anonymous.",
 ["inputs","configurations"],"all pairs of user name and password over small colliding alphabets (prefixes, case variants, empty, another user's password, containing ':') against credential files of several users, first/middle/last entries, duplicates and corrupt hashes",
 "No test authenticates anybody or loads a credential file.",
 [A,H,D],[("credential map parsed from the file",A+" FileIdentityManager::new"),("argon2 verification",A+" authenticate"),("refusal",H+" on_connect")],[("passwords_by_username","user -> password hash",A)])
p("C09","Without an accepted CONNECT a connection has no effect",
 "Packets on a connection take effect only between an accepted CONNECT and the end of its session. Whatever is sent instead of a first CONNECT, after a refused CONNECT, or after DISCONNECT creates no session or subscription, delivers no message to anyone, receives no reply except the refusal itself, and the broker closes that connection.",
 ["histories","schedules"],"all short packet sequences on a connection that is not (or no longer) accepted, pipelined in one segment or sent step by step, while other clients watch, under all schedules up to the deviation bound",
 "No test drives a connection through the handler; authentication and the listener are untested.",
 [L,H,M],[("first packet must be CONNECT",L+" connection_read_loop"),("packets are honoured only from the connection that owns the session",H+" run"),("refusal",H+" on_connect")])
p("C10","Meaning of a byte stream does not depend on TCP segmentation",
 "However the network splits or coalesces the bytes of a client's packets, the broker decodes the same packets with the same contents and reacts in the same way and order. Every well-formed packet consumes exactly the bytes it declares (including CONNECT with a will, whose fields never leak into the following packet).",
 ["inputs","schedules"],"every placement of up to two (three) cuts, the byte-by-byte split and full coalescing of streams holding every packet type, and all alignments of packet boundaries to the 4096-byte read buffer",
 "Each decoder test writes one whole packet in one piece and reads one packet; none has a second packet behind it or data that arrives in parts.",
 [B,D,L],[("wait until enough bytes are buffered, then consume",B+" wait_for_data/get_bytes"),("decode one packet at a time",D+" read_packet")],[("read_buffer","bytes received and not yet consumed",B)])
p("C11","Malformed input is contained to the connection that sent it",
 "No byte sequence a client sends can crash, stop or hang the broker or any of its tasks, or affect another client: valid packets before the first malformed one are honoured, the malformed one and everything after it on that connection is not interpreted, and that connection ends with its session discarded. All other clients continue to be served.",
 ["inputs","histories"],"all short byte strings over a critical alphabet, all first bytes, all truncations and all single-byte substitutions of valid packets, before and after a valid CONNECT",
 "No test feeds the decoder anything malformed.",
 [D,L,B,"src/mqtt/packets/mod.rs"],[("decoder returns an error for malformed packets",D),("reader task ends on a decoding error and reports the loss",L+" connection_read_loop")])
p("C12","Outgoing packets are complete and intact under any back-pressure",
 "Whatever amounts the network accepts per write and however slowly the client reads, the bytes a client receives are exactly the concatenation of the complete encodings of the packets sent to it, in order; once the client has drained its connection no part of a packet is withheld waiting for later traffic.",
 ["fault_sequences","schedules","inputs"],"all patterns of partial writes and stalls up to a bound, and all packet-size alignments with the 4096-byte write buffer",
 "Encoder tests write one small packet into an idle loopback socket, where a write is never partial.",
 [B,E,L],[("buffer filled by put_*, drained when full and at the end of each packet",B+" put_bytes/finish_packet")],[("write_buffer","encoded bytes not yet accepted by the socket",B)])
p("C13","Messages of every size pass through unchanged",
 "A message of any topic length (1..65535) and any payload size up to the MQTT packet limit is accepted and delivered with topic and payload identical byte for byte and a remaining-length field that is the shortest correct encoding. In particular nothing changes at multiples of the 4096-byte buffers or where the length field grows from one to two, three or four bytes.",
 ["inputs"],"all payload sizes 0..N contiguous, all sizes around every power-of-128 and buffer boundary, all alignments of a packet with the read/write buffer, topic lengths around 127/128, 4096, 65535",
 "Tests use bodies of 9 bytes.",
 [D,E,B],[("remaining length decoding/encoding",D+" decode_remaining_length / "+E+" encode_remaining_length"),("chunked copies through fixed-capacity buffers",B)])
p("C14","No client can stop the broker from serving the others",
 "As long as a client keeps reading its own connection, the broker keeps answering its requests and delivering messages to it, whatever other clients do: connect and stay silent, send half a packet, stop reading, vanish, or flood. The broker never deadlocks.",
 ["schedules","fault_sequences","histories"],"all combinations of stalled, silent, half-sent, vanished and flooding clients with a well-behaved pair, under all schedules up to the deviation bound, backlog up to beyond every internal queue",
 "Needs several live connections and back-pressure; no test has one.",
 [H,L,M,AP],[("bounded queues between reader, handler, messaging and writer tasks",AP+", "+L),("one writer task per connection decouples slow sockets",L+" connection_write_loop")])
p("C15","An interrupt stops the broker in every state",
 "When the broker receives the interrupt signal at any moment - idle, during a connect, with packets queued, while delivering - it stops accepting connections and terminates normally within finitely many steps, without a crash and without sending malformed or unsolicited data to any client.",
 ["schedules","histories"],"the interrupt injected at every scheduling point of several client histories, all schedules up to the deviation bound and both outcomes of every race between the signal and a packet",
 "No test starts or stops the application.",
 [AP,H,L,M],[("broadcast of the stop signal to listeners and handler",AP+" run"),("handler drops its messaging queue so that the messaging service ends",H+" run / "+M+" run")])
p("C16","The broker survives every history of well-formed packets",
 "No sequence of well-formed packets, on any number of connections and in any order - including packets a client should not send at that point, repeated DISCONNECT or CONNECT, packets for ended sessions, and packet kinds the broker does not support - crashes or blocks any part of the broker; a connection that sends a second CONNECT is closed. Afterwards new clients can connect, subscribe and exchange messages.",
 ["histories","schedules"],"all sequences of packets of every kind over two connections up to a depth, with and without closes, followed by a fresh publisher/subscriber pair; racing variants under all schedules up to the deviation bound",
 "No test sends the broker any packet.",
 [H,L,M],[("handler tolerates clients whose queues are gone",H),("unsupported packets are ignored",H+" on_packet")])
p("C17","The password tool keeps the credential file an exact user map",
 "After any sequence of runs, the credential file maps exactly the users that were added and not deleted to the password last set for each, as judged by the broker's own authentication: setting or deleting one user never changes, damages, duplicates or removes another user's entry, names are distinguished exactly (case, prefixes, suffixes, regex characters), and the file stays loadable - readable by whoever could read it before, whether or not its last line ended in a newline.",
 ["histories","inputs"],"all sequences of set/delete operations up to a depth over user names that are prefixes, suffixes and case variants of each other and contain regex metacharacters, from empty, newline-terminated and unterminated files",
 "The tool has no tests.",
 [P,A],[("locate the user's line and replace, delete or append",P+" main"),("broker side parser",A+" FileIdentityManager::new")],[("credential file","one user:hash line per user",P)],("credential file contents","authentication result"))
p("C18","A crash while editing credentials never damages the old file silently",
 "If the password tool is interrupted at any point of its run - killed, stopped by a failing system call, or by a power failure - the credential file afterwards holds either exactly its previous content or exactly the complete new content.",
 ["crash_points"],"a kill before every system call and after every torn prefix of every write, every file system call failing, and content that was never synced at any point, for add, update and delete",
 "No test runs the tool, let alone interrupts it.",
 [P],[("the file is read, edited in memory and written back",P+" main")],[("credential file","",P)],("credential file contents after the crash",))
p("C19","Environment variables override the configuration file key by key",
 "The effective value of each setting is the RATELMQ_-prefixed environment variable's value (nesting separated by '__', name in any case) if it is set, and otherwise the configuration file's; unrelated variables have no influence, overriding one setting never changes another, and a variable from a .env file counts only where the environment does not have it. If a required setting is in neither place, or the file is missing or unreadable, loading fails instead of inventing a value.",
 ["configurations"],"all combinations of each key present/absent in file and environment, values needing care (empty, with spaces, colons, '__'), upper/lower-case names, decoy variables with similar names",
 "The source has a 'todo: tests for envs precedence'; no test loads settings.",
 [ST],[("file merged first, environment second",ST+" Settings::new")],(),("effective settings returned by the loader",))
p("C20","A session expires exactly one and a half keep-alive periods after activity",
 "A session with keep-alive 0 never expires; any other session counts as expired at an instant exactly when at least 1.5 times its keep-alive has passed since its last activity, and never earlier.",
 ["inputs"],"all 65536 keep-alive values, at every instant around the deadline and at extreme distances",
 "No test covers keep-alive.",
 [SE,M],[("deadline computed from last activity",SE+" is_keep_alive_expired")],[("last_activity","",SE)],("is_keep_alive_expired",))
p("C21","Deliveries carry the granted QoS and clean per-delivery flags",
 "Every delivery to a subscriber uses QoS 0 - the only level the broker grants - whatever QoS, packet id, DUP or RETAIN flag the publisher used: no packet identifier, DUP 0, RETAIN 0, and unchanged topic and payload. A publish of any QoS is delivered.",
 ["inputs","histories"],"all combinations of publisher QoS 0-2, DUP, RETAIN, packet ids and requested subscription QoS 0-2, to one and several subscribers",
 "Tests encode and decode the flags in isolation but never forward a message.",
 [H,E,D],[("forwarding of the packet",H+" on_publish"),("encoding of flags and packet id",E+" write_publish")])
p("C22","Clients that supply no id are kept apart",
 "Each connection that supplies an empty client id gets an identity of its own: any number of such clients are connected at the same time, none replaces or disconnects another, and each has its own subscriptions and receives exactly its own messages.",
 ["histories","schedules"],"all histories up to a depth of two or three id-less clients (and one with an id) connecting, subscribing, publishing and leaving; concurrent connects under all schedules up to the deviation bound",
 "No test connects a client.",
 [L,H,SR],[("a fresh random id replaces an empty one before the session is created",L+" connection_read_loop")])
p("C23","All configured listeners serve one broker",
 "Every address in the configured listener list accepts connections, and clients exchange messages, replies and take-overs exactly as if they had connected to the same listener, whichever listeners they use.",
 ["configurations","histories","schedules"],"one to three listeners, all assignments of clients to listeners, all short histories, concurrent connects under all schedules up to the deviation bound",
 "No test starts a listener of the application.",
 [AP,L,ST],[("one accept task per configured address sharing the event queue",AP+" run")])
p("C24","Packet codec agrees with the MQTT 3.1.1 wire format",
 "Decoding the encoding of any client packet yields exactly its field values, consumes exactly its bytes, and rejects packets whose declared length, flags, QoS or text encoding are inconsistent; encoding any server packet yields exactly the bytes MQTT 3.1.1 prescribes.",
 ["inputs"],"for every packet type all combinations of flag bits, boundary packet ids (all 65536 for the id-only packets), list lengths 0..4 (and beyond one length byte), boundary-length and multi-byte UTF-8 strings; all declared lengths around the true one",
 "24 tests sample one or two packets per type.",
 [D,E,B,"src/mqtt/packets/mod.rs"],[("decoder",D+" read_packet"),("encoder",E+" write_packet")],(),("decoded packet values","encoded bytes"))
p("C25","Only valid topic names can be published to",
 "A PUBLISH whose topic name is empty or contains a wildcard character or U+0000 is a protocol violation: it is delivered to nobody, not even to a subscriber of the identical string as a filter, and the connection that sent it is closed.",
 ["inputs","histories"],"all topics over an alphabet including '+', '#' and U+0000 in every position up to four levels, against subscribers holding wildcard and identical filters",
 "No test publishes.",
 [D,S],[("topic name validation",D+" decode_publish")])
p("C26","What has ended leaves nothing behind",
 "What the broker holds depends on the clients that are connected and the filters they hold now, not on its history: once a connection has ended or was refused - however it ended and whatever it did before, including filters it subscribed and unsubscribed, ids it was replaced under and packets that waited for it - its tasks, its socket and its timers are gone, and repeating the same coming and going any number of times, with ever new ids, user names, topics and filters, takes no more memory than before.",
 ["histories","schedules"],"all rounds of up to a number of steps over three clients, repeated until growth would show; all schedules up to the deviation bound of clients that end at the same time",
 "Growth shows only over many repetitions of whole connection histories; no test runs even one.",
 [S,SR,M,L,H],[("removal of empty nodes when a filter is given up",S+" remove_unused"),("sessions of ended connections are removed",M+" connections_lost"),("reader and writer tasks end with the connection",L)],[("subscription tree","one node per level of a held filter",S),("sessions","one per connected client",SR)],("tasks, sockets and memory of the broker",))
p("C27","The broker starts completely or not at all",
 "If any part of the configuration cannot be honoured - configuration file or credential file missing, unreadable or malformed in any line, any configured listener address invalid or impossible to bind, at whatever position in the list - the broker process ends by itself with a failure and serves nobody. Otherwise every configured listener accepts connections and every user of the credential file is admitted.",
 ["configurations"],"all lists of up to three listener addresses out of valid, invalid and occupied ones in all orders; every kind of damage to the configuration file and to the credential file, at every line",
 "No test starts the application; the failures are combinations of file and network faults.",
 [AP,ST,A,H,L],[("settings, credentials and every listener are unwrapped during start-up",AP+" run"),("a line without separator is an error",A+" FileIdentityManager::new"),("bind errors are returned",L+" MqttListener::bind")],(),("whether the process runs, and its listening sockets",))
p("C28","The password tool's exit status tells what it did",
 "Every run of the password tool that is not killed ends with exit status 0 exactly if the credential file is as ordered - the user set to the given password, or absent after a deletion - and otherwise with another status, a message on the error output, and the file as it was. This holds for every user name, password and existing file, and whatever system call fails.",
 ["inputs","fault_sequences"],"every file system call of the tool failing with each of 13 errors, short reads and writes, disks with room for every number of bytes; all combinations of odd user names, passwords and files",
 "No test runs the tool, and an unreported failure needs a failing system call to show.",
 [P],[("errors of reading and writing the file are reported",P+" main")],[("credential file","",P)],("exit status and error output of the tool","credential file contents"))
p("C29","Secrets stay out of the log",
 "Whatever clients send and whatever the log level, no password that a client presents and no password hash from the credential file appears in anything the broker logs.",
 ["histories","inputs"],"all logging on: every well-formed CONNECT shape with accepted, wrong and missing credentials, malformed and repeated CONNECTs, start-up with good and damaged credential files, every history of the session checks",
 "No test looks at the log, and the leak may lie on a rare path such as a failing authentication or a protocol violation.",
 [H,L,A,D,"src/mqtt/packets/connect.rs",AP],[("packets and events are logged with their Debug representation",L+" connection_read_loop / "+H+" run")],(),("log output",))
p("C30","Memory for a connected client is bounded by what it holds and has sent",
 "What the broker holds for a connected client is its session, the filters it holds, the received part of the packet it is sending, and a bounded number of packets on their way. Nothing grows with the number of packets handled, however little a client reads, and announcing a long packet takes no memory before its bytes arrive.",
 ["histories","inputs"],"all rounds of up to a number of packets of connected clients, any of whom may have stopped reading, repeated until growth would show; every kind of packet announced with every length and cut after every number of bytes",
 "No test measures memory or keeps a broker running; growth shows only over many equal rounds, or with a client that announces and does not send.",
 [B,L,H,S],[("the buffer of a packet body grows with the received bytes",B+" get_bytes"),("bounded queues between connections and handler",L+" / "+AP)],[("subscription tree","client ids per filter",S)],("memory and tasks of the broker process",))
p("C31","Editing never opens the credentials to others",
 "Whatever the credential file's owner, group and permissions and whatever the umask: at every moment of every run of the password tool - also one that is killed or in which a system call fails - every file that holds credentials can be read or changed by nobody who could not do the same to the credential file before. After a successful run its owner, group and permissions are as they were.",
 ["crash_points","fault_sequences","configurations"],"every kind of change x owner, group and mode of the file x umask, looked at after every system call of complete runs, of runs killed at each call and of runs in which each call fails",
 "The exposure lasts for a few system calls, or remains only after a crash or a failing call; no test looks at permissions.",
 [P],[("a new file is written and renamed over the old one",P+" replace_file")],[("credential file","",P)],("owner, group and mode of every file in the folder",))
p("C32","Edits of the credential file made at the same time are not lost",
 "When runs of the password tool on one credential file overlap in any way, the file ends up as if the runs had been made one after another in some order: with the effect of every run that reported success and of none that reported failure. At every moment in between it holds all entries that nobody changes. A run that is killed neither undoes another one nor keeps later ones from working.",
 ["schedules","crash_points"],"all schedules of two and three real processes, switched at system calls up to a preemption bound, for combinations of adding, changing and deleting users; one of them killed at every point",
 "No test runs the tool, and a loss needs two runs at the same time.",
 [P],[("the file is locked from reading to replacing it",P+" lock"),("a new file is renamed over the old one",P+" replace_file")],[("credential file","",P)],("credential file contents","exit status of the tool"))
p("C33","Clients cannot forge lines of the log",
 "No text that a client sends - client id, user name, password, will, topic, filter, message or malformed packet - is written to the log, at any level, in a way that a control character of it gets there as it is: no client can end a line of the log, begin one of its own or send commands to the terminal that shows it.",
 ["inputs","histories"],"every control character in every field of every packet, with all outcomes of authentication and all ways in which a connection ends; histories of two clients with such texts in all fields",
 "No test sends a packet or reads the log; it takes an odd character in the one field that is logged carelessly, on the one path that logs it.",
 [H,L,D,A],[("user names and client ids are logged in their escaped form",H+" on_connect"),("packets are logged at debug and trace level",L)],(),("the lines of the log",))
p("C34","Only clients that speak MQTT 3.1 or 3.1.1 are admitted",
 "A CONNECT creates a session only if it names a protocol that the broker speaks (\"MQTT\" level 4, \"MQIsdp\" level 3), has the reserved flag clear and no will QoS or retain flag without a will. One of another version of MQTT is answered with return code 1 and closed, and anything else is closed without an answer; either has no effect: not on the client whose id it presents, and nothing that follows it counts.",
 ["inputs","schedules","histories"],"all names of a list of near misses x all levels x all connect flags, in any splitting, with packets behind, while a client of the same id is connected; all schedules up to the deviation bound; all histories of several such connections",
 "The decoder tests know one well-formed CONNECT.",
 [D,L,H],[("name, level and flags are checked",D+" decode_connect"),("the refusal is written before the connection is closed",L+" connection_read_loop")])
p("C35","Only valid topic filters can be subscribed to",
 "A SUBSCRIBE or UNSUBSCRIBE with a filter that is empty, contains U+0000, has '#' anywhere but alone on the last level, or has '+' beside other characters of its level, is a protocol violation: the connection that sent it is closed without an answer and no part of the packet takes effect. Every other filter is acknowledged and takes effect.",
 ["inputs","histories"],"all filters of up to four levels over an alphabet of good and bad levels, alone and at any place of lists; wildcards and U+0000 inserted at every place of longer filters; histories of two clients",
 "No test sends a SUBSCRIBE to a running broker; the tests of the subscription tree know valid filters only.",
 [D,H,S],[("filter validation",D+" validate_topic_filter")])
out="/verif/properties.jsonl"
with open(out,"w") as f:
    for x in props: f.write(json.dumps(x)+"\n")
print(len(props))
