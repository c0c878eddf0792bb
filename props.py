"""The properties: one table for properties.jsonl and MANIFEST.json."""

HOOKS = {"guard": "none: no hook was added to /repo; the seams are laid in at build time by a source overlay of the Go standard library (sim/mkoverlay.py)", "enable": "bash sim/build.sh", "source_commits": []}

NOT_APPLICABLE = []

SEAM = "Real soju code in one process under a seeded scheduler with virtual time, simulated TCP, seeded entropy and hooks below database/sql and os; model IRC servers and clients. "

PROPS = [
 dict(id="C01", title="Messages are relayed exactly once, in order and unaltered",
  statement="While a client is attached to a network that is connected, every PRIVMSG and NOTICE that the network's server delivers to the user (for channels that are not detached) reaches that client exactly once, in the order the server sent them, with sender, command, target and text unchanged, and never reaches a client of another network or user. Every PRIVMSG and NOTICE a client sends reaches its own network's server exactly once per target, in the order sent and unaltered, or the client gets an error reply. Client hang-ups, stalls, reconnections of the network, bursts and restarts may cut a connection off but never duplicate, reorder, alter or skip messages on connections that stay up.",
  over=["schedules", "fault_sequences", "inputs"],
  forall="for every interleaving of peer and client messages with client connects, disconnects and stalls, upstream resets, bursts larger than every queue, slow links, crashes and restarts",
  why="The tests exchange one or two messages on an idle connection; they never overlap traffic with disconnects, stalls or bursts.",
  files=["upstream.go", "downstream.go", "conn.go", "user.go"],
  mech=[dict(name="relay of upstream messages to attached clients", where="upstream.go produce"), dict(name="per-connection write queue", where="conn.go"), dict(name="user event loop", where="user.go run")],
  observe=["lines on client connections", "lines on server connections"],
  tech="seeded search over schedules and faults of the relay path; history check for exactly-once, order, integrity and isolation per session and per upstream connection", note=SEAM + "Profile relay: 1-2 servers, 1-2 users, up to 12 sessions; bursts to 200; 15-45 workload steps per run."),
 dict(id="C18", title="A user's own messages appear in all of the user's clients",
  statement="A PRIVMSG or NOTICE sent by one client and accepted by the server appears exactly once, with the user's nickname as its sender and the same command, target and text, in every other client of that user attached to the same network. The sending client itself gets it back exactly once if it negotiated echo-message and never otherwise, whether or not the server itself echoes messages, and when it starts or stops doing so while connected (except for messages on their way at that moment).",
  over=["schedules", "configurations", "fault_sequences"],
  forall="for every combination of server and client capabilities, number of clients and interleaving with connects, disconnects and network reconnections",
  why="The tests have one client per user and a server without echo-message or labeled-response.",
  files=["downstream.go", "upstream.go"],
  mech=[dict(name="echo of client messages", where="downstream.go handleMessageRegistered PRIVMSG, upstream.go produce")],
  observe=["lines on client connections"],
  tech="seeded search over capability sets, schedules and faults; per-message count of echoes in every session of the sender's network", note=SEAM + "Profile echo."),
 dict(id="C11", title="No client or server can make soju fail internally",
  statement="Whatever bytes an IRC client (before or after logging in) or an upstream server sends, in whatever order and at whatever moment, soju neither crashes nor runs into an internal error that stops serving a user: all other users, networks and clients keep working. Everything soju sends to a client stays parseable IRC.",
  over=["inputs", "schedules", "histories"],
  forall="for every sequence of well-formed, odd, truncated and hostile lines from clients and servers, interleaved with disconnects, storage errors and restarts",
  why="Tests send a handful of well-formed lines; internal failures hide in rare states (missing registration, pending queries, half-joined channels).",
  files=["downstream.go", "upstream.go", "user.go", "server.go", "service.go", "irc.go"],
  mech=[dict(name="client command handling", where="downstream.go handleMessageRegistered"), dict(name="server message handling", where="upstream.go handleMessage"), dict(name="service commands", where="service.go")],
  observe=["process exit, recovered internal errors, lines on client connections"],
  tech="grammar-based generation of client, service and server lines with odd parameters under seeded schedules and faults; any panic (recovered or not) or unparseable output is a violation", note=SEAM + "Profiles chaos and hostile."),
 dict(id="C12", title="soju keeps serving everyone: no deadlock, no starvation",
  statement="After any disturbance ends (stalled or flooding clients, stalled, slow, unreachable or resetting servers, slow storage, administrators broadcasting to, updating, deleting or running commands for users at the same time), every connected client is answered again and every login attempt is accepted or refused within bounded time, and so is every command on the administration socket. A stalled client or server never stops other users from being served for good.",
  over=["schedules", "fault_sequences", "histories"],
  forall="for every interleaving of users, administrators, clients and networks, with queues full at any moment",
  why="Deadlocks need several goroutines blocked on full queues and locks at once; tests run one user with empty queues.",
  files=["server.go", "user.go", "service.go", "conn.go"],
  mech=[dict(name="user event queue", where="user.go"), dict(name="cross-user operations", where="service.go handleUserRun, handleUserUpdate, handleServiceServerNotice"), dict(name="user registry lock", where="server.go")],
  observe=["replies to probes and new logins"],
  tech="seeded search with stalls, floods and cross-user operations; liveness stated as answers to probes within bounded simulated time after the faults stop", note=SEAM + "Profiles progress and progress-chaos; bounds: 5 simulated minutes to recover, 1-2 minutes per probe."),
 dict(id="C19", title="Clients only receive what they negotiated, well-formed",
  statement="A client never receives message tags, commands, parameters or batches that require a capability it has not enabled (or has disabled since). Batch references always name a batch that is open on that very connection, batches are opened once and closed only if open, and every numeric reply has a source and is addressed to the client's own nickname. What a client sends as one message, over TCP or WebSocket, is never turned into several for the server or other clients.",
  over=["configurations", "inputs", "histories"],
  forall="for every combination of client capabilities, server capabilities, capability changes at run time, message stores and order of events",
  why="Tests use one fixed capability set; the rules must hold for every subset on both sides, changing at run time.",
  files=["downstream.go", "irc.go", "msgstore/memory.go"],
  mech=[dict(name="outgoing message filter", where="downstream.go SendMessage, SendBatch"), dict(name="capability negotiation", where="downstream.go handleCap, updateSupportedCaps")],
  observe=["lines on client connections"],
  tech="seeded search over capability sets and traffic; every line each model client receives is checked against its negotiated state", note=SEAM + "Profiles conform and conform-chaos."),
 dict(id="C24", title="Graceful shutdown always completes",
  statement="When soju is asked to stop it stops serving within bounded time, whatever clients, servers and storage are doing at that moment, and closes the connections of logged-in clients and of networks. It can be started again on the same data afterwards.",
  over=["schedules", "histories", "fault_sequences"],
  forall="for every moment of the request and every state of clients, networks, queues and administrative operations at that moment",
  why="Tests stop an idle server; hangs need full queues, operations in progress or users being created or deleted at that moment.",
  files=["server.go", "user.go", "conn.go"],
  mech=[dict(name="server shutdown", where="server.go Shutdown"), dict(name="user stop", where="user.go run eventStop")],
  observe=["return of the shutdown call", "connections left open", "restart on the same data"],
  tech="shutdown at random points of disturbed runs; bounded simulated time for completion, then a check of the connections left", note=SEAM + "Profiles stop and stop-chaos; bound: 2 simulated minutes."),
 dict(id="C04", title="Messages missed while away are delivered on return",
  statement="A named client that has used a conversation before and disconnects gets, when it next connects, every PRIVMSG and NOTICE that conversation had in the meantime (the latest 4000 if there were more), in order; messages it had already received and acknowledged are not delivered to it again. This holds independently for each of the user's clients and networks, across changes of network settings and, with a persistent message store, across restarts and crashes of soju.",
  over=["schedules", "histories", "fault_sequences", "configurations"],
  forall="for every history of connects, disconnects, messages in both directions, network reconnections, setting changes, restarts and crashes, with every message store",
  why="It depends on the whole history of acknowledgements per client and conversation and on what survives a restart; tests have no backlog at all.",
  files=["downstream.go", "user.go", "upstream.go", "msgstore/db.go", "msgstore/fs.go", "msgstore/memory.go", "database/sqlite.go"],
  mech=[dict(name="delivery receipts", where="user.go deliveredStore"), dict(name="backlog replay", where="downstream.go sendNetworkBacklog"), dict(name="acknowledgement by PING/PONG", where="downstream.go SendMessageWithID, ackMsgID")],
  observe=["lines on client connections"],
  tech="seeded search over client histories and faults; a reference model of acknowledged messages per client name and conversation decides what each return must and must not deliver", note=SEAM + "Profiles backlog and backlog-relay; memory, database and file stores. Messages within 8 simulated seconds of a hang-up or crash are not judged (the acknowledgement may or may not have arrived)."),
 dict(id="C06", title="Clients see the same channels, members and topics as the server",
  statement="Once traffic settles, what a client has been told about its network agrees with the server: its own nickname, the channels the user is on (detached ones excepted), the members of each channel with their status, and the topics. This holds whenever the client connected and after any joins, parts, kicks, nickname, mode and topic changes and reconnections of the network, including joins the server makes on its own; a channel the server refuses to let the user back into is reported as such.",
  over=["histories", "schedules", "fault_sequences"],
  forall="for every history of channel events from peers and clients, client connects at any moment (also while a channel's member list is arriving), detaching and reattaching, upstream resets and restarts",
  why="Tests join one channel at most; disagreement needs events to overlap (a connect in the middle of a join, a part and join in flight together, a rejoin refused).",
  files=["upstream.go", "downstream.go", "user.go", "irc.go", "xirc/casemapping.go"],
  mech=[dict(name="channel state tracking", where="upstream.go handleMessage JOIN, PART, KICK, NICK, MODE, TOPIC, RPL_NAMREPLY"), dict(name="state replay to new clients", where="downstream.go welcome, forwardChannel")],
  observe=["lines on client connections", "state of the model server"],
  tech="seeded search over channel event histories and client connects; at quiescence every client's view, built only from the lines it received, is compared with the model server's state", note=SEAM + "Profile state: 1-2 servers, 1-3 clients per network, rfc1459 and other case mappings, with and without multi-prefix."),
 dict(id="C07", title="Enabled networks stay connected and set up, disabled ones do not",
  statement="Whenever its server is reachable again, every enabled network of every enabled user gets connected again within bounded time, with its nickname, its connect commands sent, and all its saved channels (with their keys) joined, whatever happened before: refused, reset, silent or stalled connections, restarts and crashes. Disabled networks and users have no connection, no network has two, and after a failed attempt the next one is not made at once.",
  over=["fault_sequences", "schedules", "histories"],
  forall="for every sequence of outages, partial registrations, stalls, settings changes, restarts and crashes at any moment",
  why="Reconnection needs minutes of back-off and failures at particular moments of the registration; tests connect once.",
  files=["user.go", "upstream.go", "server.go", "downstream.go"],
  mech=[dict(name="reconnection loop", where="user.go network.run, runConn"), dict(name="registration", where="upstream.go register, runUntilRegistered"), dict(name="channel rejoin", where="upstream.go handleMessage RPL_WELCOME")],
  observe=["connections and registrations seen by the model servers", "channels joined"],
  tech="seeded search over outages and settings changes in simulated hours; liveness within 45 simulated minutes after the faults stop, safety on every connection attempt", note=SEAM + "Profile reconnect."),
 dict(id="C05", title="Every query is answered to the client that asked, and correctly",
  statement="Replies to WHO, WHOIS, LIST and NAMES queries reach the client that sent the query, completely and exactly once, end with the matching end marker or an explicit failure, and are never shown to another client (labelled replies) nor mixed into another client's query of the same kind. This holds however many clients query at the same time and if servers ignore queries, refuse them, are reset, or clients leave before the answer; answers soju gives from what it remembers agree with the server.",
  over=["schedules", "histories", "fault_sequences"],
  forall="for every interleaving of queries of several clients on one upstream connection, with user information changing between queries, clients and servers disconnecting and servers not answering",
  why="Tests send no queries; mixing replies up needs several clients' queries pending at once, and the remembered answers depend on every update seen before.",
  files=["downstream.go", "upstream.go", "user.go"],
  mech=[dict(name="pending command queue", where="upstream.go enqueueCommand, currentPendingCommand, dequeueCommand"), dict(name="labelled replies", where="upstream.go handleMessage label"), dict(name="cached WHO answers", where="downstream.go handleMessageRegistered WHO; upstream.go cacheUserInfo")],
  observe=["lines on client connections", "state of the model server"],
  tech="seeded search over concurrent queries, user information changes and faults; each client's reply stream is matched to its own queries, and WHO answers at rest are compared field by field with the model server", note=SEAM + "Profiles query and query-mute. A network with a query slower than 25 simulated seconds is not judged for association (soju gives up at 30 s and nothing tells late replies apart)."),
 dict(id="C08", title="Acknowledged configuration changes are durable, refused ones void",
  statement="Once soju has acknowledged a change to a user, network or channel (service command, BOUNCER command, confirmed JOIN or PART), the change is in the saved configuration and survives a crash or restart at any later moment; a change it refused or failed has no effect, then or later; an interrupted one is applied entirely or not at all. What soju works with and lists is always what is saved.",
  over=["histories", "fault_sequences", "inputs"],
  forall="for every sequence of valid and invalid changes by users and administrators, with storage errors at any statement and crashes at any statement or moment",
  why="Durability and atomicity only show when a crash or storage error hits between two statements; tests never crash soju and never fail a query.",
  files=["service.go", "downstream.go", "user.go", "server.go", "database/sqlite.go", "database/database.go"],
  mech=[dict(name="service commands", where="service.go"), dict(name="network and user updates", where="user.go createNetwork, updateNetwork, deleteNetwork, updateUser"), dict(name="BOUNCER commands", where="downstream.go handleMessageRegistered BOUNCER"), dict(name="transactions", where="database/sqlite.go")],
  observe=["replies on client connections", "database content after each step and after restart", "BOUNCER LISTNETWORKS"],
  tech="model-based seeded search: each command's reply drives a reference configuration, compared with the database after every step, crash (at a chosen SQL statement or instant) and injected storage error; finally soju is made to write its live state back and that is compared too", note=SEAM + "Profile config; SQLite only (no PostgreSQL server is available offline). A crash keeps what SQLite had committed to its files; power loss with lost page-cache writes is not modelled."),
 dict(id="C02", title="Users and networks never see each other's data",
  statement="A client only ever receives messages, topics, history, search results and read markers of its own user and, if it is attached to one network, of that network; what a client says only ever reaches servers on that network's connection. Passwords and SASL credentials of a network are sent only to that network's server and are never shown to a client, and a user's soju password is sent to nobody. Deleting a network or user and creating another (also with the same name) gives the new one nothing of the old one's database contents.",
  over=["histories", "schedules", "fault_sequences"],
  forall="for every history of several users and networks, with networks and users created, renamed, deleted and re-created, history queries, detached channels, reconnections, restarts and crashes",
  why="Tests have a single user with a single network; leaks need several of them sharing channel names, nicknames and servers over a long history.",
  files=["user.go", "downstream.go", "upstream.go", "server.go", "database/sqlite.go", "msgstore/db.go", "msgstore/memory.go", "msgstore/fs.go"],
  mech=[dict(name="delivery to the clients of one network", where="user.go forEachDownstream, upstream.go produce"), dict(name="storage keyed by user and network", where="database/sqlite.go, msgstore/"), dict(name="upstream registration", where="upstream.go register")],
  observe=["lines on client connections", "lines on server connections"],
  tech="seeded search over multi-user histories in which every text, marker and password is unique; information-flow check of every line on every connection", note=SEAM + "Profile isolation: 2 servers, 3 users, up to 2 configured networks each plus created ones; 20-65 steps per run. With the file store, logs belong to the user and network name."),
 dict(id="C03", title="History queries return exactly what was exchanged",
  statement="Asking for chat history or searching it (with the database or file store) returns exactly the stored messages of that conversation which match the time bounds, sender and text: none missing, invented, altered or repeated, oldest first, and at the requested limit the ones nearest to the requested end. Every PRIVMSG and NOTICE an attached client has been shown is there, also after restarts and crashes, and conversations with messages are listed as targets with the time of their last message. Messages keep the date the server gave them; clients which ask for events also get the joins, parts, quits, kicks, topic and mode changes of that channel and no others; conversations with NickServ are never stored.",
  over=["histories", "inputs", "fault_sequences"],
  forall="for every conversation history (both directions, odd texts, equal and unordered timestamps, midnights, time zones, casemappings), every query form, bound and limit, across reconnections, restarts and crashes",
  why="The tests cover one memory ring buffer and log line parsing; selection at bounds, day changes, ties and limits over a whole history are not exercised.",
  files=["downstream.go", "upstream.go", "msgstore/db.go", "msgstore/fs.go", "msgstore/znclog", "database/sqlite.go"],
  mech=[dict(name="history commands", where="downstream.go handleMessageRegistered CHATHISTORY, SEARCH"), dict(name="message stores", where="msgstore/, database/sqlite.go ListMessages"), dict(name="logging", where="upstream.go appendLog, produce")],
  observe=["answers to history and search queries", "lines on client connections"],
  tech="seeded search over conversations and queries; refinement against a reference model made of what an always attached recorder client saw", note=SEAM + "Profile history: SQLite and file stores, time zones, up to several simulated days. Queries run when traffic is quiet. With the file store times have a resolution of one second, order is that of the log within a day, target times are not judged. PostgreSQL cannot run here."),
 dict(id="C26", title="Disk errors cost at most the messages being written",
  statement="When writing the message log fails (disk full, partial write, too many open files, no permission), relaying to clients goes on and only messages whose own write failed may be missing from history. All other messages stay retrievable and unaltered, queries keep working, and logging resumes as soon as the disk works again.",
  over=["fault_sequences", "histories"],
  forall="for every placement of failed, short and refused file operations in a history of messages, queries, restarts and crashes",
  why="No test injects disk errors.",
  files=["msgstore/fs.go", "msgstore/znclog", "upstream.go"],
  mech=[dict(name="log writing", where="msgstore/fs.go Append"), dict(name="log reading", where="msgstore/fs.go parseMessagesBefore, parseMessagesAfter")],
  observe=["answers to history and search queries", "lines on client connections"],
  tech="seeded injection of write, open and mkdir errors and short writes below the os package; history refinement against the recorder's view with the affected messages set aside", note=SEAM + "Profile history-disk. Messages a client saw within 3 simulated seconds of a fault in the same conversation may be missing but not altered."),
 dict(id="C09", title="Only current credentials let a client in, as the right user",
  statement="A connection is let in only if it has presented the current password of an existing, enabled account (through PASS, SASL PLAIN or the configured external authenticator), or those of an administrator asking to act as another user; it then acts as exactly that user, on the network it named, and with right credentials it is let in. Until then it is shown nothing and changes nothing, and it is disconnected within about half a minute. When an administrator changes a user's password, disables or deletes the account, that user's existing connections end.",
  over=["inputs", "schedules", "histories", "fault_sequences"],
  forall="for every order and mix of registration commands on any number of concurrent connections, every account history (password, enabled, admin, deletion, re-creation), restarts and crashes in between, and every answer, delay, error or silence of the external authenticator",
  why="The tests log in once, with the right password, in one order; wrong orders, aborted or repeated exchanges, impersonation, account changes racing with logins and authenticator failures are not exercised.",
  files=["downstream.go", "user.go", "server.go", "service.go", "auth/internal.go", "auth/http.go", "auth/oauth2.go", "database/database.go"],
  mech=[dict(name="registration exchange", where="downstream.go handleMessageUnregistered, handleAuthenticate, register, loadNetwork"), dict(name="authenticators", where="auth/"), dict(name="account changes", where="user.go eventUserUpdate, updateUser; service.go user commands")],
  observe=["lines on client connections", "BOUNCER LISTNETWORKS and BOUNCER_NETID of admitted clients", "requests at the model authenticator", "lines on server connections", "database contents"],
  tech="model-based seeded search: a reference model of the registration exchange with account versions valid over intervals gives the set of allowed outcomes of each connection", note=SEAM + "Profile login: internal, HTTP and OAuth 2.0 authenticators (PAM is a build-time option and not covered); TLS client certificates and HTTP front ends are not driven here. A check that overlaps an account change may go either way."),
 dict(id="C10", title="Users only do what their rights allow",
  statement="Commands reserved to administrators are refused to everybody else, including an administrator's session acting as an ordinary user, and work for administrators; rights changes take effect at once. A message an administrator sends to the whole bouncer reaches every connected client once; anybody else's is refused and reaches nobody. The administration socket has an administrator's rights for everything except what concerns a user's own session, and serves nothing but service commands. Nothing an ordinary user does changes, disconnects, notifies or reveals another user's account, networks or connections, nor its own rights. No user gets more enabled networks than its limit by any means, unless an administrator explicitly overrides the limit, and below the limit creating one works.",
  over=["inputs", "histories", "schedules"],
  forall="for every sequence of service and BOUNCER commands by several users and administrators, with rights and limits changed in between, concurrent commands from several clients, restarts and crashes",
  why="The tests send no service command as an ordinary user and set no limit.",
  files=["service.go", "downstream.go", "user.go", "server.go"],
  mech=[dict(name="command table and rights", where="service.go handleServiceCommand and handlers"), dict(name="network limit", where="user.go canEnableNewNetwork, createNetwork, updateNetwork"), dict(name="BOUNCER commands", where="downstream.go"), dict(name="running commands as another user", where="service.go handleUserRun, user.go eventUserRun")],
  observe=["replies", "database contents before and after each command", "everybody's connections"],
  tech="seeded search over command histories with a rights model; footprint check of each command on the saved configuration, all connections and its reply", note=SEAM + "Profile authz; commands and their required rights are those documented in the manual page."),
 dict(id="C20",title="Network lists and notifications agree and are true",
  statement="For every history of creating, changing, renaming and deleting networks, of connects, disconnects and errors, a client that enabled network notifications always holds, from its first listing and the notifications alone, exactly what a fresh listing would say: every network, every attribute, nothing stale, nothing removed left over, no two networks with one name. What is listed is what is saved, and says connected exactly when the connection is registered. When a client that isn't bound to a network changes the user's nickname or real name, the user's other unbound clients are told too.",
  over="every network change by any client of the user or by the service, every upstream connection event, storage errors and restarts",
  forall="interleavings of changes by several clients with connection attempts, failures, and listings",
  why="tests never check notifications; a stale client view depends on which change met which connection event, and appears only when a listing is compared with the accumulated notifications",
  files=["user.go","downstream.go","service.go","doc/ext/bouncer-networks.md"],
  mech=[dict(name="network attribute notifications",where="user.go"),dict(name="attribute listing",where="downstream.go")],
  observe="BOUNCER NETWORK messages to each client, in stream order",
  tech="Deterministic simulation: seeded interleavings of network changes (extension commands and service commands from several clients), upstream failures, refused registrations, restarts and storage errors; each client's accumulated view is compared with each listing at the point of the stream where the listing begins, and at the end with the saved records and the model servers' connections.",
  note=SEAM+"Storage errors are not injected during the second in which users load their networks."),
 dict(id="C15",title="Read markers move forward only and are shared by all clients",
  statement="For each network and conversation there is one read marker per user: it only moves forward, never past the present, is the same for every spelling of the name, and a confirmed position survives disconnects, restarts and crashes. Every client that supports markers is told the marker after joining a channel and whenever it moves, even if the client that moved it is already gone. No client ever hears a position that no client of that user set for that conversation.",
  over="every set and query of markers from all clients of a user, with client and server disconnects, crashes, slow or failing storage and clock jumps",
  forall="interleavings of concurrent updates, reconnects and restarts",
  why="a lost or backward marker needs two clients racing, or a crash between saving and telling; a single-client test cannot order these",
  files=["downstream.go","database/sqlite.go","doc/ext/read.md"],
  mech=[dict(name="MARKREAD/READ handling and broadcast",where="downstream.go"),dict(name="read receipt storage",where="database/sqlite.go")],
  observe="MARKREAD/READ messages to each client and the saved receipts",
  tech="Deterministic simulation: seeded interleavings of concurrent marker updates and queries with uniquely identifiable positions; the recorded history is checked against a grow-only register per conversation (real-time order of confirmed values, provenance of every value told, per-connection monotonicity, convergence of all clients with the saved value).",
  note=SEAM+"Conversation names differ only in letter case, not in characters whose case mapping depends on the server."),
 dict(id="C14",title="Detached channels are quiet but lose nothing",
  statement="While a channel is detached the user stays in it but no client is shown anything about it, except the service's notices for exactly the messages its relay mode asks for, once each. When it is attached again, by hand or by the configured kind of message, every client sees it and every message received meanwhile exactly once, even after restarts and crashes. A channel with an auto-detach delay is detached when the delay has passed since the last activity that counts, and never earlier.",
  over="every order of messages, detaching, attaching, option changes, reconnects, restarts and crashes",
  forall="interleavings, timer expiries, and crash points",
  why="needs hours of timers, several clients and restarts between detaching and attaching; tests have none of it",
  files=["user.go","upstream.go","downstream.go","service.go","msgstore/memory.go","doc/soju.1.scd"],
  mech=[dict(name="detach and attach",where="user.go"),dict(name="auto-detach timer and detached message handling",where="upstream.go"),dict(name="channel options",where="service.go")],
  observe="what each client receives for the channel, service notices, saved channel records",
  tech="Deterministic simulation: seeded sequences over virtual hours of messages, option changes, (auto-)detach and attach by several clients, mixed with unsynchronised bursts, reconnects, restarts, crashes and slow storage; a reference model of each channel (state, timer, options) predicts notices and visibility, and a conservation check over the history counts each message per client.",
  note=SEAM+"Clients using CHATHISTORY are not sent what was missed (by design) and are judged only on visibility and notices."),
 dict(id="C16",title="The user is away exactly while no present client is connected",
  statement="On every connected network with auto-away on, the server sees the user as away exactly when no client is connected to that network through the bouncer or all of those have marked themselves away, whatever happened to clients, server connections and the bouncer before. With auto-away off the bouncer never marks the user as away. Every away command of a client is answered with the state it asked for.",
  over="every order of clients coming, going and marking themselves away (before or after login), server disconnects, option changes, restarts and crashes",
  forall="interleavings of client and server events",
  why="a wrong state needs a client and a server event to race, or a reconnect while nobody is there; tests never look at the away state",
  files=["user.go","upstream.go","downstream.go"],
  mech=[dict(name="auto-away computation",where="upstream.go"),dict(name="client and server connect/disconnect events",where="user.go"),dict(name="AWAY handling",where="downstream.go")],
  observe="the away state held by the server and the away replies to clients",
  tech="Deterministic simulation: seeded interleavings of client arrivals, departures, AWAY commands, stalls, server drops, option changes and crashes; whenever the system has come to rest the model server's away state of every connection is compared with the one computed from the clients that are there.",
  note=SEAM+"Clients not bound to a network do not count for any; an empty away text is not generated."),
 dict(id="C17",title="Clients are told the state of exactly the nicknames they monitor",
  statement="A client that monitors a nickname is told whether it is online when it asks and whenever that changes, however many clients of the user monitor the same or other nicknames, and also after the server connection was lost and set up again. When everything is at rest, the last state told, the list and the states reported on request agree with the server for every monitored nickname that was not refused because the list is full. No client is told about nicknames it does not monitor.",
  over="every order of monitor additions, removals and clears from all clients, peers coming, going and renaming themselves, reconnects, restarts and slow links",
  forall="interleavings of requests, confirmations and notifications",
  why="the bouncer merges all clients' lists into one list on the server; what goes wrong depends on which confirmations and notifications are in flight",
  files=["upstream.go","downstream.go","user.go"],
  mech=[dict(name="merging the clients' lists",where="upstream.go"),dict(name="MONITOR handling",where="downstream.go")],
  observe="monitor numerics each client receives",
  tech="Deterministic simulation: seeded interleavings of MONITOR commands from several clients with in-flight notifications, rate limiting, list limits, drops and restarts; the recorded history is checked against each client's own list (no unasked notification) and, at rest, against the model server's true online state, the list and the status query.",
  note=SEAM+"Nicknames refused with a full list are not judged; no two nicknames that only differ by the server's case mapping of brackets are used."),
 dict(id="C23",title="Push notifications reach exactly the subscriptions they are meant for",
  statement="Every private message, invitation and highlight in a channel that the user receives from a network is pushed exactly once, readable only with that subscription's latest keys, to every endpoint subscribed for that network and to no other, and nothing else is pushed except markers that dismiss earlier notifications. Confirmed subscriptions survive restarts and crashes and one failing or slow endpoint does not keep others from being notified, while an unsubscribed or expired endpoint gets nothing any more. Endpoints that are not public HTTPS services are refused and never contacted.",
  over="every order of subscriptions, unsubscriptions, messages, read markers, endpoint failures, restarts and crashes of several users, networks and devices",
  forall="interleavings, endpoint behaviours and crash points",
  why="needs a push service, several devices and failures in the middle of a broadcast; the tests have no push service at all",
  files=["user.go","server.go","downstream.go","upstream.go","database/sqlite.go","doc/ext/webpush.md"],
  mech=[dict(name="broadcast of notifications",where="user.go"),dict(name="sending and VAPID keys",where="server.go"),dict(name="WEBPUSH and MARKREAD handling",where="downstream.go"),dict(name="which messages are pushed",where="upstream.go")],
  observe="requests arriving at the push service, decrypted with the devices' keys",
  tech="Deterministic simulation with fault injection: a model push service (HTTP round-tripper) decrypts every request and answers, fails, stalls or declares subscriptions gone as the seeded plan says; the history is checked message by message and endpoint by endpoint (exactly once, right network, right keys), with crashes, clock jumps and slow storage.",
  note=SEAM+"TLS to the push service and DNS are stubs; storage errors are not injected; order of notifications is not judged; messages right before a crash may be lost."),
 dict(id="C21",title="Uploaded files come back unchanged, and nothing else is stored or served",
  statement="When an upload is acknowledged, the URL handed out is new and from then on, across restarts and crashes, serves exactly the uploaded bytes under the uploader's file name, as something a browser will not execute. An upload that is unauthenticated, from a foreign origin, too large, incomplete or hit by a storage failure is never acknowledged and leaves nothing behind, and no other path exposes any file. With an external file host, the user, name, bytes and answer are passed on unchanged.",
  over="every sequence of concurrent uploads and fetches with any names, types, sizes, credentials and origins, cut, stalled or reset connections, disk errors, token collisions, crashes and restarts",
  forall="interleavings, request contents, failure and crash points",
  why="needs concurrent transfers that break in the middle, disk failures and colliding random names; the tests have no upload at all",
  files=["fileupload/fileupload.go","fileupload/fs.go","fileupload/http.go","cmd/soju/main.go"],
  mech=[dict(name="request handling, limits, origins and headers",where="fileupload/fileupload.go"),dict(name="file storage",where="fileupload/fs.go"),dict(name="forwarding to a file host",where="fileupload/http.go")],
  observe="HTTP responses, the external file host's requests, and the files in the upload directory after the run",
  tech="Deterministic simulation with fault injection: harness HTTP clients upload over simulated connections (chunked or not, in delayed pieces, cut, stalled, reset) against the real handler, storage on a scratch directory with injected disk errors and crashes, random tokens made to collide; every acknowledged upload is fetched again (whole, ranges, heads) and the directory is compared with the history at the end.",
  note=SEAM+"the listener set-up of cmd/soju is mirrored by the harness; a process crash loses nothing written (no power-loss model) and may leave a partial file; uploads by disabled users are not judged; TLS is not simulated."),
 dict(id="C25",title="Users are disabled for inactivity when due, never while in use",
  statement="When a delay is configured, a user is disabled only if no client of theirs was connected during the whole delay before it, and then within a bounded time; without a delay nobody is. A client that was let in is never thrown out because of inactivity, a disabled user leaves all networks, and their networks and channels are kept and come back when the user is enabled again.",
  over="every sequence of clients connecting and leaving around the moments at which inactive users are looked for, with slow storage, admin changes, admins acting as others, restarts and crashes, over days of simulated time",
  forall="interleavings, timings and fault points",
  why="the check runs every four hours and races with clients connecting; no test runs it",
  files=["server.go","user.go","database/sqlite.go","config/config.go"],
  mech=[dict(name="periodic search for inactive users",where="server.go disableInactiveUsers"),dict(name="interaction time and user updates",where="user.go run, updateUser"),dict(name="query",where="database/sqlite.go ListInactiveUsernames")],
  observe="user records in the database after each round, connections of clients and to the model IRC servers",
  tech="Deterministic simulation with fault injection: clients come and go milliseconds around soju's four-hourly rounds under a seeded scheduler with slow SQL, restarts and crashes; each user's state after every round is compared with the recorded times at which their clients were connected, thrown-out clients and lingering network connections are reported.",
  note=SEAM+"what a crash prevents from being saved (when a client was last seen) may be lost, so such users may be disabled early; two rounds are allowed for disabling; a user that failed to load is not judged; SQL errors are not injected."),
 dict(id="C13",title="Only the configured, authenticated server is told anything",
  statement="Whatever soju says on behalf of a network – nicknames, passwords, logins, client certificates, messages – only reaches a server that holds the key of a certificate valid for the configured host name, or exactly the pinned certificate when one is configured; plain text is only used where configured. Each server is given the password, login and client certificate of that very network and no other, and a network whose server authenticates properly gets connected.",
  over="every sequence of impostors on the path (self-signed, other authority, other name, expired, wrong chain, pinned certificate without its key, plain text, silence), certificate rotations, configuration changes, connection loss, clock jumps, restarts and crashes",
  forall="inputs, schedules and fault points",
  why="the tests only use plain-text servers; verification depends on the configuration at the time of each (re)connection, on the peer's behaviour and on the clock",
  files=["upstream.go","user.go","service.go","certfp.go","database/database.go"],
  mech=[dict(name="TLS connection and pinning",where="upstream.go connectToUpstream"),dict(name="SASL and client certificates",where="upstream.go connectToUpstream, requestSASL"),dict(name="settings",where="service.go handleServiceNetworkUpdate, handleServiceSASLSetPlain, handleServiceSASLReset")],
  observe="bytes reaching impostors; registrations, logins and TLS client certificates seen by model IRC servers speaking real TLS",
  tech="Deterministic simulation with fault injection: model IRC servers speak real TLS with fixed keys while the simulator plays impostors, rotates certificates, moves the clock, drops and stalls connections and crashes soju; every application byte an impostor decrypts is a violation, and each registration and login is checked against the settings the network had.",
  note=SEAM+"crypto/tls and crypto/x509 run for real with Ed25519 certificates and a model authority installed as fallback roots; pinned certificates are not checked for validity, by design; ±2 minutes around an expiry is not judged; DNS is a table, so attacks on it are not modelled separately."),
 dict(id="C22",title="Servers can tell users apart, by ident and by address",
  statement="With the ident service enabled, a server that asks about a connection the bouncer has to it is told an identifier that belongs to that connection's user alone and never changes, for as long as the connection is up; for anything else it is told that there is no such user. With an address range for users configured, all connections of a user come from one address in it that no other user has.",
  over="every order of connections being made, lost and made again by several users, with local ports reused at once, queries at any moment from the right and from other hosts, odd and hanging queries, slow storage, restarts and crashes",
  forall="interleavings of connections, queries and port reuse",
  why="no test starts the ident service; whether an answer is right depends on which connections overlap and on ports being reused",
  files=["identd/identd.go","user.go","upstream.go"],
  mech=[dict(name="registration of connections",where="user.go runConn, userIdent"),dict(name="ident service",where="identd/identd.go"),dict(name="addresses of users",where="user.go localTCPAddr, upstream.go dialTCP")],
  observe="answers to ident queries by model IRC servers, and the source addresses of the connections they accept",
  tech="Deterministic simulation with fault injection: model IRC servers query the ident service about live, closing, dead, foreign and random connections while the simulator drops them and hands out the same local ports again, stalls storage and crashes soju; every answer is compared with the owner of the connection with these addresses at that moment.",
  note=SEAM+"queries within 10 simulated ms of the connection being made may still find nothing; answers about a connection closed less than a minute ago may be either; IPv4 only; ports are free again as soon as the bouncer has closed the socket (1 s after an orderly close)."),
 dict(id="C27", title="Network accounts: the server's verdict, and only working credentials kept",
  statement="When a client logs in to a network's account through soju (AUTHENTICATE PLAIN while attached to the network) or registers one (REGISTER, VERIFY), the network's server is given exactly the credentials the client sent, the client which asked - and no other client - gets exactly one answer, and that answer is the server's: success only if the server accepted these credentials, failure only if it refused them, or soju could not ask (no connection, no SASL support, another attempt in progress, connection lost). Giving up, leaving in the middle, malformed or multi-part responses and servers which refuse, ignore or don't know SASL neither block later attempts nor keep soju from connecting. Credentials accepted by the server that way are saved and used from the next connection on; refused ones never are; logging in as ANONYMOUS removes the saved ones. Credentials a client gives NickServ (IDENTIFY, REGISTER, SET PASSWORD) are saved as they are, and nothing else said to NickServ changes what is saved. Clients which negotiated sasl are told the account currently logged in.",
  over=["schedules", "fault_sequences", "inputs"],
  forall="for every interleaving of attempts by several clients of several networks with aborts, disconnects, server stalls, resets, capability changes and restarts, for every server policy about SASL and account registration",
  why="No test authenticates to an upstream account. The exchange is a four-party state machine (client, soju, server, database) whose states only matter when exchanges overlap, are aborted or interrupted.",
  files=["upstream.go", "downstream.go", "user.go"],
  mech=[dict(name="client SASL exchange", where="downstream.go handleAuthenticate, handleMessageRegistered AUTHENTICATE/REGISTER"), dict(name="server replies", where="upstream.go handleMessage RPL_SASLSUCCESS, REGISTER, FAIL"), dict(name="saved credentials", where="user.go autoSaveSASLPlain, upstream.go requestSASL")],
  observe=["lines on client connections", "credentials given to servers", "database contents"],
  tech="seeded search over overlapping, aborted and interrupted exchanges against model servers which record every credential they are given and their verdict; history check of verdicts, of the saved credentials and of the account shown to clients", note=SEAM + "Profile account. Changes of credentials closer than 5 s apart may be saved in either order."),
 dict(id="C28", title="Clients know what their network's server supports",
  statement="At every quiescent moment the capabilities offered to a client of a network are soju's own plus exactly those which depend on the server and which this server offers (with the value the server gives, SASL only when PLAIN is possible), every change has been announced to clients which negotiated cap-notify, and what the client was told is enabled is what is enabled. The server's parameters (ISUPPORT) known to each client - those given on connection plus later changes and removals - are the server's current ones, unaltered, for every parameter soju passes on, and none else. soju itself uses on each server the capabilities that server offers, and echo-message only together with labels.",
  over=["histories", "configurations", "schedules", "fault_sequences"],
  forall="for every sequence of capability and parameter changes of servers while connected or not, interleaved with clients connecting, requesting and dropping capabilities, reconnections and restarts",
  why="Tests use one server with a fixed set of capabilities and no parameter changes; clients then interpret the traffic by a stale or altered description.",
  files=["upstream.go", "downstream.go", "xirc/genmsg.go", "xirc/caps.go"],
  mech=[dict(name="capability negotiation with servers", where="upstream.go handleSupportedCaps, updateCaps, handleCapAck, CAP"), dict(name="capabilities offered to clients", where="downstream.go updateSupportedCaps, handleCap"), dict(name="parameters", where="upstream.go handleMessage RPL_ISUPPORT, downstream.go welcome")],
  observe=["lines on client connections", "capabilities requested from servers"],
  tech="seeded search over sequences of CAP NEW/DEL, ISUPPORT changes, client capability requests and connection losses; at quiescent points every client's view (tracked and asked again) is compared with the model server's state", note=SEAM + "Profile support. Parameters which a server stops announcing between two connections are not compared for clients connected across it."),
 dict(id="C29", title="The configuration in force is the one configured last",
  statement="After the administrator reloads the configuration of the running bouncer, everything that happens from then on follows the new values and nothing follows the old ones: the message of the day and the title new clients are shown, the limit on networks, whether authenticating enables a disabled user, which web pages may connect and which proxies are trusted. Connections which exist go on undisturbed, and restarts keep the last configuration. Only pages of the bouncer's own host or of an origin allowed at that time can open a WebSocket (programs which name no origin always can). The address a client is known by is the one its connection comes from, unless that is a proxy trusted at that time: then it is the one stated in the proxy's Forwarded header field, or in X-Forwarded-For if there is no such field; nobody else can choose the address they are known by.",
  over=["histories", "configurations", "schedules", "inputs"],
  forall="for every sequence of reloads interleaved with connections (raw and WebSocket, with any origin and forwarding headers, from trusted and untrusted addresses), creations of networks, logins of disabled users, crashes and restarts",
  why="Tests never reload a configuration and have neither WebSocket clients nor proxies; a value cached at startup or on first use, or a header believed from anyone, would go unnoticed.",
  files=["server.go", "downstream.go", "user.go", "config/config.go"],
  mech=[dict(name="configuration", where="server.go Config, SetConfig"), dict(name="WebSocket clients", where="server.go ServeHTTP, parseForwarded; conn.go newWebsocketIRCConn"), dict(name="network limit", where="user.go canEnableNewNetwork"), dict(name="message of the day and title", where="downstream.go welcome")],
  observe=["lines on client connections", "HTTP answers", "database contents"],
  tech="seeded search over reloads interleaved with connections, logins and commands; every connection and command is judged against the configurations in force between its start and its answer", note=SEAM + "Profile web. The configuration is reloaded as cmd/soju does it, by replacing the server's configuration; reading configuration files and the PROXY protocol listener of cmd/soju are not simulated."),
 dict(id="C30", title="Servers are never flooded, and messages aren't held back without need",
  statement="On every connection to a server, whatever clients, the bouncer itself and the server do, soju sends at most a burst of 10 lines plus one line every 2 seconds - registration, joins, keepalives, answers and clients' commands counted together - so that no server has a reason to disconnect it for flooding; the allowance starts anew only with a new connection. Only while a server declares SAFERATE is it sent more: from then on messages wait no longer, and once the server withdraws it the bound applies again. Messages wait only as long as the bound requires: a message whose connection's allowance isn't exhausted is sent at once, and a queue of messages is sent at exactly that pace until it is empty.",
  over=["histories", "inputs", "schedules", "fault_sequences"],
  forall="for every pattern of bursts by any number of clients, with registrations, automatic joins and replies in between, servers declaring and withdrawing SAFERATE, losing connections, stalls, wall clock jumps and restarts",
  why="Tests send a handful of lines per connection, fewer than a burst, and never look at when they arrive; the bound depends on everything sent on a connection over minutes.",
  files=["conn.go", "upstream.go", "server.go"],
  mech=[dict(name="rate limit of outgoing messages", where="conn.go newConn; server.go upstreamMessageDelay, upstreamMessageBurst"), dict(name="SAFERATE", where="upstream.go handleMessage RPL_ISUPPORT; doc/ext/saferate.md")],
  observe=["times at which lines are written on connections to servers"],
  tech="Deterministic simulation with fault injection: on a simulated clock, seeded bursts of messages by several clients, registrations and joins, SAFERATE changes, losses, stalls and clock jumps; the times of all lines written on every connection are run through a reference token bucket (upper bound), and each message of a burst is compared with the latest moment at which a limiter that never idles would have sent it (lower bound)", note=SEAM + "Profiles rate, rate-relay and rate-account. One line more than the burst is let through, as a blocked write may delay the line before it; connections over TLS aren't judged (the lines are counted in the bytes soju writes); a change of SAFERATE is given 5 s to take effect, and messages on connections which were stalled or lost before they were sent, or sent by clients with faults, aren't judged for delay. The queue is kept below the 64 messages at which soju lets the user wait; C12 covers that."),
]
