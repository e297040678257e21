#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as code so that the long texts stay readable)."""
import json, os
P = []
def prop(id, title, statement, over, text, tests, files, mech, state=(), observe=(), hook=None):
    assert len(title) <= 80, (id, len(title))
    P.append(dict(id=id, title=title, statement=" ".join(statement.split()),
        quantifier=dict(over=over, text=" ".join(text.split())),
        why_tests_cant=" ".join(tests.split()),
        anchors=dict(files=files,
            state=[dict(name=n, meaning=m, where=w) for n, m, w in state],
            mechanism=[dict(name=n, where=w) for n, w in mech],
            observe_at=list(observe), hook_needed=hook)))

prop("C01", "Replies reach only the call they answer, at most once, and intact",
 """Whatever number of requests a client has outstanding and in whatever order their replies arrive, a reply is
 delivered only for the call it answers (or, when any reply is asked for, is attributed to the call it answers), at
 most once, with exactly the data, user return code and success or failure class that the service returned.
 Asking for one particular reply never loses or alters replies to other outstanding calls; a reply to a cancelled
 call is never delivered to anyone.""",
 ["schedules", "inputs", "histories"],
 """all interleavings of asynchronous calls, cancels, specific and any-reply waits in one client with all orders in which
 servers reply; reply sizes from empty to far beyond one queue message; all service outcomes""",
 """The install-tests make one or two calls and read replies in call order from one server; out-of-order replies,
 cancel-then-reply races and any-reply mixes are never produced.""",
 ["src/client.cpp", "src/resp.h", "src/ipc.cpp", "src/server.cpp"],
 [("reply loop matching descriptor, buffering the others", "src/client.cpp tpgetrply"),
  ("table of outstanding descriptors with buffered replies", "src/resp.h responses"),
  ("reply carries the request's descriptor", "src/server.cpp server_thread::reply")],
 [("calls_", "outstanding call descriptors and early replies", "src/resp.h")],
 ["tpacall", "tpgetrply", "tpcall", "tpcancel", "tpurcode", "tperrno"])

prop("C02", "Call descriptors are unique while outstanding and dead once answered",
 """A call descriptor handed to a client is positive, differs from every descriptor still outstanding in that client,
 stays valid across a timed-out wait, and becomes invalid (refused as a bad descriptor) as soon as its reply was delivered or
 it was cancelled; a request sent with no reply expected yields no descriptor and never produces a reply.
 Calls that fail, time out inside a synchronous call or are cancelled give their descriptor back: the number of descriptors in
 use only depends on the calls still outstanding, and exhausting them is reported as a limit error without side effects.""",
 ["histories", "fault_sequences"],
 """all histories of sends (successful, to unknown services, to full queues), receives, timeouts and cancels, including
 histories long enough to exhaust the descriptor table""",
 """Tests never reach the descriptor limit, never reuse an answered descriptor and never look at descriptors after a
 failed or timed-out call.""",
 ["src/client.cpp", "src/resp.h"],
 [("allocate/release of descriptors", "src/resp.h responses::allocate, release"),
  ("release on failed send", "src/client.cpp tpacall_queue")],
 [("calls_", "outstanding call descriptors", "src/resp.h")],
 ["tpacall", "tpgetrply", "tpcancel", "tpcall"])

prop("C03", "Blocking-time limits end waits when they expire and never earlier",
 """A wait for a reply or for room in a request queue reports a timeout only after the blocking time that applies to it has passed
 (next-call setting, else per-client setting, else the configured default; a next-call setting is used by exactly one blocking
 call), and a wait whose answer does not come ends with a timeout shortly after that time instead of hanging.
 A reply that arrives within the limit is delivered, whatever timeouts, late replies or other replies came before it;
 blocking-time settings read back as they were set, and invalid settings are refused and change nothing.""",
 ["histories", "schedules", "inputs"],
 """all sequences of blocking-time settings, timely, late and missing replies, repeated waits on the same and on other calls;
 all setting values and units""",
 """One install-test uses one slow service with three fixed settings; the race between the watchdog's wake-up and a reply, and
 the effect of other replies on a running wait, are not exercised.""",
 ["src/client.cpp", "src/BBL.cpp", "src/ipc.cpp", "src/mib.h"],
 [("deadline published per client and wake-up message", "src/client.cpp tpgetrply, src/BBL.cpp handle_blocktime"),
  ("timed send", "src/ipc.cpp msgsnd_timed"), ("next/all/default selection", "src/client.cpp next_blocktime")],
 [("blocktime_next, blocktime_all", "per-client settings", "src/client.cpp")],
 ["tpsblktime", "tpgblktime", "tpgetrply", "tpcall", "tpacall"])

prop("S01", "Each accepted request runs exactly once and its outcome is reported once",
 """Every request a send call accepted is executed by exactly one server that offers the requested service, with the data the
 caller sent, even when several server processes share one queue, servers run several dispatch threads or the request is forwarded
 along a chain; a request that expects a reply is answered exactly once, by the service that ends the chain, to the original caller.
 A service's success, failure and error returns reach the caller as success, service failure and service error with
 the service's return code and data, and a server keeps serving after any of them.""",
 ["schedules", "inputs", "histories"],
 """all interleavings of concurrent clients, MSSQ server processes and dispatch threads; all outcome kinds, forward chains and data
 sizes; with and without replies""",
 """Tests call one service at a time from one client; multiple servers on a queue, threads under load and long forward chains are
 not exercised, and nobody counts executions.""",
 ["src/server.cpp", "src/client.cpp", "src/ipc.cpp"],
 [("single receive under the dispatch lock", "src/server.cpp dispatch"),
  ("forward keeps reply queue and descriptor", "src/server.cpp server_thread::tpforward"),
  ("return value mapping", "src/server.cpp tpreturn")],
 [("req/res", "request being served and its reply", "src/server.cpp server_thread")],
 ["service routines", "tpreturn", "tpforward", "tpgetrply"])

prop("S02", "Requests go exactly to the servers that offer the service at that moment",
 """After a server advertises a service, calls by any client reach it, and after the last server that offers it withdraws it, further
 calls are refused with a no-such-entry error; at any time a request is only delivered to a server that currently offers the
 service under that name, and calls of one client are spread over all of its offering queues in turn.
 Advertising twice with the same function is harmless, with another function refused, withdrawing what is not offered is refused,
 and none of the refused operations changes what is offered.""",
 ["histories", "schedules"],
 """all histories of advertise and withdraw over several servers, services and functions, interleaved with calls from clients
 with warm and cold caches""",
 """The install-test advertises one service once in one server; withdrawal, cached routes that become stale, and several offering
 servers are not covered.""",
 ["src/svcrepo.h", "src/server.cpp", "src/mib.cpp"],
 [("per-service revision invalidates client caches", "src/svcrepo.h refresh, src/mib.cpp advertise/unadvertise"),
  ("per-server map of name to function", "src/server.cpp tpadvertisex/tpunadvertise")],
 [("advertisements", "who offers what on which queue", "src/mibtypes.h advertisement"), ("services", "names and revisions", "src/mibtypes.h service")],
 ["tpadvertise", "tpunadvertise", "tpacall", "tpcall"])

prop("Q01", "Queues deliver each message once, unchanged and in order, whatever its size",
 """Every message accepted by a message queue is received exactly once, with the type, kind, header and body it was sent with,
 whether it fits into one system message or not, and messages of one type come out in the order they went in; a typed receive
 returns the oldest message of the matching type.
 A non-waiting or time-limited send to a full queue reports failure and leaves the queue unchanged, and neither a delivered nor
 a failed message leaves anything behind outside the queue.""",
 ["inputs", "schedules", "histories", "fault_sequences"],
 """all message sizes, types and kinds, all interleavings of sends and receives of several processes, full and removed queues""",
 """The unit tests send one small and one large message of fixed size and look at three header fields.""",
 ["src/ipc.cpp", "src/ipc.h"],
 [("spill to a file above the size limit", "src/ipc.cpp qsend/qrecv"), ("timed send loop", "src/ipc.cpp msgsnd_timed")],
 [("queue contents", "messages in a System V queue", "kernel")],
 ["qsend", "qrecv", "temporary files"])

prop("M01", "Shared configuration tables keep entries unique, bounded and in place",
 """Queues, groups, servers, services and advertisements are each recorded at most once, are found again under the key they were
 recorded with, and keep their position and contents while other entries are added or removed; a duplicate or a request beyond the
 configured capacity is refused and leaves every table and every lookup as it was.
 Withdrawn advertisements free their room for later ones, and every change to a service's advertisements changes that
 service's revision.""",
 ["histories", "configurations", "inputs"],
 """all histories of additions, removals and lookups over all capacities""",
 """The unit tests add one entry to tables of capacity 1 and 5; exhaustion of each table, reuse and refused operations followed by
 further use are not covered.""",
 ["src/mib.cpp", "src/mib.h", "src/mibtypes.h"],
 [("make_*/find_* pairs with bounds-checked access", "src/mib.cpp"), ("revision counter", "src/mibtypes.h service::modified")],
 [("mibarr", "table with length and capacity", "src/mib.h")],
 ["make_queue/group/server/service", "advertise", "unadvertise", "find_*"])

prop("M02", "Client slots and queues are reclaimed on exit or death, never while in use",
 """Every attached client has a slot and a reply queue of its own for as long as it lives; detaching or dying at any point frees both for
 later clients, so that only clients alive at the same time count against the configured maximum.
 A client beyond the maximum is refused without harm to the others, which keep working, and a client may attach once
 another left.""",
 ["crash_points", "histories", "schedules"],
 """all histories of clients attaching, detaching, calling and being killed at any point, up to and beyond the configured maximum""",
 """The install-test attaches and detaches one client; limits, kills and reuse of slots are not covered.""",
 ["src/mib.cpp", "src/client.cpp", "src/BBL.cpp"],
 [("slot search and reuse", "src/mib.cpp make_accesser"), ("watchdog reaps dead clients", "src/BBL.cpp monitor_clients"),
  ("detach removes queue and slot", "src/client.cpp ~client")],
 [("accessers", "attached clients with reply queue", "src/mibtypes.h accesser")],
 ["tpinit", "tpterm", "tpcall", "system message queues"])

prop("T01", "Transaction demarcation calls follow the TX state machine",
 """In every order of opening, closing, beginning, committing, rolling back, suspending, resuming and setting characteristics, each call is
 accepted exactly in the states the TX standard allows and otherwise refused with a protocol error that changes nothing; the
 reported level and characteristics are those of the resulting state, and in chained mode the end of a transaction starts
 exactly one new one.
 Every accepted begin, end, suspend and resume drives the resource manager with matching start and end calls on that same
 transaction, resource manager errors map to the documented errors and do not begin or lose a transaction.""",
 ["histories", "fault_sequences"],
 """all call sequences over all states, characteristics and resource manager answers, including invalid arguments and
 hundreds of transactions in one process""",
 """One install-test walks three straight-line sequences with a resource manager that always succeeds.""",
 ["src/tx.cpp", "src/trx.cpp"],
 [("five-state machine", "src/tx.cpp change_state, _tx_start, _tx_end"), ("error mapping", "src/trx.cpp, src/tx.cpp rm_err")],
 [("state, info", "TX state and characteristics of the thread", "src/tx.cpp tx_context")],
 ["tx_*", "tp* transaction calls", "XA switch entry points"])

prop("T02", "A global transaction ends the same way in every participating group",
 """If commit is requested and every participating group that did work votes yes, each of them is told to commit exactly once and the caller is told
 the transaction committed (or, where a resource manager then did otherwise or gave no answer, that the outcome is mixed or not known);
 if any group votes no, fails or cannot be reached, none is told to commit, every group that may still hold
 work and can be reached is told to roll back, and the caller is told the transaction was rolled back.
 A requested rollback reaches every participating group that can be reached exactly once; groups that reported read-only are not contacted again, and a
 group that did not take part is never contacted.""",
 ["fault_sequences", "histories", "configurations", "schedules"],
 """all sets of participating groups, all combinations of votes, errors and unreachable transaction managers, with other calls of
 the application outstanding meanwhile""",
 """The only multi-group test needs a commercial database and does not run; votes other than read-only never occur.""",
 ["src/tx.cpp", "src/trx.h", "src/TMS.cpp"],
 [("two phases over the participants", "src/tx.cpp tx_commit, tx_rollback, command"), ("participants recorded at join", "src/trx.h transaction_table::join")],
 [("groups", "groups that joined a transaction", "src/trx.h transaction")],
 ["tpcommit", "tpabort", "XA switch entry points in every group"])

prop("T03", "Work belongs to exactly the transaction its request was sent in",
 """A service runs inside the caller's transaction exactly when the request was sent in transaction mode, with the identity the
 caller has, also behind forwards and nested calls, and its group becomes a participant; requests sent outside a transaction or
 explicitly excluded from it run outside.
 When the service returns, its association ends successfully if it succeeded and as failed otherwise, no later request
 inherits it, and the caller's own association is resumed unchanged after a call, and after explicit suspend and resume.""",
 ["histories", "schedules", "programs"],
 """all call graphs of services over groups, forwards, no-transaction calls, suspends, failures and success in sequence on the
 same servers""",
 """No running test sends a request inside a transaction to another server.""",
 ["src/tx.cpp", "src/client.cpp", "src/server.cpp", "src/trx.h"],
 [("transaction reference travels in the request", "src/client.cpp tpacall_queue, src/server.cpp dispatch"),
  ("suspend and resume around waits", "src/client.cpp suspend_guard"), ("end on return and forward", "src/server.cpp tpreturn, tpforward")],
 [("gttid, flags", "transaction reference in a message", "src/ipc.h msgmem")],
 ["tpgetlev and tx_info in services", "XA start/end calls"])

prop("T04", "Transactions have unique identities that can be found until they end",
 """No two transactions, begun by any processes or threads, ever carry the same identifier; an identifier survives conversion to text and
 back.
 A running transaction is found under its identifier with exactly the groups that joined it, ending it makes it unknown and frees
 its entry, running transactions never share an entry, and a full table refuses a new one without disturbing others.""",
 ["histories", "schedules", "inputs"],
 """all histories of start, join, find and end over all table sizes; concurrent starts; all identifier byte values and lengths""",
 """Unit tests use a table of one or two entries and one text identifier.""",
 ["src/trx.h", "src/mib.cpp", "src/tx.cpp"],
 [("transaction table", "src/trx.h transaction_table"), ("identifier generation", "src/mib.cpp genuid"), ("text form", "src/trx.h to_string, to_xid")],
 [("entry", "table entries", "src/trx.h")],
 ["transaction_table", "tx_begin", "tx_info"])

prop("F01", "A fielded buffer behaves as a map from field to a sequence of values",
 """After any sequence of adding, changing, deleting, reading and searching calls, a fielded buffer holds for every field exactly the sequence of
 values those calls define, independent of field types and of other fields; iteration visits every value once, in the defined order,
 and counts, presence, lengths and sizes agree with the contents.
 An operation that fails reports the documented error and, for lack of space, leaves the contents of the buffer as they were.""",
 ["inputs", "histories"],
 """all call sequences over all field types (fixed, variable, nested), occurrence numbers including gaps, buffer sizes and value lengths""",
 """Unit tests use a few calls on one or two fields; combinations of types, deletes in the middle and lack of space are not covered.""",
 ["src/fbfr32.h", "src/fml32.cpp"],
 [("sorted field storage with per-type offsets", "src/fbfr32.h chg, del, delall, erase, where")],
 [("data_, offsets_", "encoded fields and type offsets", "src/fbfr32.h")],
 ["F*32 functions"])

prop("F02", "Whole-buffer operations equal their field-by-field definition",
 """Copying, updating, joining, outer-joining, concatenating, projecting and deleting lists of fields produce exactly the destination that
 the field and occurrence definition of the operation gives for any two buffers, leave the source as it was and always terminate.
 When the destination lacks space the operation fails with the documented error.""",
 ["inputs", "histories"],
 """all pairs of buffers over several fields, types and occurrence counts, all field lists, all destination sizes""",
 """Unit tests use one example per operation.""",
 ["src/fbfr32.h", "src/fml32.cpp"],
 [("iterate with in-place modification", "src/fbfr32.h iterate, join, ojoin, update, concat, proj, projcpy, xdelete")],
 [("data_", "encoded fields", "src/fbfr32.h")],
 ["Fcpy32", "Fupdate32", "Fjoin32", "Fojoin32", "Fconcat32", "Fproj32", "Fprojcpy32", "Fdelete32"])

prop("F03", "Stored, exported and printed buffers restore the same contents",
 """Writing a fielded buffer to a file and reading it back, exporting and importing any typed buffer in binary or text form, and printing
 a fielded buffer of named fields and reading the printed form each restore the same contents into any sufficient buffer, for all contents
 (floating point values as far as six decimals tell them apart). Several buffers stored in one file are read back one by one.
 Truncated or too large input is refused with an error.""",
 ["inputs"],
 """all buffer contents over all field types and bytes, nested buffers, destination sizes and truncation points""",
 """Unit tests restore a few fixed buffers with printable text.""",
 ["src/fbfr32.h", "src/extreader.h", "src/mem.cpp", "src/base64.cpp", "src/fml32.cpp"],
 [("write/read", "src/fbfr32.h"), ("fprint and extread", "src/fbfr32.h fprint, src/extreader.h"), ("export/import", "src/mem.cpp")],
 [], ["Fwrite32", "Fread32", "Ffprint32", "Fextread32", "tpexport", "tpimport"])

prop("B01", "Typed buffers keep type, room and contents until they are freed",
 """An allocated buffer is usable for at least the requested size and reports its type, subtype and size until it is freed; growing it keeps
 its contents and type, whether or not it moves, and buffers never affect one another.
 Unknown types and missing arguments are refused with the documented error and change nothing.""",
 ["histories", "inputs"],
 """all sequences of allocation, reallocation, query and free over all types and sizes, with several live buffers""",
 """Unit tests allocate one buffer at a time and do not check contents across reallocations of other buffers.""",
 ["src/mem.cpp"],
 [("header before the data with type lookup", "src/mem.cpp")],
 [("tpmem", "header of a typed buffer", "src/mem.cpp")],
 ["tpalloc", "tprealloc", "tptypes", "tpfree"])

prop("E01", "Boolean expressions mean what their grammar says",
 """Every well-formed boolean expression compiles and evaluates, on any fielded buffer, to the value defined by operator precedence and
 associativity, field and occurrence selection, absent-field rules and integer and string comparison; compiling or evaluating does not change the buffer.
 The printed form of a compiled expression compiles again to one with the same value, and malformed expressions are
 refused.""",
 ["inputs", "programs"],
 """all expressions of the grammar up to a depth over integer, character and string fields with any occurrences, on all small buffers""",
 """Unit tests evaluate a few dozen fixed expressions.""",
 ["src/expr.cpp", "src/basic_parser.h"],
 [("recursive descent parser and tree evaluation", "src/expr.cpp")],
 [], ["Fboolco32", "Fboolev32", "Fboolpr32", "Ffloatev32"])

prop("U01", "A loaded configuration creates exactly the described domain",
 """Loading a valid configuration file creates exactly the groups, servers (with their instance ranges, autostart settings, queue sharing,
 threads and transaction managers), limits and machine settings it describes, with documented defaults for what it omits, and the stored
 configuration unloads to the same text.
 A configuration that is malformed, out of range, references unknown groups or does not fit its own limits is refused with an error
 and does not replace a previously loaded one.""",
 ["configurations", "inputs"],
 """all configurations over sections, parameters, orders, quoting and value ranges""",
 """Each install-test loads one small valid file and does not look at the result.""",
 ["src/ubbreader.h", "src/ubb2mib.cpp", "src/tmloadcf.cpp", "src/tmunloadcf.cpp", "src/mib.cpp"],
 [("parser", "src/ubbreader.h"), ("table construction", "src/ubb2mib.cpp"), ("stored form", "src/tmloadcf.cpp")],
 [("tuxconfig", "stored configuration", "src/ubb.h")],
 ["tmloadcf", "tmunloadcf", "management tables"])

prop("N01", "Field tables, lookups and generated headers agree",
 """What a set of field tables defines is one mapping between names and identifiers (composed from type, base and number): lookups by name and
 by identifier and the headers generated from the tables all give exactly these definitions, the first directory that has a table decides.
 Looked up names stay valid and correct, from any number of threads, until that mapping is unloaded; after an unload the tables in force
 are read again. Malformed tables and numbers that do not fit are refused with an error, never turned into wrong identifiers.""",
 ["inputs", "histories", "schedules"],
 """all tables over lines of every kind and all value ranges; all sequences of lookups, unloads, table and environment changes; concurrent first lookups""",
 """The tests look up names of one fixed table and never change it, unload one mapping only, or look up from several threads.""",
 ["src/fbfr32fld.h", "src/fieldtbl32.h", "src/mkfldhdr32.cpp", "src/fml32.cpp"],
 [("tables -> mappings", "src/fbfr32fld.h load_fieldtbls32"), ("table grammar", "src/fieldtbl32.h"), ("headers", "src/mkfldhdr32.cpp")],
 [("id_to_name, name_to_id", "loaded mappings", "src/fbfr32fld.h Fbfr32fields")],
 ["Fldid32, Fname32, Fmkfldid32, Fldtype32, Fldno32, Fidnm_unload32, Fnmid_unload32", "mkfldhdr32"])

prop("G01", "Every user log entry appears once, whole and in order",
 """Every successful userlog() call appends exactly one entry to the file of the day of the prefix then set: the time of the call (with milliseconds
 when asked for), node, program and process that called, the complete formatted message whatever its length, and an end of line.
 Entries of threads and processes that log at the same time do not mix or get lost, and entries of calls that did not overlap are in their order.
 A call whose file cannot be opened or written fails with -1 and changes nothing.""",
 ["inputs", "schedules", "histories"],
 """all messages, lengths, settings and their changes; all interleavings of threads and processes that log to the same file""",
 """The tests log three short messages and never look at the file.""",
 ["src/userlog.cpp"],
 [("format and append", "src/userlog.cpp userlog")],
 [("the log file", "PREFIX.MMDDYY", "src/userlog.cpp")],
 ["userlog()", "contents of the log files"])

prop("F04", "Access with conversion equals converting and plain access",
 """Adding, changing, reading and searching a field with a value of another type act exactly as the conversion of that value (integers cut to the
 type, texts read as the number at their beginning, numbers written out, same type unchanged) followed by the plain operation on the field,
 for every pair of supported types and every value. Conversions never write beyond the given room, report the length they need,
 results of one thread are not disturbed by others, and unsupported types are refused with nothing changed.""",
 ["inputs", "histories", "schedules"],
 """all pairs of field and user types, values at the limits of each type, malformed and long texts, room given, histories of a buffer""",
 """The tests convert a few small values that every type can hold.""",
 ["src/fml32.cpp", "src/fbfr32.h"],
 [("conversion", "src/fml32.cpp Ftypcvt32"), ("CFadd32 and others", "src/fbfr32.h, src/fml32.cpp")],
 [("thread's conversion buffer", "result of the last conversion", "src/fml32.cpp")],
 ["CFadd32, CFchg32, CFget32, CFfind32, CFfindocc32, Ftypcvt32, Ffindocc32"])

prop("V01", "View headers describe exactly the views",
 """The header viewc32 generates from a view description holds one structure of the view's name with a member for every field in its order,
 of the field's type and dimensions, with the length and count companions its flags ask for, and the lines to be copied;
 it is named after the description and compiles. A malformed description is refused with an error, no header is written for it
 and headers of other descriptions stay as they are.""",
 ["inputs", "histories"],
 """all descriptions over line kinds, types, counts, sizes, flags and orders; valid and malformed; many files in one run""",
 """The tests generate one header of one fixed description and do not look at it.""",
 ["src/view32.h", "src/viewc32.cpp", "src/basic_parser.h"],
 [("grammar", "src/view32.h"), ("generator", "src/viewc32.cpp")],
 [], ["viewc32", "generated headers"])

prop("K01", "Built programs offer and run exactly what they were built for",
 """A server made by buildserver offers exactly the services it was built for, each answered by the function it was built with (also in the order it
 lists), uses the switch of the named resource manager (as does a transaction manager made by buildtms), calls its own initialisation if it
 has one, works on several requests at a time only if built for threads, and does not start in a group of another resource manager.
 An unknown resource manager or a missing function is an error, no program is made then and no intermediate files stay behind.""",
 ["inputs", "configurations"],
 """all tables of services and functions, resource managers, options and their orders""",
 """Tests build a handful of fixed servers with services named like their functions.""",
 ["src/buildserver.cpp", "src/build.h", "src/buildtms.cpp", "src/buildclient.cpp", "src/server.cpp"],
 [("generated main program", "src/buildserver.cpp"), ("resource managers", "src/build.h"), ("dispatch table", "src/server.cpp _tmstartserver")],
 [("dispatch table", "services and functions", "include/atmi.h tmdsptchtbl_t")],
 ["buildserver", "buildtms", "buildclient", "answers of services", "calls of the resource manager"])

prop("L01", "Boot and shutdown move exactly the selected servers and clean up fully",
 """Booting starts every selected autostart server that is not running and no other, and reports those that fail to start; shutting down
 stops exactly the selected running servers, also when several share a queue, while the others keep serving, and each stopped
 server ran its cleanup first.
 After a complete shutdown, or removal of the domain's system resources, no process, message queue, semaphore or shared memory of
 the domain is left and the domain can be booted again.""",
 ["histories", "crash_points", "configurations"],
 """all sequences of boot, selective and full shutdown and server crashes over configurations with shared and separate queues""",
 """Install-tests boot and shut down one fixed configuration; shared queues, selection by group and crashes are not covered.""",
 ["src/tmboot.cpp", "src/tmshutdown.cpp", "src/tmipcrm.cpp", "src/server.cpp", "src/mib.cpp", "src/BBL.cpp"],
 [("start and wait for ready", "src/tmboot.cpp start"), ("stop message with put-back", "src/server.cpp dispatch, handle"), ("resource removal", "src/mib.cpp collect, remove")],
 [("server.state, pid", "life-cycle of a server", "src/mibtypes.h server")],
 ["tmboot", "tmshutdown", "tmipcrm", "processes", "System V IPC objects"])

prop("A01", "Management queries report the domain as it is",
 """A management query for domain, machine, service, server, queue or service-group information returns exactly one entry per existing object of that class with
 its current identity and state, in every state of the domain reached by advertising, withdrawing, booting and stopping.
 The query itself changes nothing, always answers, and reports an unknown class as an error.""",
 ["histories", "configurations"],
 """all domain states reachable through advertise, withdraw, boot and stop, all classes""",
 """One install-test prints the answers for one state without looking at them.""",
 ["src/tpadmcall.cpp", "src/BBL.cpp"],
 [("one formatter per class", "src/tpadmcall.cpp")],
 [], ["tpadmcall", ".TMIB service"])

open(os.path.join(os.path.dirname(__file__), "..", "properties.jsonl"), "w").write("".join(json.dumps(p) + "\n" for p in P))
