#!/usr/bin/env python3
"""Writes MANIFEST.json: the claimed checks, and a reason for every other property."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, "lib"))
TECH = "explicit TLA+ specification checked with TLC; %s"
WALK = "walks covering every transition of its state graph and random histories executed by the real code, recorded traces validated by TLC against the specification"
DOM = "scripted histories in a real domain (servers, clients, IPC queues), recorded traces validated by TLC against the specification"
CLAIM = {
 "T04": (WALK, "Every transition of an exhaustively explored small transaction table is executed on the real table in shared memory; larger tables and XID encodings by seeded random histories. Trusts TLC, the driver's recording and the sequential use of the table under its lock."),
 "M01": (WALK, "As T04 for the machine, group, server, service, queue and client tables of the MIB: all transitions of the small model plus seeded random histories in larger tables."),
 "F01": (WALK, "Single-field operations: all transitions of small buffers (1 to 4 fields, 2-3 occurrences, a few bytes of room) and long random histories over all eight types; values are compared byte for byte."),
 "F02": (WALK, "Whole-buffer operations on pairs of buffers: all transitions of small pairs and random pairs over all eight types, including lack of room."),
 "F03": ("values and files generated from the specification run through the real code, every outcome recorded and validated by TLC", "Contents are arbitrary bytes over all field types with nesting up to four levels; files hold several buffers and are cut at arbitrary bytes; every transition of a small model of buffers, files and read positions is executed, plus seeded random histories."),
 "B01": (WALK, "Typed buffers: tpalloc, tprealloc, tptypes, tpfree, tpexport and tpimport over all built-in types; every transition of a small configuration, random histories in larger ones, allocation failure through impossible sizes."),
 "E01": ("expressions generated from the specified grammar, evaluated by the real code and by a TLA+ parser and evaluator in TLC", "Every token sequence up to length 4-7 over small alphabets plus seeded random expressions and buffers over all field types; results beyond exact small dyadic numbers are not judged. Regular expressions: a subset, matched at the beginning of the value."),
 "Q01": (WALK, "System V message queues through fux::ipc: every transition of a small model (types, selectors, sizes kept in the queue or spilled to a file, full and removed queues), random histories with arbitrary contents, limits with and without room coming up, and concurrent senders and receivers (sampled schedules)."), 
 "C01": (WALK, "The real client library against a driver that plays the servers over the real IPC queues: every transition of a model with 3-4 calls (replies, cancellations, late replies, TPGETANY, time-outs), random histories with up to 60 outstanding calls and data of 0-20000 bytes."),
 "C02": (WALK, "As C01, plus exhaustion of the descriptor space, full and vanished request queues and failures before the request is sent; after every history the remaining descriptors are counted by allocating until TPELIMIT."),
 "C03": ("seeded histories of blocking calls with replies and wake-ups around the limits, executed by the real client library with the driver's and with the real watchdog (BBL); recorded traces validated by TLC against the specification", "Upper bounds are judged with a slack of 1.5 s (driver's watchdog) or 4.5 s (BBL scanning every second), lower bounds exactly; a rejected history is re-run before it is reported."),
 "S01": (DOM, "A design of queues, shared queues, threads and routing is checked to refine the abstract specification (small configurations, exhaustive); real domains run seeded random programs of nested, asynchronous, forwarded and unanswered requests over single servers, shared queues and dispatch threads, also with servers killed and started again. Schedules are those the machine produces."),
 "S02": (DOM, "Every transition of all combinations of offers (2-3 servers, shared and own queues, 2 services, 2 functions) is executed by real servers with calls of clients and servers in every state; seeded random churn of offers against concurrent callers, limits of the tables, killed servers. Concurrent changes of the same offer by threads of one server are not exercised."), "M02": (DOM, "Every transition of a small model of clients (two or three places, up to four clients in three processes, kills) is executed in real domains; seeded random histories, all clients at once (up to 16 threads), kills at random times while joining, leaving and calling, a client that takes nothing from its queue, no system queues left. One recorded finding: a client killed between the creation of its queue and its entry in the table."),
 "T01": (WALK, "Every transition of an exhaustively explored model of one thread's TX and ATMI transaction calls (in a client, in a service, in a service called in a transaction) with all answers of its resource manager, executed in real domains with a recording resource manager (of the many ways a transaction can end a seeded sample in quick). One branch per thread; timeouts of transactions are not enforced by the product and not judged."),
 "T02": (DOM, "A design of two-phase commit with asynchronous messages, joining requests and dying transaction managers is checked to keep outcomes atomic (2-3 groups, 2-3 requests, exhaustive); real domains with four groups run all pairs of votes and answers, sampled larger sets, and transaction managers killed at each call. No crash of the initiator (the product keeps no log)."),
 "T03": (DOM, "Seeded random programs of clients and services on ten servers in three groups (nested and asynchronous calls, forwards, TPNOTRAN, transactions begun in services, suspended, left over, ended while others work in them), half of them with resource managers that fail. Schedules are those the machine produces."),  "F04": ("exhaustive TLC exploration of the conversion specification on a buffer of few fields and seeded conversions of all pairs of types, executed by the real code; every result validated by TLC against the conversion written in TLA+", "TLC explores additions, changes, reads and searches with all pairs of types on a small buffer exhaustively and the walks are executed; seeded values at the limits of every type, malformed texts, rooms, several threads. Numbers are judged exactly up to 10^12 with six decimals; larger ones are not generated."),
 "V01": ("exhaustive TLC exploration of descriptions of few lines executed by the real program, the generated headers compiled and compared by TLC with the structure the specification derives; seeded larger descriptions", "All descriptions of up to three lines out of a small set with several files in one run; seeded random ones with up to dozens of fields and faults. The order of companions next to their member is left open."),
 "K01": ("exhaustive TLC exploration of build histories executed by the real build programs; seeded programs built, listed and run in real domains, recorded calls validated by TLC", "All builds of a small set of tables, resource managers and options, again and again in one directory; seeded random tables; domains of two kinds of resource managers with servers, transaction managers and a client all made by the build programs. Link options and compilers other than cc are not exercised."),
 "G01": ("TLC explores settings and entries exhaustively on a small set; walks, boundary lengths, random ones and storms of threads and processes are executed by the real userlog(); the TLA+ specification decides whether the files hold exactly the entries of the calls", "All lengths around powers of two up to 64 KiB (every fourth in quick), 40 (600) random sequences, 24 (300) storms of 8-16 writers. Long texts are compared by beginning, length and a 64-bit sum. Schedules are those the machine produces."), "N01": ("TLC explores lookups, unloads and changes of tables exhaustively on a small set; walks, all short tables and random ones are executed by the real library and mkfldhdr32; a TLA+ reader of tables judges every result", "All tables of up to 3 (quick) or 4 lines over an alphabet of 8 lines; otherwise seeded random. Which of two definitions of the same name or number wins is open; lookups in malformed tables may fail or answer from their well-formed lines."), "U01": ("files generated as token sequences, loaded by the real tools; a TLA+ parser and table builder in TLC decides what is refused and what processes that attach must find", "All sequences up to length 3 (quick) or 5 over small alphabets of tokens in four sections, every number at and beyond the ends of its range, random configurations with up to two faults, blanks, quotes and comments varied, writes that fail, -n, up to six processes attaching at once. Parameters given twice, unknown sections and a few odd layouts are not judged beyond what is stored; SERVICES is ignored by the product."), "L01": (DOM, "Every transition of a small model of four servers and the watchdog (boot and shutdown by group, by server and complete, kills, servers that fail to start, removal of resources) is executed in real domains of their own; seeded random domains with shared queues, MIN/MAX and AUTOSTART. Selection by -g, -i and -A only."), "A01": (DOM, "Every class is queried through the service .TMIB and through tpadmcall in all states met by seeded random histories of boot, stop, kill, advertise and unadvertise in random domains; also malformed requests. Columns judged: identity and state; statistics are not. Only GET is judged, T_GROUP and SET are unfinished in the product."),
}
NOTES_FILE = os.path.join(V, "tools", "notes.json")
if os.path.exists(NOTES_FILE):
    for k, v in json.load(open(NOTES_FILE)).items():
        CLAIM[k] = (CLAIM[k][0], v)
import registry
checks, na = [], []
for line in open(os.path.join(V, "properties.jsonl")):
    p = json.loads(line)["id"]
    if p in registry.CHECKS and CLAIM[p][1]:
        checks.append({"property": p, "quick_cmd": "bin/check %s quick" % p, "thorough_cmd": "bin/check %s thorough" % p,
                       "technique": TECH % CLAIM[p][0], "level": "model_checking", "level_note": CLAIM[p][1]})
    else:
        na.append({"property": p, "reason": "the technique applies, but no check has been built for it yet"})
m = {"version": 1, "setup_cmd": "true", "checks": checks, "not_applicable": na,
     "notes": "No hooks: the checks build /repo's sources as they are. Language: TLA+ (TLC)."}
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "claimed;", [x["property"] for x in na])
