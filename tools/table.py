"""Which explorations decide which property, with which bounds."""

TECHNIQUE = "bounded symbolic execution of the Go SSA of /repo (own executor) with z3; counterexamples replayed natively"
TRUST = ("Verdict: no violation for any value, branch, schedule or fault within the stated bounds. Trusts the executor's model of Go, "
         "the runtime and the stubbed libraries (validated each run by natively replaying sampled paths) and z3.")
NOTES = ("Every check loads /repo's working tree, compiles it to SSA and executes it symbolically; see DESIGN.md. "
         "`build/gosymx replay FILE` replays a counterexample against the real code.")

NOT_APPLICABLE = {
}

def T(h, p=None, **kw):
    d = {"harness": h}
    if p:
        d["params"] = p
    d.update(kw)
    return d

CHECKS = {}

def check(pid, quick, thorough, note, outside, stubs=None):
    CHECKS[pid] = dict(quick=quick, thorough=thorough, note=note, outside=outside)
    if stubs:
        CHECKS[pid]["stubs"] = stubs

DELAY = "; schedules: every one that deviates from a round-robin scheduler at most {d} time(s)"

check("C01",
  [T("C01_RoundTrip", {"k": 2, "len": 3}, bounds="each of the protocol's record types; by value and by pointer; every subset of at most 2 set attributes and every complement of one, each with any value; strings of at most 3 arbitrary bytes"),
   T("C01_Twice", {"k": 1, "len": 2}, bounds="as above for re-encoding what was decoded; at most 1 attribute")],
  [T("C01_RoundTrip", {"k": 3, "len": 4}, bounds="at most 3 set attributes (or all but at most 3), strings of at most 4 bytes", seconds=600),
   T("C01_Twice", {"k": 2, "len": 3}, bounds="at most 2 attributes")],
  "All record types, attribute subsets of bounded size and all attribute values symbolically.",
  "strings longer than the bound; attribute subsets of intermediate size; map iteration orders other than insertion order in the encoder's reflection loop")
check("C02",
  [T("C02_Encode", {"k": 2, "len": 2}, bounds="every record type, at most 2 (or all but 2) set attributes with any value, strings of at most 2 bytes"),
   T("C02_Decode", {"k": 2, "len": 2}, bounds="every record type, at most 2 (or all but 2) attributes present"),
   T("C02_Types", bounds="every record type's code")],
  [T("C02_Encode", {"k": 3, "len": 4}, seconds=400, bounds="at most 3 (or all but 3) set attributes, strings of at most 4 bytes"),
   T("C02_Decode", {"k": 3, "len": 4}, seconds=300, bounds="at most 3 (or all but 3) attributes present"),
   T("C02_Types", bounds="every record type's code")],
  "The oracle is an independent table of the protocol's type codes and attribute codepoints.",
  "strings longer than the bound")
check("C03",
  [T("C03_Decode", {"n": 1, "len": 2}, bounds="every record type; all required attributes plus 1 arbitrary attribute of any kind of value (12 kinds) at any codepoint, or a required one spoiled; alone or among 29 to 58 unknown attributes"),
   T("C03_Type", bounds="any type code value, 12 kinds of value or none")],
  [T("C03_Decode", {"n": 2, "len": 2}, seconds=500, bounds="as quick, 2 arbitrary attributes"),
   T("C03_Type", bounds="any type code value, 12 kinds of value or none")],
  "Attribute sets of bounded size with symbolic keys and values of every Go kind AMQP decoding produces.",
  "attribute sets with more arbitrary attributes than the bound; value kinds that go-amqp never produces")
check("C04",
  [T("C04_Props", {"k": 1}, bounds="properties, application properties and body present or absent; any subject; 1 field at a time absent or of any kind of value, others as expected"),
   T("C04_Body", {"n": 2}, bounds="bodies of at most 2 elements of any kind")],
  [T("C04_Props", {"k": 2, "kinds": 4}, seconds=400, bounds="as quick, 2 fields at a time, 4 kinds of value"),
   T("C04_Body", {"n": 3}, seconds=300, bounds="bodies of at most 3 elements of any kind")],
  "Any message structure within bounds, symbolic contents.",
  "messages with more application properties, body sections or elements than the bound")
check("C05",
  [T("C05_RoundTrip", {"len": 3}, bounds="all field values; strings of at most 3 bytes"), T("C05_Independent", bounds="two messages of any kinds")],
  [T("C05_RoundTrip", {"len": 6}, bounds="all field values; strings of at most 6 bytes"), T("C05_Independent", bounds="two messages of any kinds")],
  "All field values within the string bound.", "strings longer than the bound")
check("C06",
  [T("C06_Records", {"n": 2}, bounds="sequences of at most 2 records of any type, encodable or not"), T("C06_TypeMeta", bounds="every registered type"),
   T("C04_Body", {"n": 2}, bounds="decoding bodies of at most 2 elements of any kind")],
  [T("C06_Records", {"n": 3}, seconds=600, bounds="sequences of at most 3 records"), T("C06_TypeMeta", bounds="every registered type")],
  "Sequences of records over all registered types.", "messages with more records than the bound")
check("C07",
  [T("C07_Encode", bounds="any instant within +-2^62 s, any nanosecond"), T("C07_Record", bounds="any instant as a record attribute"), T("C07_Decode", bounds="any 64-bit value and values of other kinds")],
  [T("C07_Encode", bounds="any instant within +-2^62 s, any nanosecond"), T("C07_Record", bounds="any instant as a record attribute"), T("C07_Decode", bounds="any 64-bit value and values of other kinds")],
  "All 64-bit values.", "monotonic clock readings and time zones (they do not enter the encoding)")
check("C08",
  [T("C08_Values", {"len": 3, "k": 2}, bounds="struct with every supported kind of attribute, any values, at most 2 (or all but 2) set; strings of at most 3 bytes"),
   T("C08_Custom", bounds="custom codecs and structs embedded up to 4 levels deep, any values"),
   T("C08_Nested", mode="delay", delays=1, bounds="an attribute that is a record itself, registered before or by the codec, any values, while a type is registered" + DELAY.format(d=1)),
   T("C08_Register", {"n": 1}, bounds="registration of each of 19 types (valid, in use, malformed) under any 32-bit code"),
   T("C08_Register", {"n": 2, "builtins": 2}, bounds="as above after one earlier registration"),
   T("C08_Stored", mode="delay", delays=0, bounds="add, then 2 updates or accumulations of a record with list, byte, counter and text attributes, any values; by value or pointer"),
   T("C08_Published", mode="delay", delays=0, bounds="an update of such a record by a manager, buffered or not")],
  [T("C08_Values", {"len": 4, "k": 3}, bounds="as quick with at most 3 set, strings of at most 4 bytes"),
   T("C08_Custom", bounds="custom codecs and structs embedded up to 4 levels deep, any values"),
   T("C08_Register", {"n": 2, "builtins": 27}, bounds="two registrations", seconds=200),
   T("C08_Register", {"n": 3, "builtins": 1}, bounds="three registrations", seconds=200),
   T("C08_Stored", {"n": 3}, mode="delay", delays=0, seconds=100, bounds="add, then 3 updates or accumulations of such a record"),
   T("C08_Published", mode="delay", delays=1, seconds=60, bounds="an update of such a record by a manager" + DELAY.format(d=1))],
  "Symbolic codes and values over a family of application types.", "struct types other than the harness's 21")
check("C09",
  [T("C09_Codec", {"ops": 1, "threads": 2}, bounds="2 goroutines encoding or decoding once while another registers; all interleavings")],
  [T("C09_Codec", {"ops": 2, "threads": 2}, seconds=300, bounds="2 goroutines with 2 operations each"), T("C09_Codec", {"ops": 1, "threads": 3}, seconds=300, bounds="3 goroutines")],
  "All interleavings of synchronisation operations; vector-clock race detection on each.", "more goroutines or operations than the bound; weak-memory effects beyond data races")

OPS = "sequences of {n} operations (add, update, delete, accumulate, replace with at most {b} entries) on entries with arbitrary one-byte identities{v}"
def ops(n, b=2, plain=False):
    return OPS.format(n=n, b=b, v="" if plain else " and arbitrary names of at most 1 byte")

check("C10",
  [T("C10_Map", {"n": 2}, bounds=ops(2) + "; 5 key functions (by identity, type, entry type, source, failing)"),
   T("C10_Map", {"n": 3, "plain": 1, "batch": 1}, bounds=ops(3, 1, True) + "; 5 key functions")],
  [T("C10_Map", {"n": 3, "kf": 1}, seconds=200, bounds=ops(3) + "; default key function"),
   T("C10_Map", {"n": 4, "plain": 1, "batch": 1, "kf": 1}, seconds=250, bounds=ops(4, 1, True) + "; default key function"),
   T("C10_Map", {"n": 3}, seconds=350, bounds=ops(3) + "; 5 key functions")],
  "All operation sequences of the bounded length from the empty store, with symbolic identities and attribute values, against a model map.",
  "longer histories; record types other than sites and links; key functions other than the 5")
check("C11",
  [T("C11_Index", {"n": 2}, bounds=ops(2) + "; indexers with 0 to 3 (repeated) values per entry; any exemplar"),
   T("C11_Index", {"n": 3, "plain": 1, "batch": 1}, bounds=ops(3, 1, True)),
   T("C11_Default", {"n": 2}, bounds="2 updates, accumulates or deletes with arbitrary one-byte identities, sources and site annotations; default indexes")],
  [T("C11_Index", {"n": 3, "batch": 1}, seconds=350, bounds=ops(3, 1)),
   T("C11_Index", {"n": 4, "plain": 1, "batch": 1}, seconds=250, bounds=ops(4, 1, True)),
   T("C11_Default", {"n": 3}, seconds=150, bounds="3 operations, default indexes")],
  "All operation sequences of the bounded length, symbolic identities, index values and exemplars.",
  "longer histories; indexers that are not functions of the entry; sources whose String() coincides")
check("C12",
  [T("C12_ETag", {"n": 3, "plain": 1, "batch": 1}, bounds=ops(3, 1, True) + "; read at any point, conditional update at the end"),
   T("C12_ETag", {"n": 2}, bounds=ops(2) + "; read at any point, conditional update at the end"),
   T("C12_Forged", {"len": 4}, bounds="any string of at most 4 bytes, every truncation and every mangled byte of a valid ETag")],
  [T("C12_ETag", {"n": 4, "plain": 1, "batch": 1}, seconds=250, bounds=ops(4, 1, True)),
   T("C12_ETag", {"n": 3}, seconds=350, bounds=ops(3)),
   T("C12_Forged", {"len": 8}, seconds=100, bounds="any string of at most 8 bytes, truncations and mangled bytes of a valid ETag")],
  "All histories of the bounded length between the read and the conditional update.",
  "longer histories; an ETag issued for one key used for another; well-formed ETags that were never issued")
check("C13",
  [T("C13_Merge", {"n": 2, "many": 0}, bounds="every record type; 2 partial records with at most 1 attribute each, any values (strings of at most 1 byte), from nothing or on an entry added with annotations"),
   T("C13_Unmergeable", bounds="4 kinds of unmergeable partial records on an existing entry; any time before the epoch")],
  [T("C13_Merge", {"n": 2}, seconds=120, bounds="as quick; the first may set all but 1 attribute"),
   T("C13_Merge", {"n": 3, "k": 1, "many": 0, "type": 14}, seconds=150, bounds="3 partial log records"),
   T("C13_Merge", {"n": 2, "k": 2, "many": 0, "type": 2, "len": 2}, seconds=150, bounds="2 partial link records with at most 2 attributes"),
   T("C13_Merge", {"n": 3, "many": 0}, seconds=300, bounds="3 partial records, every type"),
   T("C13_Unmergeable", bounds="4 kinds of unmergeable partial records on an existing entry")],
  "All values of the attributes set; every attribute of every record type.",
  "longer sequences; merging a record of another type under the same key, beyond its being an error or a success that stays decodable")
check("C14",
  [T("C14_Handlers", {"n": 2}, bounds=ops(2) + "; every combination of handlers set and not set"),
   T("C14_Handlers", {"n": 3, "plain": 1, "batch": 1}, bounds=ops(3, 1, True)),
   T("C14_Same", {"n": 1}, bounds="an entry replaced once by one with the same record and other metadata"),
   T("C14_Unmergeable", bounds="4 kinds of unmergeable partial records")],
  [T("C14_Same", {"n": 2}, seconds=100, bounds="an entry replaced twice by others with the same record and other metadata"),
   T("C14_Handlers", {"n": 3}, seconds=350, bounds=ops(3)),
   T("C14_Handlers", {"n": 4, "plain": 1, "batch": 1}, seconds=300, bounds=ops(4, 1, True)),
   T("C14_Unmergeable", bounds="4 kinds of unmergeable partial records")],
  "All operation sequences of the bounded length; handler calls compared with the model's changes.",
  "longer histories; key functions that fail")
check("C15",
  [T("C15_Paging", {"entries": 3}, bounds="at most 3 entries with distinct arbitrary keys of at most 1 byte, every offset and limit up to 4, both orders, listing and index query, offset kept or dropped when continuing"),
   T("C15_Total", {"len": 3}, bounds="any 64-bit offset, limit and ordering; tokens: any string of at most 3 bytes, cut, mangled and extended valid tokens, forged offsets; at most 2 entries")],
  [T("C15_Paging", {"entries": 4}, seconds=200, bounds="at most 4 entries"),
   T("C15_Paging", {"entries": 3, "len": 3}, seconds=200, bounds="keys of at most 3 bytes"),
   T("C15_Total", {"len": 8}, seconds=200, bounds="tokens: any string of at most 8 bytes")],
  "Symbolic keys (all orders of them), offsets and limits.",
  "larger contents; changes of the content between pages; sort.Slice is executed as an insertion sort with the same comparison function")
check("C16",
  [T("C16_Dispatch", {"n": 2, "types": 3}, bounds="at most 2 registrations (and one after the dispatcher's creation) and 2 records over 3 types, by value or pointer; any failure pattern of the stores"),
   T("C16_Stores", {"n": 3}, bounds="3 records into real stores")],
  [T("C16_Dispatch", {"n": 2, "types": 5}, seconds=250, bounds="5 types"), T("C16_Dispatch", {"n": 3, "types": 3, "regs": 2}, seconds=250, bounds="3 records"),
   T("C16_Dispatch", {"n": 1, "regs": 1, "types": 15}, seconds=200, bounds="every record type, 1 registration, 1 record"),
   T("C16_Stores", {"n": 4}, bounds="4 records into real stores")],
  "Every combination of registrations, records and store failures within bounds.", "larger messages and registries")
check("C17",
  [T("C17_Adds", {"threads": 3}, bounds="3 concurrent adds"), T("C17_Updates", {"threads": 3}, bounds="3 concurrent updates under one ETag"),
   T("C17_Accumulate", {"threads": 3}, bounds="3 concurrent accumulates of different attributes"),
   T("C17_SameAttribute", {"threads": 2}, bounds="2 concurrent accumulates of one attribute, any values"),
   T("C17_Linearizable", {"threads": 2, "ops": 1}, bounds="any 2 of 10 operations concurrently, 2 keys"),
   T("C17_Linearizable", {"threads": 3, "ops": 1, "keys": 1}, bounds="any 3 of 10 operations concurrently, 1 key"),
   T("C17_Reentrant", bounds="6 operations called back from handlers of 3 operations, with a concurrent reader")],
  [T("C17_Adds", {"threads": 4}, bounds="4 concurrent adds"), T("C17_Updates", {"threads": 4}, bounds="4 concurrent updates under one ETag"),
   T("C17_Accumulate", {"threads": 4}, bounds="4 concurrent accumulates"), T("C17_Accumulate", {"threads": 2, "ops": 2}, bounds="2 threads with 2 accumulates"),
   T("C17_SameAttribute", {"threads": 3}, bounds="3 concurrent accumulates of one attribute, any values"),
   T("C17_Linearizable", {"threads": 3, "ops": 1}, seconds=100, bounds="any 3 operations concurrently, 2 keys"),
   T("C17_Linearizable", {"threads": 2, "ops": 2, "keys": 1}, seconds=300, bounds="2 threads with any 2 operations each, 1 key"),
   T("C17_Reentrant", bounds="callbacks from handlers")],
  "All interleavings at synchronisation operations; results and handler calls must be explained by a sequential order that respects real time; vector-clock race detection.",
  "more threads or operations")
check("C18",
  [T("C18_Snapshots", {"n": 2}, bounds=ops(2) + "; everything handed out at any point compared at the end"),
   T("C18_Snapshots", {"n": 3, "plain": 1, "batch": 1}, bounds=ops(3, 1, True))],
  [T("C18_Snapshots", {"n": 3}, seconds=300, bounds=ops(3)), T("C18_Snapshots", {"n": 4, "plain": 1, "batch": 1}, seconds=300, bounds=ops(4, 1, True))],
  "All operation sequences of the bounded length after the snapshot.", "longer histories; callers that modify what they were handed")

ALL = "; all interleavings of synchronisation operations"
check("C19",
  [T("C19_Script", {"n": 3, "kinds": 3}, bounds="3 events (beacons of symbolic identities, forgets, time passing, adds), handlers fast or slow, every schedule"),
   T("C19_Script", {"n": 2}, bounds="2 events of any kind" + ALL),
   T("C19_Concurrent", {"ops": 2, "threads": 1}, bounds="2 operations concurrent with 2 beacons" + ALL),
   T("C19_Concurrent", {"ops": 2, "threads": 2, "beacons": 0}, bounds="2 goroutines with 2 operations each" + ALL)],
  [T("C19_Script", {"n": 4, "kinds": 3}, seconds=200, bounds="4 events" + ALL),
   T("C19_Script", {"n": 3}, seconds=200, bounds="3 events of any kind" + ALL),
   T("C19_Concurrent", seconds=200, bounds="2 goroutines with 2 operations each and 2 beacons" + ALL),
   T("C19_Concurrent", mode="delay", delays=2, seconds=100, bounds="as above" + DELAY.format(d=2))],
  "Event histories with symbolic identities under every schedule; the calls are compared with the changes in order.",
  "longer histories; more goroutines")
check("C20",
  [T("C20_Script", {"n": 3}, bounds="3 events: beacons with symbolic identity and contents, malformed and foreign messages, receive and accept errors, adds, forgets, waits of any length"),
   T("C20_Watched", {"n": 2}, mode="delay", delays=0, bounds="a watched source and 2 events (beacon, add, forget, heartbeat, record) any time apart" + DELAY.format(d=0))],
  [T("C20_Watched", {"n": 3}, mode="delay", delays=0, seconds=300, bounds="a watched source and 3 events" + DELAY.format(d=0)),
   T("C20_Watched", {"n": 1}, mode="delay", delays=1, seconds=60, bounds="a watched source and 1 event" + DELAY.format(d=1)),
   T("C20_Script", {"n": 4}, seconds=400, bounds="4 events of any kind")],
  "Event histories with symbolic contents against a model of the known sources.",
  "longer histories")
check("C21",
  [T("C21_Flood", {"n": 150}, mode="delay", delays=0, bounds="150 changes while handlers do not run" + DELAY.format(d=0)),
   T("C21_Flood", {"n": 40}, mode="delay", delays=1, bounds="40 changes while handlers do not run" + DELAY.format(d=1)),
   T("C21_Reentrant", {"acts": 1}, bounds="handlers calling back any operation once" + ALL),
   T("C21_Watched", {"n": 2}, mode="delay", delays=0, bounds="a watched source and 2 events (beacon, add, forget, heartbeat, record) any time apart" + DELAY.format(d=0)),
   T("C21_Cancel", {"n": 2}, bounds="context ends at any moment, 2 events, handlers fast, slow or stuck" + ALL)],
  [T("C21_Flood", {"n": 1000}, mode="delay", delays=0, seconds=150, bounds="1000 changes while handlers do not run" + DELAY.format(d=0)),
   T("C21_Flood", {"n": 150}, mode="delay", delays=1, seconds=150, bounds="150 changes" + DELAY.format(d=1)),
   T("C21_Reentrant", {"acts": 2}, seconds=200, bounds="handlers calling back any 2 operations" + ALL),
   T("C21_Watched", {"n": 2}, mode="delay", delays=1, seconds=120, bounds="a watched source and 2 events" + DELAY.format(d=1)),
   T("C21_Cancel", {"n": 3}, seconds=150, bounds="context ends at any moment, 3 events" + ALL)],
  "Deadlock detection in every explored schedule, and completion of every operation as an assertion.",
  "floods larger than the bound with arbitrary schedules; unboundedness itself (a queue of capacity above the bound would pass)")
check("C22",
  [T("C22_Alive", {"n": 2}, bounds="2 messages at any moments less than a timeout apart"),
   T("C22_Watch", {"n": 2}, mode="delay", delays=0, bounds="2 messages at any moments, any timeout and grace period; cancelled or not" + DELAY.format(d=0)),
   T("C22_Watch", {"n": 1}, mode="delay", delays=1, bounds="1 message at any moment" + DELAY.format(d=1))],
  [T("C22_Alive", {"n": 3}, seconds=150, bounds="3 messages"),
   T("C22_Watch", {"n": 3}, mode="delay", delays=0, seconds=200, bounds="3 messages" + DELAY.format(d=0)),
   T("C22_Watch", {"n": 2}, mode="delay", delays=1, seconds=200, bounds="2 messages" + DELAY.format(d=1)),
   T("C22_Watch", {"n": 1}, seconds=200, bounds="1 message" + ALL)],
  "Arrival times, timeout and grace period are symbolic; the virtual clock is the executor's.",
  "more messages; time during which the process does not run")
check("C23",
  [T("C23_Handle", {"n": 2}, bounds="2 arrivals of 12 kinds (records, heartbeats, undecodable, foreign, receive and accept errors), symbolic contents, handlers registered before, during or after" + ALL),
   T("C23_Handle", {"n": 3, "kinds": 3}, bounds="3 arrivals of 3 kinds" + ALL),
   T("C23_Handle", {"n": 1, "providers": 4, "kinds": 2}, bounds="each listener address"),
   T("C23_Listeners", bounds="2 listeners with 2 messages each" + ALL)],
  [T("C23_Handle", {"n": 3}, seconds=250, bounds="3 arrivals of 12 kinds" + ALL),
   T("C23_Handle", {"n": 4, "kinds": 3}, seconds=200, bounds="4 arrivals of 3 kinds" + ALL),
   T("C23_Handle", {"n": 2, "providers": 4, "kinds": 4}, seconds=60, bounds="each listener address"),
   T("C23_Listeners", {"listeners": 3}, seconds=200, bounds="3 listeners with 2 messages each" + ALL)],
  "Arrival sequences of bounded length with symbolic contents under every schedule.",
  "longer sequences; messages other than the 12 kinds")
check("C24",
  [T("C24_Close", bounds="at most 1 listener and 1 message, with another listen, close or cancellation at any moment; handlers using the client" + ALL),
   T("C24_Close", {"listeners": 2, "second": 1, "msgs": 2}, mode="delay", delays=1, bounds="2 listeners, 2 messages" + DELAY.format(d=1))],
  [T("C24_Close", {"msgs": 2}, seconds=300, bounds="1 listener, 2 messages" + ALL),
   T("C24_Close", {"listeners": 2, "second": 1}, seconds=300, bounds="2 listeners, 1 message" + ALL),
   T("C24_Close", {"listeners": 2, "second": 1, "msgs": 2}, mode="delay", delays=2, seconds=150, bounds="2 listeners, 2 messages" + DELAY.format(d=2))],
  "Every schedule of closing against arrivals, listeners and cancellation; deadlock and leak detection on each.",
  "more listeners and messages; handlers that call Close themselves (documented not to return)")
check("C25",
  [T("C25_Flush", {"n": 1}, bounds="1 arrival on each of 2 listeners, the send succeeding, failing or stuck, cancelled at any moment" + ALL),
   T("C25_Flush", {"n": 2}, mode="delay", delays=1, bounds="2 arrivals" + DELAY.format(d=1)),
   T("C25_Sure", {"n": 2}, bounds="2 arrivals of 12 kinds, each settled" + ALL)],
  [T("C25_Flush", {"n": 2}, seconds=350, bounds="2 arrivals" + ALL),
   T("C25_Flush", {"n": 3}, mode="delay", delays=2, seconds=200, bounds="3 arrivals" + DELAY.format(d=2)),
   T("C25_Sure", {"n": 3}, seconds=150, bounds="3 arrivals of 12 kinds, each settled" + ALL)],
  "Every schedule of the wait against arrivals, cancellation and send outcomes.",
  "more arrivals than the bound")
check("C26",
  [T("C26_Updates", {"n": 1, "k": 1}, mode="delay", delays=0, bounds="1 update of every record type, at most 1 (or all but 1) attribute set or changed, any values; 4 batch sizes, buffered or not"),
   T("C26_Updates", {"n": 2, "type": 0, "attrs": 2, "pointer": 1}, mode="delay", delays=0, bounds="2 updates of one type at any distance in time; 4 batch sizes, buffered or not"),
   T("C26_Publishers", mode="delay", delays=2, bounds="2 publishers with 2 updates each" + DELAY.format(d=2)),
   T("C26_Publishers", {"ops": 300, "slow": 1, "batch": 1}, mode="delay", delays=0, steps=3000000, bounds="2 publishers with 300 updates each, sends at once or stuck for 5 s, unbuffered" + DELAY.format(d=0)),
   T("C26_Publishers", {"ops": 300, "slow": 1}, mode="delay", delays=0, steps=3000000, bounds="2 publishers with 300 updates each, sends at once or stuck for 5 s, batches of 2" + DELAY.format(d=0)),
   T("C26_Unencodable", mode="delay", delays=0, bounds="3 updates, any of them nil, of an unregistered type, without identity or failing to encode; 4 batch sizes")],
  [T("C26_Updates", {"n": 1, "k": 2}, mode="delay", delays=0, seconds=150, bounds="1 update of every record type, at most 2 (or all but 2) attributes"),
   T("C26_Updates", {"n": 3, "type": 0, "attrs": 1, "pointer": 1}, mode="delay", delays=0, seconds=150, bounds="3 updates of one type"),
   T("C26_Updates", {"n": 2, "type": 0}, mode="delay", delays=0, seconds=150, bounds="2 updates of one type with any attributes"),
   T("C26_Updates", {"n": 2, "type": 0, "attrs": 1, "pointer": 1}, mode="delay", delays=1, seconds=120, bounds="2 updates" + DELAY.format(d=1)),
   T("C26_Publishers", mode="delay", delays=3, seconds=60, bounds="2 publishers with 2 updates each" + DELAY.format(d=3)),
   T("C26_Publishers", {"threads": 3}, mode="delay", delays=2, seconds=60, bounds="3 publishers with 2 updates each" + DELAY.format(d=2)),
   T("C26_Unencodable", {"n": 4}, mode="delay", delays=0, seconds=60, bounds="4 updates, any of them not encodable")],
  "Every attribute of every record type with symbolic values and update times, and a delay-bounded exploration of concurrent publishers.",
  "longer update sequences; schedules beyond the delay bound; failing sends (a message that fails is not resent); unsetting an attribute")
check("C27",
  [T("C27_Flush", {"rounds": 1, "batches": 3}, mode="delay", delays=0, bounds="2 requests or receive errors; at most 2 stores with 2 entries; listing failing once or not; 3 batch sizes; delayed or not"),
   T("C27_Flush", {"rounds": 2, "batches": 3, "n": 1}, mode="delay", delays=0, bounds="2 rounds with changes between them"),
   T("C27_Flush", {"rounds": 1, "batches": 2, "stores": 1}, mode="delay", delays=1, bounds="2 requests" + DELAY.format(d=1)),
   T("C27_Busy", mode="delay", delays=0, bounds="1 or 2 requests, and a change, while any page of an earlier answer from 1 or 2 stores is made; 3 batch sizes; delayed or not"),
   T("C27_During", mode="delay", delays=1, bounds="a request while earlier ones are answered" + DELAY.format(d=1)),
   T("C27_Long", mode="delay", delays=0, steps=3000000, bounds="an answer of 300 messages of 1 or 2 records, sends at once or stuck for 5 s"),
   T("C27_Unencodable", mode="delay", delays=0, bounds="stores holding 3 records, any of them not encodable; 3 batch sizes")],
  [T("C27_Flush", {"rounds": 2}, mode="delay", delays=0, seconds=250, bounds="2 rounds of 2 requests, 4 batch sizes"),
   T("C27_Flush", {"rounds": 1, "batches": 2, "stores": 1, "fail": 0}, mode="delay", delays=2, seconds=150, bounds="2 requests" + DELAY.format(d=2)),
   T("C27_Flush", {"rounds": 1, "batches": 4, "n": 3}, mode="delay", delays=0, seconds=100, bounds="3 requests"),
   T("C27_Busy", {"entries": 3, "more": 3}, mode="delay", delays=0, seconds=50, bounds="up to 3 requests, and a change, while any page of an earlier answer is made"),
   T("C27_Busy", mode="delay", delays=1, seconds=100, bounds="1 or 2 requests while an earlier one is answered" + DELAY.format(d=1)),
   T("C27_During", {"entries": 3, "burst": 3}, mode="delay", delays=1, seconds=50, bounds="bursts of up to 3 requests" + DELAY.format(d=1)),
   T("C27_During", mode="delay", delays=2, seconds=120, bounds="a request while earlier ones are answered" + DELAY.format(d=2)),
   T("C27_Unencodable", {"n": 4}, mode="delay", delays=0, seconds=60, bounds="stores holding 4 records, any of them not encodable")],
  "Delay-bounded schedules of requests, errors and store changes.",
  "schedules beyond the delay bound; larger stores; stores changing while a flush lists them; failing sends")
check("C28",
  [T("C28_Schedule", {"seconds": 7}, mode="delay", delays=0, bounds="7 seconds with any beacon and heartbeat interval between 1 and 3 s, or the defaults; any identity and version"),
   T("C28_Schedule", {"seconds": 4}, mode="delay", delays=1, bounds="4 seconds" + DELAY.format(d=1)),
   T("C28_Faults", mode="delay", delays=0, bounds="up to 3 failing or stuck sends at any point, or a 5 s outage; 9 pairs of intervals")],
  [T("C28_Schedule", {"seconds": 12}, mode="delay", delays=0, seconds=150, bounds="12 seconds"),
   T("C28_Schedule", {"seconds": 4}, seconds=200, bounds="4 seconds" + ALL),
   T("C28_Faults", {"faults": 4}, mode="delay", delays=0, seconds=150, bounds="up to 4 failing or stuck sends"),
   T("C28_Faults", {"faults": 2}, mode="delay", delays=1, seconds=250, bounds="up to 2 failing or stuck sends" + DELAY.format(d=1))],
  "Intervals, identity and version are symbolic; send outcomes are chosen at every send.",
  "longer runs; time during which the process does not run")
check("C29",
  [T("C29_Stop", mode="delay", delays=1, steps=100000, livelock=True, bounds="the context ends at once or after 0 to 2 s, cancelled or by its deadline; sends succeeding, failing, stuck or stuck after the first; an update, flush request or receive error pending; a store that cannot be listed" + DELAY.format(d=1))],
  [T("C29_Stop", mode="delay", delays=2, steps=100000, livelock=True, seconds=400, bounds="as quick" + DELAY.format(d=2)),
   T("C29_Full", {"n": 270}, mode="delay", delays=0, seconds=200, bounds="270 updates pending while sends are stuck")],
  "Delay-bounded schedules; goroutine and link leaks are assertions, deadlock and livelock are detected on each path.",
  "schedules beyond the delay bound; peers whose calls ignore their context")

PEER = ["go-amqp's connections, sessions and links are replaced by a model of the peer (harness/goamqp/fake.go.txt): each dial, begin, attach, send, settle and detach succeeds, fails or hangs as the harness chooses, "
        "receiving keeps what was delivered before a link ended; its message types and their codec are the library's own"]
check("C30",
  [T("C30_Recover", {"n": 2}, mode="delay", delays=0, bounds="2 faults among: connection lost, session ended, receiver or sender detached, next attach, dial or begin failing; started before or after; a send in between; any back-off delay up to 5 s"),
   T("C30_Recover", {"n": 1}, mode="delay", delays=1, bounds="1 fault" + DELAY.format(d=1)),
   T("C30_Late", mode="delay", delays=2, bounds="a send or attach on a lost connection that fails only when the next is in use" + DELAY.format(d=2)),
   T("C30_Late", {"last": 1}, mode="delay", delays=1, bounds="a late failure of a lost connection, and a send after it" + DELAY.format(d=1)),
   T("C30_Idle", mode="delay", delays=0, bounds="a receiver and a sender, used before or not, idle while the connection is lost or the session ended, twice"),
   T("C30_GivenUp", mode="delay", delays=2, bounds="receiving, sending or attaching that ends with its context after any time up to 10 s or at once; a second operation with its own" + DELAY.format(d=2)),
   T("C30_Concurrent", mode="delay", delays=1, bounds="1 receiver, 2 sends at once and a fault" + DELAY.format(d=1))],
  [T("C30_Recover", {"n": 3}, mode="delay", delays=0, seconds=200, bounds="3 faults"),
   T("C30_Recover", {"n": 1}, mode="delay", delays=2, seconds=150, bounds="1 fault" + DELAY.format(d=2)),
   T("C30_Idle", {"rounds": 3}, mode="delay", delays=1, seconds=60, bounds="3 failures" + DELAY.format(d=1)),
   T("C30_Late", mode="delay", delays=3, seconds=100, bounds="as quick" + DELAY.format(d=3)),
   T("C30_GivenUp", mode="delay", delays=3, seconds=100, bounds="as quick" + DELAY.format(d=3)),
   T("C30_Concurrent", {"receivers": 2}, mode="delay", delays=2, seconds=200, bounds="2 goroutines receiving, 2 sends at once and a fault" + DELAY.format(d=2))],
  "Faults are chosen at every AMQP call; delays and timeouts are symbolic; schedules delay-bounded.",
  "schedules beyond the delay bound; longer fault sequences; faults inside go-amqp itself", stubs=PEER)
check("C31",
  [T("C31_Close", mode="delay", delays=0, bounds="closing a sender or receiver unused, attaching, in use, with an operation pending, on a container not started, reconnecting or reconnected; a peer that does not answer; closed twice, at once or with a context already ended"),
   T("C31_During", mode="delay", delays=2, bounds="closing during an operation and a lost connection" + DELAY.format(d=2))],
  [T("C31_Close", {"ops": 2}, mode="delay", delays=0, seconds=150, bounds="as quick with 2 operations pending"),
   T("C31_Close", mode="delay", delays=1, seconds=300, bounds="as quick" + DELAY.format(d=1)),
   T("C31_During", mode="delay", delays=3, seconds=100, bounds="as quick" + DELAY.format(d=3)),
   T("C31_During", {"tries": 1}, seconds=200, bounds="closing during an operation and a lost connection" + ALL)],
  "The link's state, what is pending and the peer's behaviour are enumerated; schedules delay-bounded.",
  "schedules beyond the delay bound; accepting messages received before a reconnection", stubs=PEER)
check("C32",
  [T("C32_Attach", mode="delay", delays=0, bounds="2 senders or receivers with any addresses of at most 2 bytes and any credit up to 2^31-1, after 1 or 2 reconnections"),
   T("C32_Attach", {"links": 1, "rounds": 2, "len": 4}, mode="delay", delays=1, bounds="1 link, address of at most 4 bytes, up to 4 reconnections" + DELAY.format(d=1))],
  [T("C32_Attach", {"rounds": 2, "len": 4}, mode="delay", delays=0, seconds=150, bounds="2 links, 2 rounds, addresses of at most 4 bytes"),
   T("C32_Attach", {"links": 3, "len": 2}, mode="delay", delays=0, seconds=200, bounds="3 links"),
   T("C32_Attach", mode="delay", delays=1, seconds=200, bounds="2 links" + DELAY.format(d=1))],
  "Addresses and credit are symbolic; the container reconnects as the harness breaks connections and attaches.",
  "addresses longer than the bound; schedules beyond the delay bound", stubs=PEER)
check("C33",
  [T("C33_Redial", mode="delay", delays=0, bounds="3 attempts, each failing to dial, to create a session, or later; policies with any delays of 1 ms to 5 s that never give up or do after 1 or 2 retries; handlers using the container or not, one registered late"),
   T("C33_Redial", {"n": 1}, mode="delay", delays=1, bounds="1 attempt" + DELAY.format(d=1)),
   T("C33_Elapsed", mode="delay", delays=0, bounds="an exponential policy limited to 60 or 2 s; 2 times of up to an hour without a failure, each after a message sent or received or of at least 10 s without any; then refusing for good"),
   T("C33_Factory", mode="delay", delays=0, bounds="2 containers of a factory with an exponential policy; 3 rounds, 4 or 10 s apart, in which any of them lose their connections"),
   T("C33_Factory", {"rounds": 1}, mode="delay", delays=1, bounds="1 round" + DELAY.format(d=1)),
   T("C33_Stop", mode="delay", delays=2, bounds="stopping at once, when connected, when disconnected or some time later, with a peer that hangs in dial, begin or end, or refuses" + DELAY.format(d=2))],
  [T("C33_Redial", {"n": 4, "max": 4}, mode="delay", delays=0, seconds=150, bounds="4 attempts, giving up after up to 3 retries"),
   T("C33_Redial", {"n": 2}, mode="delay", delays=1, seconds=200, bounds="2 attempts" + DELAY.format(d=1)),
   T("C33_Elapsed", {"n": 3}, mode="delay", delays=1, seconds=60, bounds="3 times without a failure" + DELAY.format(d=1)),
   T("C33_Factory", {"containers": 3, "rounds": 3}, mode="delay", delays=0, seconds=60, bounds="3 containers, 3 rounds"),
   T("C33_Factory", {"rounds": 2}, mode="delay", delays=1, seconds=100, bounds="2 rounds" + DELAY.format(d=1)),
   T("C33_Stop", mode="delay", delays=3, seconds=200, bounds="as quick" + DELAY.format(d=3))],
  "Back-off delays are symbolic; attempts' outcomes enumerated; schedules delay-bounded.",
  "longer sequences; schedules beyond the delay bound; exponential policies other than those", stubs=PEER)
check("C34",
  [T("C34_History", {"n": 5}, bounds="any 5 operations on 1 sender and 2 receivers at any addresses of 1 byte, credits 1, 2 or default, any timeout"),
   T("C34_History", {"n": 4, "senders": 2}, bounds="any 4 operations on 2 senders and 2 receivers"),
   T("C34_Concurrent", mode="delay", delays=3, bounds="2 senders of 2 messages each, 2 receivers, one opened or closed meanwhile" + DELAY.format(d=3)),
   T("C34_Concurrent", {"senders": 1, "n": 2}, bounds="1 sender of 2 messages, 2 receivers, one opened or closed meanwhile" + ALL),
   T("C34_Wait", bounds="a send waiting for a receiver, with the context ending, closing and 2 receivers opening meanwhile" + ALL),
   T("C34_Full", bounds="1 or 2 sends to a receiver without credit that takes messages or is closed, the context ending or the sender closed meanwhile" + ALL),
   T("C34_Closed", bounds="pending and later operations on a sender and a receiver closed twice at once" + ALL)],
  [T("C34_History", {"n": 6}, seconds=150, bounds="any 6 operations on 1 sender and 2 receivers"),
   T("C34_History", {"n": 5, "senders": 2, "receivers": 3}, seconds=200, bounds="any 5 operations on 2 senders and 3 receivers"),
   T("C34_Concurrent", {"n": 1}, seconds=100, bounds="2 senders of 1 message each, 2 receivers" + ALL),
   T("C34_Concurrent", {"senders": 1, "n": 3}, seconds=60, bounds="1 sender of 3 messages, 2 receivers" + ALL),
   T("C34_Concurrent", {"senders": 2, "n": 2}, seconds=200, mode="delay", delays=4, bounds="2 senders of 2 messages, 2 receivers" + DELAY.format(d=4)),
   T("C34_Full", bounds="as quick" + ALL), T("C34_Wait", bounds="as quick" + ALL), T("C34_Closed", bounds="as quick" + ALL)],
  "Addresses and timeouts are symbolic; all interleavings where stated.",
  "more than two senders or three receivers at once; longer histories")
check("C35",
  [T("C35_EndToEnd", {"records": 1, "updbatches": 1, "batches": 1}, mode="delay", delays=0, bounds="a record of any type with any 1 attribute or all but 1, with any value, and an update of any attribute or a new record, during or after the flush"),
   T("C35_EndToEnd", {"types": 3, "attrs": 2}, mode="delay", delays=0, bounds="up to 2 records in 2 stores, flush batches of 1 or unlimited, update batches of 1 or 2"),
   T("C35_EndToEnd", {"types": 1, "attrs": 1, "records": 1, "batches": 1, "updbatches": 1}, mode="delay", delays=1, bounds="1 record, 1 update" + DELAY.format(d=1)),
   T("C35_Discovered", {"attrs": 2}, mode="delay", delays=0, bounds="2 sources of 1 record each, discovered by their beacons, listened to and flushed on their first message, started in any order and up to 12 s apart"),
   T("C35_Discovered", {"attrs": 1, "sources": 1, "k": 0}, mode="delay", delays=1, bounds="1 source" + DELAY.format(d=1))],
  [T("C35_EndToEnd", {"types": 1, "attrs": 2, "updates": 3, "updbatches": 3, "records": 1}, mode="delay", delays=0, seconds=150, bounds="up to 3 updates, update batches of up to 3"),
   T("C35_EndToEnd", {"attrs": 4, "k": 2, "records": 1}, mode="delay", delays=0, seconds=120, bounds="a record of any type with 2 attributes of its last 4"),
   T("C35_EndToEnd", {"types": 2, "attrs": 1, "records": 3, "batches": 3}, mode="delay", delays=0, seconds=100, bounds="up to 3 records, flush batches of 1, 2 or unlimited"),
   T("C35_EndToEnd", {"types": 1, "attrs": 1}, mode="delay", delays=1, seconds=100, bounds="up to 2 records" + DELAY.format(d=1)),
   T("C35_Discovered", mode="delay", delays=0, seconds=60, bounds="2 sources, any attribute of their records"),
   T("C35_Discovered", {"attrs": 1, "sources": 2, "k": 0}, mode="delay", delays=1, seconds=120, bounds="2 sources" + DELAY.format(d=1))],
  "Source and collector run the real manager, discovery, client, dispatcher and stores over the mock router.",
  "larger stores; longer update sequences; records deleted at the source; schedules beyond the delay bound")

TOOL = dict(dir="build/cmd/tool", pkg=".")
VANCAP = dict(dir="build/cmd/vancap", pkg=".")
CMDSTUBS = ["os, os/signal and net/http of the command: a process with symbolic arguments, files, signals and a network of its own (harness/cmd/fake)"]
TOOLSTUBS = CMDSTUBS + ["encoding/json: the documented mapping between Go values and JSON trees, text being opaque (compared with the real package natively)",
  "tls.LoadX509KeyPair, x509.CertPool: certificates are names", "go-amqp: an in-memory peer"]
K8STUBS = CMDSTUBS + ["clientcmd, kubernetes API client, port forwarding and SPDY round tripper of client-go: an in-memory cluster that fails where the solver decides"]

check("C36",
  [T("C36_TLS", bounds="the log, serve and fixture commands; settings from flags, from a messaging configuration, or both; CA, certificate and key given or not; each file good, missing, unreadable or of wrong content; verification on or off; any host and port of 4 bytes", **TOOL)],
  [T("C36_TLS", {"len": 12}, bounds="as quick, hosts and ports of 12 bytes", **TOOL)],
  "Every combination of settings and file states is run from the command line to the dialled connection.",
  "file contents other than the four kinds; what crypto/tls makes of the configuration (trusted)", TOOLSTUBS)
check("C37",
  [T("C37_Replay", mode="delay", delays=0, bounds="2 sources of any captured type of record with any 1 attribute or all but 1 of any value (ASCII text of at most 1 byte; any time a record can hold up to the year 9999, and three beyond), further records, two of different types with the same identity; versions 1 and 2", **TOOL),
   T("C37_Replace", mode="delay", delays=0, bounds="a fixture of 2 sources replaced by another of 1 or 2, some the same, after a bad request or not, up to 2 s later", **TOOL),
   T("C37_Excluded", mode="delay", delays=0, bounds="a capture of every type of record in 8 orders, the fixture leaving out flow or log records", **TOOL),
   T("C37_Outage", mode="delay", delays=0, bounds="every connection or any one lost, or up to 3 dials refused after up to 1 s, while a fixture is loaded or runs", **TOOL),
   T("C37_Upgrade", mode="delay", delays=0, bounds="a source captured twice, silent in between for up to 71 s, with the same or another version, records lost and a new one", **TOOL)],
  [T("C37_Replay", {"k": 2, "len": 2}, mode="delay", delays=0, seconds=400, bounds="as quick, 2 attributes or all but 2, text of at most 2 bytes", **TOOL),
   T("C37_Replay", {"sources": 3, "others": 3, "types": 1, "versions": 3}, mode="delay", delays=0, seconds=100, bounds="3 sources of up to 4 records, of any type, captured or not; versions up to 2^32-1", **TOOL),
   T("C37_Replace", {"records": 12, "seconds": 10}, mode="delay", delays=0, seconds=60, bounds="12 records; replaced up to 9 s later", **TOOL),
   T("C37_Replace", {"seconds": 1, "records": 1}, mode="delay", delays=1, seconds=150, bounds="replaced at once" + DELAY.format(d=1), **TOOL),
   T("C37_Outage", {"failures": 6}, mode="delay", delays=0, seconds=60, bounds="up to 5 dials refused", **TOOL),
   T("C37_Upgrade", mode="delay", delays=0, bounds="as quick", **TOOL)],
  "serve and fixture run one after the other, from the protocol messages captured to those published.",
  "text that is not ASCII (JSON replaces what is not UTF-8); more than 3 sources; schedules beyond the delay bound", TOOLSTUBS)
check("C38",
  [T("C38_Faults", {"faults": 1, "interrupts": 1, "notready": 2}, bounds="one failure of any one cluster, file, HTTP or signal-interruptible operation (before it takes effect or after), an interruption at any one operation; with or without a deployment of that name before; deleting takes up to 2 s", **VANCAP),
   T("C38_Interrupted", bounds="interruption at any instant of the first minute; the server ready after up to 3 polls", **VANCAP)],
  [T("C38_Faults", {"faults": 3, "interrupts": 1, "notready": 2}, bounds="as quick, three failures", seconds=450, **VANCAP),
   T("C38_Faults", {"faults": 2, "interrupts": 2, "notready": 1}, bounds="two failures, interrupted twice", seconds=250, **VANCAP),
   T("C38_Interrupted", {"notready": 8}, bounds="as quick, ready after up to 7 polls", seconds=100, **VANCAP)],
  "The whole command runs against an in-memory cluster; what is left in it is examined when the process ends.",
  "kill -9 and a second interruption that kills the process; clusters that refuse to delete", K8STUBS)
check("C39",
  [T("C39_Address", {"len": 5, "podlen": 3}, bounds="any API server host of at most 5 and pod name of at most 3 bytes, host given with or without https://, two namespaces, with or without a pod of an earlier capture, listed first or last", **VANCAP)],
  [T("C39_Address", {"len": 24, "podlen": 10}, bounds="hosts of at most 24 and pods of at most 10 bytes", seconds=400, **VANCAP)],
  "The request that opens the tunnel is examined for every host and pod name.",
  "API servers given as http:// or with a path", K8STUBS)
check("C40",
  [T("C40_API", mode="delay", delays=0, bounds="2 sources; a record of any captured type with any 1 attribute or all but 1 of any value, and others; flow or log records excluded or not", **TOOL),
   T("C40_Sources", mode="delay", delays=0, bounds="2 sources of any type that come and go twice", **TOOL),
   T("C40_Outage", mode="delay", delays=0, bounds="every connection or any one lost before or after sources are discovered, up to 3 dials refused after up to 2 s, the sources forgotten meanwhile or not", **TOOL)],
  [T("C40_API", {"k": 2, "types": 1}, mode="delay", delays=0, seconds=300, bounds="any type of record, 2 attributes or all but 2", **TOOL),
   T("C40_Sources", {"sources": 3, "steps": 3}, mode="delay", delays=0, seconds=60, bounds="3 sources that come and go three times", **TOOL),
   T("C40_Sources", {"sources": 1, "steps": 1}, mode="delay", delays=1, seconds=60, bounds="1 source" + DELAY.format(d=1), **TOOL),
   T("C40_Outage", {"failures": 6}, mode="delay", delays=0, seconds=200, bounds="up to 5 dials refused", **TOOL)],
  "The whole command runs against raw protocol sources; every path it lists is requested.",
  "text that is not ASCII; requests in flight while records arrive; schedules beyond the delay bound", TOOLSTUBS)
check("C41",
  [T("C41_Flows", {"symbolic": 0}, mode="delay", delays=0, bounds="2 pairs of flows of one or two sources, the first with its counterflow captured, missing, itself, empty or none; 0 to 2 flows over 0 to 2 s; bad requests; one before there is a fixture", **TOOL),
   T("C41_Flows", {"two": 0, "flows": 1}, mode="delay", delays=0, bounds="1 pair with any octets and latency, replayed at most once", **TOOL)],
  [T("C41_Flows", {"symbolic": 0, "flows": 5}, mode="delay", delays=0, seconds=100, bounds="up to 5 flows", **TOOL),
   T("C41_Flows", {"flows": 2}, mode="delay", delays=0, seconds=600, bounds="2 pairs with any octets and latency, up to 2 flows", **TOOL)],
  "A capture with flows is loaded and replayed; what the sources publish is put together per flow.",
  "how octets and latency grow during a flow; more than 2 pairs; replacing the fixture during a replay", TOOLSTUBS)
check("C42",
  [T("C42_Log", mode="delay", delays=0, bounds="2 sources; a record of any type with any 1 attribute or all but 1 of any value; each flag by itself", **TOOL),
   T("C42_Flush", mode="delay", delays=0, bounds="flushing; a source that sends up to 2 messages, each any time up to 7 s after the last", **TOOL),
   T("C42_Sources", mode="delay", delays=0, bounds="2 sources of any type that come and go twice", **TOOL),
   T("C42_Burst", mode="delay", delays=0, bounds="up to 70 messages of 2 records while the output is held up", **TOOL)],
  [T("C42_Log", {"cross": 1, "k": 2, "len": 2}, mode="delay", delays=0, seconds=600, bounds="2 attributes or all but 2, flags combined with flushing", **TOOL),
   T("C42_Sources", {"sources": 3, "steps": 3}, mode="delay", delays=0, seconds=60, bounds="3 sources that come and go three times", **TOOL),
   T("C42_Burst", {"burst": 300}, mode="delay", delays=0, seconds=100, bounds="up to 300 messages", **TOOL)],
  "The whole command runs against raw protocol sources; what it prints is parsed and compared.",
  "text that is not ASCII; schedules beyond the delay bound", TOOLSTUBS)

check("C43",
  [T("C43_Interrupt", {"ms": 8000}, mode="delay", delays=0, fair=1, bounds="each command, with sources or a fixture or none, interrupted any time up to 8 s after the start; the router reachable, refusing, or not answering a dial, a session or a link", **TOOL),
   T("C43_Interrupt", {"router": 5, "ms": 2000}, mode="delay", delays=0, fair=1, bounds="the router lost any time up to 1 s after the start, interrupted any time up to 2 s later", **TOOL),
   T("C43_Late", mode="delay", delays=1, fair=1, bounds="interrupted at any nanosecond from 50 to 60 s after the start with the router refusing" + DELAY.format(d=1), **TOOL),
   T("C43_Unreachable", mode="delay", delays=0, fair=1, bounds="the router refusing for any time up to 25 s, or for good, each refusal any time up to 2 s", **TOOL),
   T("C43_Outages", {"outages": 1}, mode="delay", delays=0, fair=1, bounds="the router lost for up to 19 s after any number of seconds up to 200, with a source or fixture or none", **TOOL),
   T("C43_Loading", mode="delay", delays=0, fair=1, bounds="a fixture of 24 sources, interrupted any time up to 1.5 s after it is loaded", **TOOL),
   T("C43_Answers", mode="delay", delays=0, fair=1, bounds="a request whose answer takes any time up to 900 ms", **TOOL),
   T("C43_Usage", mode="delay", delays=0, bounds="any name of 1, 3, 5 or 7 bytes; no, two or misplaced arguments", **TOOL)],
  [T("C43_Interrupt", {"ms": 20000}, mode="delay", delays=0, fair=2, seconds=80, bounds="interrupted any time up to 20 s after the start", **TOOL),
   T("C43_Interrupt", {"ms": 1000}, mode="delay", delays=1, fair=1, seconds=200, bounds="interrupted any time up to 1 s after the start" + DELAY.format(d=1), **TOOL),
   T("C43_Interrupt", {"router": 5, "ms": 8000, "up": 5000}, mode="delay", delays=0, fair=1, seconds=150, bounds="the router lost any time up to 5 s after the start, interrupted any time up to 8 s later", **TOOL),
   T("C43_Late", mode="delay", delays=2, fair=1, seconds=60, bounds="interrupted at any nanosecond from 50 to 60 s after the start" + DELAY.format(d=2), **TOOL),
   T("C43_Unreachable", mode="delay", delays=1, fair=1, seconds=60, bounds="as quick" + DELAY.format(d=1), **TOOL),
   T("C43_Outages", mode="delay", delays=0, fair=1, seconds=150, bounds="the router lost twice", **TOOL),
   T("C43_Loading", {"ms": 11000}, mode="delay", delays=0, fair=1, seconds=60, bounds="a fixture of 24 sources, interrupted any time up to 11 s after it is loaded", **TOOL),
   T("C43_Answers", mode="delay", delays=1, fair=1, seconds=60, bounds="as quick" + DELAY.format(d=1), **TOOL),
   T("C43_Usage", mode="delay", delays=0, bounds="as quick", **TOOL)],
  "The whole command runs, from main() to its end; interrupts and outages come at symbolic moments of the virtual clock.",
  "a log whose output is held up, a fixture whose main connection is lost while idle (it notices nothing); jitter of the back-off; a select that passes over a ready case more often than the fairness bound", TOOLSTUBS)
