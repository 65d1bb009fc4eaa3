"""Prose of DESIGN.md's per-property sections, and the outcome of planted bugs that were once missed."""

ORACLE = {
"C01": "Anchored in encoding/{encoder,decoder,registry}.go, records.go, base.go. A harness fills any record type's attributes with solver variables (through the exported struct fields), encodes and decodes it with the real codec, and asserts field-wise equality (times at microseconds, optional zero values as unset) against the filled value itself. Unit tests sample a few types and values; here all attribute values of all types are one query each. `reflect` is modelled by the executor.",
"C02": "Anchored in records.go and encoding/. The oracle is an independent table of the protocol (type codes, codepoints, kinds) written in harness/h/proto.go. Both directions are checked separately, so a symmetric mistake (which round-trips) is found.",
"C03": "Anchored in encoding/decoder.go, registry.go. The attribute set is built from solver-chosen keys and values of 12 kinds (null included), possibly among dozens of unknown ones; the oracle decides from the protocol table whether decoding must fail and which attributes must be set. Panics are violations.",
"C04": "Anchored in messages.go. Messages are built from optional sections with symbolic subjects, property values of any kind and bodies of any elements; the oracle derives from the same choices the expected kind and fields or error.",
"C05": "Anchored in messages.go. All fields are symbolic; the encoded message's address and subject, and the decoded fields are compared with the original; two messages must not share state.",
"C06": "Anchored in messages.go and encoding/. Record messages of symbolic records of all types, with unencodable ones at any position; the list decoded is compared element-wise.",
"C07": "Anchored in base.go (Time). Seconds and nanoseconds of the time are symbolic: the microseconds are compared with an independent computation over 64-bit bit-vectors, for every instant in range (the executor carries time.Time as symbolic wall/ext words through the real `time` package code).",
"C08": "Anchored in encoding/. Struct types declared in the harness with every attribute kind (embedding up to 4 deep, custom codecs, repeated and malformed tags) are registered, and used with symbolic values; after each rejected registration earlier ones are exercised again. A type with list, byte and further required attributes is accumulated in a store and published by a manager, against a merge written for it.",
"C09": "Anchored in encoding/registry.go. Two or three goroutines encode, decode and register under every schedule (dynamic partial-order reduction); data races are found with vector clocks, results are compared with the possible registry states.",
"C10": "Anchored in store/. Histories of operations with solver-chosen operation, key, type, source and values are executed on the real store and on a list-based model in the harness; return values and full contents are compared after every step. Key functions are several, and one of them depends on source and type.",
"C11": "Anchored in store/ (indexers). As C10, the model recomputes every index value from scratch; indexers return no, one, several and repeated values, depending on mutable attributes.",
"C12": "Anchored in store/ (ETag handling). Two interleaved read-modify-write histories with symbolic contents; the model keeps a change counter per key. Invalid ETags are symbolic strings.",
"C13": "Anchored in store/ (Patch). Sequences of partial records with symbolic attributes (attribute set and values), merged by the harness with an independent merge.",
"C14": "Anchored in store/ handlers. As C10, plus a log of handler calls compared with what the model derives from the change of state.",
"C15": "Anchored in store/ (Selector, paging). Contents, offset, limit, order and tokens are symbolic; the harness follows the tokens and compares with a sort of its own.",
"C16": "Anchored in store/ (DispatchRegistry). Messages of symbolic records of several types, stores that fail; the log of every store is compared.",
"C17": "Anchored in store/. Concurrent programs of 2 or 3 goroutines under every schedule; results and final contents must be explained by a sequential order of the operations consistent with real time (the harness enumerates orders against the C10 model; `nd.Stamp` gives the position of calls and returns in the executed schedule). Races and deadlocks are detected on each schedule.",
"C18": "Anchored in store/. Deep copies of everything handed out (results, lists, handler arguments) are compared with the handed out values after any later operations.",
"C19": "Anchored in eventsource/discovery.go. Scripts of beacons, adds, forgets and junk with symbolic contents while handlers are fast or slow; the log of handler calls is compared per source with the model's. Concurrent adds/forgets/beacons are explored over schedules.",
"C20": "As C19, the known sources (list and get) are compared with the model after each event; also with a watch on the source, whose own updates must not bring a forgotten source back or move its last-seen time backwards.",
"C21": "Anchored in eventsource/discovery.go. Floods of up to 1000 notifications behind handlers that do not return, handlers that call back, watches of unknown sources: the executor reports a state where all goroutines are blocked, and every operation's return is asserted. Cancelling at any moment must end Run and all it started.",
"C22": "Anchored in eventsource/discovery.go (watch). Timeout, grace period, update interval and every gap between messages are symbolic durations over a virtual clock: order of timers is decided by the solver (linear integer arithmetic), so boundary cases (equal instants included) are covered.",
"C23": "Anchored in eventsource/client.go. Scripts of arrivals (any kind, undecodable ones and errors included), handlers registered before, during and after; every handler's log is compared with the arrivals.",
"C24": "Anchored in eventsource/client.go. Close against listeners being started, messages arriving and other closes under every (or delay-bounded) schedules; deadlocks and late handler calls are violations.",
"C25": "Anchored in eventsource/flush.go. Every schedule of arrivals, context end and send outcomes; flushes are counted at the sender.",
"C26": "Anchored in eventsource/manager.go (PublishUpdate, diffRecord, sendRecords). Previous and current records of every type with symbolic attributes; what is sent is decoded and merged with an independent merge into the previous record. Concurrent publishers are checked for order and completeness, also when more is published than all queues hold. Records that cannot be encoded (nil, unregistered, without identity, with times before 1970) stand at any place among others.",
"C27": "Anchored in eventsource/manager.go (flush). Stores with symbolic contents and failing listings; requests at different moments, bursts and during a flush; what is sent after each request is compared with the stores, some of which hold records that cannot be encoded.",
"C28": "Anchored in eventsource/manager.go (sendKeepalives). Intervals are symbolic; each send succeeds, fails or is never delivered; instants of sending on the virtual clock and every field are compared with the schedule.",
"C29": "Anchored in eventsource/manager.go. The context ends (cancelled or by deadline) at different moments in every state of sends and stores; the executor counts goroutines left, the harness senders and receivers left open; spinning is a livelock violation.",
"C30": "Anchored in session/container.go, with go-amqp's connections, sessions and links replaced by a model of the peer. Faults are chosen at every AMQP call, delays and timeouts are symbolic; the harness asserts that messages sent or delivered after recovery get through, that failures are reported, and that healthy connections are not replaced.",
"C31": "As C30; closing at any moment, with any peer behaviour, against operations in progress: each must return an error, no link may be left attached, and the other links' connection must survive.",
"C32": "As C30; addresses and credits are symbolic (credit any int up to 2^31-1); every attach the peer sees is compared with what was asked for, initially and after reconnecting.",
"C33": "As C30; dial, begin and later faults under a back-off policy with symbolic delays that may give up; instants of dialling, error handler calls (with their delays) and connections left open are compared with the policy's log.",
"C34": "Anchored in session/mock.go. Histories of sends, receiver openings and closings on several addresses against a model of queues; concurrent scenes over all schedules, with waiting and full receivers and contexts ending.",
"C35": "Anchored in eventsource/, store/, messages.go, encoding/, session/mock.go together: a manager with stores of symbolic records, and a client with dispatcher and stores over the in-memory router, nothing stubbed in between. After flush and traffic the stores are compared attribute by attribute; then updates are published and compared again; also with discovery finding the source.",
"C36": "Anchored in cmd/vanflow-tool/main.go. The whole command runs from symbolic arguments and files to the dialled connection; whether the configuration is usable, which CA must be trusted and which client certificate presented is computed by an independent table of the settings. A CA or certificate is the opaque name of a file's content, so using another, or none, is seen.",
"C37": "Anchored in cmd/vanflow-tool. serve and fixture run, from main() on, against an in-memory router with raw protocol sources and a raw collector; the capture served is posted as is. What the fixture announces and publishes is compared with what the sources had. JSON documents are trees with symbolic leaves, by encoding/json's rules; counterexamples use the real package.",
"C38": "Anchored in vancap/main.go. The whole command runs against an in-memory cluster. At every call (API, file, HTTP, port forward, reading the answer) the solver decides whether it fails, before or after its effect, and whether the user interrupts; at the end of the process the cluster must hold the deployments it held before, and exit code 0 requires the file to hold the capture.",
"C39": "Anchored in vancap/main.go. Host and pod name are arbitrary; the request that the port forwarder's dialer is made for is compared with the Kubernetes API's.",
"C40": "Anchored in cmd/vanflow-tool/serve.go. serve runs from main() against raw protocol sources; the answers to GET requests for every path are parsed and compared with what was sent.",
"C41": "Anchored in cmd/vanflow-tool/fixture.go. A capture with flows is loaded; the record messages that a replay publishes are put together per flow and compared with the original pair.",
"C42": "Anchored in cmd/vanflow-tool/log.go. What the command writes to its standard output is parsed line by line and compared with the messages sent.",
"C43": "Anchored in cmd/vanflow-tool and session/container.go. main() runs to its end: the harness raises the interrupt at a symbolic moment of a run in which the router is reachable, refuses, does not answer to a dial, a session or a link, or is lost, and asserts when and how the command ends, and what it does to the router. Race detection covers the shutdown against a container that gives up.",
}

# outcome of planted bugs that needed a stronger check than there was when they were planted
CAUGHT = {
}
_MISSED = {
"C27-drain-between": "C27 (several stores in C27_Busy)",
"C27-full-queue": "C27 (C27_Long)",
"C03-required-zero": "C03 (attribute sets with dozens of unknown attributes)",
"C06-skip-bad-record": "C06 (arbitrary bodies as in C04)",
"C08-index-alias": "C08 (structs embedded 4 deep)",
"C10-delete-type": "C10 (exemplars of another type)",
"C11-reindex-first-only": "C11 (repeated index values)",
"C15-continue-offset": "C15 (offset kept or dropped when continuing)",
"C17-indexvalues-nolock": "C17 (IndexValues among the concurrent operations)",
"C20-subject-fold": "C20 (subjects longer than BEACON)",
"C21-lastseen-unlock": "C21 (watched sources)",
"C26-publish-drop": "C26 (more updates than the queues hold)",
"C28-timeout-max": "C28 (time until a stuck send is given up)",
"C29-cancel-only": "C29 (contexts ending by deadline)",
"C40-key-identity": "C40 (records of two types with one identity)",
"C37-stop-at-unknown": "C37 (excluded record types among others)",
"C42-drop-full": "C42 (output held up while much arrives)",
"C42-flush-twice": "C42 (a source heard before it is watched)",
"C27-drain-after": "C27 (requests while any page of an earlier answer is made)",
"C43-fixture-wait": "C43 (interrupts while a fixture is loaded)",
"C09-encode-pointer": "C09 (records encoded by pointer)",
"C24-accept-leak": "C24 (accepts that do not return)",
"C31-attach-background": "C31 (time limits on closing)",
"C14-same-record": "C14 (entries replaced by others with the very same record)",
}
for k, v in _MISSED.items():
    CAUGHT[k] = "missed at first; now caught by " + v
