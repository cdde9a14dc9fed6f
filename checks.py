"""What each property's check runs. quick/thorough: number of generated cases
over all workers of a part; budget/tbudget: seconds after which a worker stops
generating."""
CHECKS = {}

SEQ = ("TestSeq: operation histories (dial, refused dial, connect, disconnect, disconnect-all, join, leave, leave-all, emit, ask, "
       "broadcast, Server.Ask, close by either side, link cut, server close) over 1-3 connections, up to 3 namespaces and rooms with "
       "odd names, any refusal pattern and any latency, run one at a time against a reference model of both sides; "
       "non-trivial: at least three operations changed or were refused a change of state, or carried a message")
CONC = ("TestConc: the same operations started at generated instants by several goroutines of both sides and from inside callbacks, "
        "over links with generated latencies and callback durations, in simulated time; ")
CONC_DEF = "non-trivial: at least two operations overlapped in time and more than one user event was handled"
CONC_SPAN = "non-trivial: at least two operations overlapped in time and more than four lifecycle callbacks ran"

CONC_PART = "each namespace of a connection is changed by one goroutine while others emit and ask in it and other namespaces and connections change, with refusing callbacks; results and both sides' state after every operation against a model; "

NOTE = ("Search, not proof: the property held on every generated case of the run. The cases run the real library over an in-memory "
        "transport in a testing/synctest bubble (simulated clock, exact quiescence); trusted: the Go runtime, rapid, the reference model. ")


def c(id, technique, rule, parts, note="", **kw):
    CHECKS[id] = dict(technique=technique, rule=rule, parts=parts, note=NOTE + note, **kw)


def core(test, quick, **kw):
    return dict(pkg="core", test=test, quick=quick, **kw)


def net(test, quick, **kw):
    return dict(pkg="adapters", test=test, quick=quick, **kw)


c("C01", "property-based testing: round trip and reference decoder over generated messages and raw inputs",
  "messages built from field atoms (separators, flags, reserved words, raw bytes, boundary-size bodies, errors, known errors, replies, objects) or raw decoder inputs; "
  "non-trivial: a separator inside a field or body, an error, a native, an object, or a structured raw input",
  [core("TestC01", 300000, thorough=6000000)],
  note="Texts containing the library's reserved escape sequence are outside of the property.")
c("C02", "fuzzing with a grammar-based hostile peer over the real connection code, invariant and canary oracle",
  "a raw peer (client or server side) sends generated payload sequences (well-formed, mutated, truncated, forged handshake, system events, replies with guessed tokens, raw bytes) "
  "before and after the acknowledgement, next to well-behaved connections; non-trivial: more than one payload was sent and either callbacks ran or OnConnect was slow",
  [core("TestC02", 120000)],
  note="A peer may forge system events inside the namespaces it is connected to; that is not asserted against.")
c("C03", "stateful property-based testing (sequential model) and generated concurrent histories with an exactly-once/order oracle",
  SEQ + ". " + CONC + CONC_DEF, [core("TestSeq", 60000), core("TestConc", 120000)])
c("C04", "stateful property-based testing (sequential model) and generated concurrent histories with per-request reply oracle",
  SEQ + ". " + CONC + CONC_DEF, [core("TestSeq", 60000), core("TestConc", 120000)])
c("C05", "generated concurrent histories with injected closes, cuts and deadlines in simulated time, termination oracle",
  CONC + CONC_DEF, [core("TestConc", 200000)])
c("C06", "stateful property-based testing against a reference model of both sides, sequential and concurrent", SEQ + ". " + CONC + CONC_PART + CONC_SPAN,
  [core("TestSeq", 100000), core("TestConc", 100000)])
c("C07", "stateful property-based testing against a reference model of both sides, sequential and concurrent", SEQ + ". " + CONC + CONC_PART + CONC_SPAN,
  [core("TestSeq", 100000), core("TestConc", 100000)])
c("C08", "stateful property-based testing (sequential model) and span invariants over generated concurrent histories",
  SEQ + ". " + CONC + CONC_SPAN, [core("TestSeq", 60000), core("TestConc", 120000)])
c("C09", "stateful property-based testing against a reference model, with the bytes on the wire as an observation, and generated concurrent histories", SEQ + ". " + CONC + CONC_PART + CONC_DEF,
  [core("TestSeq", 100000), core("TestConc", 100000)])
c("C10", "stateful property-based testing (sequential model) and generated concurrent histories with injected closes and cuts",
  SEQ + ". " + CONC + CONC_SPAN, [core("TestSeq", 60000), core("TestConc", 120000)])
c("C11", "stateful property-based testing (audience model) and generated concurrent broadcasts",
  SEQ + ". " + CONC + "non-trivial: more than one broadcast message was handled", [core("TestSeq", 60000), core("TestConc", 120000)])
c("C12", "stateful property-based testing (registry model) and generated concurrent dials, closes and registry reads",
  SEQ + ". " + CONC + "non-trivial: operations overlapped while connections were dialed and the registry was read",
  [core("TestSeq", 60000), core("TestConc", 120000)])
c("C13", "generated handshakes (verdicts, durations, actions of OnConnect, early messages) from real and raw clients, handshake model",
  "handshakes with generated OnConnect behaviour, early messages, IDs, latencies; non-trivial: OnConnect took time or refused, or more than two messages were sent before acceptance",
  [core("TestC13", 120000)])
c("C14", "stateful property-based testing (sequential model) and generated concurrent server asks with per-request reply oracle",
  SEQ + ". " + CONC + CONC_DEF, [core("TestSeq", 60000), core("TestConc", 120000)])
c("C15", "generated native/ordinary traffic between real sides and raw peers, byte-for-byte oracle",
  "native modes of both sides crossed with generated byte strings and events; non-trivial: a native message among at least two operations",
  [core("TestC15", 120000)])
c("C16", "stateful property-based testing over several servers with model exchanges and injected failures",
  "session histories over 1-3 servers and 1-3 stacked exchanges that record every hook call and forward between servers, with failing and slow hooks and overlapping phases; "
  "non-trivial: a broadcast had a connection that must receive it", [core("TestC16", 120000)])
c("C17", "stateful property-based testing against an in-memory redis broker speaking the real protocol to the real client library",
  "membership and broadcast histories over 1-3 servers with the real radix client against a model broker, with odd names and killed broker connections; "
  "non-trivial: a broadcast had a connection that must receive it", [core("TestC17", 40000)],
  note="The redis server is a model of the commands the exchange uses; messages published while the broker connections are broken may be lost.")
c("C18", "stateful property-based testing against an in-memory NATS broker speaking the real protocol to the real client library",
  "as C17, with the real nats.go client against a model NATS server; non-trivial: a broadcast had a connection that must receive it", [core("TestC18", 60000)],
  note="The NATS server is a model of the protocol the exchange uses; messages published while the broker connections are broken may be lost.")
c("C19", "property-based testing over a generated family of struct types, reflection-free reference table",
  "struct shapes (static/dynamic, embedded, promoted, unexported fields, namespaces by method, field or setter, matchers) used on server or client by several connections; "
  "non-trivial: an event of a declared method was handled, or several connections asked at once. TestC19Twin: several structs of one type in several namespaces; non-trivial: at least two of them handled an event", [core("TestC19", 120000), core("TestC19Twin", 40000)],
  note="The struct types are a fixed generated family (tools/c19types.py).")
c("C20", "property-based testing of handler composition against a map model, and of dispatch against the sequential model",
  SEQ + ". TestC20: nestings of Events, Namespaces, WithTimeout, structs and nested joins with overlapping names; non-trivial: two parts declare the same namespace",
  [core("TestSeq", 60000), core("TestC20", 120000)])
c("C21", "generated concurrent store histories checked for linearizability against a map model",
  "operations of up to 4 goroutines on the stores of two connections; non-trivial: a key has more than one operation, or a counter was changed by several goroutines",
  [core("TestC21", 120000)])
c("C22", "property-based testing of Upgrade/ServeHTTP with generated requests against a model of admission",
  "generated methods, URL parameters, headers, reconnect values, upgrader outcomes, ID generators and wrappers; non-trivial: a rejected request, a failed upgrade, a websocket-header parameter or a reconnect header",
  [core("TestC22", 120000)])
c("C23", "fuzzing of the real adapters with generated frame streams, and generated sessions over all adapter pairings",
  "TestC23: one adapter against a reference frame encoder/decoder with generated fragmentation, control frames, sizes, concurrent writers and cut points; "
  "non-trivial: at least one message in some direction. TestC23Net: whole sessions over all four pairings; non-trivial: more than one writer goroutine. TestC23Hand: handshakes with generated faults (network error, refusal, missing or wrong headers, cut, garbage, silence) on either side; non-trivial: a fault",
  [net("TestC23", 40000), net("TestC23Net", 20000), net("TestC23Hand", 20000)])
c("C24", "generated API-call scripts assigned to callbacks of both sides, termination and liveness oracle",
  CONC + CONC_DEF, [core("TestConc", 200000)])
c("C25", "property-based testing of timeouts in simulated time over the in-memory link and the real adapters, with injected write failures",
  "timeouts, traffic gaps around them, kinds of traffic, write failures; non-trivial: a small timeout was reached or nearly reached, a write failed, or a connection idled without timeouts",
  [core("TestC25", 120000), net("TestC25Net", 20000)])
c("C26", "generated concurrent lifecycle histories with agreement, span and liveness invariants",
  CONC + CONC_SPAN, [core("TestConc", 200000)])
c("C28", "generated session rounds repeated against a running server, growth of goroutines, held connections and recorded allocations as the oracle",
  "rounds of short-lived connections (accepted, refused, never acknowledged; ended by either side, both, a callback or the link) and of operations on a connection that stays (asks answered, late or never, "
  "Server.Ask, broadcasts, refused connects, lost waits), each repeated 16 to 500 times; non-trivial: a round has operations on a connection", [core("TestC28", 20000, budget=45)],
  note="Only growth with the number of rounds is reported, not what a server or connection holds once.")
c("C29", "generated histories with stuck connections (blocked writes, callbacks that do not return, silent peers) in simulated time, completion and delivery oracle",
  "1-3 stuck connections of 12 kinds appear among operations of healthy ones (emit, ask, broadcasts, Server.Ask, lifecycle, dial, close, registry reads, Do, Server.Close), each of which must complete and arrive within ten "
  "simulated seconds; non-trivial: a connection was stuck while operations ran", [core("TestC29", 200000)])
R = dict(race=True, workers=2, cpus=[4, 2], budget=55, tbudget=540)
c("C27", "the generated histories of the other checks run under the race detector, which is the oracle",
  "the cases of TestSeq, TestConc, TestC02, C13, C16-C19, C21, C22, C25 and of the adapters' tests, built with -race; non-trivial as in those checks. "
  "A report counts when neffos code is the innermost non-standard-library frame of one of its two accesses",
  [core("TestConc", 60000, **dict(R, workers=6, cpus=[4, 2, 4])), core("TestSeq", 20000, **R), core("TestC13", 20000, **R), core("TestC16", 20000, **R),
   core("TestC17", 8000, **R), core("TestC18", 8000, **R), core("TestC02", 8000, **R), core("TestC19", 8000, **R), core("TestC21", 8000, **R),
   core("TestC22", 8000, **R), core("TestC25", 8000, **R), net("TestC23", 8000, **R), net("TestC23Net", 8000, **R), net("TestC25Net", 8000, **R)],
  note="The race detector reports the races of the executions that were run (happens-before), not of all schedules.")
