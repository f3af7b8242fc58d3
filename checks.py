ASSUMPTIONS = [
    "holds for the executions driven by this run only; gcc/clang sanitizers see what the instrumented code does, not the system libraries",
    "little-endian x86-64 Linux",
]

NOT_CLAIMED = {}

CHECKS = {
    "S01": dict(technique='round trips of random objects of compiled and run-time types under ASan/UBSan, judged by an independent CBOR encoder and value model',
                note='Holds for the sampled objects; the model covers every property kind, nesting, selections and several objects per buffer.',
                driver="drv_cbor", build="clang", cases=dict(quick=10000, thorough=300000), distinct="objects_sent",
                rule="random objects of 16 compiled and of random run-time types with random selections, encoded and decoded in both formats; non-trivial: at least one selected valid property; distinct by type and selected values",
                require=dict(oracle_checks=50000, kinds_sent=30, cbor_stream_objects=500)),
    "S04": dict(technique='round trips of random objects through all text layouts and implementations under ASan/UBSan, judged by an independent JSON parser, text writer and value model',
                note='Holds for the sampled objects; non-finite numbers and strings that are not UTF-8 are outside the property.',
                driver="drv_text", build="clang", cases=dict(quick=15000, thorough=1000000), distinct="objects_sent",
                rule="random objects of 16 compiled and of random run-time types with random selections, written in every layout of the three text implementations, read back by every implementation of the notation, and texts written by the harness; non-trivial: at least one selected valid property; distinct by type and selected values",
                require=dict(oracle_checks=50000, kinds_sent=30, json_parsed=5000, settled_hops=2000, foreign_texts=8000)),
    "S03": dict(technique='random unknown properties and pairs of type versions, binary and text, under ASan/UBSan, judged by an independent encoder and model',
                note='Holds for the sampled messages; CBOR tags are never produced by dots and are not generated.',
                driver=["drv_cbor", "drv_text"], build="clang", cases=dict(quick=3000, thorough=100000), distinct="messages_with_unknown",
                rule="random objects encoded with random unknown properties at all nesting levels, and pairs of versions of a random type; non-trivial: at least one unknown property; distinct by bytes",
                require=dict(unknown_properties=10000, version_pairs=500, unknown_members=10000)),
    "S02": dict(technique='mutated, truncated, spliced and random input decoded in exact heap blocks under ASan/UBSan with allocation and CPU-time meters',
                note='Holds for the sampled inputs (up to 0.3 MB); memory and time are bounded by 1 MiB + 4 KiB per input byte and 0.3 s + 30 us per input byte.',
                driver="drv_decode", build="clang", cases=dict(quick=2500, thorough=60000), distinct="inputs",
                rule="mutated encodings, prefixes, objects with values of wrong types, deep nesting and random input for all five decoders; non-trivial: every input; distinct by format, target type and bytes",
                require=dict(inputs_cbor=5000, inputs_json=5000, inputs_string=5000, inputs_rapidjson=5000, accepted=2000, refused=20000, prefixes_refused=2000)),
    "T01": dict(technique='random operation sequences over typed and untyped objects under ASan/UBSan/LSan, judged after every step by a model of records of optional values',
                note='Holds for the sampled sequences; ordering is not judged for records with NaN.',
                driver="drv_record", build="clang", cases=dict(quick=40000, thorough=300000), distinct="object_states",
                rule="sequences of assignments, copies, merges, swaps, moves, clears, path and vector-element writes and comparisons over several objects of 16 compiled and of random run-time types; every object is compared with its model after each step; non-trivial: at least one valid property; distinct by type and content",
                require=dict(oracle_checks=1000000, ordered=10000, compared_equal=10000, concrete_objects=2000, path_writes=2000, typed_property_ops=50, op_merge=2000, op_swap=2000)),
    "C01": dict(technique='random publication histories against containers, pools and clone information under ASan/UBSan/LSan, judged after every step by a model that folds the history',
                note='Holds for the sampled histories; keys that are NaN and keys that are vectors of property sets are outside the property.',
                driver="drv_cache", build="clang", cases=dict(quick=60000, thorough=1000000), distinct="cache_states",
                rule="histories of publications, partial updates and removals of 1 to 3 compiled or random run-time types with 0 to many key properties of every kind over a small value domain; non-trivial: every cache state reached; distinct by type and content of the cache",
                require=dict(oracle_checks=1000000, creations=20000, updates=20000, removals=5000, removals_of_unknown=5000, updates_that_unset=5000, containers_removed=500)),
    "D01": dict(technique='handlers that publish, remove, subscribe, unsubscribe and throw while being invoked, at the dispatcher and at a host, under ASan/UBSan; an online monitor of due invocations and an offline check of every handler log',
                note='Holds for the sampled histories; destroying a transceiver inside its own handlers is outside the property.',
                driver=["drv_cache", "drv_host"], build="clang", cases=dict(quick=20000, thorough=500000), distinct="histories",
                rule="scripts of publications, subscriptions and unsubscriptions over 1 to 3 types with random actions inside handlers; non-trivial: every history; distinct by the sequence of operations and invocations",
                require=dict(oracle_checks=1000000, invocations=100000, replayed_objects=20000, subscriptions_during_dispatch=5000, unsubscriptions_during_dispatch=5000, throwing_invocations=5000, uncached_removals=300, handler_views_compared=10000, nested_publications=10000, handler_logs_judged=30000)),
    "B01": dict(technique='a host with raw and library clients on six transports under a seeded scheduler, ASan/UBSan/LSan; online matching of every delivery with the accepted publications',
                note='Holds for the sampled exchanges (up to 9 clients, 70 steps); WebSocket worlds compare numbers with 16 digits.',
                driver="drv_net", build="clang", cases=dict(quick=4000, thorough=120000), distinct="histories",
                rule="random exchanges of publishing, joining, leaving, connecting and ending clients over TCP, UNIX sockets, WebSocket and in-process channels, with cut streams and interleavings chosen by a seed; every delivery is matched with what the host accepted, and every acceptance with what was sent; non-trivial: every exchange; distinct by the sequence of operations",
                require=dict(accepted=50000, deliveries=60000, memberships_judged=5000, live_deliveries=50000, checkpoints=2000, disconnects=2000, clients_local=300, **{"clients_tcp-v1": 300, "clients_tcp-v2": 300, "clients_uds-v1": 300, "clients_uds-v2": 300, "clients_ws": 300})),
    "B02": dict(technique='a host with raw and library clients on six transports under a seeded scheduler, ASan/UBSan/LSan; at quiescence, host cache, client containers and folded deliveries are compared with the model of the history',
                note='Holds for the sampled exchanges; quiescence is reached by echo barriers on every connection.',
                driver="drv_net", build="clang", cases=dict(quick=4000, thorough=120000), distinct="host_objects",
                rule="random exchanges as for B01 with many subscriptions; at several quiescent moments every replica is compared with the host's cache and the fold of the accepted publications; non-trivial: every exchange; distinct by type and content of the cached objects",
                require=dict(replicas_compared=5000, containers_compared=2500, checkpoints=3000, disconnects=2000, cleared_objects=300, clients_local=300, **{"clients_tcp-v1": 300, "clients_tcp-v2": 300, "clients_uds-v1": 300, "clients_uds-v2": 300, "clients_ws": 300})),
    "B03": dict(technique='a host with raw and library clients on six transports under a seeded scheduler, ASan/UBSan/LSan; every snapshot is compared with the model of the host cache at the position of the join in the publication order',
                note='Holds for the sampled exchanges.',
                driver="drv_net", build="clang", cases=dict(quick=4000, thorough=120000), distinct="histories",
                rule="random exchanges as for B01 with joins at random moments of concurrent publication streams, repeated joins and joins while connecting; non-trivial: every exchange; distinct by the sequence of operations",
                require=dict(snapshots=10000, snapshot_objects=15000, memberships_judged=5000, clients_local=300, **{"clients_tcp-v1": 300, "clients_tcp-v2": 300, "clients_uds-v1": 300, "clients_uds-v2": 300, "clients_ws": 300})),
    "B04": dict(technique='a host with raw and library clients on six transports under a seeded scheduler, ASan/UBSan/LSan; an online monitor of ownership in the host cache, and matching of removals at all subscribers',
                note='Holds for the sampled exchanges; clients end gracefully, with an error, by closing and by a reset.',
                driver="drv_net", build="clang", cases=dict(quick=4000, thorough=120000), distinct="histories",
                rule="random exchanges as for B01 with mostly cleanup types and many clients that end in four ways with messages in flight; non-trivial: every exchange; distinct by the sequence of operations",
                require=dict(cleanup_removals=3000, disconnects=5000, memberships_judged=5000, clients_local=300, **{"clients_tcp-v1": 300, "clients_tcp-v2": 300, "clients_uds-v1": 300, "clients_uds-v2": 300, "clients_ws": 300})),
    "B05": dict(technique='a host with raw (forging) and library clients on six transports under a seeded scheduler, ASan/UBSan/LSan; sender, times and own-message mark of every delivery and the clone information of every object against the connection it came from',
                note='Holds for the sampled exchanges.',
                driver="drv_net", build="clang", cases=dict(quick=4000, thorough=120000), distinct="histories",
                rule="random exchanges as for B01 in which raw clients write wrong senders, host times, own-message and cache marks; non-trivial: every exchange; distinct by the sequence of operations",
                require=dict(accepted=50000, deliveries=60000, containers_compared=1500, clients_local=300, **{"clients_tcp-v1": 300, "clients_tcp-v2": 300, "clients_uds-v1": 300, "clients_uds-v2": 300, "clients_ws": 300})),
    "B06": dict(technique='a host with raw and library clients on six transports under a seeded scheduler, ASan/UBSan/LSan; the replies on every connection are matched with its requests in order',
                note='Holds for the sampled exchanges.',
                driver="drv_net", build="clang", cases=dict(quick=4000, thorough=120000), distinct="histories",
                rule="random exchanges as for B01 with many echo, descriptor and clear-cache requests with random lists; non-trivial: every exchange; distinct by the sequence of operations",
                require=dict(echoes=50000, descriptor_requests=3000, descriptions=5000, cleared_objects=500, clients_local=300, **{"clients_tcp-v1": 300, "clients_tcp-v2": 300, "clients_uds-v1": 300, "clients_uds-v2": 300, "clients_ws": 300})),
    "I02": dict(technique='a host with raw and library clients on six transports under a seeded scheduler, ASan/UBSan/LSan; raw clients decode with an independent decoder that knows only what the connection described',
                note='Holds for the sampled exchanges; a type described by two peers at the same time may be described to each once.',
                driver="drv_net", build="clang", cases=dict(quick=4000, thorough=120000), distinct="histories",
                rule="random exchanges as for B01 with mostly run-time defined types (nested structures, enumerations, lists), first used and described in random orders by different clients; non-trivial: every exchange; distinct by the sequence of operations",
                require=dict(descriptions=5000, deliveries=50000, containers_compared=1500, clients_local=300, **{"clients_tcp-v1": 300, "clients_tcp-v2": 300, "clients_uds-v1": 300, "clients_uds-v2": 300, "clients_ws": 300})),
    "B07": dict(technique='a host with raw and library clients on six transports under a seeded scheduler, ASan/UBSan/LSan; publications that must be refused, from peers and at the interfaces, judged by an online monitor of everything the host accepts and all clients receive',
                note='Holds for the sampled exchanges; the reason is only expected when the peer has nothing more in flight.',
                driver="drv_net", build="clang", cases=dict(quick=4000, thorough=120000), distinct="histories",
                rule="random exchanges as for B01 with objects without some or all of their keys, of types that may only be embedded, removals of uncached objects and publications without a connection, followed by further frames; non-trivial: every exchange; distinct by the sequence of operations",
                require={"refused_by_interface": 2000, "refused_by_host": 1500, "errors_told": 500, "refused: removal of an uncached object": 800, "refused: object of a type that is only embedded": 1000, "refused: object without a connection": 40, "refused: object without all keys": 800, "clients_local": 300, "clients_tcp-v1": 300, "clients_tcp-v2": 300, "clients_uds-v1": 300, "clients_uds-v2": 300, "clients_ws": 300}),
    "H02": dict(technique='a host and its clients next to faulty and hostile peers (mutated, truncated and oversized frames, hostile descriptions, deaf, stalled and resetting peers, descriptor exhaustion) under a seeded scheduler, ASan/UBSan/LSan; the monitors of all exchanges judge the healthy clients, meters judge memory and progress',
                note='Holds for the sampled peers; when an accepted object cannot be represented on every transport, only connections and service are judged in that case.',
                driver="drv_hostile", build="clang", cases=dict(quick=2500, thorough=60000), distinct="histories",
                rule="a host with healthy raw and library clients on stream transports and WebSocket while 1 to 12 peers of 17 kinds send what no correct client sends, stop reading, stall and vanish; every delivery to the healthy clients is judged, every listener still serves new clients, every connection of a vanished peer ends; non-trivial: every case; distinct by the sequence of operations",
                require=dict(faulty_peers=6000, objects_of_faulty_peers=1500, descriptor_exhaustions=40, deliveries=4000, checkpoints=2000, **{"faulty_peers_" + k: 150 for k in ("garbage", "silent", "reset", "mutated", "truncated", "sizes", "deaf", "upgrade", "types", "messages", "refused", "burst", "early", "nested")})),
    "H01": dict(technique='scripted peers drive the library in both roles (host and guest) over six transports under a seeded scheduler, ASan/UBSan/LSan; an online monitor (a reference handshake machine) judges every transition, every frame on the wire and every delivery',
                note='Holds for the sampled conversations; what is still to be written when a connection fails may be dropped.',
                driver="drv_connection", build="clang", cases=dict(quick=16000, thorough=600000), distinct="conversations",
                rule="random sequences of correct, incomplete, out-of-order, rejecting and undecodable messages, ends of stream and resets, in both roles, with subscriptions and publications in every state, and reopened guests; non-trivial: every connection; distinct by the transitions, the frames and the transport",
                require=dict(connections_judged=30000, reopened=2000, **{"scripted_" + k: 1000 for k in ("local", "tcp-v1", "tcp-v2", "uds-v1", "uds-v2", "ws")})),
    "I01": dict(technique='two ends of the library joined over six transports through relays that cut, delay and stall the byte stream, under a seeded scheduler, ASan/UBSan/LSan; an online monitor compares every received object and header with the sequence that was transmitted',
                note='Holds for the sampled exchanges.',
                driver="drv_channel", build="clang", cases=dict(quick=1000, thorough=24000), distinct="exchanges",
                rule="a listener with one to three connections, static and run-time defined types, objects of 0 B to 3 MB sent one by one and to all at once in both directions, receivers that pause, stalled streams up to the limit of the sender, ends released with data in flight; non-trivial: every exchange; distinct by what was done, the amount of data and the pieces it arrived in",
                require=dict(received_objects=50000, pieces=100000, pauses=800, broadcasts=8000, released_ends=150, overflows=4, cases_with_large_objects=40, connected_asynchronously=80, **{"cases_" + k: 100 for k in ("local", "tcp-v1", "tcp-v2", "uds-v1", "uds-v2", "ws")})),
    "M01": dict(technique='random programs that create, connect, move, replace and destroy hosts, clients, channels, listeners, subscriptions and timers, also inside handlers, over six transports under a seeded scheduler; ASan/UBSan/LSan watch the memory, a monitor watches that nothing ended is called, that everything alive still gets what is published, and that no handler or descriptor is left',
                note='Holds for the sampled programs; transceivers and listeners are not ended inside their own handlers, and a channel that is released without cancelReceive may still report the end of what it was writing.',
                driver="drv_lifecycle", build="clang", cases=dict(quick=2400, thorough=80000), distinct="histories",
                rule="three quarters: up to three hosts and four clients with subscriptions of four kinds, timers, run-time registered types and publications, ended and moved by random actions between single io steps and inside handlers up to depth four, with a delivery check of everything that is alive after each round; one quarter: channels and listeners alone; non-trivial: every program; distinct by the sequence of actions",
                require=dict(handler_calls=300000, actions_inside_handlers=50000, ended_inside_own_handler=8000, transceivers_moved=8000, transceivers_assigned=1600, transceivers_destroyed=10000, deliveries_checked=18000, deliveries_after_moves_checked=12000, ended_with_nothing_left=2300, channel_histories=450, channels_released=3000)),
    "H03": dict(technique='random rules and policies published at run time, verdicts of the authentication manager and of real connections over six transports from many addresses, valid, stolen, truncated and missing responses, ASan/UBSan/LSan; judged by an independent evaluation of the rules (with SHA-256) and a monitor of what a rejected client reaches',
                note='Holds for the sampled histories; the order of rules of the same priority, and whether a missing response at a secret rule ends the search, are left open.',
                driver="drv_auth", build="clang", cases=dict(quick=5000, thorough=150000), distinct="histories",
                rule="half: the verdict for random addresses at the borders of the networks, names and responses after every change of up to 40 rules; half: raw and library clients that connect over every transport, from all over 127.0.0.0/8 and ::1, with what a rejected client sends after its request already on the way; non-trivial: every case; distinct by the sequence of operations",
                require=dict(verdicts_yes=60000, verdicts_no=40000, verdicts_yes_with_secret=5000, verdicts_no_with_secret=5000, rules_changed=12000, rules_removed=8000, connections_accepted_with_response=350, connections_rejected_with_response=1300, guests_accepted_with_response=300, guests_rejected_with_response=600, stayed_connected=8000, **{"raw_" + k: 1300 for k in ("local", "tcp-v1", "tcp-v2", "uds-v1", "uds-v2", "ws")})),
    "U01": dict(technique='random addresses with random sequences of changes, networks, times and identifiers under ASan/UBSan, every result compared with references written without the library (URI composition, bitwise prefixes, calendar arithmetic, ISO 8601)',
                note='Holds for the sampled values; components do not contain the delimiters that end them, times lie between the years 1 and 9999.',
                driver="drv_convert", build="clang", cases=dict(quick=50000, thorough=2000000), distinct="addresses",
                rule="one to three addresses, built in every way, under up to 11 changes, copies, moves and refused changes, each compared with its components after every step; pairs of networks around the same prefix; times between the years 1 and 9999 in seven time zones, durations up to 10^18 s, and mutated texts of all of them; non-trivial: every case; distinct by the text of the address",
                require=dict(oracle_checks=5000000, uri_operations=250000, uri_refused=40000, networks_inside=35000, networks_outside=50000, durations_accepted=50000, durations_refused=35000, times_malformed=150000, times_in_zones=20000, uuids_malformed=80000)),
    "U02": dict(technique='timers and descriptor observers created, moved, replaced, detached and ended at random moments, also inside of handlers and under delays, under ASan/UBSan, every firing compared with the monotonic clock and poll(2)',
                note='Holds for the sampled programs of up to 60 timers and 10 descriptors, with intervals up to 25 ms and infinite ones; times are compared with a tolerance of a microsecond (early) and 10 ms (missing).',
                driver="drv_timer", build="clang", cases=dict(quick=3500, thorough=90000), distinct="histories",
                rule="for 20 to 60 ms, timers and observers are created, moved, replaced, detached and ended, descriptors become ready or not, and the loop is run in different ways with delays between; afterwards all that is due must fire, all that is ready must be reported, handlers and descriptors must be released, and the loop must end; non-trivial: every case; distinct by intervals and numbers of firings",
                require=dict(periodic_firings=60000, one_shot_firings=10000, orders_judged=250000, observer_firings=500000, readiness_checked=6000, timers_moved=7000, timers_replaced=2500, timers_detached=2000, timers_ended=12000, loops_ended=600)),
}
