TRUST = ('Seeded search over schedules and faults, not a proof: absence of a violation holds for the runs explored. '
         'Trusted: the simulator (sim/simrt, sim/shim), the source instrumenter and the reference model. ')
LW = 'The store, its loader, the codecs and the file, fs, maps, env and flags providers are real; other providers, the disk and the environment are simulated. '
NOTE = {
 'C01': ('seeded search over multi-client operation histories, refinement against a map model', TRUST + 'Client operations interleave at call granularity (statement granularity: C15).'),
 'C02': ('seeded search over histories of views, duplicates and pending TTLs, refinement against a model of shared and copied maps', TRUST + 'Call granularity for clients, statement granularity for timers and services.'),
 'C03': ('seeded search over schedules of clients, TTL service and simulated clock, with stalls and late timers, against a timed model', TRUST + 'Statement granularity for readers, overwriters, one structural writer and the TTL machinery; call granularity for several structural writers.'),
 'C04': ('seeded search over schedules of clients, TTL service and simulated clock, with stalls and late timers, against a timed model', TRUST + 'Statement granularity for readers, one structural writer and expiries; call granularity for several structural writers.'),
 'C05': ('seeded search over interleavings of Close with SetTTL, expiry, Load, watch events and other Close calls; bounded-step liveness and goroutine accounting', TRUST + 'Watchers are simulated providers.'),
 'C06': ('seeded search over histories of loads from failing, slow and corrupted sources interleaved with client operations; atomicity of each load against a map model', TRUST + LW),
 'C07': ('seeded search over source data, providers, map iteration orders and prior histories; refinement against a reference flattening', TRUST + LW),
 'C08': ('seeded search over histories of loads, user writes, failing and slow saves and restarts from what was saved, against a model of modified keys, and over statement-level interleavings of writers, loads and saves, against the linearizable history of each key', TRUST + LW),
 'C09': ('seeded search over interleavings of watch events, event errors, loads, client operations and Close, against a map model', TRUST + LW),
 'C10': ('seeded search over histories of sets, merges, loads, removals and watch events; the recorded notifications are compared with the expected multiset after each operation, those of goroutines racing statement by statement with the linearizable history of each key', TRUST + LW),
 'C11': ('seeded search over statement-level interleavings of readers, overwriting writers and expiring TTLs; the recorded history of each key is checked for linearizability', TRUST + 'Sequentially consistent interleavings of statements; a read of a multi-word value or a map during a write of it is reported (torn), other data races below statement level are not simulated.'),
 'C12': ('seeded search over histories of etcd writes, watch deliveries, faults, cancellation and Close against a simulated etcd; the store is compared with the recorded server states while running, and must converge', TRUST + 'The provider and the option handling of the client library are real; the client transport and the server are simulated.'),
 'C13': ('seeded search over histories of consul writes, long-poll answers, faults, retries and Close against a simulated agent; the store is compared with the recorded server states while running, and must converge', TRUST + 'The provider and the consul client library (HTTP, watch plan, retries) are real; the agent is simulated behind http.RoundTripper.'),
 'C14': ('seeded search over sequences of disk faults, file events, watch errors, cancellation and Close on a simulated disk and fsnotify, against a model of the file and of the expected callbacks', TRUST + 'The file provider, loader and codecs are real; disk and fsnotify are simulated.'),
 'C15': ('seeded search over statement-level interleavings of structural writers, readers, loads and watch events; the recorded history of each key is checked for linearizability, torn reads and writes are reported', TRUST + 'Sequentially consistent interleavings of statements plus torn multi-word values. Enumerations are checked for phantoms only while keys are being removed, and completely when all is quiet.'),
}
