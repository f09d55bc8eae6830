SCHED = "stateless model checking of the real code (all schedules, controlled scheduler, happens-before pruning)"
ENUM = "exhaustive bounded enumeration of inputs and operation sequences on the real code, against a reference semantics"
CLAIMS = {
 "E01": (SCHED, "model_checking", "Every interleaving of up to 3 concurrent firing callers, pollers and a waiter on the real Event code; sequentially consistent memory; trusts the virtual runtime."),
 "D01": (SCHED, "model_checking", "Real ConfigDistributor under a delay-bounded exhaustive scheduler; readers, updates, subscribers, close; trusts the virtual runtime."),
 "D02": (SCHED, "model_checking", "Real ConfigDistributor under a delay-bounded exhaustive scheduler; oracle: the exact filtered sequence per subscriber; trusts the virtual runtime."),
 "D03": (SCHED, "model_checking", "Real ConfigDistributor under a delay-bounded exhaustive scheduler; unsubscribe/close against blocked deliveries; trusts the virtual runtime."),
 "S01": (SCHED + "; " + ENUM, "model_checking", "Enumerated frames (all types, sizes up to large, both directions, all fragmentations in the small) through the real codec pipeline and through the real session under the controlled scheduler; all conversations of 3 messages out of 50; 70,000 messages in a row; the real program for large ones; database and client are scripted."),
 "S02": (SCHED, "model_checking", "Real session with scripted endpoints and bounded socket buffers under a delay-bounded exhaustive scheduler; backlogs larger than every queue (to 5,000 messages), cross traffic, pauses up to 400 days of virtual time, 70,000 messages."),
 "S03": (SCHED, "model_checking", "Hang-ups of either or both sides at every step of short sessions, delay-bounded exhaustive schedules; TCP reset on close with unread data is not modelled."),
 "S04": (SCHED, "model_checking", "One or two closers at every step of every phase of a session, delay-bounded exhaustive schedules."),
 "S05": (SCHED, "model_checking", "All sequences of 3 configurations with valid and invalid database URLs; tables of admissible and inadmissible startup messages, all truncations, all pairs of 38 peculiar database names through the real session; every dial and byte to the database recorded."),
 "S06": (SCHED, "model_checking", "SSL request histories, all pairs of 43 parameters in 3 places, parameter lists of many sizes, configurations and 22 spellings of database URLs through the real session, delay-bounded schedules around configuration changes."),
 "S07": (SCHED, "model_checking", "Hostile frames over a bounded alphabet from both sides in both phases against the real server with a bystander session; sessions that say the same; up to 100 clients whose database fails before one that is served; the real program."),
 "V01": (SCHED, "model_checking", "Close at every step of serving, accepting, set-up, relaying and reconfiguring, delay-bounded exhaustive schedules; all goroutines and sockets accounted for."),
 "V02": (SCHED, "model_checking", "All short sequences and concurrent pairs of lifecycle calls, with a source of configurations that goes on, ends or is closed, under a delay-bounded exhaustive scheduler."),
 "V03": (SCHED, "model_checking", "All update sequences up to a bounded length over small address sets (some unbindable), delay-bounded exhaustive schedules."),
 "V04": (SCHED, "model_checking", "Silent, slow, failing and refused clients beside a good one, accept errors at every placement, crowds to 1,030 clients, 1,100 sessions in a row, waits up to 400 days of virtual time, delay-bounded exhaustive schedules."),
 "L01": (SCHED + "; " + ENUM, "model_checking", "All lists of up to 2 (3) arguments over 24 tokens times the state of the default configuration file times the server's result, on the real command line code and on the real program as a process."),
 "L02": (ENUM, "model_checking", "All files of up to 3 (4) lines over an alphabet of TOML lines, every prefix of complete files, at startup and while running, paths written in all ways; the expected values are those the lines were built from; os.ReadFile is one step."),
 "L03": (SCHED + "; " + ENUM, "model_checking", "All histories of up to 3 edits in several ways of writing, notifications, kernel failures and overflow, at every step of the start, delay-bounded exhaustive schedules over a model of inotify and the file; bound to the kernel's inotify by enumerated edit histories, in 12 ways of editing in place, on the real process."),
 "R01": ("happens-before race detection on every schedule explored of every scenario (stateless model checking)", "model_checking", "Every pair of conflicting unsynchronised accesses in any explored schedule of all server, session, distributor and event scenarios is reported; scenarios run to a time cap."),
 "W01": (ENUM, "model_checking", "All bodies up to 6 bytes over 8 symbols, all short token sequences, all mutants of well-formed bodies, every decoder; crash, hang and allocation oracles. Longer hostile inputs outside these families are not covered."),
 "W02": (ENUM, "model_checking", "All combinations of field values from boundary sets for every message type, all frame sizes up to 1300; reference encoder from the PostgreSQL documentation."),
 "W03": (ENUM, "model_checking", "Same input families as W01, compared with a reference decoder from the PostgreSQL documentation."),
 "W04": (ENUM, "model_checking", "All divisions into reads of short streams, boundary sizes and splits of long ones, all small declared lengths, every truncation."),
 "W05": (ENUM, "model_checking", "All sequences of up to 3 writes/reads over boundary values; all pairs of reads on all small buffers; reference list semantics."),
 "W06": (ENUM, "model_checking", "All sequences of 2 (thorough 3) operations after a received message; shadow copies as oracle."),
 "U01": (ENUM, "model_checking", "All combinations of URL components from sets of special values; the components are the oracle."),
 "M01": ("exhaustive fault enumeration on the real code: every failure point of every short history against a scripted server", "model_checking", "Every sequence of up to 2 (3) calls times a failure at every byte and before every message of the server's output; the server is a model of PostgreSQL's protocol that evaluates the queries; lib/pq is trusted to be what go.mod names."),
 "M02": (ENUM, "model_checking", "All single relations and all pairs over 24 schemas and 10 kinds, special names and object ids; the queries the code sends are evaluated by a model of PostgreSQL's SQL and catalog; a query outside the modelled subset is counted as undecided, not judged."),
}
NA = {}
