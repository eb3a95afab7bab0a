#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the text of every property lives here)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, observe):
    P.append(dict(id=id, title=title, statement=statement,
                  quantifier=dict(over=over, text=text), why_tests_cant=why,
                  anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech],
                               observe_at=observe, hook_needed=None)))
S = "pysim/sim/simulator.py"; L = "pysim/sim/logger.py"
PP = "pysim/models/pingpong/"; R = "pysim/models/rfid/"; T = "pysim/models/tag_time/"

p("C01", "Events are handled in time order, ties in scheduling order, at their due time",
  "In every simulation, events are handled in order of due time, and events due at the same time are handled in the order in which they were scheduled, including zero-delay events scheduled by the handler that is running. While an event is handled the model clock reads exactly the time of scheduling plus the event's delay, and the clock never goes backwards.",
  ["histories", "inputs", "programs"], "every program of handlers that schedule, call and cancel events, with any delays (equal, zero, fractional, integer or float)",
  "The tests run one echo model with strictly alternating events and pop five hand-written entries with distinct times; ties, nested zero-delay scheduling and clock values during handling are never exercised.",
  [S], [("priority heap with sequence numbers", S + ":EventQueue"), ("main loop", S + ":Kernel.build_runner")],
  ["order of handler invocations", "Simulator.time inside handlers"])
p("C02", "Every event is delivered exactly once with its own arguments unless cancelled",
  "Every scheduled event is delivered exactly once, to the handler and with the arguments it was scheduled with, unless it is cancelled first or the run ends first. Cancelling a pending event prevents exactly that event and reports 1; cancelling an identifier that is unknown, already delivered, being delivered or already cancelled changes nothing and reports 0. Event identifiers are positive and unique within a run.",
  ["histories", "programs"], "every program of handlers that schedule and cancel each other's events, including cancellation of same-time events, of the event being handled and repeated cancellation",
  "The tests cancel two entries of a bare queue; no test cancels from a handler or counts deliveries.",
  [S], [("cancellation marks the heap entry", S + ":EventQueue.cancel"), ("Simulator.cancel", S + ":Simulator.cancel")],
  ["handler invocations", "return value of cancel"])
p("C03", "The event queue is a stable priority queue under any operation sequence",
  "Under any sequence of push, pop, cancel, clear, length, emptiness and listing operations the event queue behaves like a list of entries sorted by time and then by insertion: pop returns the earliest remaining entry exactly as pushed and removes it, cancel removes exactly the named entry, and length, emptiness and the listing reflect exactly the entries that are neither popped nor cancelled. Popping an empty queue raises KeyError and changes nothing.",
  ["histories", "inputs"], "all operation sequences, queue sizes, time values and payloads (including None)",
  "The tests run six fixed sequences with distinct times; cancel-then-pop interleavings, ties, clear followed by reuse and listing are not covered.",
  [S], [("heap plus dictionary of live entries", S + ":EventQueue")], ["EventQueue methods"])
p("C04", "A run ends exactly when a stop condition holds and reports it truthfully",
  "A run ends as soon as a handler (or the initializer) has requested a stop, the number of handled events has reached the event limit, the clock has passed the model-time limit, the real-time limit has elapsed, or no events are pending, and not earlier; the handler in progress completes and no further event is handled. The exit reason is always set and names a condition that holds at the end (a requested stop is never reported as running out of events), and the message of the stop request is returned. The models' own entry points obey the same limits.",
  ["histories", "configurations", "programs"], "every combination of limits, stop requests and event programs, and every progress of the wall clock",
  "Three tests each fix one model and one limit; combinations, draining the queue and the event limit are not tested at all.",
  [S], [("stop conditions", S + ":Kernel.stop_conditions"), ("main loop", S + ":Kernel.build_runner")],
  ["ExecutionStats.exit_reason", "number of handled events"])
p("C05", "Invalid scheduling requests are rejected and leave the simulation unchanged",
  "Scheduling an event in the past (a negative delay) raises SchedulingInPastError, a missing handler raises ValueError, and a handler that is not callable or arguments that are not iterable raise TypeError, both for delayed and for immediate scheduling. A rejected request leaves the pending events, the clock and the rest of the run exactly as they were.",
  ["inputs", "histories"], "every invalid argument combination at every point of a run",
  "No test ever passes an invalid argument.",
  [S], [("argument validation", S + ":Kernel.schedule"), ("documented contract", S + ":Simulator.schedule")],
  ["exceptions raised by Simulator.schedule / call", "subsequent deliveries"])
p("C06", "A run initialises once, finalises once and returns true results",
  "The initializer runs exactly once, first, at time zero, with the given arguments and the given context (an empty dictionary if none is given); the finalizer, if any, runs exactly once after the last event. The result carries the context object in force at the end, the finalizer's return value (nothing without a finalizer), the number of handled events, the final clock and the last handler run; nothing runs before the result is first requested, and exactly one result is produced. The model runs in debug mode, from the initializer to the finalizer, exactly when that was asked for. An exception raised by model code reaches the caller.",
  ["histories", "programs", "configurations"], "every model program (context replaced or mutated, none / falsy contexts, exceptions at any point)",
  "Tests check one model with one context; lazy start, context replacement, falsy contexts and exceptions are not covered.",
  [S], [("runner", S + ":Kernel.build_runner"), ("builder", S + ":build_simulation"), ("driver", S + ":run_simulation")],
  ["return value of run_simulation"])
p("C07", "Simulations in one process do not influence each other",
  "A simulation gives the same results whether it runs alone, after or before other simulations, inside a handler of another simulation, or interleaved event by event with another simulation in a second thread of the same process. In particular clocks, pending events, event identifiers, contexts, limits, stop requests and protocol state of one simulation never affect another, and repeating a run with the same configuration and the same random draws gives the same results.",
  ["schedules", "histories"], "every interleaving of building and running several simulations (of equal or different models)",
  "Each test builds and runs one simulation to completion.",
  [S, R + "objects.py", PP + "model.py", T + "model.py"], [("one kernel and queue per simulation", S + ":build_simulation"), ("shared enum state objects carry no per-run data", R + "objects.py:Reader.State")],
  ["results and event traces of each simulation"])
p("C08", "Log records carry model time and run id and obey the configured routing",
  "Every record a model writes is emitted once to each configured destination (console, file) exactly when its level reaches both the logger level and that destination's level, and carries the model time at which it was written, the run id, its level, message and calling function. Configuration given first stays in force until a forced reconfiguration, and the log file name is the given name, with the run id inserted by the configured separator before a .log extension when requested.",
  ["configurations", "inputs", "histories"], "every combination of levels, destinations, name forms, run ids and orders of setup calls",
  "No test touches logging.",
  [L, S], [("ModelLogger.setup", L), ("extra fields", L + ":ModelLogger._get_extra")], ["log file and console output"])
p("C09", "The command line offers every well-formed model package and only those",
  "Every package in the models directory whose command-line module provides a click command under the agreed name is listed and can be run under its package name, and reaches that package's own command. A package without such a module or command is skipped, is not listed, and never prevents the other models from being listed or run.",
  ["configurations"], "every combination of well-formed and malformed model packages",
  "No test loads the top-level command line.",
  ["pysim/main.py"], [("package scan", "pysim/main.py:__initialize__")], ["sim list", "sim run <model>"])
p("C10", "Ping-pong follows its protocol and timing for every pattern of losses",
  "For every pattern of losses the client has one ping outstanding at a time and numbers pings consecutively; a ping is lost exactly when its random draw falls in the loss probability, a delivered ping is answered by exactly one pong with the same number which reaches the client after two channel delays and one service delay, and the next ping leaves one interval after the pong arrives or the ping is lost. After the configured number of pings the run stops; sent pings always equal acknowledged plus missed plus at most the one outstanding.",
  ["histories", "configurations", "inputs"], "all loss patterns and parameter values",
  "The model's test file is empty.",
  [PP + "model.py", PP + "handlers.py"], [("client / server / channel handlers", PP + "model.py")], ["messages on the channel", "client counters", "final clock"])
p("C11", "Ping-pong results report the true averages and loss rate",
  "For every completed run the reported miss rate is the fraction of sent pings that received no matching pong, the reported delay is the mean transmission delay and the reported interval is the mean ping interval. A result is produced for every loss pattern, including runs in which every ping is lost.",
  ["histories", "configurations"], "all loss patterns and parameters, including loss probabilities 0 and 1",
  "The model's test file is empty.",
  [PP + "handlers.py", PP + "model.py"], [("finalize", PP + "handlers.py:finalize")], ["returned Result"])
p("C12", "Parameter sweeps attribute each result to the parameter value that produced it",
  "When one command-line parameter is given several values, one simulation is run per distinct value, in ascending order, with every other parameter (including options that cannot vary) exactly as given, and each printed or returned result stands against the value that produced it. Giving several values to two parameters is refused before any simulation runs; single values run a single simulation with exactly the given parameters.",
  ["configurations", "inputs"], "every varying parameter, every order and duplication of its values, for every model",
  "No test runs a model from the command line successfully.",
  [PP + "cli.py", PP + "processing.py", R + "cli.py", R + "processing.py", T + "cli.py"],
  [("run_multiple_simulation", PP + "cli.py"), ("prepare_multiple_simulation", R + "cli.py"), ("run_multiple_simulation", T + "cli.py")],
  ["configurations passed to the models", "printed tables"])
p("C13", "Reader commands and tag replies are encoded as EPC Gen2 prescribes",
  "Every reader command encodes to the bit string of EPC Gen2: its code followed by its fields in order and width (extensible bit vectors for word pointers), so that decoding recovers every field, distinct commands have distinct encodings and the bit length is the length of the encoding. Every tag reply reports the bit length of its content (16 for RN16, 32 plus EPC, 32 for a handle, 33 plus data), and payload bytes given as hex or as bytes are preserved.",
  ["inputs"], "all field values of all commands and replies",
  "No test touches the protocol module.",
  [R + "epcstd.py"], [("encode methods", R + "epcstd.py"), ("encode_ebv", R + "epcstd.py:encode_ebv"), ("to_bytes", R + "epcstd.py:to_bytes")],
  ["encode()", "bitlen", "reply payload accessors"])
p("C14", "Frame durations follow from bits, symbols and preambles, however computed",
  "The air time of a reader frame is the sum of its symbol times (Tari per 0, RTcal minus Tari per 1) plus delimiter, data-0, RTcal and, only for Query, TRcal; the air time of a tag frame is (preamble + reply + 1) bits times the symbols per bit over the backscatter link frequency DR/TRcal. Every convenience function gives the same value as building the frame, for all parameter combinations, with omitted parameters meaning the documented defaults.",
  ["inputs", "configurations"], "all commands, replies, encodings, divide ratios, preamble kinds and timing parameters",
  "No test touches the protocol module.",
  [R + "epcstd.py"], [("ReaderFrame / TagFrame", R + "epcstd.py"), ("*_duration helpers", R + "epcstd.py")], ["duration functions"])
p("C15", "Link timing windows match the Gen2 tables and are consistent",
  "For every Tari, RTcal, TRcal, divide ratio and temperature range the link timings T1 to T7 equal the Gen2 formulas with the frequency tolerance of the matching table row, each minimum is below its maximum, and the per-parameter, list and named helper forms agree. Slot durations built from them are ordered: empty is shortest unless replies fit inside it, and collision, inventory and access slots each extend the previous one by the exchange they add. The table of elementary timings shows these values for the parameters given, standard values for those omitted.",
  ["inputs", "configurations"], "all timing parameters, including values at and next to every table boundary",
  "No test touches the protocol module.",
  [R + "epcstd.py"], [("get_frt", R + "epcstd.py:get_frt"), ("min_link_t / max_link_t", R + "epcstd.py")], ["link timing functions"])
p("C16", "A tag answers commands exactly as its inventory state machine prescribes",
  "For every sequence of reader commands a powered tag replies and changes state as follows: a matching Query puts it in its drawn slot (RN16 at slot zero), QueryRep and QueryAdjust of the current session advance or redraw the slot, ACK, ReqRN and Read succeed only in the right state and with the right RN16 or handle and return the EPC, a new handle and the requested data, and anything else yields no reply. A tag whose flags do not match a Query stays silent until a later matching Query. An acknowledged tag inverts its inventoried flag of that session exactly once, when the next Query, QueryRep or QueryAdjust of the session ends its turn, and no other flag.",
  ["histories", "inputs"], "all command sequences with all sessions, targets, selections, Q values, slot and RN16 draws",
  "No test drives a tag.",
  [R + "objects.py"], [("process_* methods", R + "objects.py:Tag")], ["Tag.receive replies", "Tag.state", "Tag.sessions"])
p("C17", "Losing power resets a tag except for flags within their persistence time",
  "A tag is on exactly while its received power has risen above its sensitivity and has not since fallen below it. While off it answers nothing; after power returns it is in the ready state, belongs to no round (answers nothing until a Query), its S0 flag is A, and each of its S1, S2 and S3 flags keeps its value exactly if the outage did not exceed that session's own persistence time and is A otherwise.",
  ["histories", "inputs"], "all sequences of power changes (none, below, at and above sensitivity), outages around each persistence time, and commands",
  "No test drives a tag.",
  [R + "objects.py", R + "epcstd.py"], [("set_power", R + "objects.py:Tag.set_power"), ("power_on_value", R + "epcstd.py:_Session")], ["Tag.state", "Tag.sessions", "Tag.receive"])
p("C18", "The reader runs inventory rounds slot by slot with the right command",
  "While on, the reader runs rounds of exactly 2^Q slots (as long as Q stays the same), opened by one Query and continued by QueryRep; within a slot an RN16 is answered by an ACK carrying that RN16, an EPC by ReqRN with the same RN16 (or the next slot when data reading is off), a handle by a Read carrying that handle, and data or silence by the next slot. Only Query uses the full preamble, other commands use the frame-sync; every round and slot start is notified once and followed by exactly one finish, in order, and switching off ends the round in progress. With alternating targets, each target is used for exactly the configured number of rounds starting from A at every switch-on; with a constant target it never changes.",
  ["histories", "configurations"], "all sequences of replies, timeouts and power switching, for all Q, target strategies and read modes",
  "No test drives the reader.",
  [R + "objects.py"], [("reader state objects", R + "objects.py:Reader.State"), ("rounds and slots", R + "objects.py:_ReaderRound")], ["frames returned by the reader", "round / slot listeners"])
p("C19", "Adaptive Q changes by one step at a time, in the right direction, within 0..15",
  "With adaptation on, every collision in an inventory slot raises (while Q is below 15) and every silent slot lowers (while Q is above 0) the floating Q by the configured step, clamped to 0..15, and the reader issues a QueryAdjust carrying the matching up or down code exactly when the rounded value differs by one from its Q, which then becomes the reader's Q. Tags in the round follow the adjustment, redraw their slot from the new range, and no tag or reader ever holds a Q outside 0..15; with adaptation off Q never changes and no QueryAdjust is sent.",
  ["histories", "configurations", "inputs"], "all sequences of empty, single and colliding slots, all start values and step sizes",
  "No test runs the adaptation.",
  [R + "handlers.py", R + "objects.py"], [("_no_tag_response / _multiple_tag_response", R + "handlers.py"), ("process_query_adjust", R + "objects.py:Tag")], ["Reader.q", "Tag.q", "QueryAdjust frames"])
p("C20", "Every exchange lasts as long as its own frames and link timings require",
  "The reader never has more than one exchange in progress: each command is sent exactly when the previous exchange ends. An exchange with replies lasts the command, T1, the longest reply and the T2 gap (at least the command plus T4), with the reply window starting T1 after the end of its own command and ending before the exchange does; an exchange without replies lasts exactly its command plus the maximum T1 (plus T3). No event is ever scheduled in the past.",
  ["histories", "configurations"], "all reply patterns, tag numbers, encodings and reader settings along whole runs",
  "No test runs the RFID model.",
  [R + "handlers.py", R + "objects.py"], [("finish_transaction", R + "handlers.py"), ("Transaction", R + "objects.py:Transaction")], ["exchange start and end times", "scheduled delays"])
p("C21", "A reply is decoded only when alone, with the probability its bits and BER imply",
  "A tag reply reaches the reader exactly when it is the only reply of the exchange and its draw does not exceed (1-BER) to the power of its bit length; two or more replies are never decoded, whatever the signal levels. What reaches the reader is the reply the tag sent, the reader reacts to it as to silence otherwise, and no reply the reader does not expect in its state ever occurs.",
  ["histories", "inputs"], "all combinations of replies, bit error rates and random draws, along whole runs",
  "No test runs the RFID model.",
  [R + "objects.py", R + "handlers.py"], [("received_tag_frame", R + "objects.py:Transaction")], ["commands following each exchange"])
p("C22", "Tags have unique identities, live for their travel time and end the run on time",
  "The generator creates at most the configured number of tags at the configured intervals, each with a number of its own and with an EPC and a TID of the configured length, unique among the tags of a run as far as that length has room beyond the fixed prefix; a tag exists exactly for travel distance over speed, and at every update its position is its start plus velocity times the time since creation. The run stops when the configured number of tags have left, each then having one closed statistics record, whatever the tag was doing when it left.",
  ["histories", "configurations", "inputs"], "all tag numbers, generation intervals, speeds, update intervals and protocol activity around creation and removal",
  "No test runs the RFID model.",
  [R + "handlers.py", R + "objects.py"], [("generate_tag / remove_tag", R + "handlers.py"), ("create_tag", R + "objects.py:Generator")], ["model tags", "statistics records", "final clock"])
p("C23", "Read statistics equal what actually happened on the air",
  "After every run, a tag counts as inventoried exactly if at least one of its EPC replies was decoded before it left, and as data-read exactly if one of its data replies was; its read records are one per decoded EPC with the round, antenna and position of that moment, and its round count is the number of Query commands after which it took part. The reported probabilities and averages are the exact ratios over all tags that left, so the data-read probability never exceeds the inventory probability.",
  ["histories", "configurations"], "all reply, loss and timing histories, including tags leaving or the reader switching off in the middle of a read",
  "No test runs the RFID model.",
  [R + "objects.py", R + "handlers.py"], [("Statistics / _TagRecord", R + "objects.py"), ("_one_tag_response", R + "handlers.py")], ["Statistics accessors"])
p("C24", "The reader's power cycle governs the field, the tags and the antennas",
  "In periodic mode the reader is on and off for exactly the configured durations alternately, and in always-on mode it never switches off. While it is off no command is sent, it radiates nothing and, from that instant, every tag is off; the exchange in progress is abandoned and nothing of it takes effect later, and each switch-on starts a new round with a Query. With several antennas it changes to the next one, cyclically, exactly every switching interval while on, starting from the first at switch-on when so configured.",
  ["histories", "configurations"], "all on/off/switching durations relative to the protocol activity, all antenna counts and modes",
  "No test runs the RFID model.",
  [R + "handlers.py", R + "objects.py"], [("turn_reader_on / turn_reader_off / switch_reader_antenna", R + "handlers.py")], ["reader state and power", "tag states", "antenna index over time"])
p("C25", "Model settings and overrides take effect exactly where they should",
  "Building an RFID model from settings gives the reader, antennas, medium, generator and statistics exactly the configured values, an override replaces only its own setting, and everything derived (RTcal, TRcal, TID length, initial floating Q, power mode) follows from the values in force. Every setting that is documented to influence the simulation does, and two models built from different settings share no setting.",
  ["configurations"], "every setting and every override, one and several at a time",
  "No test builds an RFID model.",
  [R + "configurator.py", R + "objects.py", R + "cli.py"], [("create_model", R + "configurator.py")], ["fields of the built model", "bit error rates and powers computed by it"])
p("C26", "Radio quantities stay physical: link budget, path loss, SNR and error rates",
  "Received powers equal transmitted power plus gains and losses plus path loss in both directions (and nothing is received from an unpowered transmitter); bit error rates lie in [0, 0.5] and never increase with the signal-to-noise ratio for each distribution; decibel conversions are inverse to each other; radiation patterns are those of a half-wave dipole and of a rectangular patch and lie in [0, 1]; the effective SNR grows with the spreading factor and the symbol length and is zero for a reply without power; and path loss without Doppler does not depend on time, is mirror-symmetric along the road, is the same there and back for one polarization, and falls with distance in free space on average.",
  ["inputs", "configurations"], "all geometries, powers, frequencies, materials and noise levels on a grid",
  "No test touches the channel model.",
  [R + "channel.py", R + "objects.py"], [("channel functions", R + "channel.py"), ("Medium", R + "objects.py:Medium")], ["Medium estimators", "channel functions"])
p("C27", "The read-time simulation walks its scenario exactly for every outcome sequence",
  "For every sequence of success and failure outcomes the read-time simulation visits the tag states the chosen scenario prescribes (restart from the first state on failure in scenario 1, repeat the state in scenarios 2 and 3, the configured number of data fragments in scenario 3), spends exactly each visited state's time, decides each outcome by that state's own probability, and stops after exactly the configured number of completed reads. Independent reads start from the same state, whatever happened before.",
  ["histories", "configurations", "inputs"], "all outcome sequences, scenarios, fragment counts, times and probabilities",
  "The only test imports a module that does not exist.",
  [T + "model.py", T + "handlers.py"], [("State", T + "model.py:State")], ["final clock", "visited states"])
p("C28", "Simulation, matrix Monte-Carlo and analytic read times describe the same process",
  "For every scenario, probabilities and times, the matrix-based Monte-Carlo follows the same chain as the event simulation outcome by outcome, and the analytic formula equals the exact expected absorption time of that chain (in scenario 3 with equal fragments). Input arrays are converted for each of them without mixing up states, points or units (results in milliseconds from times in seconds), and results come back in the order of the inputs.",
  ["inputs", "configurations", "histories"], "all scenarios, numbers of states and fragments, probabilities in (0, 1], times",
  "The only test imports a module that does not exist.",
  [T + "mc.py", T + "analitical_model.py", T + "model.py"], [("create_matrix_* / monte_carlo", T + "mc.py"), ("calculate_*_case", T + "analitical_model.py")], ["monte_carlo paths", "run_analitica results"])
p("C29", "Read-time inputs are derived correctly from protocol parameters",
  "Splitting a message into fragments preserves its words, equal fragments plus a last one that takes the remainder; message lengths and durations are those of the protocol frames for the chosen encoding, divide ratio, Tari and preamble. Each success probability is (1-BER) to the power of that reply's frame length and each state time is its command, its reply, T1 and T2 for the chosen parameters and the propagation delays, in the order of the states.",
  ["inputs", "configurations"], "all parameter combinations, word counts, fragment counts and bit error rates",
  "No test touches the parameter preparation.",
  [T + "calculate_params.py"], [("build_messages_df, prepare_probs, prepare_times", T + "calculate_params.py")], ["returned arrays"])
p("C30", "Observers are notified of every change exactly once",
  "A function registered in a listener list gets every notification of that list exactly once, in the order of registration, with the notification's arguments plus its own; after its removal or a clear it gets none, removing an unknown identifier changes nothing, identifiers are unique and lists are independent. The reader notifies every state change with the state it enters and leaves, every power, round and slot change with the new value, exactly once each, so that the notifications of a run chain without gaps. Left open: listeners added or removed during a notification, and entering the state the reader is already in.",
  ["histories", "configurations"], "all sequences of registrations, removals and notifications, and all reader histories",
  "No test registers a listener.",
  [R + "objects.py"], [("Listeners", R + "objects.py:Listeners"), ("Reader listeners", R + "objects.py:Reader")], ["calls of registered functions"])
p("C31", "Power records describe the moment they were taken at",
  "When the collection is on, every tag has one power record for each moment its power was estimated (its creation, each power change of the reader, each update interval and each start of a reply), and each record holds that moment's time, position and reader antenna together with the tag power, reader power, path losses, SNR and bit error rate that belong to exactly that time and position, with the documented stand-ins where there is no power. When the collection is off there are none, and collecting changes nothing else in the run.",
  ["histories", "configurations"], "all protocol and power histories, motions, antennas and radio settings",
  "No test runs the RFID model.",
  [R + "handlers.py", R + "objects.py"], [("_update_power", R + "handlers.py"), ("Statistics", R + "objects.py:Statistics")], ["Statistics power records"])
p("C32", "An inventory reads, end to end, exactly the tags Gen2 lets it read",
  "Along every whole run each command is heard exactly once by every tag present at that moment and by no other, and the system behaves as one reader and one Gen2 tag per tag joined by what the channel let through: a powered tag joins a round exactly if its flag of the session has the target, answers once in the slot it drew, is acknowledged only if its RN16 alone was received, then delivers its own EPC, handle and data as far as each is received, and inverts its flag exactly once when the acknowledged tag's turn ends. A tag that collided, was lost or lost power keeps its flag and joins again, so nobody is read twice for one flag and nobody is passed over.",
  ["histories", "configurations"], "all slot draws, receptions, power cycles, arrivals and departures along whole runs",
  "No test runs the RFID model.",
  [R + "handlers.py", R + "objects.py"], [("_build_transaction / finish_transaction", R + "handlers.py"), ("Tag, Reader", R + "objects.py")], ["commands and replies on the air"])
p("C33", "A run is determined by its inputs and its random draws alone",
  "The same model, parameters, limits and random draws (or generator seeds) give the same simulation, step for step: the same events with the same identifiers at the same model times, the same messages, states and results. Nothing else decides anything: neither the time of day, the time zone, locale, environment or working directory, nor the order in which hash-based collections enumerate strings or objects, the thread, garbage collection, the generators' earlier state, whether and where log records are written, or whether Python removes assertions. So every experiment can be repeated exactly.",
  ["histories", "configurations"], "all runs, all draws and every environment they are repeated in",
  "Tests run each example once, in one environment, and mostly check that it ends.",
  [S, "pysim/models/pingpong/model.py", "pysim/models/tag_time/model.py", R + "objects.py", R + "handlers.py"],
  [("Simulator.run", S), ("all models", R + "objects.py")], ["recorded simulation steps", "results"])
p("C34", "Reports hold exactly the parameters and the results of the runs",
  "Whatever a model prints, saves or plots after a single run or a sweep holds every parameter of the runs and every result exactly once, unchanged and under its own name: a saved report is the parameters and then the results in the order of the swept values, the table of fixed parameters holds every parameter but the swept one, averages (duration of a simulation, read time per transmission) are those of the runs reported, a plotted curve has one point per run with the swept parameter on its axis, and nothing is saved or plotted unless asked for or prescribed for sweeps.",
  ["configurations", "inputs"], "all parameters, sweeps, result values and kinds of report, for every model",
  "No test produces a report.",
  [PP + "processing.py", R + "processing.py", T + "processing.py"],
  [("result_processing", PP + "processing.py"), ("result_processing", R + "processing.py"), ("result_processing", T + "processing.py")],
  ["printed tables", "files under results/", "plotted points"])
X = "pysim/experiments/utility/graphs_style.py"
p("C35", "Graph helpers save, label and colour exactly what they are asked to",
  "The helpers of the experiments save the current figure, and no other, under the stripped name given, in the given folder, once per extension (pdf and png in the folder images when not told otherwise), and save nothing when the name is missing or blank. Axis formatters are replaced on exactly the axes and directions asked for, however the axes are grouped, and only on the platforms listed (on all when none is), and a label states its number: whole numbers below a million in digits only, every number to six significant digits. A colour is that of the configured colour map at the position asked for, for every position, and setting the style up makes that map and the Russian number format current.",
  ["inputs", "configurations"], "all names, extensions, folders, groups of axes, platforms, numbers and positions",
  "No test draws a graph.",
  [X], [("savefig / set_axes_formatter / get_color", X)], ["saved pictures", "axis formatters", "labels", "colours"])
with open(os.path.join(os.path.dirname(__file__), "..", "properties.jsonl"), "w") as f:
    for x in P:
        assert len(x["title"]) <= 80, (x["id"], len(x["title"]))
        f.write(json.dumps(x, ensure_ascii=False) + "\n")
