import json
P=[]
def p(id,title,statement,over,qtext,why,files,mech,state=None,observe=None,hook=None):
    a={"files":files,"mechanism":[{"name":mech,"where":", ".join(files)}]}
    if state: a["state"]=[{"name":state,"meaning":state,"where":files[0]}]
    if observe: a["observe_at"]=[observe]
    a["hook_needed"]=hook
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":qtext},"why_tests_cant":why,"anchors":a})

PJ="src/project.rs"; PR="src/process.rs"; RT="src/runtime.rs"; BC="src/bytecode.rs"; SS="src/std_system.rs"; SU="src/std_util.rs"; CLI="src/cli.rs"; SM="src/slotmap.rs"; VM="src/vecmap.rs"

p("S01","Network messages run every matching script exactly once, in arrival order",
"Every network message the VM receives starts each script listening for that message type exactly once, with the message's own field values (0 for a missing field), no matter when it arrives relative to what is running. A script that is still busy handles its queued messages one at a time, strictly in arrival order, each as soon as the previous run ends (normally, by error or by being stopped), and the project never reports itself idle while a message is still waiting. Only the stop button, a stop-all block, deletion of the receiving clone, or a local re-trigger of that same script discards waiting messages.",
["inputs","schedules","histories","fault_sequences"],
"every program, message burst, arrival point (down to a single VM step) and way a handler can end",
"The failing cases depend on the exact VM step at which a message arrives relative to the handler's last instruction; unit tests deliver a message once, to an idle project.",
[PJ,PR],"one message taken per step, appended to the listening script's context queue, promoted when the script's process is gone",
"per-script context queue and process key","values logged by the handler scripts; idle reports")
p("S02","A broadcast restarts exactly the matching scripts of the targeted sprites",
"A local broadcast restarts, from the beginning and with fresh local state, exactly those scripts that listen for that message or for any message, on all sprites and clones when untargeted and otherwise only on the given sprite, clone or list of them. A receiver already running is interrupted and restarted rather than duplicated or queued, including when the broadcasting script is itself a receiver, and no other script is disturbed. The restarted script reads the broadcast text as its received message, and the sender keeps running if it did not ask to wait.",
["inputs","schedules","histories"],
"every set of listeners, targets, clones and running scripts, and every broadcaster including one that receives its own broadcast",
"Correctness depends on which scripts happen to be running and on self-targeting combined with listener order; tests use one fixed sender and receiver.",
[PJ,PR],"the broadcast request is expanded over all bound scripts: stop running instance, schedule fresh one",
"script table, process table","logged values of senders and receivers")
p("S03","Broadcast-and-wait resumes exactly when all the receivers it started are gone",
"A script that broadcasts and waits stays blocked while any receiver run that it started is still alive, and goes on in its next turn once every one of them has finished, failed, been stopped, been restarted by someone else, or been deleted. It is never released early by unrelated scripts, and never hangs because a receiver ended abnormally or because there was no receiver at all. Nested and simultaneous waits are independent of each other.",
["inputs","schedules","fault_sequences","histories"],
"every mix of receivers, receiver lifetimes and abnormal endings, nested waits and interruptions",
"Whether the waiter hangs or is released early depends on how and when each receiver dies; tests cover only receivers that end normally.",
[PJ,PR,RT],"reference-counted barrier handles held by the started processes, polled each turn",
"barrier handles in processes and queued contexts","logged order of sender resumption against receiver progress")
p("S04","Scripts only switch at yield points, and warped code is never interleaved",
"Between two yield points a script's actions happen with no other script's actions in between; yield points are exactly the end of each loop iteration, each unsuccessful wait, and each turn spent waiting for a sleep, request, reply or broadcast. Code inside a warp block, including everything it calls and nested warps, does not yield at loop iterations, and the yielding behaviour outside is restored when the warp ends by any route, including an error caught outside it or a return out of it.",
["inputs","schedules"],
"every nesting of loops, warp blocks, calls, error handlers and every set of concurrent scripts",
"Interleavings grow with the number of scripts and nesting combinations; tests exercise single scripts or a couple of fixed loops.",
[PR,PJ,BC],"compiled yield instructions plus a per-process warp counter saved in call frames and handlers",
"warp counter, call frames, handler stack","interleaving order of logged values")
p("S05","Runnable scripts take turns in a fixed round-robin order and nobody is starved",
"Running scripts take turns in first-come order: a script that yields goes behind everything already runnable, newly started scripts join at the back in the order they were started, and every runnable script gets exactly one turn per round. A script blocked on a sleep, a request, a reply or a broadcast only gives up its own turns; it never delays another script, and its death does not skip or repeat anyone else's turn.",
["schedules","inputs","histories"],
"every number of concurrent scripts, start order, blocking pattern and point of death",
"Fairness is a property of whole schedules with many scripts starting, blocking and dying; tests check final values of a few.",
[PJ,SM],"process queue rotated by yields, stale keys skipped, generational process keys",
"process queue, process table","order of logged values and yields")
p("S06","Stop blocks end exactly the scripts in their scope and nothing lingers",
"'Stop this script' ends only the current script, 'stop all' ends every script and discards everything waiting to run, 'stop all but this script' ends every script except the current one, 'stop other scripts in sprite' ends exactly the other scripts of the sprite (or clone) that runs it, and 'stop this block' only returns from the current custom block. A stopped script performs no further action, while scripts outside the scope, including other clones of the same sprite, keep running unaffected. Stopped scripts can be triggered again later and messages still waiting for scripts that survive or may be re-run are not lost except by 'stop all'.",
["inputs","schedules","histories"],
"every stop mode issued from any context (nested call, warp, clone, forked script) with any set of other scripts in any state",
"Scope errors only show with several sprites, clones and queued events at the moment of stopping.",
[PJ,PR],"abort requests handled by the scheduler with per-mode retention filters",
"process table, queue, script bindings","logged actions after a stop")
p("S07","Start, stop and key input affect exactly the scripts they should",
"Pressing start stops and restarts every flag script from its beginning and touches nothing else; pressing stop ends every running script, drops everything waiting, and leaves the project able to be started again; a key press starts each script bound to that key (or to any key) unless that script is still running, in which case the press is ignored for it. Variables keep their values across start and stop.",
["inputs","schedules","histories"],
"every sequence of start, stop and key presses at any point of any execution",
"The effect depends on what is running at the instant of input; tests inject input at one or two fixed points.",
[PJ],"input dispatch over the script table with stop-and-schedule or schedule-with-zero-queue",
"script table, process table","logged values after input")
p("S08","Custom events honour their interrupt flag and queue limit",
"A custom event runs each script bound to that event name with the event's arguments as its local variables (0 for a missing one). With interrupt set, the running instance and everything queued for that script is dropped and the new run starts; without it the run starts at once if the script is free and otherwise waits in order behind earlier ones, unless more than the given number would be waiting, in which case this and only this run is dropped.",
["inputs","schedules","histories"],
"every sequence of events with any flags and limits injected at any point",
"Depends on queue contents and timing at injection; the existing tests use one fixed sequence.",
[PJ],"schedule with per-call queue bound, optional stop of the script first",
"per-script context queue","logged arguments of each run")
p("S09","Errors unwind to the nearest handler or end only the failing script",
"When a block fails, control goes to the innermost enclosing error handler of that script, in whatever custom block or closure it is, with the error text in its variable, and the enclosing script continues with its own local variables, pending expression values, warp state and outer handlers exactly as they were. With no handler only the failing script ends, its failure is reported once with the location of the failing block and of each calling block and with the values of the variables there, and every other script goes on undisturbed. A handler covers neither its own body nor code after the block.",
["inputs","schedules","fault_sequences"],
"every nesting of handlers, calls, closures, warps and suspended operations, and every point at which an error (including an injected host failure) can occur",
"Needs failures injected at arbitrary depths and points with partially evaluated expressions; tests throw at a few fixed places.",
[PR,PJ,BC],"handler stack entries recording stack heights, restored on error; error location table",
"handler stack, call stack, value stack","logged values after handling; reported error summaries")
p("S10","Each request and command is issued once and gets its own answer",
"Each host operation a script performs (remote procedure call, system call, question, property access, printing and other commands) is handed to the host exactly once, in program order, with the evaluated arguments and on behalf of the right sprite, and the script continues only after that operation completes, with that operation's own result, even when many are outstanding and complete in any order or never. A failed operation becomes either an error or, in soft mode, a text value also readable as that script's last error, which a later success clears; the last answer and last errors of one script are never visible to another.",
["inputs","schedules","fault_sequences"],
"every mix of concurrent outstanding operations, completion orders, delays, failures and losses, in both error modes",
"Result routing only breaks under overlapping operations with adverse completion order or failure; tests complete everything immediately and in order.",
[PR,RT],"one deferred operation per process, polled each turn; per-process last-error and last-answer slots",
"deferred operation, last error slots","host call trace and logged results")
p("S11","Sleeps last at least their time and no turn longer; timer follows the clock",
"A sleeping script does nothing before its duration has elapsed on the host clock since the sleep began and continues at its first turn at or after that moment, regardless of how many other scripts run, of clock jumps, or of how long the duration is; a zero or negative sleep just gives up one turn. The project timer reads the seconds since it was last reset by any script (or since project creation), never negative.",
["inputs","schedules","fault_sequences"],
"every clock behaviour (slow, coarse, jumping forward or back), duration (including huge ones) and concurrent schedule",
"Real clocks in tests only move forward at normal speed and nobody waits for long durations.",
[PR,RT],"absolute wake-up time computed from the host clock and polled each turn; shared timer origin",
"deferred sleep, timer origin","logged values against simulated time")
p("S12","Clones have their own variables and scripts, and vanish completely when deleted",
"A clone starts with a copy of its parent's sprite variables and from then on neither sees the other's assignments; it has every script of the original sprite bound to itself, its when-cloned scripts start once, and it takes part in all later events. Deleting a clone removes its scripts and ends their runs at once without disturbing anyone else, deleting on an original does nothing, and a clone of a clone behaves like a clone of the same original sprite. References to a deleted clone stay safe to use.",
["inputs","schedules","histories"],
"every sequence of cloning, deletion, events and assignments from any script, including self-deletion and clones of clones",
"Clone populations change the script table while other events iterate over it; tests create a few clones in a fixed order.",
[PJ,PR,RT],"entity copy with deep-copied symbol table; script table extended and filtered",
"script table, entity fields","logged values tagged by sprite identity")
p("S13","Closures share captured variables; launched scripts are independent",
"A ring (closure) sees and changes the very variables it captured, shared with its defining script and other closures, however long they outlive it and whatever other same-named variables exist where it is called; its parameters and own variables are fresh for every call. Running it on behalf of another sprite makes that sprite the current one only for the call. A launched closure runs as a separate script that starts after everything already runnable, and its ending or failure never affects its launcher.",
["inputs","schedules"],
"every nesting and sharing of closures across scripts, sprites, calls and launches",
"Aliasing errors need several closures and scripts mutating the same variable in particular interleavings.",
[PR,RT,PJ],"variables promoted to shared cells on capture; closure call frames with captured table; fork step",
"shared variable cells, call frames","logged values read through each alias")
p("S14","Variable access resolves to the innermost scope and never leaks between frames",
"A variable name refers to the local of the current custom-block or closure call if there is one, else to the variable of the sprite that is currently acting, else to the global; assignments go to that same place. Locals of one call, one script or one activation are never visible to another and start fresh every time they are declared, while globals are shared by all scripts and sprite variables by all scripts of that sprite.",
["inputs","schedules"],
"every combination of shadowed names, calls, recursion, sprites, concurrent activations",
"Leaks only appear with name clashes across concurrently suspended activations; tests use distinct names in one script.",
[PR,RT,VM],"three-level lookup over symbol tables held by call frame, entity and global context",
"symbol tables","logged values")
p("S15","Blocking network messages get exactly their own first reply",
"A script that sends a network message and waits resumes only with the reply to that very message, or with an empty value when the host reports that none came, and concurrent waits never get each other's replies. A received message that wants an answer is answered at most once per started script, to its original sender and request, with the value the handler gave; a handler that never answers, or that answers outside of such a message, sends nothing.",
["inputs","schedules","fault_sequences","histories"],
"every number of concurrent waits, reply order, loss, and handler behaviour",
"Mix-ups need several waits in flight with reordered or missing replies.",
[PR,PJ],"reply keys carried by processes; deferred reply polling",
"reply key of a process, deferred reply","host call trace and logged results")
p("S16","Garbage collection is invisible and dead things are reclaimed",
"Running the collector at any point between steps, as eagerly or as rarely as the host likes, never changes anything the program or host can observe, and never invalidates a value still reachable from a running, sleeping or queued script, a variable, a list, a closure or a sprite. A project that keeps creating and dropping lists, closures, clones and finished scripts runs in bounded memory as long as collection is performed.",
["schedules","inputs","histories"],
"every program, every placement of collection steps and every length of run",
"Collection timing is not exercised by tests, and leaks only show over long runs.",
[PJ,PR,RT,"src/gc.rs"],"tracing arena; all program-visible objects traced from the project root",
"arena","identical histories under different collection schedules; live allocation after long churn")
p("S17","An execution is fully determined by the program, its inputs and host answers",
"Running the same project with the same inputs at the same steps and the same host answers (time, randomness, messages, results) gives the same sequence of steps, host calls, values and errors every time, including after the compiled project was saved and loaded again or recompiled. Nothing depends on memory addresses, hash order or wall-clock time, and two projects run side by side do not influence each other.",
["inputs","schedules","histories"],
"every program and every input and answer schedule, repeated and interleaved with other projects",
"Needs repeating whole complex executions and comparing complete histories.",
[PJ,PR,RT,BC],"single-threaded stepping with all outside influence behind the system interface; serializable bytecode",
"whole VM state","complete event histories of repeated runs")
p("S18","Runaway recursion is stopped at the configured depth as an ordinary error",
"Calling deeper than the configured maximum call depth, whether through custom blocks or through closures that call themselves, raises an ordinary catchable error in the calling script instead of growing without bound or crashing the VM. Calls up to the limit work, and after the error is handled or the script has ended, the full depth is available again and other scripts are unaffected.",
["inputs","schedules"],
"every limit, recursion pattern (direct, mutual, through closures, across sprites) and handler placement",
"Tests check one limit with one directly recursive block.",
[PR],"depth check against the call stack before pushing a frame",
"call stack","logged depth values and reported errors")
p("S19","Idle is reported exactly when nothing can run; idle actions fire on schedule",
"A step reports idle if and only if no script is running or waiting to run; every other step makes progress on exactly one script. The idle action fires exactly when the given number of consecutive yields, pauses or idle steps has been seen since the last firing or the last real work, so it neither fires while scripts do real work nor fails to fire when all of them only wait.",
["inputs","schedules","histories"],
"every program, input timing and threshold",
"Depends on long step sequences under many mixes of waiting and working scripts.",
[PJ],"step result classification fed to a counter",
"idle counter, process queue","step results and action invocations")
p("S20","Pausing and watching are reported to the host and do not disturb execution",
"A pause block is reported to the host exactly once when it is executed and the script goes on from the next block on the next step; showing or hiding a variable is reported once with the acting sprite, the name, and a handle that always reads the current value of exactly that variable as long as it exists. A watch handle neither keeps dead variables alive nor changes what any script computes.",
["inputs","schedules"],
"every program point, variable kind and collection schedule",
"Handle validity over time under collection and re-assignment is not covered by tests.",
[PR,PJ,RT],"pause and watcher step results; weak handle to the variable's shared cell",
"shared cells","step results and values read through handles")
p("S21","Host state attached to a script unwinds with the script's control flow",
"State the host attaches to a running script is put back to its level at entry whenever a custom block or closure returns, and to its level at the start of the error handler's block whenever an error is caught, and is otherwise left alone. A started script's state is created from the right sprite and from the script that dispatched it, if any.",
["inputs","schedules","fault_sequences"],
"every nesting of calls, handlers and failures, and every way a script can be started",
"Tests have no host state at all.",
[PR,PJ,RT],"unwind points stored in call frames and handlers; state constructed from dispatch context",
"process state","host state read back by system calls")
p("S22","Suspended loops and list operations keep their own progress",
"A counted, for, for-each, map, keep, find-first or combine operation performs its work for exactly the items or counts determined when it began (for-each and list operations on a snapshot of the list), in order, no matter how other scripts change the list or variables while it is suspended between iterations. Its partial results belong to that run alone and are dropped if it ends early, and simultaneous runs of the same block do not mix.",
["inputs","schedules"],
"every nesting of such operations across concurrently yielding scripts mutating shared lists",
"Interference requires concurrent mutation during suspension.",
[BC,PR],"compiled loops with snapshot lists and counters kept on the process's value stack",
"value stack","logged loop values and results")
p("S23","Compiled code does the same as the source program",
"For every valid project, the compiled form executes exactly the blocks of the source in their evaluation order, with every branch, jump, call and closure leading where the source says, whatever the size and number of scripts, blocks, strings and constants. Stored variables, lists shared between variables, and initial values appear at start exactly as in the project.",
["inputs"],
"every program shape and size, in particular sizes where address and string encodings change width",
"Encoding widths and relocation depend on program size; tests use small hand-made projects.",
[BC,PR],"instruction encoding with variable-width operands, string pooling, hole patching and relocation shrinking",
"code and data segments","logged behaviour of generated programs")

p("S24","Operators, reporters and list commands compute what the language defines",
"For every combination of operand values, each operator, reporter and list command gives the result or error the language defines: arithmetic and comparison over numbers and numeric text, element-wise application over lists and tables of any nesting and of different lengths, text and list slicing, searching, splitting, joining, CSV and JSON conversion, indexing by position, list of positions, last and random. Operands are never modified, lists shared between operands or results keep being shared, and cyclic lists give the defined answer or an error.",
["inputs"],
"every operator with every shape and nesting of operands, including shared, cyclic, extreme and malformed values, in every context in which programs compute them",
"The operand space (nesting, sharing, cycles, numeric text, Unicode, extremes) is unbounded; tests use a few values per operator.",
[PR,RT],"value operations with per-shape dispatch, identity caches for shared and cyclic lists, numeric and text conversions",
"values and lists on the operand stack","logged values, performed commands and the reachable state after every turn")
p("S25","No program, input or host answer crashes or hangs the virtual machine",
"Whatever blocks a valid project contains, whatever values flow into them, whatever messages, keys and events arrive, however the clock moves and whatever the host answers or refuses, each step of the virtual machine ends, and it ends with a result or with an error reported for that script, never with a panic, abort or endless step. (Excluded: results whose own size exceeds memory, and values nested thousands of levels deep.)",
["inputs","fault_sequences"],
"every program, value, input, clock value and host answer or failure",
"Crashes hide in rare combinations of values, faults and timing that hand-written tests do not contain.",
[PR,PJ,RT],"checked conversions and error results in the interpreter, scheduler and value operations",
"processes, values and pending host operations","completion of every step and absence of panics under the simulator")

p("S26","Sprite properties kept for the host follow the program's commands",
"For a host that keeps sprite properties with the library's property table, every sprite starts as the project says, a clone starts with its parent's properties, and each get, set, change, movement, turn, point, pen, colour and effect command of a script reads or changes exactly the named properties of the sprite it runs for, once, when it is performed, and to the value the language defines: headings and hues wrap at a full turn, sizes stay non-negative, percentages stay within bounds, positions move along the heading, colours survive conversion. A command with an unusable value or one the host refuses changes nothing and is reported.",
["inputs","fault_sequences"],
"every sequence of commands from every script, sprite and clone, interleaved with delays, failures and collections",
"Tests exercise no property command end to end; the sequences, targets and value forms are unbounded.",
[RT,BC,PR],"property table operations, their compilation to commands and the initial properties of sprites and clones",
"the properties of every sprite and clone","the values programs read and the table of every sprite compared while the run proceeds")

p("N01","Messages arriving over the network connection reach the project once, in order",
"Every well-formed project message the server delivers on the connection is handed to the project exactly once and in the order received, with every field that is a valid value intact; malformed, unknown or unrelated frames are ignored without harm. Messages arriving before, during or between steps behave the same, and replies are routed to waits rather than treated as new messages.",
["inputs","schedules","fault_sequences"],
"every frame content and order and every interleaving of the network threads with the VM",
"Tests never run the network threads.",
[SS],"websocket reader thread decodes frames and passes them through a channel to the stepping thread",
"incoming channel, reply table","messages received by the project in the simulated network",
"guarded replacement of threads, channels, time and sockets by simulated ones")
p("N02","Outgoing messages and pings reach the server once, in order, addressed as sent",
"Every message and reply a project sends on a working connection is put on the connection exactly once, in the order the program sent them, with type, fields and targets as given, and each server ping is answered. The target 'everyone in room' means the VM's own public id, and no message is dropped, duplicated, merged or addressed to anyone else.",
["inputs","schedules","fault_sequences"],
"every program of sends, every interleaving of sender threads, every server behaviour",
"Tests never run the network threads.",
[SS],"outgoing channel drained by a sender thread, then an async writer task",
"outgoing channels","frames seen by the simulated server",
"guarded replacement of threads, channels, time and sockets by simulated ones")
p("N03","A blocking send gets the first reply to it, or gives up after the timeout",
"A script waiting for a reply over the network gets the first reply carrying its own request's identity, exactly once, whatever the order, duplication or delay of replies; if none arrives it resumes with an empty value once the reply timeout has passed, and not before. Late or duplicate replies are ignored and never satisfy another wait, and no wait lasts forever, with or without a live connection.",
["schedules","fault_sequences","histories"],
"every loss, duplication, reordering and delay of requests and replies, and every interleaving of network threads with the VM",
"Needs controlled time and network faults; tests never run this code.",
[SS],"table of pending replies with expiry, completed by the reader thread, polled by the VM",
"reply table","value and time at which each wait resumes",
"guarded replacement of threads, channels, time and sockets by simulated ones")
p("N04","Remote procedure calls post the right request and map every outcome correctly",
"Each remote procedure call makes exactly one request for the right service and procedure, carrying its arguments and the identity of this client and project, and its result or failure (error status, unparseable or non-text body, lost connection) reaches exactly the script that made it; concurrent calls are independent and a slow or failing one never blocks the VM or another call. Input that cannot be sent fails that call only.",
["inputs","schedules","fault_sequences"],
"every set of concurrent calls, latencies, completion orders and failures",
"Tests never perform real calls; overlap and failure need a controlled network.",
[SS,SU],"request queue to a worker thread spawning one task per call, completing an async key",
"request queue, async keys","requests seen by the simulated service and values resumed with",
"guarded replacement of threads, channels, time and sockets by simulated ones")
p("N05","Losing the network never crashes or stalls the VM",
"Whenever and however the connection of a running system fails, closes, stalls or breaks, scripts go on running: sends are dropped or fail as ordinary errors of the sending script, waits end by their timeout, and remote procedure calls fail as ordinary errors. No step of the VM panics or blocks because of the network, and shutting the system down is always possible.",
["schedules","fault_sequences"],
"every moment and way of losing the connection, and everything a project may do afterwards",
"Needs fault injection at every point of the connection's life.",
[SS],"threads and channels between VM and connection whose ends can disappear",
"channels, connection threads","VM steps taken after connection faults",
"guarded replacement of threads, channels, time and sockets by simulated ones")
p("N06","Cached clock readings are past real readings, as precise as configured",
"A reading above the configured cache precision, or any reading of a clock without a cache, consults the real time source; a reading at or below it returns the latest reading of that source stored by this clock. No reading is in the future or goes backwards while the source does not, and concurrent readers and updaters never see or leave an older, torn or mixed value.",
["schedules","inputs"],
"every interleaving of readers and updates, and every precision setting",
"Depends on thread interleaving and on a controlled clock.",
[SU],"clock with a cached value shared between threads and a configurable cache precision",
"cached time","values returned against simulated time",
"guarded replacement of threads, channels, time and sockets by simulated ones")
p("N07","An asynchronous result is delivered exactly once, whatever thread completes it",
"The result of a request or command completed from any thread at any time is seen as pending by every poll before completion and is returned complete and unmodified by exactly one poll after it. Completing or dropping a handle never blocks or crashes the VM, and results of different handles never mix.",
["schedules"],
"every interleaving of completing threads and the polling VM",
"Needs control of thread interleavings.",
[SU,SS,RT],"shared locked result cell moved from pending to completed to consumed",
"async result cells","poll results",
"guarded replacement of threads, channels, time and sockets by simulated ones")
p("N08","Connecting announces a consistent client and project identity before use",
"A system in contact with its server obtains its project identity from the server, announces one client identity on the connection, during set-up and on every remote call, and uses it and the project address it announced in its public id and as source of its messages. When it cannot, creation reports failure or yields a VM that works without a connection, and no VM ever uses a mixture of identities.",
["schedules","fault_sequences"],
"every order and latency of set-up responses and every failure during set-up",
"Needs a controllable server.",
[SS],"set-up request for client configuration and project metadata, then connection announcement",
"context of the connection","requests and frames seen by the simulated server",
"guarded replacement of threads, channels, time and sockets by simulated ones")
p("N09","Several VMs exchange messages end to end without loss, duplication or mix-up",
"When several VMs are connected to one server that relays messages, every message sent to a connected VM starts its handlers there exactly once in the order sent by each sender as long as the network delivers it, every blocking send ends with a reply from one of its targets or empty, and each reply comes from a handler run caused by that very request. While a VM is crashed or partitioned the others keep running, and messages exchanged with a restarted VM or after a partition heals work again.",
["schedules","fault_sequences","histories"],
"every interleaving of several VMs, the network and its faults, crashes and restarts",
"Needs several VMs and a network under one controlled schedule.",
[SS,PJ,PR],"relay through the server of frames produced by one VM's sender and consumed by another's reader",
"all VM and network state","end-to-end message history",
"guarded replacement of threads, channels, time and sockets by simulated ones")

CL="src/cli.rs"
p("C01","The server hands out all program output and errors exactly once, in order",
"Everything a project running on the execution server prints, and every error it raises, appears once and in order on the standard output, and once and in order in the answers to pulls taken together, each with its text, entity and, for errors, the location of the failing block. A pull hands out at least everything that was on the output when it arrived, no matter how pulls, uploads and other requests coincide with the running project. Errors of projects that cannot be loaded are handed out the same way.",
["schedules","fault_sequences","histories"],
"every interleaving of the web server, the running project and any sequence of requests",
"Needs control of the threads of the server and of the timing of requests.",
[CL,PR],"output and error collections shared by the interpreter loop and the web handlers",
"output and error collections","standard output, answers to pulls",
"guarded replacement of threads, channels, time, standard streams and the web server by simulated ones")
p("C02","The server obeys uploads, starts and stops one by one in the order sent",
"Uploads, starts and stops sent to the execution server take effect one at a time in the order in which they arrived and soon after, whether the project is running or paused: only scripts of the project last loaded run, from their beginning at each start, and none run after a stop or before a start. An upload that cannot be loaded changes nothing, and the project shown is always the last one loaded, unmodified. Every request is answered once, ill-formed ones with an error and without effect, answers can be read by the editor's page, and a server that cannot be started ends the program.",
["schedules","fault_sequences","histories"],
"every order and timing of valid and invalid requests against every running project",
"Needs control of the threads of the server and of the timing of requests.",
[CL,PJ],"command channel from the web handlers to the interpreter loop",
"command channel, current project","marks printed by projects, answers to requests",
"guarded replacement of threads, channels, time, standard streams and the web server by simulated ones")
p("C03","Pausing and resuming the server acts on the project and is reported truthfully",
"The execution server pauses and resumes the project exactly as toggles, starts and pause blocks of the project say in the order in which they take effect: nothing runs while paused, and what runs goes on without loss after it resumes. Each pull reports the running state that some such order gives at that moment.",
["schedules","histories"],
"every interleaving of toggles, starts, pause blocks and pulls",
"Needs control of the threads of the server and of the timing of requests.",
[CL,PJ],"running flag changed by web handlers and by the interpreter loop",
"running flag","reported running state, marks printed by projects",
"guarded replacement of threads, channels, time, standard streams and the web server by simulated ones")
p("C04","Terminal input answers questions in turn and otherwise reaches key scripts",
"While a project run at a terminal asks questions, they are shown one at a time in the last row, whatever is printed meanwhile, in the order asked, together with what has been typed, and Enter gives the typed text to the script whose question is shown and to no other. While nothing is asked each key press, and not the release of the key, runs the scripts for that key, while Esc stops everything at any time, withdrawing the questions and what has been typed. Ctrl-C ends the program at any time with the terminal restored.",
["schedules","histories","inputs"],
"every sequence and timing of terminal events against every set of asking and printing scripts",
"Needs a terminal whose events and timing are controlled.",
[CL],"terminal event loop with a queue of pending questions and an input line",
"question queue, input line, terminal mode","terminal output, answers received by scripts",
"guarded replacement of threads, time, standard streams and the terminal by simulated ones")
p("C05","Run mode runs exactly the chosen role or refuses with an exit code",
"Running a project file runs the role asked for, or the only one, starts it once and reports everything it prints and every error it raises once and in order. A file that cannot be read ends the program with exit code 1, and one that is no project, has no such role or leaves the role unclear ends it with exit code 2 and a message, before anything runs; one that cannot be compiled is reported and ends the program without running.",
["fault_sequences","inputs","histories"],
"every file content, read error and choice of role",
"Needs simulated files, streams and process exit.",
[CL],"file loading, role selection and interpreter loop of run mode",
"project file, chosen role","standard output, exit code",
"guarded replacement of threads, time, files, standard streams and process exit by simulated ones")

p("C06","File system calls do to the disk what they report, or report an error",
"When the program nb is allowed to use files, a project that opens, writes, reads and closes them has exactly that done: the lines written to a file stand there whole, in order and once when closing it succeeds or the program ends regularly, its lines are read one after the other unchanged, and 'r', 'w' and 'a' read, replace and append. Whatever goes wrong - a failing or full disk, a closed or missing file, text that is not UTF-8, ill-formed arguments, or the permission for files missing - reaches the script as an error and never as a success, and leaves other files alone.",
["fault_sequences","inputs","histories","schedules"],
"every sequence of file calls of several scripts on the same files, every disk fault at every operation, every file content",
"Needs a disk that fails, fills up and takes or gives only part at any chosen operation.",
["src/main.rs"],"system calls handled by the host program on buffered files",
"open handles, buffered data","results of the calls, operations on the disk",
"guarded replacement of threads, time, files and standard streams by simulated ones")

p("X01","Value operators and conversions compute the documented results",
"Arithmetic, comparison, text and list operators, and conversions between value types, give the documented result or error for every operand.",
["inputs"],"every operand","the input space is unbounded",
[PR,RT],"pure functions over values")
p("X02","JSON conversions round-trip every convertible value",
"Every value convertible to JSON converts back to an equal value, and invalid JSON documents are rejected with an error.",
["inputs"],"every value and document","the input space is unbounded",
[RT],"pure recursive conversion functions")
p("X03","Slot map and vector map behave as maps",
"The internal slot map and vector map behave as maps from keys to values for every operation sequence.",
["inputs","histories"],"every operation sequence","operation sequences are unbounded",
[SM,VM],"sequential data structures with no I/O, time or concurrency")
p("X04","Notes and colours convert consistently",
"Note names, MIDI values and colour models convert to each other consistently and reject out-of-range values.",
["inputs"],"every note and colour","the input space is large",
[RT],"pure functions")
with open("properties.jsonl","w") as f:
    for x in P:
        assert len(x["title"])<=80,(x["id"],len(x["title"]))
        assert x["statement"].count(". ")<=2,(x["id"],x["statement"].count(". "))
        f.write(json.dumps(x)+"\n")
print(len(P))
