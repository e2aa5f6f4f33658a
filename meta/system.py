from core import prop, L, A

prop("C06", "A job only makes legal state transitions, explained by the commands given",
     "Whatever commands clients give at whatever moments, the states a job announces start with Initial and follow the documented life cycle: each change is caused by a command given and not yet used up, by a breakpoint or by the end of the procedure; commands that make no sense in a state change nothing. "
     "Commands are handled in the order in which they were given, except that a halt goes first, and an end state agrees with the status of the root instruction. "
     "Once no command is pending the job rests in a state that is not transient.",
     ["schedules", "histories"],
     "All sequences of Start, Step, Pause, Reset and Halt from several clients at any time, all interleavings with the job's own thread, all procedures.",
     "The tests give commands one at a time and wait; which state results from commands that arrive while others are being processed quantifies over interleavings.",
     [L + "runner/async_runner.cpp", L + "runner/job_command_queue.cpp", L + "runner/local_job.cpp", L + "runner/job_states.cpp", L + "runner/runner.cpp"],
     [{"name": "state handlers and execution loop", "where": L + "runner/async_runner.cpp"}],
     ["state notifications of the job", "instruction executions", "command calls and returns"],
     [{"name": "job state", "meaning": "position in the life cycle", "where": L + "job_states.h"}])
prop("C07", "Halting a job takes effect in bounded time, wherever execution is",
     "After a halt has been requested, every instruction that is waiting, polling, listening, looping or asking for user input stops, no instruction is started over and over again, and the job reaches an end state within bounded time; from then on nothing is executed. "
     "This holds for every procedure, including parallel and endless ones, and every moment at which the halt arrives. "
     "A halted job can be reset, which leaves no instruction with a pending halt request.",
     ["schedules", "inputs", "histories"],
     "All procedures over the built-in instructions with leaves that block until halted, every instant of the halt relative to the job's, the instructions' and the parallel children's threads.",
     "A lost halt needs the request to arrive in a window of a few instructions; the tests halt at moments where the tree is known to wait.",
     [L + "runner/async_runner.cpp", L + "runner/runner.cpp", L + "instructions/instruction.cpp", L + "procedure/procedure.cpp", L + "instructions/", L + "instructions/async_wrapper.cpp"],
     [{"name": "halt flag of instructions and its propagation to children", "where": L + "instructions/instruction.cpp"},
      {"name": "priority command and runner halt", "where": L + "runner/async_runner.cpp"}],
     ["instruction executions after Halt() returned", "state notifications", "time to the end state", "halt flags after a reset"])
prop("C08", "Destroying a job is bounded in time, final and safe at any moment",
     "A job can be destroyed at any moment, while it is running, paused, halting or waiting for a user, and destruction returns within bounded time. "
     "Afterwards none of its threads exists, no instruction executes and no observer or user interface is called. "
     "No thread of the job ever touches memory that has been released.",
     ["schedules", "inputs", "histories"],
     "All procedures, all moments of destruction, all interleavings with the job's threads, its parallel children and outstanding user requests.",
     "Teardown races show as use after free or a hang in windows no test hits, and sanitizers on the tests only see the schedule that happened.",
     [L + "runner/local_job.cpp", L + "runner/async_runner.cpp", L + "procedure/procedure.cpp", L + "instructions/async_wrapper.cpp", L + "base/async_input_adapter.cpp"],
     [{"name": "terminate command, joining of threads, order of destruction", "where": L + "runner/async_runner.cpp"}],
     ["threads left, instructions executing and notifications after the destructor", "accesses to freed memory, data races", "time the destructor takes"])
prop("C09", "Pausing, stepping and resuming change when things happen, never what happens",
     "However often a job is paused, single-stepped and resumed, it executes the same instructions in the same order, with the same statuses, next instructions, variable values and end state as a job that is started and left alone. "
     "A step is exactly one execution step, nothing executes while the job is paused, and a pause takes effect at the end of the execution step under way. ",
     ["inputs", "histories", "schedules"],
     "All procedures over the sequential instructions, all sequences of Start, Step and Pause by several clients at any time.",
     "The claim compares every interrupted execution with an uninterrupted one; tests step through a few fixed procedures.",
     [L + "runner/async_runner.cpp", L + "runner/runner.cpp", L + "instructions/"],
     [{"name": "execution loop with commands handled between execution steps", "where": L + "runner/async_runner.cpp"}],
     ["leaf executions, status and next-instruction notifications, state notifications, against a reference interpreter"])
prop("C10", "A breakpoint stops the job right before its instruction, once per arrival",
     "A running job pauses exactly before an execution step whose next instructions contain one with a breakpoint that was not just hit there; starting it again continues past that breakpoint, which triggers again in a later execution step. "
     "It never pauses without such a reason, breakpoints on unknown instructions are ignored, and removed ones do not trigger. "
     "Observers are told of each change to a breakpoint, and a reset of the job makes all breakpoints effective again.",
     ["inputs", "histories", "schedules"],
     "All procedures over the sequential instructions, all sequences of setting and removing breakpoints while the job is not executing, combined with running, stepping, halting and resetting.",
     "Stale breakpoint state shows only after certain sequences of hits, steps, halts and resets; the tests hit a breakpoint once or twice.",
     [L + "runner/runner.cpp", L + "runner/breakpoint_manager.cpp", L + "runner/breakpoint.cpp", L + "runner/async_runner.cpp", L + "instructions/instruction_tree.cpp"],
     [{"name": "release and re-arming of breakpoints around each execution step", "where": L + "runner/breakpoint_manager.cpp"}],
     ["state notifications, leaf executions and breakpoint flags, against a reference model"])
prop("C11", "A reset job is like a new one, wherever its execution was stopped",
     "After a finished, failed or halted job has been reset, every instruction is reported and found to be not started and without halt request, and every variable has its initial value again. "
     "Starting it then gives exactly the execution a new job would give.",
     ["inputs", "histories", "schedules"],
     "All procedures over the sequential instructions with variables, every way and moment of stopping them, repeated resets.",
     "State left behind by an instruction that was stopped in the middle shows only for certain pairs of stopping points and procedures.",
     [L + "procedure/procedure.cpp", L + "instructions/instruction.cpp", L + "instructions/", L + "procedure/workspace.cpp", L + "runner/async_runner.cpp"],
     [{"name": "reset of instruction trees and of the workspace", "where": L + "procedure/procedure.cpp"}],
     ["statuses, halt flags and variable values after the reset", "the following execution, against a reference interpreter"])
prop("C13", "Sequential procedures follow the behaviour tree semantics",
     "For every procedure built from sequences, fallbacks, their reactive forms, repeats, loops over arrays, choices, listeners and decorators, the leaves that are executed, their order, every status that is announced, the instructions announced as next after each execution step, the values of the variables and the end state are those of the documented behaviour tree semantics. "
     "Timing, stalls and spurious wake-ups make no difference to any of it.",
     ["inputs", "schedules"],
     "All procedures over the sequential control instructions with leaves that succeed, fail or need several execution steps in any order, and variable instructions.",
     "The tests check hand-picked trees; the interaction of nested control instructions over several execution steps quantifies over all trees and leaf behaviours.",
     [L + "instructions/", L + "instructions/instruction.cpp", L + "procedure/procedure.cpp", L + "instructions/instruction_tree.cpp", L + "runner/runner.cpp"],
     [{"name": "execution of compound instructions and decorators", "where": L + "instructions/"}],
     ["leaf executions, status and next-instruction notifications, variable values, end state, against a reference interpreter"])
prop("C19", "A workspace variable behaves like one that is accessed atomically",
     "Reads, writes, field accesses and resets of a workspace variable by any number of threads take effect one at a time: some order of the operations, consistent with real time, explains every result. "
     "A failed write changes nothing, a value that was written is read back unchanged, and a variable keeps its type unless it was declared dynamically typed.",
     ["schedules", "histories", "inputs"],
     "All numbers of clients and sequences of whole-value and field reads, writes and resets with matching, convertible and wrong types, all interleavings.",
     "Linearizability quantifies over interleavings and histories; single-threaded tests cannot observe torn or lost updates.",
     [L + "procedure/workspace.cpp", L + "workspace.h", L + "variables/variable.cpp", L + "variable.h", L + "variables/local_variable.cpp"],
     [{"name": "access mutex of the variable and of the workspace", "where": L + "variables/variable.cpp"}],
     ["calls and results of GetValue, SetValue and reset, checked for linearizability against a reference variable; data races"],
     [{"name": "value of a variable", "meaning": "the value that the next read returns", "where": L + "variables/local_variable.cpp"}])
prop("C20", "Every change of a variable is announced once, in order, to every listener",
     "Each successful change of a workspace variable is announced exactly once to every listener registered throughout, with the value it was given and in the order in which the changes took effect. "
     "All listeners of a variable are told the same, a listener is not called any more once its removal has returned, and the set-up announces every initial value.",
     ["schedules", "histories"],
     "All interleavings of clients that change variables with listeners that register and unregister.",
     "Lost, duplicated or reordered notifications need concurrent writers; the tests write from one thread.",
     [L + "procedure/workspace.cpp", L + "variables/variable.cpp", L + "workspace.h", L + "named_callback_manager.h"],
     [{"name": "notification under the variable's mutex", "where": L + "variables/variable.cpp"},
      {"name": "per-variable and generic callbacks", "where": L + "procedure/workspace.cpp"}],
     ["notifications received by each listener, against the successful changes and a linearization of them"])
prop("C21", "Waiting for a variable never misses the moment and never gives up early",
     "A client that waits for a variable to become available or unavailable returns successfully, without waiting for its time-out, once the variable is in that state, whenever that happens relative to the beginning of the wait. "
     "It only fails when the time has passed and the variable was not in that state, and several clients can wait for the same variable.",
     ["schedules", "histories"],
     "All instants of connection, disconnection and writing relative to the steps of the waiting clients, all numbers of clients, any time-out.",
     "A lost wake-up needs the change to fall in a window of a few instructions before the wait.",
     [L + "procedure/workspace.cpp", L + "workspace.h", L + "variables/variable.cpp"],
     [{"name": "callback that records availability and wakes the waiting client", "where": L + "procedure/workspace.cpp"}],
     ["results and durations of the calls of WaitForVariable, against the history of the variable"])
prop("C22", "Waits last as long as they say, and a change of the system clock changes nothing",
     "A wait ends no earlier than its time-out and, when no thread is stalled, no later than one polling period and one execution step after it; a wait for a condition succeeds within that delay of the condition becoming true and fails only when the time has passed. "
     "None of this changes when the wall clock is set forwards or backwards while the procedure runs.",
     ["schedules", "inputs", "faults"],
     "All durations, blocking and polled waits in sequence and in parallel, all jumps of the wall clock and stalls of threads.",
     "Needs control over the clocks: tests can neither set the system clock nor wait for hours.",
     [L + "instructions/wait.cpp", L + "instructions/wait_for_variable.cpp", L + "base/generic_utils.cpp", L + "runner/async_runner.cpp"],
     [{"name": "deadlines of waiting instructions", "where": L + "instructions/wait.cpp"}],
     ["simulated times of the start and end of each instruction"])
prop("C14", "Parallel sequences run all children at once and end as their thresholds say",
     "A parallel sequence starts all its children, each in a thread of its own, succeeds or fails only once as many of them have succeeded or failed as its thresholds demand, then stops the ones that are left over, and ends whatever order things happen in. "
     "Each child behaves as it would alone, nothing of it is executed after it has been stopped, and neither parallel nor asynchronous children hold up the execution of the rest. "
     "A reset waits for all of them and the procedure can be run again.",
     ["schedules", "inputs", "histories"],
     "All nestings of parallel sequences, asynchronous and sequential instructions, all thresholds, all durations and orders of completion, pauses and steps in between.",
     "Which child finishes first and when the parent looks quantifies over interleavings; the tests use a few sleeps.",
     [L + "instructions/parallel_sequence.cpp", L + "instructions/async.cpp", L + "instructions/async_wrapper.cpp", L + "instructions/compound_instruction.cpp", L + "instructions/instruction.cpp"],
     [{"name": "one thread per execution of a child, polled by its parent", "where": L + "instructions/async_wrapper.cpp"},
      {"name": "thresholds and halting of the remaining children", "where": L + "instructions/parallel_sequence.cpp"}],
     ["leaf executions with their threads, status notifications, end state, times, against the thresholds, a reference interpreter per child and the set of possible outcomes"])
prop("C17", "What the user answers is what the instruction that asked gets",
     "Each execution of an input, confirmation or choice asks the user once; its result, the value stored in its variable or the child it selects follow from the answer to its own question, also when several instructions ask at the same time. "
     "The user is asked one question at a time, none remains open after the job has ended, and a question is only withdrawn when its instruction was halted.",
     ["schedules", "inputs", "histories"],
     "All procedures with several questions in parallel and in sequence, all delays, refusals and silences of the user, pauses, steps and halts at any time.",
     "Mixing up or losing answers needs several outstanding questions and a particular order of answering, halting and polling.",
     [L + "instructions/input.cpp", L + "instructions/user_confirmation.cpp", L + "instructions/user_choice.cpp", L + "runner/job_interface_adapter.cpp", L + "base/async_input_adapter.cpp", L + "runner/user_interface.cpp"],
     [{"name": "futures of user requests held by the instructions", "where": L + "instructions/input.cpp"}],
     ["questions, answers, interruptions, stored values, executed children and statuses"])
prop("C25", "Requests for user input are answered in order, each one exactly once",
     "Requests are passed to the user one at a time in the order in which they were made, and the reply goes to the client that made the request, whose wait ends as soon as it is there; it can be taken once. "
     "A request that is dropped is never passed on, or the user is told that it is no longer needed. ",
     ["schedules", "histories"],
     "All numbers of clients and requests, all orders of making, waiting for, polling, taking and dropping them while the user answers at any time.",
     "Lost wake-ups and mismatched replies need several clients and requests in flight.",
     [L + "base/async_input_adapter.cpp", L + "async_input_adapter.h", L + "i_user_input_future.h"],
     [{"name": "request queue with one handler thread", "where": L + "base/async_input_adapter.cpp"}],
     ["calls of the input and interrupt functions, results of the tokens' functions, durations"])
prop("C23", "A variable kept in a file is what the file says, and errors are never hidden",
     "Reading a file variable gives the value last written to its file, by whomever; a write that succeeds is in the file and is announced with its value, and a write that the file system refuses fails and announces nothing. "
     "While the file is missing or cannot be understood, reads and field writes fail and the variable counts as unavailable, and writing it whole makes it available again; concurrent clients see each write entirely or not at all.",
     ["schedules", "inputs", "faults", "histories"],
     "All sequences and overlaps of reads, writes, resets and queries with replacement, deletion and damage of the file by others, failing and short reads and writes at any point.",
     "Needs failing system calls and other programs acting at particular instants; the tests use an intact file system and one thread.",
     [L + "variables/file_variable.cpp", L + "variables/variable.cpp", L + "procedure/workspace.cpp", L + "procedure/procedure.cpp"],
     [{"name": "reading and writing the JSON file", "where": L + "variables/file_variable.cpp"},
      {"name": "access mutex of the variable", "where": L + "variables/variable.cpp"}],
     ["calls and results of GetValue, SetValue, ResetVariable and IsAvailable, announcements to callbacks, checked against a model of the possible contents of the file"],
     [{"name": "file", "meaning": "the value of the variable", "where": L + "variables/file_variable.cpp"}])
prop("C24", "Creating a directory succeeds exactly when the directory is there afterwards",
     "Creating a directory with its parents reports success only if the directory exists afterwards, and fails only if something other than a directory is in the way or the file system reports an error. "
     "It does not matter who else creates the same directory or its parents at the same time, nor how the path is written.",
     ["schedules", "inputs", "faults"],
     "All paths, all interleavings of several creators with each other and with the creation of files, all errors of the file system.",
     "Collisions need two creators between the same two system calls.",
     [L + "base/generic_utils.cpp", L + "generic_utils.h"],
     [{"name": "creation of missing parents", "where": L + "base/generic_utils.cpp"}],
     ["results of CreateDir and the directories present"])
prop("C12", "No instruction is executed by two threads, and the job always stays in control",
     "Whatever clients and users do, an instruction is never executed or reset by two threads at once and no two threads touch shared data without synchronisation. "
     "A running job goes on from one execution step to the next unless a leaf it is executing takes its time, "
     "and a job can always be halted, then reset, then started again, each within a bounded time; after a reset nothing of it is executed any more and every instruction is as it was at first.",
     ["schedules", "inputs", "histories"],
     "All procedures of all instruction kinds, all sequences and overlaps of commands, breakpoint changes and user behaviour from several clients.",
     "Data races and stuck threads need particular interleavings of clients, job, children and input handler.",
     [L + "runner/async_runner.cpp", L + "runner/runner.cpp", L + "runner/local_job.cpp", L + "runner/job_interface_adapter.cpp", L + "runner/breakpoint_manager.cpp", L + "instructions/async_wrapper.cpp", L + "instructions/instruction.cpp"],
     [{"name": "execution loop in one thread, one thread per asynchronous child, joined on reset", "where": L + "runner/async_runner.cpp"}],
     ["leaf executions with their threads, all memory accesses (happens-before), job states after halt, reset and start, statuses after reset"])
prop("C15", "What observers were told last is how things are",
     "When a job has come to rest, the last report about each instruction gives its status and whether a breakpoint is set there, the last report about each variable gives its value, and the number of instructions announced is right. "
     "A breakpoint that has been set or removed appears so in every later report, whoever changed it and whatever was executing.",
     ["schedules", "inputs", "histories"],
     "All procedures of all instruction kinds, all commands and breakpoint changes by several clients at any time, with children in other threads.",
     "Stale or reordered reports need two threads to report about one instruction at the same instant.",
     [L + "runner/job_interface_adapter.cpp", L + "runner/job_map.cpp", L + "runner/async_runner.cpp", L + "runner/breakpoint_manager.cpp", L + "runner/instruction_map.cpp", L + "runner/variable_map.cpp", L + "procedure/workspace.cpp"],
     [{"name": "last reported state per instruction", "where": L + "runner/job_interface_adapter.cpp"},
      {"name": "indices of instructions and variables", "where": L + "runner/job_map.cpp"}],
     ["calls of IJobInfoIO, compared with the instructions' statuses, the breakpoints asked for and the workspace"],
     [{"name": "last report per instruction and variable", "meaning": "what a user interface shows", "where": L + "i_job_info_io.h"}])
prop("C16", "Every instruction lives a legal life, and its parents' results follow from it",
     "The reports about an instruction lead from not started through not finished and running to success or failure and back only by a reset, each change told once, and a leaf's reported status is the one it returned. "
     "An instruction is executed only while it and everything around it is unfinished, after its predecessors have ended as its parent demands, and a parent succeeds or fails only when its children's reported results say so; every output and message is delivered once.",
     ["schedules", "inputs", "histories"],
     "All procedures of all instruction kinds, with halts, pauses, steps, resets and breakpoints at any time.",
     "Lost, repeated or premature changes appear only when commands and children in other threads meet at particular points.",
     [L + "instructions/instruction.cpp", L + "instructions/compound_instruction.cpp", L + "instructions/decorator_instruction.cpp", L + "instructions/async_wrapper.cpp", L + "instructions/parallel_sequence.cpp", L + "instructions/sequence.cpp", L + "instructions/fallback.cpp", L + "runner/job_interface_adapter.cpp"],
     [{"name": "status of an instruction and its change notification", "where": L + "instructions/instruction.cpp"}],
     ["instruction, job-state, output and message reports and leaf executions in their order"],
     [{"name": "status", "meaning": "progress of an instruction", "where": L + "instruction.h"}])
prop("C26", "A thread that cannot be started never takes the job out of control",
     "When the operating system refuses to start a thread, the creation of the job fails and leaves nothing behind, or the parallel or asynchronous child concerned is started later. "
     "The rest of the procedure goes on, what is executed and what it comes to stays as if the thread had only been slow, and the job can still be paused, halted, reset and started again, each within a bounded time.",
     ["fault_sequences", "schedules", "histories"],
     "All procedures with parallel and asynchronous children, all sequences of commands, every pattern of refused thread creations.",
     "No test makes thread creation fail; an exception thrown there used to end the job's own thread silently.",
     [L + "instructions/async_wrapper.cpp", L + "runner/async_runner.cpp", L + "runner/local_job.cpp", L + "base/async_input_adapter.cpp", L + "instructions/parallel_sequence.cpp", L + "instructions/async.cpp"],
     [{"name": "launching of child threads", "where": L + "instructions/async_wrapper.cpp"}],
     ["state notifications after each command", "threads left after a failed creation", "leaf executions and reports as in C12, C14, C16"])
prop("C18", "A procedure spread over files behaves as if written in one place",
     "Including an instruction has the effect of having it there, with the attributes given to the including instruction filled in; an included procedure, besides, uses the variables of its own file, of which a job has exactly one set, shared by everything in it that refers to that file and put back by a reset. "
     "How the files refer to one another makes no difference, jobs made from the same files never affect each other, and a job whose files are missing, broken or incomplete is refused and leaves nothing behind.",
     ["programs", "histories", "schedules"],
     "All procedures split over files in any way, nested and with attributes handed down, run, stopped, reset and run again, in one job or several at once.",
     "The tests include single instructions from fixed files and never compare with the procedure written in one place, nor after resets or with several jobs.",
     [L + "instructions/include.cpp", L + "instructions/include_procedure.cpp", L + "instructions/copy_from_procedure.cpp", L + "instructions/copy_to_procedure.cpp", L + "instructions/instruction_helper.cpp", L + "procedure/procedure_store.cpp", L + "procedure/procedure_context.cpp", L + "procedure/procedure.cpp", L + "parser/procedure_parser.cpp", L + "parser/instruction_parser.cpp"],
     [{"name": "procedures loaded by a procedure, one per file", "where": L + "procedure/procedure_store.cpp"},
      {"name": "cloning of included instructions and placeholder attributes", "where": L + "instructions/instruction_helper.cpp"}],
     ["leaf executions, status reports and final variables of all files, compared with the reference interpreter on the unsplit tree"],
     [{"name": "workspace of an included procedure", "meaning": "its variables within one job", "where": L + "procedure/procedure_store.cpp"}])
prop("C27", "Whoever waits for a state of a job is told when it comes",
     "Every call that waits for the end of a job returns once the job has an end state, with that state; every call that waits for a given state is true once the job has it, and false only when the given time is over and the job does not have it. "
     "This holds for any number of waiting threads at once, whatever they wait for, and whatever happens to the system's clock.",
     ["schedules", "histories", "inputs"],
     "All sequences of states, all overlaps of announcements with several waiting calls, spurious wake-ups, time-outs and clock changes.",
     "A wake-up that goes to the wrong one of several waiting threads is lost only under particular schedules; the tests wait in one thread.",
     [L + "base/application_utils.cpp", L + "application_utils.h", L + "job_states.h", L + "runner/job_states.cpp"],
     [{"name": "condition variable of the state monitor", "where": L + "base/application_utils.cpp"}],
     ["calls and returns of WaitForFinished, WaitForState and GetCurrentState against the announced states and the simulated time"],
     [{"name": "last announced state", "meaning": "the job's state", "where": L + "base/application_utils.cpp"}])
prop("C28", "The programs carry out the procedure and tell the user truthfully",
     "The command-line program and the daemon execute the procedure of the given file to its end and terminate; what they print or log - outputs, messages, questions, changes of instructions and variables, the final state - is what happened, in that order, and values and choices the user types take effect exactly, invalid ones fail the question. "
     "A missing or broken file gives an error and a failure exit code, validation executes nothing, and the end of the input never blocks the program.",
     ["inputs", "schedules", "programs"],
     "All procedures, all answers and missing answers of a user, all delays of the user and of the program's threads.",
     "No test runs the programs; they need a terminal, a user and several threads.",
     [A + "oac-tree-cli/main.cpp", A + "oac-tree-cli/cl_interface.cpp", A + "oac-tree-daemon/main.cpp", A + "oac-tree-daemon/daemon_interface.cpp", L + "base/application_utils.cpp", L + "base/async_input_adapter.cpp", L + "runner/async_runner.cpp", L + "instructions/input.cpp", L + "instructions/user_choice.cpp", L + "instructions/user_confirmation.cpp", L + "instructions/output.cpp", L + "instructions/message.cpp"],
     [{"name": "main functions", "where": A + "oac-tree-cli/main.cpp"},
      {"name": "terminal interface", "where": A + "oac-tree-cli/cl_interface.cpp"}],
     ["standard output, standard input, the system log, the exit code and the threads left, compared with the reference interpreter"],
     [{"name": "lines of output", "meaning": "what the user sees", "where": A + "oac-tree-cli/cl_interface.cpp"}])
prop("C30", "Global set-up and tear-down actions of variables are paired",
     "For every workspace a job uses, and every identifier, the set-up action given by its variables runs exactly once after all variables of the workspace have been set up, and the tear-down action exactly once, later, before any of them is torn down; actions without identifier never run. "
     "This holds for the creation of a job, every reset, and its end at any moment, also when a set-up fails; in between everything stays set up, no instruction executes without it, and workspaces of files a job only takes instructions from are left alone.",
     ["programs", "histories", "schedules", "fault_sequences"],
     "All combinations of actions and identifiers in the workspaces of procedures spread over files; all histories of executions, halts, resets, variable resets and destruction, failing set-ups, several jobs.",
     "The tests set up single workspaces; whether actions stay paired over resets, included files, failures and destruction at arbitrary moments depends on the history.",
     [L + "procedure/workspace.cpp", L + "setup_teardown_actions.h", L + "procedure/procedure_store.cpp", L + "procedure/procedure.cpp", L + "variables/variable.cpp", L + "instructions/include_procedure.cpp", L + "instructions/reset_variable.cpp"],
     [{"name": "selection of actions by identifier", "where": L + "procedure/workspace.cpp"},
      {"name": "reset of all workspaces of a job", "where": L + "procedure/procedure.cpp"}],
     ["set-ups, tear-downs and actions as the variables of a recording type see them, in order"],
     [{"name": "variables of a recording type", "meaning": "what is set up in a workspace", "where": L + "procedure/workspace.cpp"}])
prop("C29", "Jobs in one process do not affect one another",
     "Any number of jobs, of the same or of different procedures, may be created, controlled, reset and destroyed at once by different threads of a program, and each behaves exactly as it would alone: the instructions it executes, the reports it makes, the values of its variables and its end. "
     "A command to one job never acts on another, and nothing of a destroyed job remains.",
     ["schedules", "histories", "programs"],
     "All overlaps of creations, executions, commands, resets and destructions of several jobs, with procedures from the same files, other files or no files.",
     "State that jobs share by accident - static variables, caches, registries - shows only when two of them work at the same moment or one after the other; the tests run one job at a time.",
     [L + "runner/local_job.cpp", L + "procedure/procedure_store.cpp", L + "parser/procedure_parser.cpp", L + "parser/instruction_parser.cpp", L + "instructions/instruction_registry.cpp", L + "variables/variable_registry.cpp", L + "procedure/workspace.cpp", L + "runner/async_runner.cpp", L + "runner/job_interface_adapter.cpp"],
     [{"name": "global registries of instruction and variable types", "where": L + "instructions/instruction_registry.cpp"},
      {"name": "loading of procedure files", "where": L + "parser/procedure_parser.cpp"}],
     ["leaf executions, status reports, states and variables of every job, compared with the reference interpreter; threads left at the end"],
     [{"name": "state of each job", "meaning": "what it executes and reports", "where": L + "runner/local_job.cpp"}])
prop("C31", "Every effect of a procedure is shown once, in order and with its value",
     "Whatever the instructions of a job let others see - values put out, messages, log entries with their severity, changed variables, changes of status, questions with their choices - reaches the job's observer exactly once, in the order in which the procedure produced it, and with the value the variable had at that moment. "
     "Nothing is shown that no instruction produced, a reset shows every variable with the value it begins with, and an instruction that cannot show its value fails.",
     ["programs", "histories", "schedules"],
     "All procedures, in one or several files, with sequential, reactive, looping and parallel parts, under all sequences of steps, pauses, halts, resets and further starts, and all answers of the user.",
     "Each kind of effect takes its own way through the adapters of a job; whether it arrives once, in the order of the others and with the value of the right moment depends on the whole history and on the threads involved.",
     [L + "runner/job_interface_adapter.cpp", L + "runner/local_job.cpp", L + "base/async_input_adapter.cpp", L + "instructions/output.cpp", L + "instructions/message.cpp", L + "instructions/log_instruction.cpp", L + "instructions/user_choice.cpp", L + "instructions/user_confirmation.cpp", L + "instructions/input.cpp", L + "procedure/workspace.cpp", L + "variables/variable.cpp", L + "instructions/instruction.cpp"],
     [{"name": "reports of a job to its observer", "where": L + "runner/job_interface_adapter.cpp"},
      {"name": "notifications of a workspace", "where": L + "procedure/workspace.cpp"}],
     ["the complete sequence of reports, compared with the reference interpreter; with parallel parts, per instruction"],
     [{"name": "sequence of reports", "meaning": "what others see of the job", "where": L + "runner/job_interface_adapter.cpp"}])
prop("C32", "Plugins and types become available as a whole, whatever others do meanwhile",
     "A plugin that a procedure names is loaded before the rest of the procedure is read, and from then on its instruction and variable types can be listed, created and used by every procedure, while procedures made before or at the same time are not disturbed. "
     "A plugin that cannot be loaded, a type that is unknown, or a name that is registered again with another meaning makes exactly that procedure or registration fail and leaves everything else as it was. "
     "The data types that one procedure registers never affect another, not even one that includes it.",
     ["programs", "schedules", "faults"],
     "All sets of plugins, procedures and type registrations, in one or several files, created by several threads in all interleavings, with plugins that fail to load at any time.",
     "The registries are shared by all threads of the process; whether a type is there, and whether another thread may be reading the registry at that moment, depends on the schedule and on which plugin could be loaded before.",
     [L + "instructions/instruction_registry.cpp", L + "variables/variable_registry.cpp", L + "parser/procedure_parser.cpp", L + "procedure/procedure_preamble.cpp", L + "procedure/procedure.cpp", L + "procedure/workspace.cpp"],
     [{"name": "registries of instructions and variables", "where": L + "instructions/instruction_registry.cpp"},
      {"name": "loading of plugins", "where": L + "parser/procedure_parser.cpp"}],
     ["which procedures can be created, what their instructions and variables do, and what the registries list"],
     [{"name": "registered types", "meaning": "what a procedure can be made of", "where": L + "instructions/instruction_registry.cpp"}])
