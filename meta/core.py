L = "src/lib/sup/oac-tree/"
A = "src/app/"
NOTE = ("Seeded search over schedules and faults of the real code on a simulated scheduler, clock and heap (sampling, not proof). "
        "Trusts the simulator in /verif/sim, the C++ runtime and the oracle in /verif/harness; memory orderings weaker than sequential "
        "consistency are judged by its happens-before race detector only.")
P = []


def prop(id, title, statement, over, qtext, why, files, mechanism, observe, state=None, hook=None, note=""):
    P.append(dict(id=id, title=title, statement=statement, over=over, qtext=qtext, why=why, files=files,
                  mechanism=mechanism, observe=observe, state=state or [], hook=hook, note=note))


prop("C01", "Job command queue is a linearizable FIFO with priority front insertion",
     "Under any concurrent use, every operation of the job command queue takes effect atomically at one instant between call and return, as on a FIFO queue: each accepted command comes out exactly once, ordinary commands in order. "
     "A priority push is accepted exactly when the queue is empty or its command ranks strictly above the first queued one, and then goes to the front; its function runs exactly once if it is accepted and never if it is rejected, and has completed before anybody can see the command. "
     "An operation that fails for lack of memory leaves the queue unchanged.",
     ["schedules", "histories", "fault_sequences"],
     "All interleavings of any number of clients pushing, priority-pushing, popping (blocking or not) and querying, all command sequences, and allocation failures in any operation.",
     "The unit tests call each operation from one thread in one order; atomicity, exactly-once delivery and the visibility of the function's effect quantify over interleavings and failures.",
     [L + "job_command_queue.h", L + "runner/job_command_queue.cpp", L + "runner/job_commands.cpp"],
     [{"name": "one mutex around every operation; priority function called under it", "where": L + "runner/job_command_queue.cpp"}],
     ["return values and popped commands of JobCommandQueue operations", "invocations of the function given to PriorityPush"],
     [{"name": "m_command_queue", "meaning": "queued commands, next one in front", "where": L + "job_command_queue.h"}])
prop("C02", "A consumer blocked on the job command queue is woken when there is work",
     "Whenever commands are available for the consumers that wait for the next command, each such consumer returns with one of them within a bounded number of steps. "
     "No wake-up is lost, whatever the order of pushes, priority pushes, spurious wake-ups and consumers going to sleep, and no command is delivered twice or lost.",
     ["schedules", "histories", "fault_sequences"],
     "All interleavings of producers and blocked consumers, any choice of which waiter is notified, spurious wake-ups and stalls at any point.",
     "A lost wake-up shows only in the window between a consumer's check and its sleep; the tests have one consumer and never reach it.",
     [L + "job_command_queue.h", L + "runner/job_command_queue.cpp"],
     [{"name": "condition variable with predicate, notified after every accepted push", "where": L + "runner/job_command_queue.cpp"}],
     ["return of WaitForNextCommand"])
prop("C03", "Callbacks run exactly for current registrations, in order, with right data",
     "Executing the callbacks for a name calls every generic callback registered at that moment, in registration order and with the name, then every callback registered for exactly that name, in registration order; each exactly once with the arguments given. "
     "Null callbacks are refused, and removing a listener removes all of its callbacks and only those, and reports whether there were any. "
     "All these operations take effect atomically under concurrent use.",
     ["schedules", "histories"],
     "All interleavings of registrations, removals (direct or by guard) and executions from any number of threads, over any listeners and names.",
     "The tests register and execute from one thread; atomicity of execution against concurrent registration and removal quantifies over interleavings.",
     [L + "named_callback_manager.h"],
     [{"name": "one mutex around registration, removal and execution", "where": L + "named_callback_manager.h"}],
     ["which callbacks run, in which order, with which arguments", "return values of the registration functions"])
prop("C04", "After a listener is removed none of its callbacks runs any more",
     "Once the removal of a listener, or the destruction of the guard that stands for it, has returned, no callback of that listener is running or will ever start, so its data can be destroyed at once. "
     "A guard for no listener removes nothing, a moved guard removes its listener only when its final owner is destroyed, and removing one listener does not disturb the notifications of others.",
     ["schedules", "histories"],
     "All interleavings of executing threads with listeners that register, unregister and are destroyed immediately afterwards.",
     "The failure is a use after free in the window where a callback is in flight; no test removes a listener while another thread executes callbacks.",
     [L + "named_callback_manager.h", L + "base/scope_guard.cpp", L + "scope_guard.h"],
     [{"name": "callbacks execute under the mutex that removal takes", "where": L + "named_callback_manager.h"},
      {"name": "callback guard", "where": L + "named_callback_manager.h"}],
     ["callback invocations relative to the return of the removal", "accesses to destroyed listener data"])
prop("C05", "A scope guard's action runs exactly once, when its last owner lets go",
     "Every action given to a scope guard runs exactly once: when the guard that finally owns it is destroyed or is overwritten by another one, never earlier and never for a guard it was moved out of. "
     "Validity always tells whether the guard currently owns an action. "
     "This holds for every sequence of constructions, moves, assignments, swaps and hand-overs between threads, also when such an operation fails for lack of memory.",
     ["histories", "schedules", "fault_sequences"],
     "All histories of guard operations over several guards and threads, with allocation failures inside any of them.",
     "The tests do one move and one destruction; exactly-once is a statement about all histories and about failures in the middle of a move.",
     [L + "base/scope_guard.cpp", L + "scope_guard.h"],
     [{"name": "ownership transfer in move construction, move assignment and Swap", "where": L + "base/scope_guard.cpp"}],
     ["runs of the action", "IsValid"])
