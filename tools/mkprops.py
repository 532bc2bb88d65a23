#!/usr/bin/env python3
"""Regenerates /verif/properties.jsonl (the single place the property texts are kept)."""
import json,os
P=[]
def p(id,title,stmt,over,qtext,why,files,mech,hist=None):
    P.append(dict(id=id,title=title,statement=stmt,quantifier=dict(over=over,text=qtext),
      why_tests_cant=why,anchors=dict(files=files,mechanism=[dict(name=mech,where=", ".join(files[:4]))])))
H=["src/lace.h","src/lace14.h"]; S=["src/lace.c","src/lace14.c"]
TS="The tests run a few fixed programs under whatever interleavings the OS happens to produce and compare no result; "
p("C01","Spawned tasks run exactly once and SYNC returns their own result",
 "For every fork-join program, every task that is SPAWNed and SYNCed executes exactly once, whether its owner runs it or another worker steals it, and SYNC returns only after it finished, with that task's result, in last-in-first-out order. No task is lost, run twice, or answered with another task's result, on any number of workers and any interleaving.",
 ["schedules","programs","inputs"],"all fork-join programs (any nesting, fan-out, CALL/SPAWN/SYNC mix), all worker counts, all interleavings of owner and thieves at the granularity of single memory accesses",
 TS+"lost or doubled tasks in the owner/thief race on the last shared task need a particular interleaving of a handful of instructions.",
 H+S,"split deque: SPAWN publishes, SYNC pops or shrinks the shared part (with a fence against thieves), thieves claim the tail by CAS and report completion in the task; leapfrogging while waiting")
p("C02","Spawn and sync order memory: no stale reads across a steal",
 "Whatever a worker wrote before it SPAWNs (or RUNs) a task is visible to that task wherever it runs, and whatever the task and everything it synced wrote is visible to the spawner once SYNC (or RUN) returns. This holds on hardware with store buffers (x86-TSO), and by the synchronisation that C11 gives the atomics used (release/acquire chains), not by accident of one machine or compiler.",
 ["schedules","programs"],"all programs passing data through ordinary memory between spawner and task, all interleavings and all x86-TSO store-buffer delays; for every interleaving, the C11 happens-before relation of that execution",
 TS+"a missing fence shows only when a store is still buffered at the one instruction where another core looks.",
 H+S,"seq_cst/release stores that publish deque state and task completion; fence in the shrink path; barrier and semaphore hand-offs")
p("C03","Arguments and results arrive intact for every arity and entry point",
 "For every task arity offered (0..6 in lace, 0..14 in lace14), with and without a result, of any argument and result types that fit, the task receives exactly the arguments given and the caller exactly the result returned, through SPAWN/SYNC, CALL, RUN, RUNEX and NEWFRAME, and the arguments through TOGETHER, from C and from C++, and likewise for callbacks passed as arguments (LACE_TYPEDEF_CB and TASK). Every argument expression is evaluated exactly once. This holds whether the task is run in place, stolen, or offered from a non-Lace thread.",
 ["inputs","schedules","configurations"],"every arity x {value, void} x entry point x {lace, lace14} x {C, C++}, all argument values, and all interleavings deciding who runs the task",
 "The tests use arities 0 and 1 only and never compare a value; each arity is separate generated code with separate fast, slow and stolen paths.",
 H+["src/lace.sh"],"generated TASK_n/VOID_TASK_n macros: per-arity task struct, WRAP/CALL/SPAWN/SYNC/SYNC_SLOW/RUN/RUNEX/NEWFRAME/TOGETHER")
p("C04","DROP cancels an unstolen task and waits for a stolen one",
 "DROP removes the most recently spawned task: when DROP returns, that task either ran to completion exactly once (it had been stolen) or has not run and never will. Tasks spawned before and after a DROP are unaffected: they still run exactly once and sync correctly.",
 ["schedules","programs"],"all programs mixing SPAWN, SYNC and DROP, all interleavings of the dropping worker with thieves",
 "No test or benchmark uses DROP at all.",
 H,"lace_drop / lace_drop_slow: fast pop when private, shrink-or-leapfrog when shared; slot state reset")
p("C05","RUN from non-Lace threads: each task runs exactly once and is awaited",
 "Any number of non-Lace threads may call RUN (or NEWFRAME/TOGETHER, which are offered the same way) at the same time: every offered task is executed exactly once by a Lace worker, and each call returns only after its own task has completed, with its own result. No offered task is lost, duplicated or answered with another caller's result, and every call returns.",
 ["schedules","histories"],"all histories of concurrent RUN calls from several threads, all interleavings of callers with each other and with workers, including workers that are suspended or still starting",
 "The tests call RUN from a single thread, one at a time.",
 S,"external task slot claimed by CAS, taken by exchange from the steal loops, completion signalled through a per-call semaphore")
p("C06","RUNEX runs alone among externally offered tasks",
 "While a task offered with RUNEX from a non-Lace thread is running, no other task offered from a non-Lace thread (RUN, RUNEX, NEWFRAME or TOGETHER) is running; both kinds are executed exactly once and every caller gets its result. Mixing RUN and RUNEX callers never deadlocks and never lets two exclusive tasks overlap.",
 ["schedules","histories"],"all histories of concurrent RUN and RUNEX calls, all interleavings, with spurious condition-variable wake-ups",
 "No test uses RUNEX.",
 S,"exclusive flag and counter of external tasks under a mutex and condition variable")
p("C07","NEWFRAME halts all interrupted work while the new task runs",
 "NEWFRAME runs its task exactly once and returns its result; while that task (and anything it spawns) runs, no task that was interrupted makes progress on any worker, and all workers may help with the new task. Afterwards every interrupted task continues unharmed: its spawned tasks still run exactly once and its syncs return the right results.",
 ["schedules","programs"],"all programs that interrupt computations at any depth, all interleavings of the interruption with spawns, steals, syncs and leapfrogging on the other workers",
 "test_together nests NEWFRAME but checks only that the program terminates.",
 S+H,"newframe request word, lace_yield at every steal point, saving/restoring deque split state around two barriers")
p("C08","TOGETHER runs one private copy on every worker, together",
 "TOGETHER makes every Lace worker execute the given task exactly once, each with its own intact copy of the arguments; no copy starts before all workers were interrupted, no interrupted work proceeds in between, and the call returns only after every copy has finished.",
 ["schedules","programs"],"all programs using TOGETHER at any depth (with tasks that spawn, use barriers, or nest further interrupts), all worker counts and interleavings",
 "test_together counts nothing: a worker that ran the task twice, never, or with another copy's arguments goes unnoticed.",
 S+H,"shared request word, per-worker copy, barriers before and after, countdown of finished copies")
p("C09","Simultaneous and nested interrupts are all served",
 "When several workers (or several non-Lace threads) request NEWFRAME or TOGETHER at the same time, or such requests nest, each request is served completely, one frame at a time, and all of the requesting calls return. No combination of interrupts, external RUN calls, explicit YIELD_NEWFRAME/STEAL_RANDOM and running tasks deadlocks the workers or mixes up their frames.",
 ["schedules","programs","histories"],"all sets of concurrent and nested interrupt requests from workers and external threads, all interleavings",
 "test_together issues nested requests in one fixed pattern, from one external thread; the request race has a window of a few instructions.",
 S,"CAS race for the request word with the loser joining the winner's frame, reusable barrier, external tasks picked up in steal loops")
p("C10","lace_barrier releases nobody before all workers have arrived",
 "In a task that all workers execute, a worker returns from its k-th lace_barrier call only after every worker has entered its k-th call, and writes made before the barrier by any worker are visible to (happen before, in the sense of C11, reads of) all workers after it. The barrier can be reused back to back any number of times and every worker eventually leaves it.",
 ["schedules","configurations"],"all worker counts, any number of consecutive barriers, all interleavings and store-buffer delays between arriving and leaving workers",
 "No test calls lace_barrier directly or checks what it guarantees; premature release needs a slow leaver racing a fast re-entrant.",
 S,"sense-reversing barrier: arrival count, leave count, flipping wait flag")
p("C11","Suspend puts workers to sleep, resume and RUN wake them, none lost",
 "Once lace_suspend has taken effect and no RUN is in progress, all workers stop consuming CPU until lace_resume or RUN; RUN on suspended workers wakes them, completes, and lets them sleep again; after lace_resume all workers take part again. Suspend and resume nest: workers sleep while resumes have not made up for suspends. This holds for every sequence of suspend, resume and RUN calls, with RUN calls from several threads racing them, with no lost wake-up, no worker left behind and no deadlock.",
 ["schedules","histories"],"all balanced histories of suspend/resume with concurrent RUN/RUNEX/TOGETHER calls, all interleavings including workers that have not finished starting or re-awakening",
 "test_suspend performs one fixed suspend/resume/RUN pattern from one thread and cannot see whether workers sleep.",
 S,"nesting counter with an intermediate state, must-suspend flag, running-workers count, wake-up semaphore, barrier after wake-up")
p("C12","Start/stop cycles: workers end, resources return, sessions are independent",
 "lace_stop returns only when every worker is done with Lace's data; afterwards no worker executes Lace work, and the memory and threads acquired by lace_start are released, so start/stop can be repeated without limit. Each session works as the first, with its own worker count and queue size, however soon stop follows start and whatever happened in earlier sessions.",
 ["schedules","histories","configurations"],"all sequences of sessions with differing worker counts and queue sizes, stop called at any moment relative to worker start-up, running or suspension, all interleavings",
 "The tests run at most a few sessions, never stop early and cannot see leaks or late accesses.",
 S,"lace_start initialisation of global state, running-workers handshake, quit flag, release of worker memory, thread creation attributes")
p("C13","Fork-join programs terminate; slow workers hold up nobody",
 "Under any fair schedule every fork-join program terminates: a worker waiting in SYNC for a stolen task keeps stealing useful work and leaves as soon as that task is complete. SPAWN completes in a bounded number of the worker's own steps whatever others do, and a worker that stops running while it holds no task never prevents the others from finishing.",
 ["schedules","programs","fault_sequences"],"all programs, all fair interleavings, and any worker stalled for arbitrarily long at any point at which it has not taken a task",
 TS+"they never stall a worker, and a hang that needs a rare interleaving is not met.",
 H+S,"wait-free spawn on the owner's side, lock-free CAS on the thief's side, leapfrogging with fallback to random stealing")
p("C14","Idle workers get work: shared tasks are stealable by every worker",
 "If a worker has spawned tasks it has not synced and keeps calling SPAWN/SYNC, an idle worker eventually obtains one of them; after LACE_MAKE_ALL_SHARED all its outstanding tasks can be taken without its further cooperation. Every idle worker can obtain work from every other worker, also by STEAL_RANDOM and while waiting in SYNC.",
 ["schedules","programs","configurations"],"all worker counts and pairs of workers, all fair interleavings, queue depths and split positions",
 "Results are the same if everything runs sequentially on one worker, so no test notices when sharing stops working.",
 H+S,"split-request flag set by thieves and honoured by SPAWN/SYNC, all-stolen flag, victim selection in the steal loops, make-all-shared")
p("C15","Queue capacity is honoured exactly: overflow is caught, never corrupts",
 "A worker can hold as many unsynced tasks as the queue size passed to lace_start; one more SPAWN ends the program with Lace's task-stack-overflow error before any memory outside the queue is touched. Below that limit no overflow is reported, whatever was spawned, synced, dropped or interrupted before, for every queue size down to one.",
 ["programs","schedules","configurations"],"all queue sizes, all programs reaching the limit through nesting, stealing, leapfrogging, interrupts and drops, all interleavings",
 "The tests use the default of 100000 and never come near the limit.",
 H+S,"head-equals-end check in SPAWN, end pointer, recomputation of the head position when a frame starts")
p("C16","lace_start without resources ends in a reported error, not a hang",
 "If memory or threads for the workers cannot be obtained while Lace starts, the program ends with an error message and a non-zero exit status; it never continues with missing workers, hangs in a later Lace call, or touches invalid memory. The same holds when the queue size asked for is one no machine could provide.",
 ["fault_sequences","schedules"],"failure of any one or more of the allocations and thread creations made during start-up, impossible queue sizes, in any interleaving with the workers already started and with the first RUN or stop",
 "No test makes an allocation or thread creation fail.",
 S,"checks after each allocation in lace_start and in the worker's own initialisation, thread creation")
p("C17","Interrupted waits and spurious failures never break a call",
 "A signal interrupting any blocking wait, a spurious condition-variable wake-up, or a spuriously failing weak compare-and-swap changes nothing a user can observe: RUN and RUNEX still return only after their task completed, suspended workers still sleep, and no interrupt request is corrupted.",
 ["fault_sequences","schedules","histories"],"every placement of EINTR, spurious wake-ups and spurious weak-CAS failures (as POSIX and C11 allow) in histories of RUN, RUNEX, suspend/resume, NEWFRAME and TOGETHER",
 "No test delivers a signal; on x86 weak CAS never fails spuriously, on LL/SC machines it does.",
 S,"semaphore waits of RUN callers and suspended workers, condition waits of RUNEX, retry loops around weak CAS")
p("C18","A task can always recover its own worker and queue position",
 "Inside any task, at any point, the worker identity (LACE_WORKER_ID, lace_get_worker) is that of the executing thread, distinct threads have distinct identities in 0..lace_workers()-1, and the position recovered by LACE_VARS is exactly the position the task's own spawns have reached. lace_is_worker is true in every task and false in every other thread.",
 ["programs","schedules"],"all queue depths and slot histories (spawned, synced in place, stolen, leapfrogged, dropped, framed), all interleavings",
 "The tests recover the position only implicitly and at shallow depth, and never compare it.",
 S+H,"thread-local worker pointer, search for the first empty slot, slot state maintained by SPAWN/SYNC/DROP/leapfrog")
p("C19","Statistics count what happened and never change behaviour",
 "With counting enabled, the reported number of tasks equals the number of SPAWNs, good steals plus leaps equal the number of tasks executed by a worker other than their spawner, the figures of each worker are those of what that worker did and add up to the sums, and counters restart at zero after a reset. With LACE_PIE_TIMES and a clock that runs evenly, the reported times are non-negative and do not exceed the time the session took. Collecting or reporting statistics, including timing, never crashes, hangs or changes results, however short the session and however the clock behaves.",
 ["programs","schedules","configurations"],"all programs and schedules with LACE_COUNT_TASKS/STEALS/SPLITS and LACE_PIE_TIMES, all clock readings (slow, fast, unsynchronised between CPUs)",
 "No test enables statistics.",
 S+H,"PR_COUNT* macros in spawn/steal/leapfrog/split paths, report and reset functions, timing events")
p("C20","Lace touches only memory it owns",
 "Across any program and history, Lace never reads or writes outside its queues and worker data, never uses memory it has freed, never accesses another thread's stack frame after that frame has returned, and never uses a destroyed semaphore.",
 ["programs","schedules","histories"],"all programs and histories mixing all Lace features, all interleavings of the last accesses to task records, request words and semaphores with the return of the functions that own them",
 "The tests run without memory checking and a late access to a dead stack frame usually goes unnoticed.",
 S+H,"task records, request structures and semaphores on callers' stacks; worker memory released in lace_stop; queue bounds")
p("C21","The shipped example programs compute the right answer under any schedule",
 "The parallel example programs (fib, queens, matmul, cilksort, strassen, uts, dfs, knapsack, pi) compute the same result as sequential execution, for any worker count, queue size that suffices, and interleaving.",
 ["schedules","inputs","configurations"],"small inputs of each program, 1..6 workers, all interleavings and store-buffer delays",
 "CI looks only at the exit status of these programs and never at what they print or compute.",
 ["benchmarks/fib/fib-lace.c","benchmarks/fib/fib-lace.cpp","benchmarks/queens/queens-lace.c","benchmarks/matmul/matmul-lace.c","benchmarks/cilksort/cilksort-lace.c","benchmarks/strassen/strassen-lace.c","benchmarks/uts/uts-lace.c","benchmarks/dfs/dfs-lace.c","benchmarks/knapsack/knapsack-lace.c","benchmarks/pi/pi-lace.c"]+H+S,
 "real application code on top of SPAWN/SYNC/CALL/RUN with results in memory and in return values")
p("C22","Committed headers equal the generator's output",
 "lace.h, lace14.h and lace14.c are exactly what src/gen.sh produces from lace.sh and lace.c.",
 ["inputs"],"the one committed source tree",
 "The build never runs the generator.",
 ["src/gen.sh","src/lace.sh"],"shell generator for the task macros")
p("C23","hwloc builds pin every worker to its own logical processor",
 "When built with hwloc, every worker is bound to exactly one existing logical processor before it runs its first task, workers share a processor only when there are more workers than processors and share a core only when there are more workers than cores, and each worker's memory is bound to the node of its processor (LACE_WORKER_PU names the processor's core). A binding that the system refuses changes nothing else. The topology and all sets obtained from hwloc are released when Lace stops.",
 ["configurations","fault_sequences","histories"],"all machine topologies (several nodes, unequal numbers of processors per core, offline processors), worker counts from one to more than there are processors, refused bindings, repeated sessions",
 "hwloc is off in the tests, and CMake never passes the option to the sources.",
 S,"lace_pin_worker, lace_check_memory, topology handling in lace_start and lace_stop")
p("C24","Task status queries are truthful while tasks are stolen and completed",
 "For a task its owner has spawned and not yet synced, TASK_IS_STOLEN reports true only if another worker has taken the task and TASK_IS_COMPLETED only if it has finished, and TASK_RESULT then gives its result with everything the task wrote visible; once true the answers stay true until the SYNC, and a stolen task that finished is reported so. Asking disturbs nothing. The macros work from C and from C++.",
 ["schedules","programs"],"all programs that poll spawned tasks at any moment between SPAWN and SYNC, all interleavings with the thief, both worker and header variants",
 "No test or benchmark uses the query macros; from C++ two of them do not even compile.",
 H+["src/lace.sh"],"thief field of the task record as a status word: empty, spawned, thief pointer, completed")
p("C25","Start-up settings take effect and are reported as they are",
 "lace_start(n, size) gives exactly n workers (one per available processor for n = 0) with the given queue size (the default for 0); lace_set_stacksize sets the stack size of every worker thread, 0 means the program's current stack limit, at most 16 MB; with verbosity 0 Lace prints nothing, otherwise start-up messages that name the number of workers. lace_workers, lace_get_stacksize and lace_get_pu_count return what holds, in every session and whatever earlier sessions were set to.",
 ["configurations","histories","fault_sequences"],"all combinations of worker counts, queue and stack sizes and verbosity over successive sessions, unlimited or failing stack limits",
 "The tests start Lace with defaults and never look at the result of a setting.",
 S,"lace_start, lace_set_stacksize, lace_set_verbosity, thread attributes")
out=os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))),"properties.jsonl")
with open(out,"w") as f:
    for x in P: f.write(json.dumps(x)+"\n")
print(len(P))
