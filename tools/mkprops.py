#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so that long texts stay readable)."""
import json, os
P = []
def prop(id, title, statement, over, qtext, why, files, mechanism, state=None):
    a = {"files": files, "mechanism": [{"name": mechanism, "where": ", ".join(files)}]}
    if state: a["state"] = state
    assert len(title) <= 80, (id, len(title))
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": qtext},
              "why_tests_cant": why, "anchors": a})

POOL = "src/parallel/ThreadPool.h"
QUEUE = "src/parallel/SimpleConcurrenceQueue.h"

prop("C01", "The thread pool runs every accepted task exactly once",
 "Every task accepted by the thread pool runs exactly once, on one of the pool's own threads, with the callable and arguments it was submitted with. The future returned for it delivers exactly that task's own return value or the very exception it threw, and a task that throws affects neither other tasks nor the pool. A pool with one thread runs tasks in the order they were accepted.",
 ["schedules", "programs"], "every interleaving of any number of submitting threads (including tasks that submit further tasks) with any number of workers, and every mix of returning, void and throwing tasks",
 "The pool test submits a fixed batch from one thread, on whatever schedule the OS produces, and never throws from a task.",
 [POOL, QUEUE], "addTask wraps the call in a packaged_task and queues it; workers loop on a blocking pop and run what they get",
 [{"name": "m_tasks", "meaning": "queue of accepted tasks not yet taken by a worker"}, {"name": "m_running", "meaning": "true until the pool is being destroyed"}])

prop("C02", "Destroying a pool drains it and always terminates; workers run in parallel",
 "Destroying a thread pool always completes, whatever the workers are doing at that moment: it first lets every task accepted so far run to its end (so none of their futures is left unready or broken) and then stops and joins every worker. A pool of n threads can have n tasks in progress at the same time, so n tasks that wait for each other all finish.",
 ["schedules"], "every point in the life of each worker (before its first wait, between its check and its sleep, asleep, running a task, between two tasks) at which the destructor can start, for any number of workers and pending tasks",
 "The shutdown window is a few instructions wide; the pool test destroys the pool once, long after the workers are parked.",
 [POOL, QUEUE], "the destructor clears the running flag, wakes all sleeping workers and joins them; a worker leaves only when the pool is stopping and the queue is empty",
 [{"name": "m_running", "meaning": "cleared by the destructor"}, {"name": "m_alwaysPop", "meaning": "once set, a pop never sleeps again"}])

prop("C03", "The concurrent queue is a linearizable FIFO with no lost wakeups",
 "Whatever the interleaving of threads, the results of push, try-pop, blocking pop, empty and copying are those of some one-at-a-time FIFO queue order consistent with real time: every accepted item is popped exactly once and in order, an item whose push condition is false is not inserted and its error callback runs exactly once, the condition is decided and the item inserted as one step, and a copy is a consistent snapshot. A push or a copy that fails half-way (copying an item, the condition or the error callback throws, or memory runs out) lets that exception out and changes nothing. A thread blocked in pop returns once items are available for it, and after the wake-all call no pop ever blocks again: it returns a remaining item or reports empty.",
 ["schedules", "histories"], "every history of concurrent pushes (both overloads, condition true or false), tryPops, pops, empties, copies and a wake-all at any point, on any number of threads",
 "No test touches the queue directly; the pool test only exercises it on the schedules the OS happens to produce.",
 [QUEUE], "one mutex around a std::queue and a condition variable whose predicate is 'wake-all was called or the queue is not empty'",
 [{"name": "m_data", "meaning": "queued items in FIFO order"}, {"name": "m_alwaysPop", "meaning": "set by the wake-all call"}])

prop("C04", "Hand-off through pool, queue and parallel eval is free of data races",
 "Everything a thread wrote before submitting a task or pushing an item is visible to the thread that runs the task or pops the item, and everything the task wrote is visible to whoever obtained its result or saw the pool destroyed, with no further synchronisation by the user. Using the pool, the queue and parallel evaluation as intended never performs a data race or touches memory after it was freed, inside the library or on the caller's data.",
 ["schedules"], "every interleaving of submitters, workers, waiters and the destroying thread",
 "A data race or a use after free only shows on particular schedules (and often only on weaker hardware); the tests pass with either present.",
 [POOL, QUEUE, "src/eval.cpp", "src/infixExpr/ExprTree.cpp"], "all sharing goes through the queue's mutex, the futures' shared state, thread join and an atomic running flag")

prop("C05", "peval returns what eval returns on every schedule and thread count",
 "For every expression that eval evaluates to a value, peval returns that same value, whatever the number of threads asked for, whatever the schedule of the workers, and however large or deep the expression. This includes expressions with builtin constants and functions, shared values, and repeated or nested evaluations.",
 ["schedules", "inputs", "configurations"], "every expression, every thread argument (zero, one, many, or 'use the machine's CPU count'), and every interleaving of the scheduling thread with the workers",
 "test_for_eval runs a handful of expressions once, on one schedule, and only compares timings.",
 ["src/eval.cpp", "src/infixExpr/ExprTree.cpp", "src/infixExpr/ExprTree.h", POOL], "the tree is scheduled level by level onto a pool; each node hands its value to its parent through a promise",
 [{"name": "valPromise", "meaning": "a node's result, consumed once by its parent"}, {"name": "childCnt", "meaning": "children of a node not yet scheduled"}])

prop("C06", "A failing evaluation inside peval reaches the caller and never hangs",
 "If evaluating some part of an expression throws, for instance in a user-registered function, peval throws that same exception to its caller, as eval does; if several parts would throw, it is the one that eval throws. It never hangs, never terminates the process and never returns a value instead, and later evaluations on the same thread work normally.",
 ["schedules", "fault_sequences", "inputs"], "every position of one or more failing functions in the tree, every thread count, and every interleaving",
 "No test registers a function that throws.",
 ["src/eval.cpp", "src/infixExpr/ExprTree.cpp", POOL], "a node task that fails must still complete its promise, or the node waiting on it sleeps for ever")

prop("C07", "Thread-creation failure or an unknown CPU count never crashes or hangs",
 "If the system refuses to create one of the threads that a pool or peval needs, the caller either gets an exception or gets the correct result; the process is not terminated, the call does not hang, and no thread and no memory is left behind. On a machine whose CPU count is unknown or is one, a default pool still runs its tasks and peval with the default thread count still returns the right value.",
 ["fault_sequences", "schedules", "configurations"], "failure of the k-th thread creation for every k, alone or repeatedly, with any number of threads asked for, any reported CPU count including unknown, and any schedule of the workers already started",
 "Thread creation never fails and the CPU count is fixed while the tests run.",
 [POOL, "src/eval.cpp"], "the pool starts its workers one by one in its constructor; the default thread count is std::thread::hardware_concurrency()")

prop("C08", "Copies of a number are independent, also across threads",
 "Assigning, copying, moving or swapping numbers never creates a visible link between them: after a copy, modifying either number, on any thread and in any interleaving, never changes the value or the behaviour of the other. Threads that each work on their own numbers may do so without any locking even when those numbers were copied from each other, with no data race and no access to freed memory.",
 ["schedules", "histories"], "every sequence of copies, moves, swaps and modifications over any set of numbers spread over any threads, and every interleaving of those threads",
 "Copies share their digits until written to; whether a write is seen through another copy depends on reference counts at that instant. The tests copy on one thread only.",
 ["src/Slice.h", "src/BigIntegerImpl.cpp", "src/BigInteger.cpp"], "digits live in a shared, reference-counted vector; every modifying operation first makes the vector its own if it is shared",
 [{"name": "Slice::m_data", "meaning": "digit vector shared between copies"}, {"name": "m_lo, m_hi", "meaning": "each copy's own window on it"}])

prop("C09", "One number can be read by many threads at the same time",
 "Any number of threads may call any of the read-only operations of one number at the same time (converting, printing, comparing, testing, extracting two's-complement words, copying it, or using it as an operand), without locking. Each of them gets the result it would get alone, and no data race occurs.",
 ["schedules"], "every interleaving of read-only operations of any threads on one number, positive or negative, of any size, freshly made or already read",
 "The read-only operations fill a cache inside the number on first use; the tests read numbers from one thread only.",
 ["src/BigIntegerImpl.cpp", "src/BigIntegerImpl.h", "src/BigInteger.cpp"], "read-only operations must not write shared state, or must do so atomically",
 [{"name": "m_firstNotZeroU32IndexLazy", "meaning": "lazily cached index of the lowest non-zero word, used for two's-complement reads of negative numbers"}])

prop("C10", "A number's past does not influence what it does next",
 "What an operation yields depends only on the values of its operands, never on how those numbers came about or were used before: through which operations, growth and shrinking, sharing with copies, earlier reads, having been moved from and assigned again, having been handed between threads, or having survived an operation that failed for lack of memory. This includes operands that are the same object or that share digits.",
 ["histories", "schedules", "fault_sequences"], "every history of operations, copies, moves, reads, thread hand-offs and failed operations that leads to given operand values, followed by every operation",
 "The tests build fresh operands for each operation, so stale digits, stale caches and moved-from states are never in play.",
 ["src/Slice.h", "src/BigIntegerImpl.cpp", "src/BigInteger.cpp"], "a number is a window on a larger vector plus sign flags plus a lazily computed cache; each operation must not depend on what lies outside the window nor on a stale cache",
 [{"name": "m_flags", "meaning": "sign, and whether the cache is valid"}, {"name": "m_mag", "meaning": "window on the digit vector"}])

prop("C11", "Memory exhaustion during arithmetic is clean: old value or new value",
 "If memory runs out at any point during an operation on numbers (construction, copy, assignment, parsing, arithmetic, bit operations, shifts, comparison, conversion), the operation throws std::bad_alloc and does not terminate or corrupt the process. The number being modified then holds either its old value or the complete new value, every other number keeps its value, nothing is leaked, and all numbers remain usable.",
 ["fault_sequences", "histories"], "failure of the k-th allocation for every k inside any operation, single or repeated, in any history of operations on numbers with shared or private digits",
 "No test makes an allocation fail.",
 ["src/BigIntegerImpl.cpp", "src/Slice.h", "src/BigInteger.cpp"], "operations must allocate before they modify, or build the result aside and swap it in without allocating")

prop("C12", "Memory exhaustion during eval and peval gives the value or an exception",
 "If memory runs out at any point during eval or peval, on the calling thread or on any worker, the call either returns the correct value or throws std::bad_alloc. It never hangs, never terminates the process, never returns a wrong value and leaks nothing, and once memory is available again evaluation works normally.",
 ["fault_sequences", "schedules"], "failure of the k-th allocation for every k, single, repeated or lasting, on the scheduling thread or any worker, on any schedule",
 "No test makes an allocation fail.",
 ["src/eval.cpp", "src/infixExpr/ExprTree.cpp", "src/infixExpr/ExprParser.cpp", POOL], "tasks must complete their promises also when they fail, and the pool must be drained and joined when scheduling is abandoned half-way")

prop("C13", "Status is per thread: no thread sees or changes another's status",
 "The global status object a thread obtains, through the C++ or the C interface, is that thread's own for as long as the thread lives: an error raised or a status set or given a context on one thread is never visible on, and never overwrites, another thread's status. When an operation raises an error, that error's callback runs exactly once, on the thread that raised it, and that thread's status then reports that error's message. A status object a caller makes for itself has a code and a context of its own, which moving it takes along, and setting it changes nobody's global status.",
 ["schedules", "histories"], "every interleaving of threads that raise errors, set, read and keep handles to their status",
 "The status tests run on one thread.",
 ["src/Status.cpp", "src/Status.h", "c/src/pgbn.cpp", "src/BigIntegerImpl.cpp"], "Status::getInstance is a thread_local object; the C handle wraps a pointer to it")

prop("C14", "Status registrations persist and first use is safe from any thread",
 "A message or callback registered for a status code, builtin or new, stays in force on all threads until it is replaced, whatever threads start, stop or use the library afterwards; a registration that fails because memory runs out replaces nothing. Every status code the library itself defines has its builtin message from the very first use on, by whichever function and on whichever thread that use happens, and several threads may make their first use concurrently without a data race.",
 ["schedules", "histories"], "every order of registrations, thread starts and first uses (through getters, setters, errors, the C interface, or worker threads of the library itself)",
 "The tests register once and never start a thread afterwards.",
 ["src/Status.cpp", "src/errInfos.cpp", "c/src/pgbn.cpp"], "a process-wide table from code to message and callback, filled with the builtin codes on first use",
 [{"name": "s_mp", "meaning": "the process-wide registry"}])

prop("C15", "Independent evaluations on different threads do not interfere",
 "Any number of threads may call eval, peval and the number operations at the same time, including first uses in the process, on expressions that share registered constants and functions. Each call returns the value it would return if it ran alone, a literal hook installed on one thread affects that thread only, and no data race occurs.",
 ["schedules", "programs"], "every interleaving of any number of threads evaluating any expressions, with the tables of constants and functions filled beforehand",
 "The tests evaluate from one thread at a time.",
 ["src/eval.cpp", "src/infixExpr/SymbolTable.h", "src/infixExpr/fwd.cpp", "src/infixExpr/Token.h", "src/BigInteger.cpp", "src/BigIntegerImpl.cpp"], "process-wide tables (symbols, radix powers, limits) are initialised once and then only read; everything else is per call or per thread")

prop("C16", "Nothing outlives a parallel evaluation or a pool, however it ends",
 "When peval has returned or thrown, or a pool has been destroyed, every thread it started has ended and all memory it used for the evaluation has been released, except what the caller still holds (results and futures). Objects captured by or passed to tasks are destroyed exactly once, and no task code runs after that point.",
 ["schedules", "fault_sequences"], "every schedule and every outcome: normal return, failing functions, failing allocations, failing thread creation",
 "The tests do not look at what is left behind, and only the normal outcome occurs in them.",
 ["src/eval.cpp", POOL, "src/infixExpr/ExprTree.cpp"], "the node pool and the thread pool are locals of the call; the thread pool's destructor joins before the nodes are destroyed")

prop("C17", "peval never evaluates the branch of a conditional that is not taken",
 "In parallel as in sequential evaluation, of the two branches of a conditional only the one selected by the condition is evaluated: functions in the other branch are not called, and its errors (exceptions, division by zero) do not occur. Every function call that sequential evaluation makes is made exactly once by parallel evaluation too.",
 ["schedules", "inputs"], "every expression with conditionals, nested in any way, every thread count and interleaving",
 "The tests evaluate conditionals only with side-effect-free branches.",
 ["src/eval.cpp", "src/infixExpr/ExprTree.cpp"], "a conditional node chooses a branch by the value of its condition; the parallel scheduler must not run the other one")

prop("C18", "What is registered for expressions stays in force until replaced",
 "A constant or function registered under a name is found, under exactly that name, by every later evaluation, sequential or parallel, on any thread, with the value or behaviour registered last; registering one name never changes what another name means, however many there are, the end of the registering thread withdraws nothing, and a registration that fails because memory runs out replaces nothing. A literal hook belongs to the thread that installs it: it converts the literals of every later evaluation that thread starts until the thread replaces it, and no other thread uses it.",
 ["schedules", "histories"], "every history of registrations and hook installations, every thread that registers and evaluates",
 "The tests register everything once, from the only thread there is, before the first evaluation.",
 ["src/infixExpr/SymbolTable.h", "src/infixExpr/ObjectManager.h", "src/infixExpr/fwd.cpp", "src/infixExpr/Token.h", "src/eval.cpp"], "a process-wide symbol table and a hook table per thread: the one must not become per thread (or cached), the other not shared")

# ---- stated, but not decidable by this family: pure functions of their input ----
prop("C20", "Integer arithmetic is exact",
 "Addition, subtraction, multiplication, truncating division, remainder, negation, absolute value, increment, decrement, comparison, shifts (arithmetic) and bit operations (on infinite two's complement) give the mathematically exact result for operands of any size and sign.",
 ["inputs"], "all operand values", "test_for_calcu compares a few thousand random operands with a reference.",
 ["src/BigIntegerImpl.cpp"], "schoolbook, Karatsuba and Knuth division algorithms on 32-bit words")
prop("C21", "Text conversion round-trips in every radix",
 "Formatting a number in a radix from 2 to 36 and parsing the text in that radix gives the number back; malformed text, an invalid radix or an empty text is reported and leaves the number unchanged.",
 ["inputs"], "all values, radixes and texts", "The tests parse and print selected values.",
 ["src/BigIntegerImpl.cpp"], "fromString and toString work in blocks of digits")
prop("C22", "Binary import and export are exact in both byte orders",
 "Importing a two's-complement byte string, little or big endian, of any length gives the integer it denotes; exporting the magnitude gives its minimal little-endian bytes, truncated to the caller's buffer.",
 ["inputs"], "all byte strings", "The tests import a few patterns.",
 ["src/BigIntegerImpl.cpp"], "assign from binary, copyMagDataTo, getU32")
prop("C23", "Expressions follow their documented grammar, precedence and operators",
 "eval gives every operator of the documented grammar its documented meaning, precedence and associativity, for literals in every radix.",
 ["inputs"], "all well-formed expressions", "The tests evaluate selected expressions.",
 ["src/infixExpr/ExprParser.cpp", "src/infixExpr/Token.h", "src/infixExpr/ExprTree.cpp"], "tokenizer, recursive-descent parser, tree evaluation")
prop("C24", "Malformed expressions are reported, never crash",
 "An expression that does not follow the grammar is reported through the status object and evaluates to a default value without crashing.",
 ["inputs"], "all strings", "The tests try very few malformed strings.",
 ["src/eval.cpp", "src/infixExpr/ExprParser.cpp"], "error codes in the tokenizer and parser")
prop("C25", "Conversions to machine integers detect overflow exactly",
 "Conversion to a 64-bit integer succeeds exactly when the value fits, returns the value, and otherwise reports overflow.",
 ["inputs"], "all values", "The tests check values near selected limits.",
 ["src/BigInteger.cpp", "c/src/pgbn.cpp"], "comparison with the limits before truncation")
prop("C26", "Fractions stay reduced and their arithmetic is exact",
 "Fraction arithmetic gives the exact rational result in lowest terms, and a zero denominator is reported.",
 ["inputs"], "all pairs of integers", "The fraction test computes a few sums.",
 ["src/Fraction.h", "src/algorithm.cpp"], "cross-multiplication and division by the gcd")
prop("C27", "The C interface gives the same results as the C++ interface",
 "Every C function gives the result of its C++ counterpart for the same arguments.",
 ["inputs"], "all arguments of all C functions", "The C tests call part of the functions once.",
 ["c/src/pgbn.cpp"], "thin wrappers around BigIntegerImpl and Status")

with open(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl"), "w") as f:
    for p in P: f.write(json.dumps(p, ensure_ascii=False) + "\n")
print(len(P))
