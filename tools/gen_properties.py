#!/usr/bin/env python3
"""Source of properties.jsonl (one table, so that the text is edited in one place)."""
import json, os

def P(id, title, statement, over, qtext, why, files, mech, state=None, observe=None):
    return {
        "id": id, "title": title, "statement": statement,
        "quantifier": {"over": over, "text": qtext},
        "why_tests_cant": why,
        "anchors": {
            "files": files,
            "state": [{"name": n, "meaning": m, "where": w} for (n, m, w) in (state or [])],
            "mechanism": [{"name": n, "where": w} for (n, w) in mech],
            "observe_at": observe or [],
            "hook_needed": None,
        },
    }

POOL = "poolx/gopoolx/timedpool.go"
DEC = "iox/decouplex/decouple.go"
PROPS = [
 P("C01", "Worker pool: every accepted job is handled exactly once",
   "Every job for which the timed goroutine pool's Run returned true is handed to the handler exactly once, with the value that was submitted, whatever the interleaving of submissions, idle reaping, preheated workers and Stop; a job for which Run returned false is never handled. Run itself never blocks on a busy handler and never panics, also when it races with Stop or with the reaping of the worker it was about to use.",
   ["schedules", "histories"], "all interleavings of concurrent Run calls, handler executions, garbage-collection ticks and Stop, for every pool size, preheat and timing",
   "The tests submit from one goroutine and only count totals after sleeping; they never race Run with reaping or Stop, and never check which job ran.",
   [POOL], [("Run claims a worker under the mutex and hands over through a buffered channel", POOL), ("worker loop and free list", POOL)],
   [("idle workers", "stack of parked workers", POOL), ("draining flag", "negative worker limit", POOL)], ["Run result", "handler invocations"]),
 P("C02", "Worker pool: worker limit, admission and reuse",
   "The timed pool never has more than maxWorkers workers alive, nor more than maxWorkers handler calls in progress, preheated workers included. Before a stop, Run returns false only when maxWorkers workers exist and none of them is idle, and a Run that finds an idle worker reuses it instead of starting another, so Workers() grows only when every worker is busy. Workers() reports the number of live workers, and the constructor returns the documented error, and no pool, for a non-positive limit, a nil handler, or a non-positive idle timeout or collection period.",
   ["schedules", "histories", "configurations"], "all interleavings and all sizes, including limits smaller than the offered load and preheat larger than the limit",
   "The tests use an unlimited pool and never reach the limit; preheat is never compared with it.",
   [POOL], [("worker counter compared with the limit under the mutex", POOL), ("argument validation", POOL)],
   [("workers", "number of live workers", POOL)], ["Workers()", "handler concurrency", "Run result", "constructor errors"]),
 P("C03", "Worker pool: shutdown completes and idle workers are reaped",
   "After Stop, already accepted jobs still finish, Run refuses every later job once the stop has taken effect, and every worker terminates so that Workers() reaches 0; Stop may be called any number of times, also concurrently, and every call returns. Without a stop, a worker idle for longer than the idle timeout is gone after at most two further collection periods (preheated ones included), while a worker idle for less than the idle timeout is kept.",
   ["schedules", "histories"], "all interleavings of Stop with submissions, ticks and completions; all idle periods relative to timeout and collection period",
   "The tests stop once from one goroutine after all work is done, and wait on wall-clock sleeps.",
   [POOL], [("collector goroutine: binary search over idle stamps, close of worker channels", POOL), ("stop hand-off", POOL)],
   [("idle stamp", "time at which the worker became idle", POOL)], ["Workers()", "Run result", "return of Stop"]),
 P("C04", "Decoupler: accepted messages delivered once, intact and in order",
   "Every message accepted by the decoupler's Write is shown by Next exactly once and with exactly the bytes given to Write, even if the caller reuses its buffer as soon as Write returns; nothing else is ever shown. Messages are shown in the order in which they were accepted: if one Write returned before another began, its message is shown first. This holds for any number of concurrent writers with one concurrent reader, and the bytes stay unchanged while the view function runs.",
   ["schedules", "histories"], "all interleavings of several writers and one reader, all capacities, all histories of earlier drops and wrap-arounds",
   "The tests are sequential, use capacities 1 and 2, count drops only and never look at a delivered byte.",
   [DEC], [("ticket counter and per-slot publication word", DEC)],
   [("ring of slots", "accepted, unread messages", DEC)], ["Write result", "view callback"]),
 P("C05", "Decoupler: messages are dropped only when empty or when the buffer is full",
   "Write either accepts a message (returning its length and no error, and not calling the drop function) or calls the drop function exactly once with that message and returns exactly what it returned; without a drop function a dropped message reports its length and no error. A non-empty message is dropped only if, at some moment during the call, as many messages as the capacity were accepted and unread; an empty message is always dropped; and at most capacity messages are ever accepted and unread.",
   ["schedules", "histories"], "all interleavings and histories, all capacities",
   "Only three sequential histories are tested, all with an even number of drops.",
   [DEC], [("occupancy check before drop", DEC)], None, ["Write result", "drop callback"]),
 P("C06", "Decoupler: Write and Next always return, and Next never misses a message",
   "Every Write and every Next returns as long as the other participants keep being scheduled, whatever drops and wrap-arounds happened before. Next returns true and shows the oldest accepted message whenever an accepted message is unread, and returns false, without calling the view function, exactly when there is none.",
   ["schedules", "histories"], "all interleavings and histories, all capacities",
   "A single drop followed by a drain and a write already reaches states no test visits; none drives writers and reader concurrently.",
   [DEC], [("reader waits for the slot of its ticket", DEC)], None, ["return of Write/Next"]),
 P("C07", "Lock helper: mutual exclusion on a value, and progress",
   "Lock(p, f) calls f exactly once with p and returns after f has returned; two calls with the same pointer never run their functions at the same time, and what one wrote is seen by the next. A call returns whenever the functions of the other calls on that pointer return (normally or by panicking), for values of any type and content, and calls on different values do not exclude each other.",
   ["schedules", "inputs"], "all interleavings of several callers, all pointee types and contents",
   "There is no test.",
   ["syncx/lockx/lockx.go"], [("acquisition by compare-and-swap", "syncx/lockx/lockx.go")], None, ["entry and exit of f", "return of Lock"]),
 P("C08", "Sleeper: one sleep at a time and no lost wake-up",
   "At most one sleep is in progress on a sleeper: a sleep call made while another is in progress returns false at once and otherwise true after sleeping. Wakeup returns true exactly when a sleep is in progress, and then that sleep returns without waiting for its time; it ends no later sleep, and the sleeper can be used again afterwards. This holds for any number of concurrent sleepers and wakers.",
   ["schedules", "histories"], "all interleavings of sleep and wake-up calls from several goroutines",
   "The only test sleeps once and asserts nothing; Wakeup is never called.",
   ["timex/sleepx/sleepx.go"], [("claim flag and cancelable context replaced on wake-up", "timex/sleepx/sleepx.go")],
   [("sleeping flag", "a sleep is in progress", "timex/sleepx/sleepx.go")], ["results of SleepFor/SleepUntil/SleepForever/Wakeup"]),
 P("C09", "Sleeper: a sleep that nobody ends lasts exactly as long as asked",
   "SleepFor(n) returns n seconds after it began (its argument counts whole seconds), SleepUntil(t) when the clock reaches t or at once if t has passed, unless a wake-up ends it earlier; neither returns before that. SleepForever returns only when woken.",
   ["histories", "inputs", "schedules"], "all durations and deadlines, all histories of earlier sleeps and wake-ups",
   "The only test sleeps one second and asserts nothing.",
   ["timex/sleepx/sleepx.go", "timex/timex.go"], [("timer channel selected against the wake-up context", "timex/sleepx/sleepx.go")], None, ["elapsed (virtual) time of each sleep"]),
 P("C10", "Lazy value: constructor runs at most once and everyone sees its value",
   "The constructor of a lazy value is not run before the first Get, is run exactly once however many goroutines call Get, and every Get returns the value that one run produced, after that run has completed. A constructor that panics has run too: the panic reaches a Get that waited for it, it is not run again, and no Get blocks forever.",
   ["schedules"], "all interleavings of concurrent Get calls",
   "There is no test.",
   ["functionalx/lazyx/lazy.go"], [("once guard", "functionalx/lazyx/lazy.go")], None, ["constructor calls", "Get results"]),
 P("C11", "Concurrent map is linearizable",
   "The goroutine-safe map behaves, under any interleaving of calls, as if every Get, Has, Set, Delete, Size, Keys, Values and Clear took effect at one instant between its call and its return on one ordinary map; Get of an absent key gives the zero value. In particular Keys and Values are snapshots of a single moment that later changes do not affect.",
   ["schedules", "histories"], "all interleavings and operation histories",
   "There is no test.",
   ["dsx/mapx/syncmapx/syncmapx.go"], [("read-write lock around every access", "dsx/mapx/syncmapx/syncmapx.go")], None, ["results of all operations"]),
 P("C12", "Conversion registry: lookups reflect registrations, concurrently",
   "The conversion registry behaves as one atomic table keyed by the pair of source and target types: Into succeeds exactly when a converter for exactly that pair is registered, applies the most recently registered one, and otherwise returns the zero value and false; IntoOr then returns the given alternative; Exists agrees with Into, and Unregister removes only its own pair. This holds for interface types too, under concurrent registration, and a converter may itself use the registry without blocking.",
   ["schedules", "histories"], "all interleavings and histories of Register, Unregister, Exists, Into, IntoOr over concrete and interface types",
   "There is no test.",
   ["typex/convx/convx.go"], [("two-level map under a read-write lock", "typex/convx/convx.go")], None, ["results of Into/IntoOr/Exists"]),
 P("C13", "Built-in conversions exist and preserve every representable value",
   "A built-in conversion exists from every one of the twelve sized and unsized integer and float types to every other and to itself, between each of them and both string and bool, and between string and bool, bytes and runes. Integer to integer conversion keeps the value modulo the target width, conversion to a float type rounds to the nearest value, a float whose whole part the target can hold is cut to that part; integers and integral floats print in decimal and decimal text parses back; every number and bool survives a round trip through string, bool to number gives 1 or 0 and number to bool tells non-zero from zero, and text survives the round trip through bytes (and, if valid, runes) with runes being its code points. Into, IntoOr and Exists agree.",
   ["inputs", "configurations"], "all pairs of built-in types and all values",
   "There is no test.",
   ["typex/convx/converters.go", "typex/convx/init.go"], [("table of registered generic converters", "typex/convx/init.go")], None, ["results of Into"]),
 P("C14", "Close manager closes everything, in order, and reports exactly the failures",
   "Closing a close manager calls Close once on every closer appended before, in the order they were appended, continuing past failures. It returns nil if all succeeded and otherwise an error from which exactly the failures, in order, can be recovered and whose text mentions each; appends and closes may run concurrently, each taking effect atomically, and the package-level functions act the same way on one shared manager.",
   ["schedules", "histories", "fault_sequences"], "all sequences of appends and closes, all subsets of failing closers, all interleavings",
   "There is no test.",
   ["iox/managerx/closex/manager.go", "iox/managerx/closex/types.go", "iox/managerx/closex/default.go"], [("list under a mutex", "iox/managerx/closex/manager.go")], None, ["Close calls on closers", "returned error"]),
 P("C15", "Using: resources are closed after the body, even if it panics",
   "The function built by usingx.Close runs its body once and then closes every given closer exactly once, in order, continuing past failures and also when the body panics (the panic still reaches the caller). It returns exactly the errors the closers returned, in order, or nil when there were none, and each use starts afresh.",
   ["fault_sequences", "histories"], "all subsets of failing closers, bodies that return or panic, repeated and nested use",
   "There is no test.",
   ["iox/usingx/using.go"], [("deferred closing loop", "iox/usingx/using.go")], None, ["order of body and Close calls", "returned errors"]),
 P("C16", "Kill-signal handler runs once and announces completion",
   "After HandleKillSig, the first SIGINT, SIGQUIT or SIGTERM runs the handler exactly once and closes the returned channel only after the handler has returned; before any signal neither happens. Further signals, also during the handler, neither run the handler again nor crash the process, and each registration is served independently.",
   ["histories", "fault_sequences"], "all sequences of signals, arriving before, during and after the handler",
   "There is no test.",
   ["osx/closex/closex.go"], [("signal channel consumed by a goroutine", "osx/closex/closex.go")], None, ["handler calls", "channel state", "process survival"]),
 P("C17", "Typed object pool never shares an object",
   "An object obtained from the typed pool is either freshly made by the initialisation function or one that was put back and has not been handed out since: no two holders ever have the same object at the same time, and nothing else is ever returned. This holds under concurrent Get and Put.",
   ["schedules", "histories"], "all interleavings and histories of Get and Put",
   "There is no test.",
   ["syncx/syncpoolx/syncpoolx.go"], [("wrapper over sync.Pool", "syncx/syncpoolx/syncpoolx.go")], None, ["identity of objects returned by Get"]),
 P("C18", "Queues are first-in first-out, linked and ring alike",
   "Both queues return elements in exactly the order they were enqueued, each once: Dequeue removes and returns the oldest element, Peek (and Head on a non-empty ring) returns it without removing it, and on an empty queue both report false. The ring accepts exactly Cap() elements at a time, refusing more without changing anything, the linked queue accepts always, and IsEmpty, IsFull and Cap tell the truth after any history of wrap-arounds and of emptying and refilling.",
   ["histories", "inputs"], "all operation histories and capacities",
   "The ring test only fills and drains once without wrap-around; the linked queue has no test.",
   ["dsx/linkedx/queuex/queuex.go", "dsx/slicex/queuex/queuex.go"], [("head/tail indices modulo the ring size", "dsx/slicex/queuex/queuex.go"), ("linked nodes recycled through a pool", "dsx/linkedx/queuex/queuex.go")], None, ["results of all operations"]),
 P("C19", "Stacks are last-in first-out, linked and slice alike",
   "On both stacks Pop removes and returns the most recently pushed element that has not been popped, Peek returns it without removing it, both report false on an empty stack, and Len (and IsEmpty) reports the number of elements, after any history of pushes and pops.",
   ["histories"], "all operation histories",
   "The slice stack test fills and drains once; the linked stack has no test.",
   ["dsx/linkedx/stackx/stackx.go", "dsx/slicex/stackx/stackx.go"], [("head pointer and pooled nodes", "dsx/linkedx/stackx/stackx.go"), ("slice tail", "dsx/slicex/stackx/stackx.go")], None, ["results of all operations"]),
 P("C20", "Deque behaves as a two-ended sequence",
   "After any history of pushes and pops at both ends, the deque holds exactly the elements pushed and not popped, in order: PopFront and PopBack remove and return the element at their end, the peeks return it without removing it, and all four report false exactly when the deque is empty, also after it has been emptied from either end and refilled and across its internal block boundaries.",
   ["histories"], "all operation histories, of any length",
   "The one test pushes 1000 at both ends and drains evenly; the deque is never emptied from one end or reused.",
   ["dsx/linkedx/dequex/dequex.go"], [("doubly linked blocks of fixed size with start and end marks", "dsx/linkedx/dequex/dequex.go")], None, ["results of all operations"]),
 P("C21", "Lists behave as an indexable sequence, linked and slice alike",
   "Both lists are the same sequence: Append adds at the end, Insert at index i (from 0 to the length) places the element before the one at i, Remove at a valid index removes and returns exactly that element and otherwise reports false and changes nothing, At returns the element at a valid index and otherwise false, Iterate visits the elements in order until told to stop, and Len is the number of elements. On the linked list an Insert outside that range changes nothing.",
   ["histories", "inputs"], "all operation histories and indices",
   "One linked-list test with a fixed history whose indices never touch the end of the list; the slice list has no test.",
   ["dsx/linkedx/listx/listx.go", "dsx/slicex/listx/listx.go"], [("head, tail, length and pooled nodes", "dsx/linkedx/listx/listx.go"), ("slice shifting", "dsx/slicex/listx/listx.go")], None, ["results of all operations"]),
 P("C22", "Skip-list map is an ordered map",
   "After any history of Set, Del and Clear the skip-list map holds exactly the surviving keys with their last values: Get and Del report presence correctly, Len is the number of keys, Keys, Values and the printed form list them in ascending key order, and ToMap returns the same content; distinct maps are independent. This does not depend on the random heights chosen.",
   ["histories", "inputs"], "all operation histories, key types and random heights",
   "One fixed history with a handful of string keys.",
   ["dsx/mapx/sklmapx/sklmapx.go", "dsx/mapx/sklmapx/splitmix64.go"], [("multi-level search recording predecessors; insert and delete splice at every level", "dsx/mapx/sklmapx/sklmapx.go")], None, ["results of all operations"]),
 P("C23", "Skip-list iterators visit every key in order, also while the map changes",
   "A fresh or rewound iterator's Next returns the smallest key, each further Next the smallest key greater than the last one returned, with its current value, and false once there is none, however often it is called. Seek positions the iterator on a present key, so that Next continues after it, and on an absent key reports false and rewinds. This holds for several independent iterators and while keys are set, deleted or cleared between the calls: a deleted key is never returned and the iterator never fails.",
   ["histories"], "all interleavings of iterator steps with each other and with map changes",
   "The test never modifies the map during iteration and calls Next once after the end.",
   ["dsx/mapx/sklmapx/sklmapx.go"], [("iterator holds a node and follows the bottom level", "dsx/mapx/sklmapx/sklmapx.go")], None, ["results of Next and Seek"]),
 P("C24", "Ordered map keeps its index and its values in step",
   "The ordered map holds, after any history of Set, Del and Clear, exactly the surviving keys with their last values: Get, Len, Keys, Values and Range agree with one another, Keys, Values and Range go in ascending key order, and Range stops when told to. Deleting, setting or clearing keys from inside Range is safe: each key is visited at most once, in order, and never after it was deleted.",
   ["histories", "inputs"], "all operation histories, including changes made by the Range callback",
   "There is no test.",
   ["dsx/mapx/ordmapx/ordmapx.go"], [("hash map plus skip-list key index", "dsx/mapx/ordmapx/ordmapx.go")], None, ["results of all operations"]),
 P("C25", "Slice editing: indices are clamped and edits are exact",
   "For every slice and all integer arguments the editing methods (Set, Get, Slice, Splice, Expand, Insert, Cut, Delete, DeleteReplace, Push, Pop, Shift, UnShift, Extend, Clear, Copy) yield exactly the sequence their description gives on the arguments after out-of-range positions have been clamped (and swapped ranges ordered), and never panic: Splice replaces the range by the given values, Delete outside the slice changes nothing, DeleteReplace moves the last element into the hole. The values passed to Splice and Expand and the memory behind them are never modified, and a Copy is independent of the original.",
   ["inputs", "histories"], "all slices, indices (including extreme integers), ranges and inserted values, and all sequences of edits",
   "Table tests with fresh three-element slices; aliasing, spare capacity, sequences of edits and extreme indices are not covered.",
   ["dsx/slicex/slicex.go"], [("index clamping helper", "dsx/slicex/slicex.go"), ("append-based splice", "dsx/slicex/slicex.go")], None, ["content after each edit", "results"]),
 P("C26", "Slice rearranging and partitioning lose and duplicate nothing",
   "Reverse, Rotate (by any integer, left for positive), Shuffle, Filter, Repeat, Split and Batch produce exactly the rearrangement their names say: Rotate by n moves element i to position i-n modulo the length, Filter asks once about each element in turn and keeps the matching ones in order, Split cuts consecutive pieces of the given non-negative sizes (as far as there are elements) with what remains last, Batch cuts pieces of the given size, so their pieces concatenate to the original. Pieces share no growth: appending to or rotating one never changes another; IndexOf, Contains, Each, ForEach, Len and Join (which prints each element as fmt does) agree with the content.",
   ["inputs", "histories"], "all slices, rotation amounts, split sizes, batch sizes and predicates",
   "Table tests with slices of at most five elements; pieces are never modified afterwards; Filter, Repeat, Shuffle, Join, IndexOf and others are untested.",
   ["dsx/slicex/slicex.go"], [("append-based rotation", "dsx/slicex/slicex.go"), ("running end in Split", "dsx/slicex/slicex.go")], None, ["content after each operation", "results"]),
 P("C27", "Bit set is a set of bit positions of its word",
   "A bit set over any unsigned type behaves as a set of the bit positions of that type: Set, Clear and Toggle add, remove and flip each listed position in turn (positions beyond the width have no effect), Test tells whether at least one of the listed positions is in the set, SetAll, ClearAll and ToggleAll act on every position, and IsEmpty and IsFull tell whether none or all positions are in it.",
   ["histories", "inputs"], "all operation histories, positions and word widths",
   "There is no test.",
   ["dsx/setx/bitsetx/bitsetx.go"], [("shift and mask on one machine word", "dsx/setx/bitsetx/bitsetx.go")], None, ["results of Test/IsEmpty/IsFull"]),
 P("C28", "Sorting and searching are exact",
   "Every sort rearranges the slice into ascending order, or descending for the reverse variants and when the reverse flag is given, keeping exactly the same elements; the stable variants keep equal elements in their original order, and the custom variants follow the given comparison. IsSorted and its variants answer exactly whether the slice is in that order. Search on a sorted slice returns the first position whose element is not less than the target, and whether it equals the target.",
   ["inputs"], "all slices, comparisons and targets",
   "There is no test.",
   ["algox/sortx/sortx.go", "algox/searchx/searchx.go"], [("comparison functions passed to the slices package", "algox/sortx/sortx.go")], None, ["slice after sorting", "results"]),
 P("C29", "Clock intersection finds the interval a majority agrees on",
   "For intervals given as offset plus or minus a non-negative band, Intersection succeeds exactly when, for some number f of outliers with 2f less than the number of intervals, the span between the lowest and the highest point covered by all but f intervals has at most f interval centres outside it; it returns the lower and then the upper end of that span for the smallest such f. A single interval is returned as is, no interval fails, and the answer does not depend on the order of the arguments.",
   ["inputs"], "all lists of intervals and all their permutations, including touching, nested, equal and zero-width ones",
   "Four fixed cases, all without outliers and without ties.",
   ["timex/intersectionx/intersectionx.go"], [("sorted endpoint sweep with outlier allowance", "timex/intersectionx/intersectionx.go")], None, ["result triple"]),
 P("C30", "Calendar truncation rounds down to the start of its UTC period",
   "Each truncation maps a Unix time to the start, in UTC, of the second, minute, hour, day, Monday-based week, month or year containing it: the result is not later than the argument, lies in the same period, is itself a start of a period (so truncating twice changes nothing) and is monotone, for times before and after 1970 and across leap years. Truncation to n seconds rounds down to a multiple of n counted from the start of year 1, and leaves the time unchanged for n of zero or less.",
   ["inputs"], "all Unix times (years -200000 to 200000 are explored) and all period lengths",
   "There is no test.",
   ["timex/truncatex/truncatex.go", "timex/timex.go"], [("calendar fields and truncation from the zero time", "timex/truncatex/truncatex.go")], None, ["returned Unix time"]),
 P("C31", "Stopwatch reports the time between its last Start and End",
   "A stopwatch's GetDiff is exactly the time from its most recent Start to its most recent End, GetStart and GetEnd are those two moments in UTC, and readings change nothing, over any sequence of starts, ends and readings and any passage of time; timex.Now is the current moment in UTC and timex.Custom the given Unix moment in UTC.",
   ["histories"], "all sequences of Start, End and readings with arbitrary time in between",
   "The only test has no assertion.",
   ["timex/diffx/diffx.go", "timex/timex.go"], [("two recorded moments", "timex/diffx/diffx.go")], None, ["results under virtual time"]),
 P("C32", "AES helpers: only the matching key and untouched ciphertext decrypt",
   "For every key and message (for CBC, messages of whole blocks) decrypting an encryption with the same key returns the message; encrypting the same message again gives a different ciphertext; inputs are not modified. GCM decryption returns an error, and no data, for any other key and for any altered, truncated or extended ciphertext; no helper panics on any input: a message or ciphertext of unusable length gives an error. With another key CBC and CTR never give back a message of 8 or more bytes, and ciphertexts stored earlier keep decrypting.",
   ["inputs", "histories"], "all keys, messages, ciphertext alterations and lengths",
   "There is no test.",
   ["cryptox/aesx/gcmx.go", "cryptox/aesx/cbcx.go", "cryptox/aesx/ctrx.go"], [("hashed key, random nonce prepended", "cryptox/aesx/gcmx.go")], None, ["results and errors"]),
 P("C33", "Password hashes verify exactly the password they were made from",
   "Verify accepts a hash produced by Hash, at every security level, for exactly the password it was made from and rejects every other password; the base64 forms agree with the raw ones; hashing twice gives different salts. A hash whose level, salt or digest was altered, or that is truncated or malformed, is rejected with an error and never panics, an unknown level is refused, and the stored format and per-level parameters stay such that hashes stored earlier keep verifying.",
   ["inputs", "histories"], "all passwords, levels and alterations of stored hashes",
   "Two tests verify one password with its own hash; no rejection is tested.",
   ["cryptox/passhashx/passhash.go", "cryptox/passhashx/alg.go", "cryptox/passhashx/internal/passhash.vstruct.go"], [("self-describing record with offsets, validated before use", "cryptox/passhashx/internal/passhash.vstruct.go"), ("constant-time comparison", "cryptox/passhashx/passhash.go")], None, ["results of Hash/Verify"]),
 P("C34", "bcrypt helper accepts exactly the hashed password",
   "Encrypt refuses passwords longer than 72 bytes and otherwise returns a freshly salted hash of at least the default cost; Decrypt returns true without error for exactly the password that was hashed and false with an error for every other password (of any length, without NUL bytes) and for every malformed hash (trailing bytes, which the format ignores, aside).",
   ["inputs"], "all passwords up to and beyond the length limit, all hashes",
   "There is no test.",
   ["cryptox/bcryptx/bcryptx.go"], [("length limit before hashing", "cryptox/bcryptx/bcryptx.go")], None, ["results of Encrypt/Decrypt"]),
 P("C35", "Option, Result and optional parameters dispatch to exactly one branch",
   "Match on an option calls only the first function, with the stored value, if there is one and otherwise only the second; Match on a result calls only the first function with the success value or only the second with the error value; either way exactly once, returning exactly what it returned, any number of times. Parameter applies the given functions in order, each to the previous one's result starting from nil, and passes the last result to the constructor, whose result it returns.",
   ["inputs", "histories"], "all values, branches and lists of parameter functions",
   "There is no test.",
   ["functionalx/optionx/optionx.go", "functionalx/resultx/resultx.go", "configx/optionalx/optionalx.go"], [("presence flag", "functionalx/optionx/optionx.go")], None, ["calls and results"]),
 P("C36", "Module maintenance commands visit exactly the right directories",
   "autotidy and autoupdate run their go command (mod tidy, respectively get -u) exactly once in every directory of the tree below the current one, including the current one, except in directories named vendor or .git and everything below those, parents before children; files and links are ignored, a failing command does not stop the walk, and a directory that vanishes or cannot be entered or listed gets no command run in its place elsewhere.",
   ["inputs", "fault_sequences"], "all directory trees and all subsets of failing commands",
   "There is no test.",
   ["cmd/autotidy/autotidy.go", "cmd/autoupdate/autoupdate.go"], [("directory walk with skip rule and change of working directory", "cmd/autotidy/autotidy.go")], None, ["working directory and arguments of each command run"]),
 P("C37", "Separate instances are independent, also across goroutines",
   "Instances of the containers and helpers (stacks, queues, deques, lists, maps and their iterators, slices, bit sets, options, results) are independent: an operation on one neither changes nor is affected by another, however the operations on them are interleaved and however instances come and go, and different goroutines may use different instances at the same time without synchronisation. The functions without an instance (sorting, searching, clock intersection, conversion, calendar truncation, encryption, hashing) may be called from several goroutines at once and give each caller what it would get alone.",
   ["histories", "schedules"], "all interleavings of operations on several instances, from one or several goroutines",
   "The tests use one instance from one goroutine at a time.",
   ["dsx/linkedx/listx/listx.go", "dsx/linkedx/stackx/stackx.go", "dsx/linkedx/queuex/queuex.go", "dsx/linkedx/dequex/dequex.go", "dsx/mapx/sklmapx/sklmapx.go", "dsx/mapx/sklmapx/splitmix64.go", "dsx/slicex/slicex.go"],
   [("node pools of the linked containers", "dsx/linkedx/listx/listx.go"), ("shared source of random heights", "dsx/mapx/sklmapx/splitmix64.go")], None, ["results of the operations"]),
]

if __name__ == "__main__":
    here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
    with open(os.path.join(here, "properties.jsonl"), "w") as f:
        for p in PROPS:
            f.write(json.dumps(p, ensure_ascii=False) + "\n")
    print(len(PROPS), "properties")
