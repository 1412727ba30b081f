#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (one place to edit the property texts)."""
import json,os
P=[]
def prop(id,title,statement,over,text,why,files,mech,state=(),observe=(),hook=None):
    assert len(title)<=80,(id,len(title))
    P.append(dict(id=id,title=title,statement=statement,
      quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,state=[dict(name=a,meaning=b,where=c) for a,b,c in state],
        mechanism=[dict(name=a,where=b) for a,b in mech],observe_at=list(observe),hook_needed=hook)))
PAR="parallel/parallel.go"; SPEC="speculative/speculative.go"; MAP="sync/map.go"
prop("C01","parallel: every function runs exactly once and the call waits for all",
 "Every call of package parallel that takes a list of functions (Do, And, Or, and Reduce with its typed, Sum and Product variants) invokes each of them exactly once, for every list length and every goroutine schedule. It does not return before all of them have terminated, and everything they did is visible to the caller afterwards without further synchronisation. It always completes, without crash or data race, when its functions terminate, and leaves no goroutine behind.",
 ["schedules","inputs"],"all goroutine schedules, all list lengths, all subsets of slow functions",
 "the examples run Do on two quick thunks under whatever schedule the machine happens to produce; a missing wait or a function dropped at one list length shows on no tested input",
 [PAR],[("recursive halving with one goroutine and one WaitGroup per split","parallel/parallel.go Do, And, Or, Reduce*")],
 [("wg","joins the right half","every function")],["return of the call"])
prop("C02","Range calls cover the range exactly once with at most n batches",
 "For all low <= high whose difference fits an int and all n >= 0, the Range functions of packages parallel and speculative hand out half-open batches that lie inside [low,high), do not overlap and together cover it, so every index is processed exactly once unless a speculative call ends early; for n > 0 there are at most n batches. The parallel ones do not return before every batch has terminated and its effects are visible. high < low or n < 0 panics without invoking the range function.",
 ["schedules","inputs"],"all ranges (also negative bounds, empty, one element), all n, all GOMAXPROCS values, all schedules",
 "the examples use a handful of small ranges with the default batch count",
 [PAR,SPEC,"internal/internal.go"],[("ComputeNofBatches and recursive batch splitting","internal/internal.go, parallel.Range*, speculative.Range*")],(),["arguments of the range function","return of the call"])
prop("C03","parallel results equal the left-to-right sequential result",
 "For every schedule, the reducing functions of package parallel (Reduce*, RangeReduce*, And, Or, RangeAnd, RangeOr, and the Sum and Product variants) return what evaluating the functions or batches one after the other from left to right and combining the results in that order would return, for every associative (not necessarily commutative) join. With no functions, the result is the documented neutral value (0, 1, \"\", true for And, false for Or).",
 ["schedules","inputs"],"all schedules, list lengths, ranges and batch counts, with non-commutative associative joins",
 "the examples check one sum and one concatenation; operand order and neutral values are covered for few shapes and one schedule",
 [PAR],[("left/right result variables joined after Wait","parallel/parallel.go")],(),["return value"])
prop("C04","parallel: the left-most panic surfaces, after all functions have ended",
 "If functions, batches or map-split callbacks given to a call of package parallel or to a Parallel* method of sync.Map panic, then on every schedule the call panics too, with the panic of the left-most one that panicked (its message included; an error stays an error, a runtime.Error stays a runtime.Error). It does so only after all the other functions have terminated, and the process never crashes or hangs and no panic is swallowed.",
 ["schedules","fault_sequences"],"every non-empty subset of functions panicking, with string, error and runtime-error values, at every schedule",
 "no test panics",
 [PAR,MAP,"internal/internal.go"],[("recover in spawned goroutines, WrapPanic, rethrow after Wait","parallel/parallel.go, sync/map.go, internal/internal.go")],(),["recovered value at the caller","which functions are still running then"])
prop("C05","Functions of one call run concurrently and may wait for each other",
 "Each function or batch passed to a call of packages parallel or speculative is invoked in its own goroutine: functions of the same call may block on one another in any acyclic pattern or meet at a common barrier, and the call still completes on every schedule and for every GOMAXPROCS value. For a range call with n > 0 on a range of at least n elements that n divides, all n batches can be active at the same time.",
 ["schedules","inputs","configurations"],"all wait patterns among the functions (barriers, chains in both directions), schedules, GOMAXPROCS values",
 "tests only pass independent functions, for which a serialised implementation looks the same",
 [PAR,SPEC],[("go statement for the right half before evaluating the left half","parallel/parallel.go, speculative/speculative.go")],(),["progress of the functions"])
prop("C06","speculative results are decided by the left-most decisive function",
 "On every schedule, the calls of package speculative return the outcome that evaluating their functions or batches one by one from left to right would give: Do and Or (and RangeOr, Range) are true iff some function returns true, And and RangeAnd are false iff some returns false, and Reduce* and RangeReduce* return the first result of the left-most function that returned true as second result, or otherwise the in-order join of all results. Each function is invoked at most once, and exactly once when none is decisive.",
 ["schedules","inputs"],"all schedules, positions and numbers of decisive functions, ranges and batch counts",
 "package speculative has no tests of its own",
 [SPEC],[("early return when the left half is decisive, otherwise wait for the right half","speculative/speculative.go")],(),["return values"])
prop("C07","speculative calls return early, but never too early",
 "Once the left-most decisive function or batch and all those to its left have terminated, a call of package speculative returns without waiting for the functions to its right, even if those never terminate. When no function is decisive, the call returns only after all of them have terminated and their effects are visible to the caller. Once all functions have terminated, no goroutine of the call is left over.",
 ["schedules","inputs"],"all schedules, positions of the decisive function, and sets of functions to its right that stay blocked",
 "package speculative has no tests of its own; early return is only visible when the other functions are blocked",
 [SPEC],[("early return before wg.Wait","speculative/speculative.go")],(),["time of return relative to the functions"])
prop("C08","speculative: the left-most event wins between results and panics",
 "When functions of a call of package speculative, or callbacks of a Speculative* method of sync.Map, panic, the left-most event decides on every schedule: if a decisive function is to the left of every panic, the call returns its result and the panics are absorbed; otherwise the call panics with the left-most panic (its message included; an error stays an error, a runtime.Error stays a runtime.Error). No panic of a function ever crashes the process or makes the call hang.",
 ["schedules","fault_sequences"],"all combinations of panicking, decisive and neutral functions at all schedules",
 "package speculative has no tests of its own and no test panics",
 [SPEC,MAP,"internal/internal.go"],[("recover and rethrow after the left half","speculative/speculative.go")],(),["recovered value or result at the caller"])
prop("C09","sort.Sort sorts, keeps all elements, and does so race-free",
 "For every collection and every schedule, Sort leaves a permutation of the original elements in which no element is Less than its predecessor. Concurrent calls to the collection's methods never touch the same element without ordering unless both only read, all indices stay in bounds, and no goroutine touches the collection after Sort has returned or panicked. A panic of one of the collection's methods surfaces as a panic of Sort.",
 ["schedules","inputs"],"all schedules; sizes around and above the sequential cut-off; random, sorted, reversed, constant, few-valued and adversarial contents",
 "tests sort one large random array per type and look only at the final order",
 ["sort/quicksort.go","sort/sort.go"],[("parallel quicksort on disjoint index ranges after an IsSorted pre-check","sort/quicksort.go")],(),["Len/Less/Swap/SequentialSort calls","final contents"])
prop("C10","sort.StableSort is stable, keeps all elements, and is race-free",
 "For every collection whose SequentialSort is stable, and every schedule, StableSort leaves a permutation of the original elements that is sorted and keeps equal elements in their original order. Concurrent accesses to the collection and to its temporary copy never conflict on an element without ordering, stay in bounds, and have all ended when StableSort returns or panics. A panic of one of the collection's methods, NewTemp and Assign included, surfaces as a panic of StableSort.",
 ["schedules","inputs"],"all schedules; sizes around and above the sequential cut-off; contents with many equal keys, runs, sorted, reversed",
 "tests sort a few large random arrays and sample stability once",
 ["sort/mergesort.go","sort/sort.go"],[("cilksort: four-way recursive sort, parallel merge with binary search, temp allocated concurrently","sort/mergesort.go")],
 [("T, A","the two views of collection and temporary","sort/mergesort.go StableSort")],["Less/Assign/SequentialSort/NewTemp calls","final contents"])
prop("C11","IsSorted answers exactly, and has stopped reading when it returns",
 "IsSorted, IntsAreSorted, Float64sAreSorted and StringsAreSorted return true exactly when no element is Less than its predecessor, for every size, position of the only descent, and schedule. They only read the collection, stay in bounds, and no goroutine they started reads it after they have returned, so the caller may modify it at once.",
 ["schedules","inputs"],"all schedules; sizes around the cut-off; a descent at every possible position",
 "tests only call it on large sorted arrays and one schedule",
 ["sort/sort.go",SPEC],[("parallel test with a shared done flag","sort/sort.go IsSorted")],[("done","tells leftover goroutines to stop","sort/sort.go")],["Less calls","return value"])
prop("C12","sync.Map single-key operations are linearizable",
 "Under any interleaving of goroutines, Load, LoadOrStore, LoadOrCompute, Delete, DeleteOrStore, DeleteOrCompute and Modify on a Map behave as if each took effect atomically at one instant between its call and its return, against an ordinary map, for every hash function, number of splits and value (nil values included). No update is lost, no stored value is invented, and the returned loaded/deleted/stored flags match.",
 ["schedules","histories","inputs"],"all interleavings of mixed operations by several goroutines on equal, colliding and different keys",
 "package sync has no tests of its own; the word count example only uses Modify and Load",
 [MAP],[("per-split RWMutex with check, lock, re-check","sync/map.go")],[("splits","lock and Go map per split","sync/map.go")],["results of the operations"])
prop("C13","sync.Map callbacks run as often and under the locking documented",
 "Modify invokes its modifier exactly once with the key's current mapping, LoadOrCompute and DeleteOrCompute invoke their computer at most once, LoadOrCompute only if the key was absent at some moment of the call until then and DeleteOrCompute only while it is absent; while a modifier or DeleteOrCompute's computer runs, no other operation changes or observes that key. LoadOrCompute holds no map lock while computing, so its computer may use the whole map or wait for other goroutines that do. A callback that panics, the function of a traversal included, leaves the mapping as it was and every lock released, so that all later operations still complete.",
 ["schedules","fault_sequences"],"all interleavings, callbacks that re-enter the map, wait for others, or panic",
 "package sync has no tests of its own; no test has a callback that blocks, re-enters or panics",
 [MAP],[("callbacks inside or outside the split lock","sync/map.go LoadOrCompute, DeleteOrCompute, Modify")],(),["callback invocations","operations running meanwhile"])
prop("C14","sync.Map traversals visit each key at most once and miss none",
 "Range, ParallelRange and SpeculativeRange never call f more than once for a key, and, unless f returns false, have called it exactly once for every key that stays present throughout by the time they return, with a value the key had at some moment during the call, whatever other goroutines do to other keys meanwhile. After f has returned false, Range calls it no more, and SpeculativeRange returns without waiting for the splits to the right. While f runs, its split is locked against writers. If f panics, the traversal panics with the left-most such panic - Range without calling f again, ParallelRange after all calls of f have ended - and every lock is released.",
 ["schedules","histories"],"all interleavings of one traversal with concurrent writers; all numbers of splits and GOMAXPROCS values",
 "package sync has no tests of its own; the example ranges over a quiescent map",
 [MAP,PAR,SPEC],[("split by split iteration under the split lock","sync/map.go srange, parallelRange")],(),["calls of f","return of the traversal"])
prop("C15","sync.Map folds visit every split once, locked, and join in split order",
 "And, Or, Reduce* and their Parallel* and Speculative* variants call the given function at most once per split, exactly once for every split unless the outcome is decided early, with exclusive access to that split. On every schedule their result is the one obtained by combining the split results in split order: the Parallel variants agree with the sequential ones, and the Speculative variants return the left-most decisive result without waiting for splits to its right, or else the join of all.",
 ["schedules","inputs"],"all schedules, numbers of splits, concurrent writers, decisive splits at all positions, non-commutative associative joins",
 "package sync has no tests of its own",
 [MAP,PAR,SPEC],[("per-split locked reduce and recursive join","sync/map.go *Reduce*, *And, *Or")],(),["callback invocations","return value"])
prop("C16","sync.Map splits are independent and lockable by the user",
 "An operation on a key only ever waits for users of the split its hash selects: while a callback or the user holds one split, operations on keys of all other splits complete. Split always selects the same split for a key, every Map operation on that key uses it, and holding its lock excludes all modifications of its contents.",
 ["schedules","inputs"],"all schedules, hash functions (full 64-bit range), numbers of splits, sets of held splits",
 "package sync has no tests of its own; blocking on the wrong split never shows without a held lock",
 [MAP],[("hash modulo number of splits; one lock per split","sync/map.go Split")],(),["progress of operations while splits are held"])
PIPE=["pipeline/pipeline.go","pipeline/filter.go","pipeline/seqnode.go","pipeline/parnode.go","pipeline/lparnode.go","pipeline/strictordnode.go"]
prop("C17","Pipelines pass every batch through every receiver exactly once",
 "When a pipeline is neither cancelled nor failing, each receiver of each node is called exactly once for every batch fetched from the source, with the batch's sequence number and the data that the preceding receiver returned for that same batch, before Run returns. This holds for every combination of ordered, sequential, parallel, limited-parallel and strictly ordered nodes, including nodes without receivers and filters that are optimised away, and for every schedule: no batch is lost, duplicated, mixed up with another or skips a node.",
 ["schedules","inputs","configurations"],"all schedules, node sequences, filter mixes, batch counts and sizes, GOMAXPROCS values",
 "one example runs one two-node pipeline with nine unique words",
 PIPE,[("Feed/FeedForward along the node list, merging of nodes before and after Begin","pipeline/pipeline.go")],(),["receiver calls"])
prop("C18","Ordered nodes see batches in encounter order, one at a time",
 "The receivers of Ord and StrictOrd nodes are called one batch at a time, in exactly the order 0,1,2,... in which the batches left the source, whatever nodes precede them and on every schedule. If the pipeline is cancelled or fails, what an ordered node has seen is still a gap-free prefix of that order.",
 ["schedules","inputs","crash_points"],"all schedules, preceding node kinds, and cancellation points",
 "one example, and an out-of-order batch only shows under unlucky schedules",
 PIPE,[("stash of early batches; condition variable and run counter","pipeline/seqnode.go, pipeline/strictordnode.go, pipeline/lparnode.go")],[("run, stash","next expected batch and early batches","pipeline/seqnode.go")],["receiver calls"])
prop("C19","Node kinds bound concurrency: Seq one, LimitedPar its limit, Par none",
 "The receivers of a Seq, Ord or StrictOrd node never run concurrently with themselves or each other, so they may use unsynchronised state, and those of a LimitedPar node are running for at most limit batches at any moment. A Par node has no limit: any number of its batches can be in progress at once, so batches in a Par node may wait for one another, and in a LimitedPar node up to limit of them may.",
 ["schedules","configurations"],"all schedules, limits, node sequences, and slow receivers",
 "the example's receivers are quick and stateless",
 PIPE,[("one goroutine per Seq/Ord node, limit goroutines per LimitedPar node, one goroutine per batch in a Par node","pipeline/*node.go")],(),["overlap of receiver calls"])
prop("C20","Finalizers run exactly once, after all their receivers have finished",
 "When a pipeline run ends without an error, whether it completed or was cancelled, each finalizer has been called exactly once, after the last call of the receivers of its node has ended and with their effects visible, and before Run returns. No receiver runs during or after a finalizer of its node, and when the run ends with an error no finalizer is called twice or early.",
 ["schedules","crash_points"],"all schedules, node sequences and cancellation points",
 "one example with one finalizer",
 PIPE,[("End: close channel, wait for the node's goroutines, call finalizers","pipeline/*node.go End")],(),["finalizer calls","return of Run"])
prop("C21","Every pipeline terminates when its source and filters do",
 "For a finite source and terminating filters, Run returns on every schedule and for every combination of node kinds, limits and batch sizes, without deadlock, panic or crash, and without having been cancelled. Afterwards no goroutine started by the pipeline is left over, even if the context given to RunWithContext is never cancelled.",
 ["schedules","configurations"],"all schedules, node sequences (strictly ordered nodes preceded by every kind), limits, sizes, GOMAXPROCS values",
 "a deadlock needs a particular node sequence and schedule; the tests have one sequence",
 PIPE,[("channels, WaitGroups and condition variables between nodes; nodes before a strictly ordered node are made ordered","pipeline/pipeline.go, pipeline/*node.go")],(),["return of Run","live goroutines"])
prop("C22","Cancelled pipelines stop, whatever they were doing",
 "After the pipeline is cancelled, by Cancel, by SetErr or by its context (cancel function or deadline), at any moment, Run returns as soon as the source's current Fetch and the receivers already running have returned, even if the source is endless: batches that no receiver was working on are dropped, and no goroutine started by the pipeline stays blocked. Cancelling more than once or from several goroutines is harmless, and after it no batch is delivered twice or out of order.",
 ["schedules","crash_points","fault_sequences"],"a cancellation at every point of every schedule, for all node sequences and sources",
 "no test cancels a pipeline",
 PIPE+["pipeline/source.go"],[("select on ctx.Done in every node and broadcast to waiters","pipeline/*node.go"),("fetch loop checks","pipeline/pipeline.go RunWithContext")],(),["return of Run","live goroutines"])
prop("C23","The first pipeline error wins, is kept, and cancels the run",
 "When filters, sources and other goroutines report errors concurrently, exactly one SetErr call returns true; from then on Err always returns that error, and the pipeline's context is cancelled by the time that call returns. An error of the source always ends up in Err if no other error came first, no error is reported if none occurred, and a pipeline with an error stops fetching.",
 ["schedules","fault_sequences"],"all schedules, several concurrent SetErr calls, source errors at every fetch, with or without data",
 "no test makes a pipeline fail",
 ["pipeline/pipeline.go","pipeline/source.go"],[("mutex-protected err, cancel after setting","pipeline/pipeline.go SetErr, RunWithContext")],[("err","first error","pipeline/pipeline.go")],["SetErr results","Err","Context().Err()"])
prop("C24","Every, NotEvery, Some and NotAny give the right verdict in any node",
 "After a run that was not cancelled from elsewhere, the results of the Every, NotEvery, Some and NotAny filters are the quantifier they name over the predicate's values on all batches, in every kind of node and on every schedule. With cancelWhenKnown, the pipeline is cancelled only once a batch has decided the verdict, the verdict is still the right one, and Run returns.",
 ["schedules","inputs"],"all schedules, node kinds, predicates true or false on any set of batches, cancelWhenKnown on or off",
 "no test uses these filters",
 ["pipeline/filters.go"],[("atomic flag in parallel nodes copied by the finalizer; direct write otherwise","pipeline/filters.go")],(),["result variable after Run"])
prop("C25","Slice and Count collect exactly the data that passes them",
 "After an uncancelled run, Slice has appended to its result every element that passed it exactly once, each batch contiguous, and in encounter order if its node is ordered, and Count has set its result to the number of those elements, for every kind of node, every source with known or unknown size, and every schedule. Filters after them receive the same data.",
 ["schedules","inputs"],"all schedules, node kinds, known and unknown sizes, empty and nil batches, several such filters in one pipeline",
 "no test uses these filters; a lost append needs two goroutines at the same instant",
 ["pipeline/filters.go"],[("mutex around append, atomic counter, known size taken from the size hint","pipeline/filters.go Slice, Count")],(),["result variables after Run"])
prop("C26","Limit and Skip pass exactly the right elements in encounter order",
 "In an uncancelled run, Limit(n) passes on exactly the first n elements and Skip(n) exactly all but the first n, in encounter order, whatever nodes surround them, however the data is batched, and also when several of them are combined; the size they announce to later filters is right. A Limit with cancelWhenReached never lets more than n elements through and then ends the run; a negative limit passes everything, and a negative skip passes nothing and sets an error.",
 ["schedules","inputs"],"all schedules, surrounding node kinds, batch sizes, limits and skips around batch boundaries, combinations",
 "no test uses these nodes",
 ["pipeline/filters.go"],[("running element count in an ordered node; size hint adjustment","pipeline/filters.go Limit, Skip")],[("seen","elements passed or skipped so far","pipeline/filters.go")],["data seen by later filters"])
prop("C27","Sources deliver all elements once, in order, in bounded, stable batches",
 "Array, slice, string, channel, Scanner, BytesScanner, Func, SingletonChan and user-defined sources deliver every element exactly once and in order over the sequence of batches, however elements trickle in (slow senders, short reads, short fetches). Batches respect NofBatches for sources of known size and start at, grow by and are capped by SetVariableBatchSize for the others. The contents of a batch do not change once fetched, no matter what later fetches do or what receivers append to other batches.",
 ["schedules","inputs","fault_sequences"],"all source kinds, sizes, batch settings, sender schedules, short reads, early channel close",
 "one example uses a Scanner on one line of text",
 ["pipeline/source.go","pipeline/pipeline.go"],[("reflective slicing, select over channel and ctx.Done, copying scanner, batch size computation","pipeline/source.go, pipeline/pipeline.go")],(),["batches seen by the first receiver"])
prop("C28","Library code is free of data races when used as documented",
 "When only documented-safe calls are made concurrently, no two accesses by pargo's own code, to its own state or to data handed to it, conflict without a happens-before ordering, on any schedule: functions, receivers, predicates and callers may rely on seeing each other's effects through the documented completion points alone. This covers packages parallel, speculative, sort, sync and pipeline, and their combinations such as parallel calls and map operations nested inside pipeline receivers.",
 ["schedules","programs"],"all schedules of all the workloads of the other properties and of nested combinations of the packages",
 "the suite is not run under the race detector, and a race detector only sees the schedules that happen",
 [PAR,SPEC,MAP,"sort/quicksort.go","sort/mergesort.go","sort/sort.go"]+PIPE+["pipeline/filters.go"],[("WaitGroups, mutexes, atomics and channels","all packages")],(),["memory accesses of library code"])
prop("C29","Package sequential runs everything in order in the calling goroutine",
 "The functions of package sequential invoke their arguments one after the other in the calling goroutine, from left to right, each at most once, and combine the results in that order; all of them are invoked unless one panics or, in And and Or (but not RangeAnd and RangeOr), decides the result. Range functions hand out adjacent batches in ascending order that cover the range exactly, at most n for n > 0, for all low <= high whose difference fits an int, and panic for high < low or n < 0. A panic of a function surfaces at once, and no further function is invoked. Other goroutines that call the same functions meanwhile, changes of GOMAXPROCS and nesting make no difference.",
 ["inputs","schedules","fault_sequences"],"all lists, ranges and batch counts; panics at all positions; any number of concurrent callers on all schedules",
 "no test imports the package",
 ["sequential/sequential.go","internal/internal.go"],[("loops and recursion without goroutines or shared state","sequential/sequential.go")],(),["invocations and the goroutine they happen in","return values and panics"])
prop("C30","Calls of all packages nest, each level keeping its guarantees",
 "Calls of packages parallel, speculative, sort, sync and pipeline can be nested in one another to any depth: in functions and batches, in pipeline receivers, and in map callbacks as far as they do not use a split that is locked. On every schedule the whole still completes without deadlock, each nested part is run exactly once where nothing is decided early, has ended with its effects visible when the call it was given to returns, and all results are the exact ones. A panic in a nested part surfaces through all levels of parallel, speculative and Parallel* map calls, the left-most one winning.",
 ["programs","schedules","fault_sequences"],"all nestings of the calls as trees, all schedules, panics at any subset of the leaves",
 "the tests call one function at a time; sort in parallel.Do in a pipeline receiver is what programs using the library consist of",
 [PAR,SPEC,MAP,"sort/quicksort.go","sort/mergesort.go"]+PIPE,[("every call has its own WaitGroups, locks and channels and no shared pool that nesting could exhaust","all packages")],(),["which parts have run at each return","results","recovered panics"])
out=os.path.join(os.path.dirname(os.path.abspath(__file__)),"..","properties.jsonl")
with open(out,"w") as f:
    for p in P: f.write(json.dumps(p)+"\n")
print(len(P))
