#!/usr/bin/env python3
"""Writes properties.jsonl (one line per property); edit here, then re-run."""
import json, os
P=[]
def p(id,title,statement,over,qtext,why,files,mechanism,state=(),observe=(),hook=None):
    P.append(dict(id=id,title=title,statement=statement,
        quantifier=dict(over=over,text=qtext),why_tests_cant=why,
        anchors=dict(files=files,state=[dict(name=a,meaning=b,where=c) for a,b,c in state],
            mechanism=[dict(name=a,where=b) for a,b in mechanism],observe_at=list(observe),hook_needed=hook)))
CORES=["moment/core.go","joint/core.go"]
p("C01","Concurrent calls on shared objects always complete",
  "Any set of concurrent calls on shared metrics, cores, aggregates, quantiles and samplers (pushes, reads and clears, and critical sections bracketed by the exposed lock methods that use only the unlocked accessors inside) runs to completion under every interleaving. No call deadlocks, panics, spins or waits forever, however slow or stalled any other caller is, as long as every caller is eventually scheduled.",
  ["schedules","histories","configurations"],
  "every interleaving of every finite set of concurrent API calls on every kind of metric, window and implementation",
  "The existing lock tests run one schedule with -cpu=1 (with more CPUs they hang now and then); no test calls Value() of a derived metric while another goroutine pushes, so a read lock taken again behind a waiting writer is never reached.",
  CORES+["moment/skewness.go","moment/kurtosis.go","moment/moment.go","joint/corr.go","joint/autocorr.go","quantile/quantile.go","quantile/iqr.go","quantile/heap_median.go","minmax/max.go","aggregate/simple_aggregate.go","sample/sample.go"],
  [("per-object mutex held for the whole call","*/core.go Push, quantile.Quantile.Push"),("fan-out joined with a WaitGroup","aggregate.*.Push/Values/Clear")],
  observe=["return of every public call"])
p("C02","Concurrent use is free of data races",
  "Concurrent calls of the public methods of one shared metric, core, quantile, aggregate or sampler, and concurrent use of different ones by different goroutines, never access memory without synchronisation: no two goroutines touch the same memory, one of them writing, unless ordered by the Go memory model.",
  ["schedules","histories","configurations"],
  "every interleaving of concurrent calls, on the same object and on unrelated objects",
  "The suite runs with -race, but almost no test runs two API calls in parallel, so the detector only sees single-goroutine executions.",
  CORES+["util/math/math.go","quantile/quantile.go","quantile/heap_median.go","minmax/min.go","minmax/max.go","aggregate/simple_aggregate.go","aggregate/simple_joint_aggregate.go","sample/sample.go","joint/autocorr.go"],
  [("locks around all state","every metric"),("error collection mutex in fan-out goroutines","aggregate.*.Push/Values")],
  observe=["happens-before order of memory accesses"])
p("C03","Moment statistics equal the batch statistic of the retained values",
  "Mean, k-th sample central moment, standard deviation, skewness and excess kurtosis, and a univariate core's count, mean and power sums, always equal (up to floating-point rounding) the batch formula applied to exactly the last `window` finite values pushed since creation or the last Clear (all of them when the window is 0). Under concurrent pushes, reads and clears every returned value is the statistic of one moment in a single serial order consistent with real time; reading with no values is an error, and a defined standard deviation is never NaN.",
  ["schedules","histories","inputs","configurations"],
  "every concurrent history of Push/Value/Clear, every window (1, 2, ..., large, global), every order k, any stream length",
  "Tests push about ten fixed values into one or two window sizes from a single goroutine.",
  ["moment/core.go","moment/mean.go","moment/moment.go","moment/std.go","moment/skewness.go","moment/kurtosis.go","util/math/math.go"],
  [("incremental add/remove update of centralized sums","moment/core.go add, remove"),("ring buffer eviction of the oldest value","moment/core.go UnsafePush"),("lock around each read of several sums","moment/skewness.go Value, moment/kurtosis.go Value")],
  state=[("mean, sums, count","running centralized sums","moment/core.go Core"),("queue","values in the window","moment/core.go Core")],
  observe=["Value","Core.Count/Mean/Sum"])
p("C04","Exponentially weighted statistics follow the documented weighting",
  "EWMA, the k-th exponentially weighted moment and standard deviation, and exponentially weighted covariance and correlation equal (up to rounding) the weighted statistic over all values since creation or the last Clear, with weight d(1-d)^j for the value j pushes ago and (1-d)^(n-1) for the first one. Every value returned under concurrent pushes, reads and clears is that of one moment in a single serial order consistent with real time; reading with no values is an error.",
  ["schedules","histories","inputs","configurations"],
  "every concurrent history, every decay in (0,1), every order k, any stream length",
  "Tests use one decay, a handful of values and one goroutine; order sensitivity under concurrent pushes and re-initialisation of the first weight after Clear are not exercised.",
  ["moment/core.go","moment/ewma.go","moment/ewmmoment.go","moment/ewmstd.go","joint/core.go","joint/ewmcov.go","joint/ewmcorr.go"],
  [("decayed update of mean and sums","moment/core.go addDecay, joint/core.go addDecay")],
  observe=["Value","Core.Mean/Sum"])
p("C05","Joint statistics equal the batch statistic of the retained tuples",
  "Sample covariance and correlation, and a multivariate core's count, means and every power sum it tracks, equal (up to rounding) the batch formula applied to exactly the last `window` finite tuples pushed since creation or the last Clear, for every set of tracked exponent tuples, including overlapping ones. Under concurrent pushes, reads and clears every returned value is that of one moment in a single serial order consistent with real time, and no tuple is ever half applied.",
  ["schedules","histories","inputs","configurations"],
  "every concurrent history, window, number of variables and set of exponent tuples",
  "Tests track a single tuple set ({2,2}) with window 3 and five pushes; overlapping tuple sets with evictions are never pushed through.",
  ["joint/core.go","joint/cov.go","joint/corr.go","joint/tuple.go","joint/config.go","util/math/math.go"],
  [("incremental add/remove over all sub-tuples","joint/core.go add, remove"),("sums addressed by tuple hash","joint/tuple.go hash")],
  state=[("means, sums, newSums, count, queue","running joint sums and window","joint/core.go Core")],
  observe=["Value","Core.Count/Mean/Sum"])
p("C06","Autocovariance and autocorrelation pair each value with the one lag earlier",
  "Autocovariance and autocorrelation equal (up to rounding) the sample covariance and Pearson correlation over the last `window` pairs (x_t, x_(t-lag)) of the values pushed since creation or the last Clear (all pairs when the window is 0); with fewer than lag+1 values reading is an error. Under concurrent pushes, reads and clears the lag history and the window move together: every returned value is that of one moment in a single serial order consistent with real time.",
  ["schedules","histories","inputs","configurations"],
  "every concurrent history, lag >= 0 and window >= 0",
  "Tests use single-goroutine streams of a few values; Clear between filling the lag buffer and the window, and pushes racing with it, are not reached.",
  ["joint/autocorr.go","joint/autocov.go","joint/core.go"],
  [("lag queue guarded by the core lock","joint/autocorr.go Push, Clear"),("UnsafePush of the pair under the same lock","joint/autocov.go Push")],
  state=[("queue","last lag values","joint/autocorr.go Autocorr"),("core","window of pairs","joint/core.go")],
  observe=["Value"])
p("C07","Min and Max are exact over the retained window",
  "Min and Max return exactly the smallest and largest of the last `window` non-NaN values pushed since creation or the last Clear (of all of them when the window is 0), including with duplicates, infinities and monotone runs; with no values reading is an error. Under concurrent pushes, reads and clears every result is that of one moment in a single serial order consistent with real time.",
  ["schedules","histories","inputs","configurations"],
  "every concurrent history of Push/Value/Clear, window size and value order",
  "Tests push short fixed sequences through one window from one goroutine.",
  ["minmax/min.go","minmax/max.go"],
  [("monotonic deque plus ring buffer","minmax/max.go Push"),("mutex per call","minmax/*.go")],
  state=[("deque","candidates in the window","minmax/max.go Max"),("queue","values in the window","minmax/max.go Max")],
  observe=["Value"])
p("C08","Quantile, Median and IQR are exact for every implementation",
  "For every quantile in (0,1), interpolation method and underlying implementation (AVL, red-black, skip list with any options and any random levels), Quantile returns the documented interpolation between order statistics of exactly the last `window` values since creation or the last Clear (all when 0); Median and IQR equal the midpoint 0.5-quantile and the difference of the midpoint 0.75- and 0.25-quantiles of one same state. The result does not depend on the implementation, its random choices or the clock, and under concurrent pushes, reads and clears it is that of one moment in a single serial order consistent with real time.",
  ["schedules","histories","inputs","configurations"],
  "every concurrent history, window, implementation, skip-list option set, random stream and clock reading, interpolation and quantile; duplicates included",
  "Tests push ten distinct squares; the skip list runs with one seeded source; duplicates in multi-level skip lists and concurrent multi-quantile reads are not sampled.",
  ["quantile/quantile.go","quantile/median.go","quantile/iqr.go","quantile/impl.go","quantile/option.go","quantile/interpolation.go","quantile/ost/avl/node.go","quantile/ost/rb/node.go","quantile/skiplist/skiplist.go"],
  [("order.Statistic Select on the retained values","quantile/quantile.go Value"),("ring buffer eviction into Remove","quantile/quantile.go Push"),("two quantiles read under one read lock","quantile/iqr.go Value")],
  state=[("statistic","sorted multiset of the window","quantile/quantile.go Quantile"),("queue","values in arrival order","quantile/quantile.go Quantile")],
  observe=["Value"])
p("C09","HeapMedian is the exact median of the retained window",
  "HeapMedian returns the median (middle value, or mean of the two middle values) of exactly the last `window` values pushed since creation or the last Clear, for every window including 1, every order of values and duplicates, and never panics; with no values reading is an error. Under concurrent pushes, reads and clears every result is that of one moment in a single serial order consistent with real time.",
  ["schedules","histories","inputs","configurations"],
  "every concurrent history, window size and value order, over many evictions",
  "The tests check heap contents after a few evictions of one hand-made sequence with window 10; random orders over many window turns are not compared with a batch median.",
  ["quantile/heap_median.go","quantile/heap/heap.go"],
  [("two balanced heaps plus item queue","quantile/heap_median.go Push, rebalance"),("index bookkeeping","quantile/heap/heap.go Swap/Push/Pop")],
  state=[("lowHeap, highHeap","halves of the window","quantile/heap_median.go"),("queue","items in arrival order","quantile/heap_median.go")],
  observe=["Value"])
p("C10","Order-statistic containers behave as one sorted multiset",
  "AVL tree, red-black tree and skip list behave as a sorted multiset over any sequence of Add, Remove (of present or absent values), Clear, Select, Rank and Size: Select(k) is the k-th smallest value and nothing when k is out of range, Rank(x) counts the values strictly smaller than x also when x occurs several times, Remove takes out one occurrence. Answers do not depend on the skip list's random levels, options or clock seed, and any number of readers may run concurrently between writes without affecting them.",
  ["schedules","histories","inputs","configurations"],
  "every operation sequence with duplicates, every random level stream and clock seed, every interleaving of concurrent readers",
  "Tests build one nine-element container, check a few calls and use one fixed random seed; ranks of duplicated values and removals among equal values on several levels are not covered.",
  ["quantile/ost/avl/node.go","quantile/ost/avl/tree.go","quantile/ost/rb/node.go","quantile/ost/rb/tree.go","quantile/skiplist/skiplist.go","quantile/skiplist/option.go","quantile/order/order.go"],
  [("subtree sizes maintained by rotations","quantile/ost/avl/node.go, quantile/ost/rb/node.go"),("link widths","quantile/skiplist/skiplist.go Add/Remove")],
  state=[("size","subtree size","avl.Node, rb.Node"),("width","distance to next node per level","skiplist.Node")],
  observe=["Select","Rank","Size"])
p("C11","Clear makes every metric indistinguishable from a new one",
  "After Clear returns, on any metric, core, aggregate or order-statistic container in any state and however often it is called, every later sequence of operations gives the same results as on a freshly constructed object with the same configuration: nothing of the earlier stream (window contents, lag history, first-value weighting, counts) survives. This holds also when Clear ran concurrently with reads or other Clears.",
  ["schedules","histories","crash_points","configurations"],
  "Clear at every point of every history (empty, partly filled, full, wrapped window), on every metric kind",
  "Tests call Clear once and look at internal fields; they do not push again afterwards and compare.",
  CORES+["joint/autocorr.go","joint/autocov.go","minmax/min.go","minmax/max.go","quantile/quantile.go","quantile/heap_median.go","quantile/skiplist/skiplist.go","aggregate/simple_aggregate.go","aggregate/simple_joint_aggregate.go"],
  [("state reset and queue replacement under the lock","Clear/UnsafeClear of every metric")],
  observe=["results after Clear against a fresh twin"])
p("C12","Exposed locks give atomic batches and frozen snapshots",
  "Values pushed between a core's Lock and Unlock through the unlocked methods become visible to all other callers together or not at all, and while a caller holds the read lock of a core or quantile its reads all describe one and the same state, with every push and clear by others waiting until it is released. Readers holding the read lock can read through the unlocked accessors, and through the ordinary read methods, without blocking.",
  ["schedules","histories"],
  "every interleaving of lock sections, batches, plain pushes, reads and clears",
  "TestLock and TestQuantileRLock run one schedule; with more than one CPU they sometimes deadlock, and no test checks that a batch is all-or-nothing to readers.",
  CORES+["quantile/quantile.go"],
  [("RWMutex exposed through Lock/RLock and Unsafe* accessors","moment/core.go, joint/core.go"),("RLock/RUnlock","quantile/quantile.go")],
  observe=["reads inside and outside lock sections"])
p("C13","Aggregates push to every metric exactly once and read one snapshot",
  "Every value pushed to an aggregate is consumed exactly once, in the same order, by each of its metrics, and Values returns one entry per metric, keyed by its string form, all describing the state after the same prefix of pushes since the last Clear. Concurrent Push, Values and Clear calls behave as if executed one after another in an order consistent with real time.",
  ["schedules","histories","configurations"],
  "every interleaving of the fan-out goroutines with each other and with concurrent Push/Values/Clear callers, for any number and mix of metrics",
  "Tests use two mock metrics and one calling goroutine.",
  ["aggregate/simple_aggregate.go","aggregate/simple_joint_aggregate.go"],
  [("mutex around the whole fan-out, WaitGroup join","aggregate/*.go Push/Values/Clear")],
  observe=["Values","arguments received by each wrapped metric"])
p("C14","A failing metric in an aggregate is reported and contained",
  "If some wrapped metrics fail on a push, the call returns an error that includes the error of every failing metric, every other metric has still consumed the value exactly once, and the aggregate stays usable; if all succeed it returns no error. If any metric fails to give a value, Values returns an error including every such failure and no values; it succeeds again once no metric fails.",
  ["schedules","fault_sequences","configurations"],
  "every pattern of failing and slow wrapped metrics over time and every interleaving of the fan-out goroutines and callers",
  "Tests fail two of three mocks on the only push; the collection of several errors from concurrent goroutines is not interleaved, and nothing is checked after the failure.",
  ["aggregate/simple_aggregate.go","aggregate/simple_joint_aggregate.go"],
  [("errors collected under a mutex and joined","aggregate/*.go Push/Values")],
  observe=["error of Push and Values","arguments received by each wrapped metric"])
p("C15","A reservoir always holds a valid sample",
  "After any concurrent pushes the reservoir's sample holds min(Size, number of pushes) of the pushed items, each push appearing at most once, and holds all of them while no more than Size were pushed; a sample taken during the pushes only contains items whose push had started. The returned slice is the caller's own: changing it affects neither the reservoir nor later samples.",
  ["schedules","histories","configurations"],
  "every interleaving of concurrent Push and Sample calls, every Size >= 0 and every random stream",
  "Tests push ten items from one goroutine with one seed.",
  ["sample/sample.go"],
  [("mutex around count, append and replace","sample/sample.go Push"),("copy on Sample","sample/sample.go Sample")],
  state=[("sample, count","current sample and number of items seen","sample/sample.go Reservoir")],
  observe=["Sample"])
p("C16","Reservoir sampling is uniform",
  "With a fair random source, after n pushes every pushed item is in the sample with the same probability Size/n, every pair of items with the same joint probability, and this holds whatever the interleaving of the pushing goroutines.",
  ["schedules","histories","configurations"],
  "the random source over all Size and n, and every interleaving of pushers",
  "A unit test with one seed fixes one outcome; a distribution cannot be settled by it.",
  ["sample/sample.go"],
  [("replacement index drawn uniformly among all items seen","sample/sample.go Push")],
  observe=["inclusion frequencies of Sample over many simulated random streams"])
p("C17","Rejected calls fail with an error and change nothing",
  "A call that cannot be served (pushing the wrong number of values, using a moment or joint metric before it was initialised, reading an empty metric, asking for a quantile outside (0,1), for an untracked variable or power sum, constructing with a negative window or lag, a decay outside (0,1), a non-positive order, an invalid option, or tuples of differing length, merged or not) returns an error rather than a result or a panic. Interleaved at any point with concurrent valid calls, it leaves the results of those calls and all later ones unchanged.",
  ["schedules","histories","fault_sequences","inputs"],
  "every placement of malformed calls inside concurrent histories of valid ones",
  "Tests make each malformed call once on an idle object and do not look at the state afterwards.",
  CORES+["moment/config.go","joint/config.go","joint/cov.go","joint/corr.go","joint/ewmcov.go","joint/ewmcorr.go","quantile/quantile.go","quantile/option.go","quantile/skiplist/option.go","minmax/min.go","minmax/max.go"],
  [("argument checks before any state change","Push/Value of each metric"),("config validation","moment/config.go, joint/config.go")],
  observe=["error results","later results"])
p("C18","Metrics do not share memory with their callers",
  "What a caller passes in is captured at the call: reusing or overwriting a slice of values after Push returned, or a config, exponent tuple or option list after the constructor returned, never changes later results, and no call modifies the caller's slices or config. What is returned belongs to the caller: changing a returned map or slice never changes the metric.",
  ["schedules","histories","inputs"],
  "every history in which callers reuse their buffers at any later point, on every metric taking or returning slices, maps or pointers",
  "Tests always pass fresh literals and never reuse a buffer after handing it in.",
  ["joint/core.go","moment/core.go","joint/config.go","quantile/median.go","quantile/iqr.go","aggregate/simple_aggregate.go","aggregate/simple_joint_aggregate.go","sample/sample.go"],
  [("copy of pushed values kept in the window","joint/core.go UnsafePush"),("copy of the sample","sample/sample.go Sample")],
  observe=["results after the caller overwrote what it passed or received"])
p("C19","Unrelated metrics never influence each other",
  "What one metric reports depends only on its own configuration and the calls made on it: constructing, pushing to, reading or clearing any number of other metrics of any kind before, after or concurrently in other goroutines never changes its results.",
  ["schedules","histories","configurations"],
  "every interleaving of operations on disjoint sets of metrics, including high-order moments and large exponent tuples",
  "Tests use one metric at a time; package-level state shared between metrics is only ever used by one goroutine.",
  ["util/math/math.go","moment/core.go","moment/config.go","joint/core.go","joint/config.go","quantile/impl.go","quantile/skiplist/skiplist.go"],
  [("no mutable package-level state reachable from metrics","all packages")],
  state=[("package-level variables","shared tables and defaults","util/math/math.go, */config.go")],
  observe=["Value of each metric against the same metric run alone"])
p("C20","Metrics sharing a core report the same as dedicated ones",
  "When the configs of several moment metrics (or of several joint metrics) with equal windows and decays are merged, a core is built from the result and set on all of them, then pushing each value once into the shared core makes every metric report what it would report with a core of its own, whatever the order of merging and however the tracked sums overlap. This holds under concurrent pushes, reads and clears, every read being that of one moment in a single serial order consistent with real time.",
  ["schedules","histories","configurations"],
  "every subset and order of metrics merged into one core, every window or decay, every concurrent history on it",
  "Tests check the merged config structurally; no test pushes values through a core built from a merged config and evicts them again.",
  ["moment/config.go","joint/config.go","moment/core.go","joint/core.go"],
  [("union of tracked sums","moment/config.go MergeConfigs, joint/config.go MergeConfigs/simplifySums"),("SetCore","every moment and joint metric")],
  observe=["Value of each attached metric"])
p("C21","Work per operation stays within the documented growth",
  "However long the stream and whatever the order of values (sorted, reversed, all equal, random), a single Push or Value on Quantile, Median, IQR and the order-statistic containers takes a number of execution steps that grows at most logarithmically (expected, for the skip list) with the number of retained values, HeapMedian likewise, and a Push or Value on moment, joint and min/max metrics takes, on average over the stream, a number of steps independent of the stream length and the window.",
  ["histories","inputs","configurations"],
  "every stream order and length, window, and fair random stream of the skip list",
  "Tests use at most ten values, where a degenerate tree and a balanced one cost the same; benchmarks only time random data.",
  ["complexity.md","quantile/ost/avl/node.go","quantile/ost/rb/node.go","quantile/skiplist/skiplist.go","quantile/heap_median.go","minmax/max.go","moment/core.go","joint/core.go"],
  [("rebalancing after insert and delete","quantile/ost/*/node.go"),("geometric levels","quantile/skiplist/skiplist.go randLevel"),("monotonic deque","minmax/*.go")],
  observe=["simulated execution steps per call"])
p("C22","Accuracy on ill-conditioned streams",
  "For streams whose spread is tiny relative to their magnitude, or which mix hugely different magnitudes, moment and joint statistics lose no more accuracy than the numerically stable update formulas of the cited paper guarantee.",
  ["inputs"],"every finite stream","Tests compare nine decimals on small integers.",
  ["moment/core.go","joint/core.go"],[("Pebay et al. update formulas","moment/core.go add, joint/core.go add")],observe=["Value"])
p("C23","Valid configurations are accepted and described by stable strings",
  "Every configuration within the documented domain is accepted by the constructors, and String() returns a stable description naming the metric and its parameters.",
  ["inputs","configurations"],"every valid configuration","Tests check a few configurations.",
  ["moment/config.go","joint/config.go","quantile/option.go"],[("validateConfig","*/config.go"),("String","every metric")],observe=["constructor error","String"])
with open(os.path.join(os.path.dirname(__file__),"..","properties.jsonl"),"w") as f:
    for x in P:
        assert len(x["title"])<=80,x["id"]
        f.write(json.dumps(x)+"\n")
print(len(P))
