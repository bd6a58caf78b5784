import json
P=[]
def p(id,title,st,over,qt,why,files,mech,observe=None,state=None,hook=None):
    d=dict(id=id,title=title,statement=st,quantifier=dict(over=over,text=qt),why_tests_cant=why,
      anchors=dict(files=["boost/asynchronous/"+f for f in files],mechanism=[dict(name=n,where="boost/asynchronous/"+w) for n,w in mech]))
    if state: d["anchors"]["state"]=[dict(name=n,meaning=m,where="boost/asynchronous/"+w) for n,m,w in state]
    if observe: d["anchors"]["observe_at"]=observe
    d["anchors"]["hook_needed"]=hook
    P.append(d)

p("C01","Every posted task is executed exactly once",
 "A task posted to a scheduler (single-thread, thread pool, multi-queue pool, stealing pools, multiple-thread, io pool, composite), from outside or from inside one of its own tasks, is executed exactly once, by a thread of a pool it was posted to or of a pool allowed to steal from it. No schedule of the posting and worker threads makes a task run twice, get lost, or be skipped because another task threw.",
 ["schedules","inputs"],"all interleavings of posters and workers, all task counts, priorities and throwing tasks",
 "tests post a few tasks under one OS schedule; lost or duplicated tasks need a specific interleaving of push, pop, steal and shutdown",
 ["scheduler/threadpool_scheduler.hpp","scheduler/multiqueue_threadpool_scheduler.hpp","scheduler/stealing_threadpool_scheduler.hpp","scheduler/stealing_multiqueue_threadpool_scheduler.hpp","scheduler/single_thread_scheduler.hpp","scheduler/multiple_thread_scheduler.hpp","scheduler/io_threadpool_scheduler.hpp","scheduler/composite_threadpool_scheduler.hpp","scheduler/detail/single_queue_scheduler_policy.hpp","scheduler/detail/multi_queue_scheduler_policy.hpp"],
 [("worker loop execute_one_job/run","scheduler/threadpool_scheduler.hpp"),("post to a queue chosen by priority or position","scheduler/detail/multi_queue_scheduler_policy.hpp"),("try_steal over the other queues","scheduler/multiqueue_threadpool_scheduler.hpp")],
 ["side effect of each task (per-task run counter)"])
p("C02","post_future delivers exactly the task's outcome",
 "The future returned by post_future (and interruptible_post_future when not interrupted) becomes ready exactly when its task, including every continuation the task started, has finished, and holds exactly the value the task returned or the exception it threw. It never stays unready after the task ran, and never holds another task's result.",
 ["schedules","inputs","fault_sequences"],"all values, throwing and non-throwing tasks, void / value / move-only results, plain tasks and tasks returning continuations",
 "tests check a handful of fixed values on one schedule; which of value, exception or continuation path is taken is an input",
 ["post.hpp","detail/continuation_impl.hpp","continuation_task.hpp"],
 [("post_future_helper tasks set promise from value/exception/continuation","post.hpp")],["std::future::get"])
p("C03","A single-threaded world runs its tasks serially and in posting order",
 "Tasks posted with equal priority by one thread to a single-thread scheduler are executed in posting order, never overlapping, always by that scheduler's one thread. In a multiple-thread scheduler the tasks of one servant (one queue) never overlap and keep their posting order although threads change.",
 ["schedules","inputs"],"all interleavings of several posters with the scheduler thread(s)",
 "order and mutual exclusion are properties of all interleavings; a test sees one",
 ["scheduler/single_thread_scheduler.hpp","scheduler/multiple_thread_scheduler.hpp","queue/lockfree_queue.hpp","queue/guarded_deque.hpp","queue/threadsafe_list.hpp"],
 [("one thread pops one FIFO queue","scheduler/single_thread_scheduler.hpp"),("per-queue try-lock","scheduler/multiple_thread_scheduler.hpp")],["order and overlap of task bodies, boost::this_thread::get_id()"])
p("C04","Queue containers obey priorities",
 "With an any_queue_container, a task posted with priority k goes to the k-th queue (priorities beyond the last one go to the last), and a pop returns a task from the lowest-numbered enabled non-empty queue. Disabled queues keep their tasks until re-enabled, reported queue sizes equal the number of waiting tasks per queue, and priority 0 lets the push policy choose a queue without losing the task.",
 ["inputs","histories"],"all sequences of push (any size_t priority), pop, steal, enable and disable on any arrangement of queues",
 "tests use one arrangement and a few fixed priorities; boundary priorities and mixed histories are not reached",
 ["queue/any_queue_container.hpp","queue/find_queue_position.hpp","queue/queue_converter.hpp"],
 [("any_queue_container::push/try_pop/try_steal/enable_queue","queue/any_queue_container.hpp"),("default_find_position::find_position","queue/find_queue_position.hpp")],["job returned by pop/try_pop/try_steal, get_queue_size"])
p("C05","Job queues neither lose, duplicate nor reorder jobs",
 "For every queue type of the library, every job pushed comes out exactly once of pop, try_pop or try_steal, with its content intact; try_pop and try_steal report failure only when the queue was empty at some point during the call. FIFO queues return jobs in push order for any history, including growth beyond the initial capacity, and the stack returns the most recently pushed one; the job leaves no copy behind in the queue.",
 ["histories","schedules","inputs"],"all operation histories up to a bound, all initial capacities, concurrent producers and consumers",
 "tests push and pop in one or two fixed patterns; wrap-around, growth and races need particular histories",
 ["queue/circular_queue.hpp","queue/guarded_deque.hpp","queue/lockfree_queue.hpp","queue/lockfree_spsc_queue.hpp","queue/lockfree_stack.hpp","queue/threadsafe_list.hpp","extensions/tbb/tbb_concurrent_queue.hpp","queue/detail/lockfree_size.hpp"],
 [("push/pop/try_pop/try_steal of each queue","queue/circular_queue.hpp")],["jobs returned"])
p("C06","Callbacks arrive once, in the posting servant's thread, with the right result",
 "When a servant posts work with post_callback (or interruptible_post_callback, post_self, make_safe_callback, make_lambda_continuation based work), the callback runs exactly once, in the thread of the servant's own scheduler and never in the pool thread, and receives exactly the value or exception the work produced. The work itself runs in the worker pool, and tasks with different callbacks never get each other's results.",
 ["schedules","inputs","fault_sequences"],"all values, throwing or not, all completion orders and interleavings of pool and servant threads",
 "tests run each case once and mostly check that a callback arrived",
 ["trackable_servant.hpp","post.hpp","checks.hpp"],
 [("post_callback helper posts the callback back to the weak scheduler","post.hpp"),("make_safe_callback","trackable_servant.hpp")],["thread id and argument in the callback"])
p("C07","Nothing is called back into a dead servant",
 "Once a trackable servant is destroyed, none of its pending callbacks or safe callbacks is invoked, and tasks it posted which had not started are not executed; work already running finishes without touching the servant. This holds wherever the destruction falls relative to posting, starting, finishing and delivering the work.",
 ["schedules","histories"],"every point at which the servant may die relative to the posted work",
 "tests destroy the servant at one or two hand-picked points using sleeps",
 ["trackable_servant.hpp","checks.hpp","post.hpp","servant_proxy.hpp"],
 [("check_alive functor on a weak tracker","checks.hpp"),("alive check before task and before callback","trackable_servant.hpp")],["whether task / callback bodies run"])
p("C08","A servant lives entirely inside its scheduler's thread",
 "A servant created through a servant_proxy is constructed, called and destroyed only in its scheduler's thread, whichever thread holds, calls or drops the proxies; member calls through one proxy are executed once each, in call order, with the arguments given, and their futures or callbacks get the member's own return value or exception. The destructor runs exactly once, after all calls posted earlier, when the last proxy is gone.",
 ["schedules","inputs","histories"],"all argument values, throwing constructors and members, all orders of copying and dropping proxies, all interleavings",
 "tests use one client thread, fixed arguments and one schedule",
 ["servant_proxy.hpp","scheduler_shared_proxy.hpp","any_scheduler.hpp"],
 [("BOOST_ASYNC_*_MEMBER macros post to the servant","servant_proxy.hpp"),("servant_proxy constructor/destructor post construction and destruction","servant_proxy.hpp")],["thread id in ctor/member/dtor, values in futures"])
p("C09","Shutdown runs what was posted, then joins",
 "Destroying the last proxy of a scheduler lets every task posted before be executed, then ends and joins all its threads, without deadlock and without a task running after the join, also when a task throws or blocks shortly, or when the last proxy is dropped by another thread or by a task of another scheduler (a task of the scheduler itself must not own it: the documentation forbids such cycles). A weak scheduler locked afterwards is invalid, and one locked earlier keeps the scheduler running until it is released.",
 ["schedules","histories"],"all interleavings of shutdown with posting and running tasks, any number of workers",
 "tests destroy idle schedulers; the races are between the termination job, late posts and running tasks",
 ["scheduler_shared_proxy.hpp","scheduler_weak_proxy.hpp","scheduler/threadpool_scheduler.hpp","scheduler/single_thread_scheduler.hpp","scheduler/detail/scheduler_helpers.hpp","scheduler/detail/lockable_weak_scheduler.hpp"],
 [("default_termination_task and drain loop","scheduler/threadpool_scheduler.hpp"),("internal_scheduler_aspect destructor joins","scheduler_shared_proxy.hpp")],["task run counters after the proxy's destructor"])
p("C10","Interruption stops only what has not finished",
 "Interrupting a posted task before it starts means its body never runs; interrupting it while it runs delivers one interruption to the thread running it and to its started subtasks; interrupting it after it completed does not change its result. The call never blocks forever, other tasks on the same threads still run and are not interrupted, and interrupting twice is harmless.",
 ["schedules","histories"],"every position of one or two interrupt calls relative to queueing, start, run and completion",
 "tests rely on sleeps to hit one position; the windows between the state changes are never reached",
 ["scheduler/detail/interrupt_state.hpp","scheduler/detail/interruptible_job.hpp","post.hpp"],
 [("interrupt_state::interrupt/run/complete","scheduler/detail/interrupt_state.hpp"),("interruptible_job::operator()","scheduler/detail/interruptible_job.hpp")],["whether bodies run; thread_interrupted at interruption points"])
p("C11","A continuation fires once, after all its subtasks, with every result in place",
 "A continuation created over n subtasks (fixed list, or sequence; callback-based or future-based) runs its callback exactly once, after every subtask has finished, whatever order they finish in; slot i holds subtask i's value or exception. The result it sets becomes the result of the task that created it, through any nesting.",
 ["schedules","inputs","fault_sequences"],"all completion orders of the subtasks, all values, any subset of subtasks throwing, all n up to a bound",
 "completion orders and failing subsets are exponential; tests take one of each",
 ["detail/continuation_impl.hpp","continuation_task.hpp"],
 [("subtask_finished counts ready subtasks","detail/continuation_impl.hpp"),("create_callback_continuation*/create_continuation*","continuation_task.hpp")],["arguments and number of callback runs"])
p("C12","Timed and combined continuations decide correctly",
 "A future-based continuation with a timeout runs its callback exactly once, either with all results or, when time runs out first, with the results available so far and the others not ready; late subtasks do not call it again; a duration of 0 never runs out. A callback-based continuation with a timeout, which has no way to tell a missing result, runs exactly once with all results. any_of and all_of style combinations complete once: with the first result (any_of) or with all of them (all_of).",
 ["schedules","inputs","fault_sequences"],"all orders of completion and time-out events, any subset of failing subtasks",
 "time-out tests depend on sleeps and are flaky; races of time-out and completion are not reached",
 ["detail/continuation_impl.hpp","algorithm/all_of.hpp","algorithm/any_of.hpp"],
 [("timeout checks in callback_continuation","detail/continuation_impl.hpp"),("any_of/all_of","algorithm/any_of.hpp")],["callback arguments and count"])
p("C13","Exceptions thrown by user functors reach the caller, once",
 "If the user's functor (or the copy, move or assignment of an element) throws in any chunk of a parallel algorithm, the algorithm's result (future or callback) is that exception - one of those thrown - and not a value; otherwise it is the value. It always becomes ready, no matter which element, how many elements or at which cutoff the functor throws, and also when a source continuation given instead of the range fails.",
 ["inputs","fault_sequences","schedules"],"any subset of calls throwing, all sizes, cutoffs and chunk completion orders",
 "tests throw from a fixed element; the failing chunk decides which of the join branches must forward the exception",
 ["algorithm/parallel_for.hpp","algorithm/parallel_reduce.hpp","algorithm/parallel_sort.hpp","algorithm/parallel_transform.hpp","algorithm/parallel_count.hpp","algorithm/parallel_find_all.hpp","algorithm/parallel_partition.hpp","algorithm/parallel_scan.hpp","algorithm/parallel_invoke.hpp"],
 [("catch(...) set_exception in chunk tasks, expected::get in join callbacks","algorithm/parallel_for.hpp")],["future state"])
p("C14","Element-wise algorithms act on each element exactly once",
 "parallel_for, parallel_for_each, parallel_transform, parallel_fill, parallel_generate, parallel_iota, parallel_replace(_if), parallel_reverse, parallel_swap_ranges and the grouped variants leave the same result as their sequential counterpart, calling the user's functor exactly once per element and touching nothing outside the range. This holds for every length (also empty), cutoff, overload (iterators, range reference, moved range, continuation) and execution order of the chunks.",
 ["inputs","schedules"],"all lengths and cutoffs up to a bound, all element values, all chunk execution orders",
 "tests use one long range and one cutoff; off-by-one errors show at particular length/cutoff relations",
 ["algorithm/parallel_for.hpp","algorithm/parallel_for_each.hpp","algorithm/parallel_transform.hpp","algorithm/parallel_fill.hpp","algorithm/parallel_generate.hpp","algorithm/parallel_iota.hpp","algorithm/parallel_replace.hpp","algorithm/parallel_reverse.hpp","algorithm/parallel_swap_ranges.hpp","algorithm/parallel_grouped_for.hpp","algorithm/parallel_grouped_transform.hpp","algorithm/detail/safe_advance.hpp"],
 [("recursive split with find_cutoff","algorithm/detail/safe_advance.hpp")],["range contents after the future is ready"])
p("C15","Copying algorithms produce exactly the sequential output",
 "parallel_copy, parallel_copy_if, parallel_move, parallel_remove_copy(_if), parallel_replace_copy(_if), parallel_partition_copy and parallel_unique write exactly the elements, in exactly the order and positions, of their std counterparts, return the same end position(s) where they return one, and write nothing else. This holds for all lengths, cutoffs, selection patterns and chunk orders.",
 ["inputs","schedules"],"all selection patterns (symbolic predicate outcome per element), lengths, cutoffs, chunk orders",
 "which elements are selected in which chunk decides the output offsets; tests fix one pattern",
 ["algorithm/parallel_copy.hpp","algorithm/parallel_copy_if.hpp","algorithm/parallel_move.hpp","algorithm/parallel_remove_copy.hpp","algorithm/parallel_replace_copy.hpp","algorithm/parallel_partition_copy.hpp","algorithm/parallel_unique.hpp"],
 [("prefix counts then offset copies","algorithm/parallel_copy_if.hpp")],["destination contents and returned iterator"])
p("C16","Reductions and counts equal the sequential result",
 "parallel_reduce, parallel_inner_product, parallel_count(_if), parallel_all_of/any_of/none_of and parallel_extremum return what the sequential algorithm returns for any associative operation: operands are combined in range order, every element exactly once, without requiring commutativity. This holds for all lengths, cutoffs, overloads and chunk completion orders.",
 ["inputs","schedules"],"all element values and an associative non-commutative operation, lengths and cutoffs up to a bound, all completion orders",
 "tests use addition, which hides order and most boundary errors",
 ["algorithm/parallel_reduce.hpp","algorithm/parallel_inner_product.hpp","algorithm/parallel_count.hpp","algorithm/parallel_all_of.hpp","algorithm/parallel_any_of.hpp","algorithm/parallel_none_of.hpp","algorithm/parallel_extremum.hpp"],
 [("join of left and right subresults","algorithm/parallel_reduce.hpp")],["returned value"])
p("C17","Searches and comparisons find what the sequential algorithm finds",
 "parallel_find_all, parallel_find_end, parallel_find_first_of, parallel_search, parallel_search_n, parallel_adjacent_find, parallel_mismatch, parallel_equal, parallel_lexicographical_compare, parallel_is_sorted(_until style), parallel_is_partitioned and parallel_kmp return exactly what the sequential algorithm returns on the same input. Matches straddling chunk boundaries, several matches, no match, empty needles and lengths below the cutoff included.",
 ["inputs","schedules"],"all sequences over a small alphabet up to a length bound, all cutoffs, chunk orders",
 "a match straddling a chunk boundary needs a specific position/cutoff relation",
 ["algorithm/parallel_find_all.hpp","algorithm/parallel_find_end.hpp","algorithm/parallel_find_first_of.hpp","algorithm/parallel_search.hpp","algorithm/parallel_search_n.hpp","algorithm/parallel_adjacent_find.hpp","algorithm/parallel_mismatch.hpp","algorithm/parallel_equal.hpp","algorithm/parallel_lexicographical_compare.hpp","algorithm/parallel_is_sorted.hpp","algorithm/parallel_is_partitioned.hpp","algorithm/parallel_kmp.hpp"],
 [("chunk scan plus boundary check on join","algorithm/parallel_search.hpp")],["returned position / value"])
p("C18","Sorting yields a sorted permutation, stable where promised",
 "parallel_sort, parallel_stable_sort, parallel_quicksort, the in-place and the spreadsort variants leave (or return) a permutation of the input that is sorted by the given comparison, and the stable ones keep the order of equivalent elements. This holds for every input, length, cutoff, overload and chunk order, and no element is lost or duplicated.",
 ["inputs","schedules"],"all inputs up to a length bound (symbolic elements), all cutoffs, chunk orders",
 "tests sort random or already sorted data of one size; ties, tiny ranges and length/cutoff relations are not enumerated",
 ["algorithm/parallel_sort.hpp","algorithm/parallel_sort_inplace.hpp","algorithm/parallel_quicksort.hpp","algorithm/detail/parallel_sort_helper.hpp"],
 [("recursive split, merge of sorted halves","algorithm/parallel_sort.hpp"),("partition and recurse","algorithm/parallel_quicksort.hpp")],["range contents"])
p("C19","Selection algorithms place the right elements",
 "parallel_nth_element puts at the n-th place the element a full sort would put there, with no smaller element after it and no greater before it; parallel_partial_sort puts the smallest (middle-begin) elements sorted at the front. Both only permute the range, for every input, position, length and cutoff.",
 ["inputs","schedules"],"all inputs up to a length bound, every nth/middle position (including begin and end), cutoffs, chunk orders",
 "tests use one position on random data without ties",
 ["algorithm/parallel_nth_element.hpp","algorithm/parallel_partial_sort.hpp"],
 [("partition and recurse on one side","algorithm/parallel_nth_element.hpp")],["range contents"])
p("C20","Partitioning separates exactly by the predicate",
 "parallel_partition and parallel_stable_partition only permute the range so that all elements satisfying the predicate precede all others, and return the boundary; the stable variant preserves relative order in both groups. This holds for every pattern of predicate outcomes, length, cutoff, thread count and chunk order.",
 ["inputs","schedules"],"all predicate patterns up to a length bound, cutoffs, thread numbers, chunk orders",
 "the block-swapping scheme has corner cases for particular patterns and lengths that random data seldom hits",
 ["algorithm/parallel_partition.hpp","algorithm/parallel_stable_partition.hpp"],
 [("block neutralisation and final sequential phase","algorithm/parallel_partition.hpp"),("prefix count and scatter","algorithm/parallel_stable_partition.hpp")],["range contents, returned iterator"])
p("C21","Scans equal the sequential prefix operation",
 "parallel_partial_sum, parallel_scan, parallel_inclusive_scan, parallel_exclusive_scan and the transform variants write at each position the fold of the preceding elements (with the initial value where given) that the sequential algorithm writes, for any associative operation, and return the same end or total (the total of an empty range is T()). This holds for all lengths, cutoffs and chunk orders.",
 ["inputs","schedules"],"all values, associative non-commutative operation, lengths and cutoffs up to a bound, chunk orders",
 "scan tests use addition on ones and one cutoff, and most of them do not even compile in this tree",
 ["algorithm/parallel_scan.hpp","algorithm/parallel_inclusive_scan.hpp","algorithm/parallel_exclusive_scan.hpp","algorithm/parallel_partial_sum.hpp","algorithm/parallel_transform_inclusive_scan.hpp","algorithm/parallel_transform_exclusive_scan.hpp"],
 [("two-phase scan: chunk reductions, then chunk scans","algorithm/parallel_scan.hpp")],["destination contents"])
p("C22","Merging and grouping keep every element in its place",
 "parallel_merge of two sorted ranges produces their sorted stable merge (equivalent elements of the first range before those of the second). parallel_group_by, grouped_for, grouped_transform and parallel_flatten keep every element exactly once, in the group or position the sequential operation gives it.",
 ["inputs","schedules"],"all pairs of sorted inputs up to a length bound with ties, cutoffs, chunk orders",
 "tests merge large random ranges; the split by binary search errs only on ties and on unequal lengths",
 ["algorithm/parallel_merge.hpp","algorithm/parallel_group_by.hpp","algorithm/parallel_flatten.hpp"],
 [("split of the larger range at its middle and binary search in the other","algorithm/parallel_merge.hpp")],["destination contents, returned iterator"])
p("C23","Composed algorithms behave as the composition",
 "then, if_then_else / if_else, parallel_invoke, invoke, all_of, any_of and passing one algorithm's continuation as the range of the next give the result of running the steps one after the other: a step starts only after the previous one has finished, gets its result, only the chosen branch runs, and an exception in a step skips the later ones and becomes the result. parallel_invoke runs each given task once and returns each one's outcome in its place.",
 ["inputs","schedules","fault_sequences"],"all values, branch conditions, throwing steps and completion orders",
 "tests chain fixed non-throwing steps",
 ["algorithm/then.hpp","algorithm/if_then_else.hpp","algorithm/if_else.hpp","algorithm/invoke.hpp","algorithm/parallel_invoke.hpp"],
 [("on_done of the inner continuation sets the outer result","algorithm/then.hpp")],["result value and order of side effects"])
p("C24","The asynchronous vector behaves like std::vector",
 "Every sequence of operations on boost::asynchronous::vector with a thread pool - construction, assignment, push/emplace, insert, erase, resize, reserve, clear, shrink, swap, comparison, element access - gives the contents, sizes and returned positions std::vector gives. The asynchronous operations (async_push_back, async_resize, async_reserve, async_shrink_to_fit, async_merge_containers, make_asynchronous_range) do the same. Each element constructed is destroyed exactly once and none is used outside its lifetime; when a constructor throws while elements are constructed in place (construction, resize, reserve) the exception reaches the caller, the elements constructed so far are destroyed once and the contents stay as they were; when insert, emplace, erase, assignment or a push_back throws, the vector keeps its basic guarantee (a failed push_back changes nothing) and no element is leaked or destroyed twice.",
 ["histories","inputs","fault_sequences"],"all operation sequences up to a bound, all values and positions, a throwing copy at any point",
 "tests call each operation once on one size; capacity boundaries, insert/erase positions and throwing copies are not enumerated",
 ["container/vector.hpp","container/algorithms.hpp","algorithm/parallel_placement.hpp","algorithm/parallel_move_if_noexcept.hpp"],
 [("parallel placement, copy and delete over raw storage","container/vector.hpp")],["contents, live-object counts"])
p("C25","Diagnostics record every task once and in order",
 "With loggable jobs every named task that ran appears exactly once in the scheduler's diagnostics under its own name, with posted <= started <= finished times, the failed flag exactly for tasks that threw, the interrupted flag exactly for interrupted ones, and the thread that executed it; running tasks appear as current and no longer afterwards. Logging changes no result.",
 ["inputs","schedules","fault_sequences"],"all names, throwing subsets, task counts, clock readings (any non-decreasing sequence)",
 "tests look at one history with real clocks",
 ["diagnostics/default_loggable_job.hpp","diagnostics/diagnostics_table.hpp","diagnostics/diagnostic_item.hpp","job_traits.hpp","scheduler_diagnostics.hpp"],
 [("set_posted/started/finished_time, set_failed, add_diagnostic in the worker loop","job_traits.hpp"),("diagnostics_table","diagnostics/diagnostics_table.hpp")],["scheduler_diagnostics totals/current"])
p("C26","Events reach exactly the current subscribers",
 "A published event is delivered once to every subscriber of that event type (and of a matching topic) and to nobody else, in the subscriber's own thread world; subscribers that unsubscribed or whose scheduler is gone get nothing. Delivery order to one subscriber follows publication order, and publishing, subscribing or unsubscribing never crashes or loops, also from within a handler.",
 ["histories","inputs","schedules"],"all sequences of subscribe, unsubscribe and publish up to a bound",
 "tests use a fixed subscribe-publish-unsubscribe sequence",
 ["notification/local_subscription.hpp","notification/notification_proxy.hpp","notification/topics.hpp"],
 [("local_subscription subscribe/unsubscribe/publish","notification/local_subscription.hpp")],["handler invocations"])
p("C27","Topic matching follows the topic grammar",
 "Topics are elements separated by '/', trailing separators do not count. A subscription matches a publication exactly when the documented rules say so: equal topics match, a wildcard element stands for any one non-empty element, and a shorter subscription matches the topics below it. The answer depends only on the two topics.",
 ["inputs"],"all pairs of topics up to a number of elements over symbolic names",
 "tests try a handful of pairs",
 ["notification/topics.hpp"],
 [("channel_topic matching","notification/topics.hpp")],["bool result"])
p("C28","expected holds exactly one of value or exception",
 "An expected object holds a value or an exception, tells which, and get() returns that value or rethrows that exception; copying, moving, assigning and swapping transfer this faithfully whatever both sides held before; an exception set wins over a later set_value. No value is lost, destroyed twice or leaked.",
 ["histories","inputs"],"all sequences of construct/copy/move/assign/set/get up to a bound, all values",
 "tests never assign a value over an exception and the like",
 ["expected.hpp"],
 [("expected<T>, expected<void>","expected.hpp")],["get(), has_value(), has_exception()"])
p("C29","Composite pools route each task to the pool asked for",
 "In a composite pool a task posted with queue index k runs in sub-pool k (0 leaves the choice open, indexes beyond the number of pools go to a valid pool), stolen only by pools that may steal; sizes, thread ids and diagnostics reported are those of the sub-pools. Tasks posted to any sub-pool run exactly once even if the sub-pools have different loads.",
 ["inputs","schedules"],"all priorities/indexes (full size_t range), pool arrangements up to a bound",
 "tests use two pools and index 1 and 2",
 ["scheduler/composite_threadpool_scheduler.hpp","any_shared_scheduler_proxy.hpp","queue/queue_converter.hpp"],
 [("find_position on pools and priority translation","scheduler/composite_threadpool_scheduler.hpp")],["executing thread id"])
p("C30","Range splitting never leaves the range and always progresses",
 "For any range and any positive cutoff the split point every parallel algorithm uses lies strictly inside or at the end of the range, each leaf chunk is at most cutoff long (for integer ranges with cutoff 1, at most two), and the chunks cover the range without gap or overlap. This holds for random-access, bidirectional and forward iterators and integers, for all lengths and cutoffs up to the full width of the difference type.",
 ["inputs"],"all lengths and cutoffs (64-bit) for integral/lazy iterators; bounded lengths for node iterators",
 "overflow and rounding in the split arithmetic show only for extreme lengths or cutoffs",
 ["algorithm/detail/safe_advance.hpp","algorithm/detail/helpers.hpp","helpers/lazy_irange.hpp"],
 [("find_cutoff/safe_advance","algorithm/detail/safe_advance.hpp")],["returned iterator"])
p("C31","Lazy ranges and counting helpers are faithful random-access ranges",
 "An irange/lazy_irange iterator behaves as a random-access iterator over func(i): dereferencing after any mix of ++, --, +=, -=, +, - and distance gives the element at that position, comparisons agree with positions, and algorithms over it see each index exactly once.",
 ["inputs"],"all 64-bit start positions and offsets without overflow",
 "tests walk the range forward once",
 ["helpers/lazy_irange.hpp"],
 [("lazy_irange iterator facade","helpers/lazy_irange.hpp")],["dereferenced values"])
p("C32","Type-erased jobs and bound calls are moved, run and destroyed faithfully",
 "A callable wrapped into a library job (any_callable, loggable job, move_bind, continuation wrapper) and moved or copied through queues is invoked with its own state and arguments, moved-only arguments arrive intact, and each captured object is destroyed exactly once - for a task created in a servant's world, in that world's thread.",
 ["histories","schedules","inputs"],"all sequences of move/copy/invoke/destroy up to a bound; all interleavings of execution and destruction",
 "tests check that the result is right, not that captured objects are neither leaked nor destroyed twice or in the wrong thread",
 ["callable_any.hpp","detail/move_bind.hpp","job_traits.hpp","scheduler/detail/job_diagnostic_closer.hpp"],
 [("any_callable / move_bind","detail/move_bind.hpp")],["live-object counts, thread id in destructors"])
p("C33","The io pool grows on demand within its limits and shrinks back",
 "An io thread pool starts its minimum number of threads, adds threads only up to its maximum when work waits, executes everything posted exactly once, and ends with all of its threads joined at shutdown. Threads above the minimum end when idle, and the pool keeps working afterwards.",
 ["schedules","inputs"],"all minimum/maximum settings up to a bound, all interleavings of posts and workers",
 "growth and shrink race with posting; tests sleep and look at one outcome",
 ["scheduler/io_threadpool_scheduler.hpp"],
 [("thread creation in post and self-termination in run","scheduler/io_threadpool_scheduler.hpp")],["thread_ids().size(), task run counters"])
p("C34","Timers fire once or report cancellation",
 "An asynchronous deadline timer posts its callback exactly once into the owner's thread: without error when it expires, with an error when it is cancelled, reset or destroyed first; a callback never runs before its expiry or after the owner is gone.",
 ["schedules","histories"],"all orders of expiry, cancel, reset and destruction",
 "tests use real time and one order",
 ["extensions/asio/asio_deadline_timer.hpp","extensions/asio/asio_scheduler.hpp"],
 [("async_wait on a boost::asio timer inside an asio scheduler","extensions/asio/asio_deadline_timer.hpp")],["callback argument"])
p("C35","Work distributed over TCP comes back unchanged",
 "A serializable task stolen by a TCP client is executed there at most once, its result or exception is delivered to the poster exactly once, and a broken or dying client does not lose the task; encode/decode of tasks and responses is the identity.",
 ["fault_sequences","histories","inputs"],"all message sequences, connection losses and payloads",
 "tests do not run the network path",
 ["scheduler/tcp/simple_tcp_client.hpp","scheduler/tcp/detail/job_server.hpp","scheduler/tcp/detail/asio_comm_server.hpp","scheduler/tcp/detail/client_request.hpp","scheduler/tcp/detail/server_response.hpp","any_serializable.hpp"],
 [("job_server request/response handling","scheduler/tcp/detail/job_server.hpp")],["result at the poster"])
p("C36","Parallel geometry equals sequential geometry",
 "parallel_union, parallel_intersection and the *_of_x reductions return a geometry equal (as a point set) to the sequential Boost.Geometry result for all valid polygons.",
 ["inputs"],"all valid polygons",
 "tests use a few polygons; the test does not compile with this Boost",
 ["algorithm/geometry/parallel_union.hpp","algorithm/geometry/parallel_intersection.hpp","algorithm/geometry/parallel_geometry_union_of_x.hpp"],
 [("parallel overlay","algorithm/geometry/detail/overlay.hpp")],["returned geometry"])
p("C37","execute_in_all_threads reaches every worker exactly once",
 "A callable given to execute_in_all_threads (through a scheduler proxy or a locked weak scheduler) is run exactly once in each thread of the scheduler, in no other thread and never stolen, in the order of the calls; one future per thread becomes ready with the callable's outcome (an exception included), also when the last proxy goes right after the call, and neither this nor set_name/processor_bind disturbs posted tasks.",
 ["schedules","inputs"],"all scheduler kinds, worker counts up to a bound, all interleavings with tasks and shutdown up to the preemption bound",
 "tests call it on idle pools with a callable which does not throw",
 ["scheduler/detail/execute_in_all_threads.hpp","scheduler/threadpool_scheduler.hpp","scheduler/single_thread_scheduler.hpp","scheduler/multiple_thread_scheduler.hpp","scheduler/composite_threadpool_scheduler.hpp","scheduler/io_threadpool_scheduler.hpp"],
 [("private queues served by every worker","scheduler/threadpool_scheduler.hpp")],["executing thread ids, futures"])
p("C38","An asio pool keeps the guarantees of a thread pool",
 "Every task posted to an asio_scheduler (with or without a future, a name, a priority, or interruptibly) runs exactly once, in one of its threads, with its outcome delivered, also when the last proxy goes while tasks wait; execute_in_all_threads runs the callable exactly once in each of its threads; parallel algorithms work on it; put into a composite pool, started before or not, it keeps its number of threads, does the work of the other pools when it has none, and all of its threads end with it.",
 ["schedules","inputs"],"worker counts up to a bound, both ways to start, all ways to post, all interleavings up to the preemption bound",
 "tests post one task to an idle asio pool; composites with an asio part appear in an example only",
 ["extensions/asio/asio_scheduler.hpp","extensions/asio/tss_asio.hpp"],
 [("worker loop polling its own io_context, then the others', then the queues of other pools","extensions/asio/asio_scheduler.hpp")],["run counters, executing thread ids, futures"])
with open('/verif/properties.jsonl','w') as f:
    for d in P: f.write(json.dumps(d)+"\n")
print(len(P))
import jsonschema
s=json.load(open('/root/.vp/PROPERTIES.schema.json'))
for d in P: jsonschema.validate(d,s)
