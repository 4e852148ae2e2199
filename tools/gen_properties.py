"""Writes properties.jsonl (kept as a script so that the text is reviewable)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, state=(), observe=()):
    assert len(title) <= 80, (id, len(title))
    P.append(dict(id=id, title=title, statement=statement,
                  quantifier=dict(over=over, text=text), why_tests_cant=why,
                  anchors=dict(files=files,
                               state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
                               mechanism=[dict(name=a, where=b) for a, b in mech],
                               observe_at=list(observe), hook_needed=None)))
A = "aioreactive/"
G = ("The operators that own their subscriptions (take, skip, take_last, skip_last, take_until, distinct_until_changed, "
     "zip with a sequence, merge/flat_map/concat families, switch_latest, combine_latest, with_latest_from, debounce)")

p("C01", "Observers of guarded operators see a serialized, well-formed event sequence",
  "An observer subscribed through an operator or factory that guards its observer (take, skip, take_last, skip_last, take_until, slice, distinct_until_changed, indexed operators, merge/flat_map/concat, switch_latest, combine_latest, with_latest_from, debounce, from_iterable, single, from_async) receives zero or more values followed by at most one error or completion, and nothing after it, whatever the sources do. No two notifications to that observer overlap in time, even when it is slow. If the observer raises while handling a value, that same exception reaches it once as its terminal error and nothing follows.",
  ["histories", "schedules", "inputs", "fault_sequences"],
  "every order of values, errors and completions of every source and inner source (including ill-behaved sources that go on after terminating), every point where the observer suspends or raises",
  "The tests feed two or three well-behaved values; none makes the observer slow or raising inside these operators and none lets a source keep emitting after its end.",
  [A+"observers.py", A+"filtering.py", A+"combine.py", A+"transform.py", A+"create.py", A+"timeshift.py"],
  [("mailbox loop that stops after the first terminal", A+"observers.py: safe_observer"), ("wrapping of every observer", A+"observers.py: auto_detach_observer")],
  [("running", "whether the observer may still be notified", A+"observers.py: safe_observer.worker")],
  ["calls made on the subscribed observer"])

p("C02", "A terminated sequence releases every subscription it holds",
  G + " dispose every source and inner subscription they made once the observer has been sent its terminal event, whichever source, trigger or count caused it, and also when the observer itself raised. This includes subscriptions that were still being set up when the sequence ended. A source that is released this way stays released.",
  ["histories", "schedules", "fault_sequences"],
  "every history that ends the sequence: source error or completion, count reached, trigger, inner error, raising observer; sources that emit during subscription",
  "No test looks at the source after a sequence terminates early; leaks are invisible in the values the tests compare.",
  [A+"observers.py", A+"filtering.py", A+"combine.py", A+"transform.py", A+"timeshift.py"],
  [("disposables registered with the guard and disposed on terminal", A+"observers.py: auto_detach_observer"), ("composite of source and inner subscriptions", A+"combine.py: merge_inner, aioreactive/transform.py: switch_latest")],
  [("disposables", "subscriptions owned by one guarded observer", A+"observers.py: auto_detach_observer.worker")],
  ["source subscriptions that are still active at quiescence after a terminal event"])

p("C03", "Disposing a subscription releases everything and silences the observer",
  "After the disposable returned by a subscription has been disposed and the loop has become idle, every subscription that operator chain made on its sources, inner sources and fallback sources is disposed. From then on no source event and no pending timer makes the observer receive anything. Disposing twice is harmless.",
  ["histories", "schedules", "programs"],
  "every operator, every prefix of events before the dispose, every event or timer after it",
  "A handful of tests dispose, at one fixed point, and only look at the values.",
  [A+"transform.py", A+"combine.py", A+"filtering.py", A+"timeshift.py", A+"create.py", A+"observers.py"],
  [("returned disposables", A+"*.py: subscribe_async"), ("cancellation tokens of workers and timers", A+"create.py: canceller, aioreactive/timeshift.py")],
  (), ["active source subscriptions and observer calls after dispose"])

p("C04", "An error of a source reaches the observer once, as the same exception",
  "When a source, trigger, second source or currently mirrored inner source of an operator fails, the observer receives exactly that exception object as its terminal error, exactly once, and no completion. Values the operator had already handed over are delivered before it. Only catch and retry may replace it.",
  ["histories", "inputs", "programs"],
  "every operator, every position of the error in the history, every which source fails",
  "Few tests throw, and they compare the type at one position in one history.",
  [A+"transform.py", A+"combine.py", A+"filtering.py", A+"timeshift.py", A+"observers.py"],
  [("athrow handlers of every operator", A+"*.py: athrow"), ("notification dispatch", A+"notification.py")],
  (), ["athrow calls on the observer"])

p("C05", "A sequence completes exactly when its operator says it is finished",
  "For each operator the observer is completed at exactly the point its definition gives: with the source for one-to-one operators, at the count for take, at the trigger for take_until, at exhaustion of the zipped sequence, when the outer source and all (for switch: the latest) inner sequences have completed for the flattening operators, and with the first of its two sources for the latest-combining operators. It is never completed earlier, twice, or not at all.",
  ["histories", "inputs", "configurations"],
  "every operator and every interleaving of completions of outer and inner sources, empty sources included",
  "Tests complete one well-behaved source after a few values; outer-completes-last, inner-completes-last, empty inner and queued inner orders are not enumerated.",
  [A+"transform.py", A+"combine.py", A+"filtering.py", A+"timeshift.py"],
  [("aclose handlers and stop flags", A+"combine.py: merge_inner.update, aioreactive/transform.py: switch_latest")],
  [("is_stopped", "outer source has completed", A+"combine.py: Model, aioreactive/transform.py: switch_latest")],
  ["aclose calls on the observer"])

p("C06", "A failing user callback or iterable is never swallowed",
  "An exception raised by a mapper, predicate, chooser or accumulator, by the comparison of elements in distinct_until_changed, by a catch handler, a defer factory, an awaited workflow, or by an iterable or async iterable while it is pulled is delivered to the observer as its error or propagates to the producer that sent the value. It is never lost, never reported as a normal completion, and the element it was raised for is not delivered.",
  ["inputs", "fault_sequences", "histories"],
  "every user callback raising at every element, synchronous and asynchronous variants",
  "Tests raise in one mapper at one element; iterables that fail midway and handlers that raise are not tested.",
  [A+"transform.py", A+"filtering.py", A+"create.py", A+"combine.py"],
  [("try/except around accumulator, handler, factory and iteration", A+"transform.py, aioreactive/create.py"), ("propagation through asend of unguarded operators", A+"transform.py: transform")],
  (), ["athrow calls, exceptions surfacing from asend, unretrieved task exceptions"])

p("C07", "Concurrent subscriptions to one sequence do not influence each other",
  "Each subscription to an operator's result is independent: counters, buffers, indices, accumulators, retry budgets, pending timers, inner subscriptions and disposal of one subscription never change what another subscription to the same object receives.",
  ["histories", "programs", "schedules"],
  "every operator, two subscriptions made at any two points, with any interleaving of events, terminations and disposals",
  "Every test subscribes once.",
  [A+"transform.py", A+"combine.py", A+"filtering.py", A+"timeshift.py", A+"create.py"],
  [("state created inside subscribe_async", A+"*.py: subscribe_async")],
  (), ["the observers of both subscriptions"])

p("C08", "Element-wise operators apply the function once per element, in order",
  "map, starmap, filter, starfilter and choose, and their async variants, call the user function exactly once per source element with exactly that element (spread for the star variants) and deliver, in source order, the results, the elements whose predicate holds, or the chosen values. None, zero, empty and other falsy elements and results are treated like any other value; only the predicate's truth value filters.",
  ["inputs", "histories"],
  "every element and every result the function may return, every sequence length",
  "Tests map small integers and filter on simple predicates; None and falsy values are not exercised.",
  [A+"transform.py", A+"filtering.py"],
  [("per-element handlers", A+"transform.py: transform, map*, aioreactive/filtering.py: choose*, filter*")],
  (), ["values received by the observer, calls of the user function"])

p("C09", "take, skip, take_last, skip_last and slicing select exactly the right elements",
  "take(n) delivers the first n elements and completes with the n-th (for n = 0, with the source); skip(n) all but the first n; take_last(n) the last n in order when the source completes; skip_last(n) all but the last n, in order; a slice with start, stop and positive step delivers the elements Python slicing would select, for every combination of signs except a negative start with a non-negative stop. This holds for elements that are None or falsy and for counts of zero.",
  ["inputs", "histories", "configurations"],
  "every count, start, stop, step and sequence length, every element value",
  "Tests use one or two counts on a five-element range.",
  [A+"filtering.py", A+"__init__.py"],
  [("remaining counters and bounded queues", A+"filtering.py: take, skip, take_last, skip_last, slice")],
  [("remaining / queue", "elements still to take or skip / buffered", A+"filtering.py")],
  ["values received by the observer"])

p("C10", "Indexed operators pair element k with index k, per subscription",
  "mapi, filteri, flat_mapi and their async variants call the user function with element k and the index k, counting every source element from zero for each subscription, and zipping with a sequence pairs element k with its k-th item and completes when the sequence is exhausted. No element is skipped, repeated or paired with another index.",
  ["inputs", "histories"],
  "every sequence length, every predicate outcome, repeated and concurrent subscriptions",
  "No test uses an indexed operator on more than one subscription or checks the index after filtered elements.",
  [A+"combine.py", A+"transform.py", A+"filtering.py"],
  [("zip with an infinite counter", A+"combine.py: zip_seq, aioreactive/transform.py: mapi, aioreactive/filtering.py: filteri")],
  (), ["arguments of the user function and values received"])

p("C11", "distinct_until_changed drops exactly the consecutive repeats",
  "distinct_until_changed delivers an element if and only if it is the first one or is not equal to the element immediately before it in the source, including elements that are None or falsy. Order is preserved and errors and completion pass through. When comparing two elements fails, the observer gets that exception as its error.",
  ["inputs", "histories"],
  "every equality pattern over the source elements",
  "One test, one pattern.",
  [A+"filtering.py", A+"notification.py"],
  [("comparison with the latest notification", A+"filtering.py: distinct_until_changed"), ("notification equality", A+"notification.py: OnNext.__eq__")],
  [("latest", "the previous source notification", A+"filtering.py: distinct_until_changed")],
  ["values received by the observer"])

p("C12", "scan and reduce fold the source from left to right from the initial value",
  "scan delivers, for every source element in order, the accumulator applied to the previous result (starting with the initial value) and that element; reduce delivers only the last such result when the source completes, and nothing but the completion for an empty source. If the accumulator raises, the observer gets that exception as its terminal error, nothing follows it, and the source is released. The async variants agree with the sync ones.",
  ["inputs", "histories", "fault_sequences"],
  "every sequence, every accumulator including falsy results and failures at any element",
  "Tests sum small ranges and raise once.",
  [A+"transform.py", A+"filtering.py"],
  [("current state and stop flag", A+"transform.py: _scan, reduce_async")],
  [("current", "accumulated state", A+"transform.py: _scan")],
  ["values received by the observer, accumulator calls"])

p("C13", "Merging delivers every inner element and respects the concurrency bound",
  "merge, merge_seq, merge_inner and flat_map deliver every element of every inner sequence, each inner in its own order, in arrival order across inners. With a concurrency bound n at most n inner sequences are subscribed at a time, the others wait and are started first-in first-out as running ones complete; without a bound each is subscribed as soon as it arrives. The result completes when the outer and all inner sequences, waiting ones included, have completed.",
  ["histories", "schedules", "configurations"],
  "every interleaving of arrivals, inner events and completions, every bound",
  "Tests merge two or three sequences in one order; bound and queueing are covered by one case.",
  [A+"combine.py", A+"transform.py", A+"__init__.py"],
  [("mailbox model of running and queued inners", A+"combine.py: merge_inner")],
  [("subscriptions / queue", "running and waiting inner sequences", A+"combine.py: Model")],
  ["values received, inner subscriptions active at a time"])

p("C14", "Concatenation runs sequences one after another in order",
  "concat, concat_seq and concat_map subscribe to a sequence only after the one before it has completed, deliver all elements of each in order, complete after the last one completes, and stop at the first error without subscribing to later ones.",
  ["histories", "schedules"],
  "every number of sequences and every interleaving of their events, empty sequences included",
  "Two tests with two finite sequences.",
  [A+"combine.py", A+"transform.py", A+"__init__.py"],
  [("merge with a bound of one", A+"combine.py: concat_seq, aioreactive/transform.py: concat_map")],
  (), ["values received and subscriptions made"])

p("C15", "Switching mirrors only the most recent inner sequence",
  "switch_latest and flat_map_latest deliver the elements of the most recently arrived inner sequence only: once a newer one has arrived nothing of an older one (value, error or completion) is delivered or affects the result, and the older one is released. The result completes when the outer sequence and the latest inner sequence have both completed, in either order.",
  ["histories", "schedules"],
  "every interleaving of outer arrivals, inner events and completions, inners that emit while being subscribed",
  "No test covers switch_latest at all.",
  [A+"transform.py"],
  [("identifier of the current inner", A+"transform.py: switch_latest")],
  [("current / current id", "subscription being mirrored", A+"transform.py: switch_latest")],
  ["values received, inner subscriptions active"])

p("C16", "Latest-combining operators pair each element with the other side's latest",
  "combine_latest delivers a pair for every element of either source once both have produced one, made of the newest element of the first and the newest of the second source in that position; with_latest_from delivers a pair for every element of the first source only, with the newest element of the second, and drops elements that arrive before the second has produced one. None and falsy elements count as elements.",
  ["histories", "inputs"],
  "every interleaving of the two sources and all element values",
  "One short interleaving per operator is tested.",
  [A+"combine.py"],
  [("latest values kept in the mailbox loop", A+"combine.py: combine_latest, with_latest_from")],
  [("source_value / other_value / latest", "most recent element of each source", A+"combine.py")],
  ["values received by the observer"])

p("C17", "take_until mirrors the source exactly until the other sequence emits",
  "take_until delivers every source element until the other sequence produces its first element, then completes at once and delivers nothing more; the completion of the other sequence alone changes nothing, and its error is delivered as the error of the result. When the result ends, for whichever reason, both sequences are released.",
  ["histories", "schedules"],
  "every interleaving of the two sequences, a trigger that fires during subscription included",
  "take_until is tested with one interleaving at most.",
  [A+"filtering.py"],
  [("trigger observer closing the guarded observer", A+"filtering.py: take_until")],
  (), ["values received, subscriptions active"])

p("C18", "catch continues with the handler's sequence and retry resubscribes",
  "When the source fails, catch calls the handler once with that exception, releases the failed source and mirrors the sequence the handler returns, up to and including its terminal event; an error of that sequence is delivered, not handled again. retry(n) subscribes to the same source again after each of the first n errors, delivering all values, and delivers the error after that. Without an error both are transparent.",
  ["histories", "fault_sequences", "configurations"],
  "every history of successes and failures of source and fallback, every retry count, sources that fail during subscription",
  "Neither operator had a test.",
  [A+"transform.py"],
  [("handler subscription replacing the source's", A+"transform.py: catch, retry")],
  [("disposable", "the subscription currently mirrored", A+"transform.py: catch")],
  ["values received, subscriptions made to source and fallback"])

p("C19", "Creation functions produce exactly their defining sequence",
  "from_iterable and from_async_iterable deliver every item in order and then complete, or deliver the iterable's own error after the items before it; single delivers its value and completes; empty only completes; never does nothing; fail only fails with the given exception; from_async delivers the awaited result or its error and terminates; defer calls its factory once per subscription and mirrors the result; create passes the observer to the given function and returns its disposable.",
  ["inputs", "histories"],
  "every iterable length and content including None and falsy items, every failure point, repeated subscriptions",
  "Tests use a short range and a single value.",
  [A+"create.py", A+"observables.py", A+"__init__.py"],
  [("workers feeding the guarded observer", A+"create.py")],
  (), ["values received by the observer"])

p("C20", "interval and timer emit consecutive numbers at the right virtual times",
  "interval(d, p) delivers 0 at d and then n at d + n*p for n = 1, 2, ... relative to subscription, for an observer that does not delay it, and goes on until disposed; with a period of zero, and for timer(d), it delivers 0 at d and completes. Dispose stops it: nothing is delivered afterwards and no timer stays active.",
  ["schedules", "configurations", "histories"],
  "every delay and period, dispose at any point",
  "Not tested directly.",
  [A+"create.py"],
  [("sleep-and-send recursion", A+"create.py: interval")],
  (), ["values received and their times"])

p("C21", "A subject delivers every event to every current subscriber, once, in order",
  "AsyncSubject delivers each value sent to exactly the observers subscribed at that moment (each an object of its own, whatever it compares equal to), in subscription order, once each; an observer whose subscription is disposed receives no event sent afterwards, and one that subscribes or disposes while an event is delivered does not disturb the delivery to the others. After an error or completion nothing more is delivered to anybody, and after the subject is disposed sending and subscribing raise ObjectDisposedException.",
  ["histories", "schedules"],
  "every interleaving of sends, subscriptions, disposals and terminations, including from inside an observer's callback",
  "One or two observers in one fixed order are tested.",
  [A+"subject.py"],
  [("observer list snapshot per event", A+"subject.py: AsyncMultiSubject")],
  [("_observers, _is_stopped, _is_disposed", "subscribers and life cycle", A+"subject.py")],
  ["calls on the observers"])

p("C22", "A single-observer subject holds its events until an observer arrives",
  "AsyncSingleSubject makes a producer wait until an observer subscribes and then delivers each value exactly once, in order, to that observer, waiting for it to finish; it delivers at most one terminal event and nothing after it. Cancelling a waiting producer affects no other one. When it or its subscription is disposed, waiting and later producers get ObjectDisposedException instead of hanging or spinning.",
  ["schedules", "histories"],
  "every interleaving of producers, subscription, termination and disposal",
  "Tests cover subscribe-before-send and one send-before-subscribe.",
  [A+"subject.py"],
  [("start future and observer slot", A+"subject.py: AsyncSingleSubject")],
  [("_wait, _observer", "whether an observer is present", A+"subject.py")],
  ["calls on the observer, producers that stay blocked"])

p("C23", "Async iteration yields every element exactly once, in order, then ends",
  "Iterating an observable with async for yields every element it sends, exactly once and in order, then ends when it completes or raises its error. A consumer that stops waiting for an element, for instance because of a timeout, gets it with its next step. Cancelling a waiting producer affects no other one. A producer is held back until its element has been consumed, so no element is lost or overwritten when several are sent concurrently, and no producer, that of the terminal event included, stays blocked forever once its event was consumed.",
  ["schedules", "histories"],
  "every interleaving of producers and consumer, any number of concurrent sends",
  "Tests iterate a short synchronous source.",
  [A+"observers.py", A+"observables.py", A+"leave.py"],
  [("push and pull futures with a busy flag", A+"observers.py: AsyncIteratorObserver")],
  [("_push, _pull, _busy, _awaiters", "hand-over state", A+"observers.py: AsyncIteratorObserver")],
  ["items yielded, producers still blocked"])

p("C24", "The awaitable observer resolves with the last value or the error",
  "Awaiting an awaitable observer, and running a sequence, yields the last value sent before completion (None and falsy values included), raises exactly the error the sequence failed with, and is cancelled when the sequence completes without a value; events after the first terminal event change nothing, and cancelling the awaitable does not make a later event fail at its producer. run subscribes before waiting, releases the subscription however it ends and fails with a timeout if the sequence does not end in time.",
  ["histories", "inputs", "schedules"],
  "every event history, including terminal events in any order and multiplicity",
  "Tests run short finite sequences.",
  [A+"observers.py", A+"subscription.py"],
  [("last value and stop flags", A+"observers.py: AsyncAwaitableObserver"), ("scoped subscription", A+"subscription.py: run")],
  [("_last_value, _has_value, _is_stopped", "what the future resolves to", A+"observers.py")],
  ["state of the future, callbacks invoked, active subscriptions"])

p("C25", "delay shifts every event by the given time and keeps order and spacing",
  "delay(t) delivers every value, the error and the completion of the source exactly once, in order, t after the source sent it, as long as the observer does not hold it up. After dispose nothing pending is delivered.",
  ["schedules", "histories"],
  "every spacing of source events, bursts included, dispose at any point",
  "Two spacings are tested.",
  [A+"timeshift.py"],
  [("due time per notification and sleeping worker", A+"timeshift.py: delay")],
  (), ["events received and their virtual times"])

p("C26", "debounce delivers only values followed by enough silence",
  "debounce(t) delivers a value t after it was sent, if and only if the source has sent no other event in between; values superseded in time are never delivered, and delivered values keep their order. Error and completion pass through at once, after which nothing is delivered; after dispose nothing pending is delivered.",
  ["schedules", "histories"],
  "every spacing of source events relative to the window",
  "Two spacings are tested.",
  [A+"timeshift.py"],
  [("index per event and delayed re-post", A+"timeshift.py: debounce")],
  [("current_index", "index of the newest event", A+"timeshift.py: debounce")],
  ["events received and their virtual times"])

p("C27", "The method-chaining and top-level facades agree with the operators",
  "Every operator offered as a method of the chained observable and every top-level function produces the same sequence, for the same arguments in the same order, as the underlying operator of that name, and the method form applies to the receiver as the source. Indexing and slicing the chained observable agrees with the slice operator.",
  ["programs", "configurations", "inputs"],
  "every facade function and method, every argument",
  "Tests reach only some facade functions.",
  [A+"__init__.py", A+"iterable/to_async_observable.py"],
  [("delegating wrappers", A+"__init__.py")],
  (), ["event sequences of both forms"])

p("C28", "The virtual-time loop runs callbacks in due order without waiting",
  "The virtual-time event loop starts at time zero, never moves backwards, runs ready callbacks in scheduling order before advancing, advances exactly to the due time of the earliest pending timer, runs timers in due order each exactly once, and never runs a cancelled one. Its clock reads the due time while a timer's callback runs.",
  ["schedules", "histories"],
  "every set of timers, cancellations and callbacks that schedule further ones",
  "Tests use a few sleeps.",
  [A+"testing/virtual_events.py"],
  [("single iteration of the loop", A+"testing/virtual_events.py: VirtualTimeEventLoop._run_once")],
  [("_time, _scheduled, _ready", "clock and queues", A+"testing/virtual_events.py")],
  ["order and times of callbacks"])

p("C29", "Unbuffered operators and subjects hold the producer until the observer is done",
  "Sending a value into a subject, or through map, filter, choose, scan, catch and retry in any variant, returns to the producer only after the observer has finished handling what resulted from that value. An exception of the observer's handler surfaces at the producer.",
  ["schedules", "programs"],
  "every observer that suspends for any time or raises",
  "Tests never suspend inside the observer.",
  [A+"transform.py", A+"filtering.py", A+"subject.py", A+"observables.py", A+"observers.py"],
  [("awaited delegation to the observer", A+"transform.py: transform, _scan, catch, aioreactive/subject.py")],
  (), ["when asend returns relative to the observer"])

p("C30", "Notifications dispatch to the matching handler and compare by content",
  "A value, error or completion notification invokes exactly the matching one of an observer's or triple's three handlers, once, with exactly its value or exception. Two notifications are equal if and only if they are of the same kind and their contents are equal. An observer built from a notification function passes it each event as the corresponding notification.",
  ["inputs", "programs"],
  "every value and exception, every pair of notifications",
  "Used indirectly by tests only.",
  [A+"notification.py", A+"observers.py"],
  [("accept, accept_observer and __eq__", A+"notification.py"), ("notification observer", A+"observers.py: AsyncNotificationObserver")],
  (), ["handlers invoked and comparison results"])

p("C31", "Test observers and subjects record and schedule events faithfully",
  "The test observer records every event it receives, in order, with the loop time of its arrival, and invokes each of its callbacks exactly once per event. The test subjects' scheduled sends, errors and closes perform exactly that event, once, at the given absolute time or after the given delay.",
  ["histories", "schedules"],
  "every event history and schedule",
  "They are the test tools, nothing tests them.",
  [A+"testing/observer.py", A+"testing/subject.py"],
  [("recording overrides", A+"testing/observer.py"), ("loop timers and tasks", A+"testing/subject.py")],
  (), ["recorded values, events performed and their times"])

p("C32", "The ReactiveX bridge forwards every event and its disposal",
  "The observable made for ReactiveX subscribes to the async source once per subscription and forwards every value, the error or the completion to the matching handler, in order and once. Disposing it, at any time after or before the subscription is established, releases the async source and nothing is forwarded afterwards.",
  ["histories", "schedules"],
  "every event history and dispose point",
  "Not tested at all.",
  [A+"leave.py"],
  [("subscribe task and dispose task", A+"leave.py: to_observable")],
  (), ["handlers invoked, source subscriptions"])

p("C33", "Subscribing with functions behaves like subscribing with an observer",
  "Every observable accepts either an observer or up to three async functions; the functions are called for exactly the values, error and completion an observer would receive, an omitted function ignores its event without failing, and both ways return a disposable with the same effect.",
  ["programs", "inputs"],
  "every observable kind, every subset of functions omitted",
  "Tests use the observer form almost everywhere.",
  [A+"observables.py", A+"observers.py", A+"subject.py", A+"__init__.py", A+"utils.py"],
  [("adapter built from functions", A+"observers.py: AsyncAnonymousObserver")],
  (), ["calls of the functions"])

p("C34", "Real elapsed time of timers matches the requested delay",
  "On the platform event loop, interval, timer, delay and debounce fire within the scheduling accuracy of the loop of the requested real delay, under any load.",
  ["schedules", "configurations"],
  "every delay and every load of the machine",
  "Virtual or coarse real time in tests says nothing about accuracy under load.",
  [A+"create.py", A+"timeshift.py"], [("asyncio timers", A+"create.py: interval")], (), ["wall-clock times of deliveries"])

p("C35", "Memory stays bounded however long a sequence runs",
  "Operators that keep a bounded amount of state keep the process' memory bounded for arbitrarily long sequences and arbitrarily slow observers.",
  ["histories", "inputs"],
  "every sequence length and observer speed",
  "Tests are short.",
  [A+"observers.py", A+"combine.py"], [("mailboxes", A+"observers.py: safe_observer")], (), ["queue lengths"])

p("C36", "A sequence that cannot be subscribed to is reported and leaves nothing behind",
  "When subscribing to a source or to an inner sequence fails, at any point of a history, the failure is never swallowed: the subscribe call (or the iteration or run that caused it) raises that same exception, or the observer gets it as its error, or it surfaces at the producer whose event caused the subscription; the result never completes as if nothing had happened and never just stays silent. When the subscribe call fails, every source subscribed to before is released; when the observer gets the error, a guarded operator releases all of its sources and inner sequences.",
  ["fault_sequences", "histories", "programs"],
  "every operator, a failing subscription of any source or inner sequence at any point, slow and eager sources",
  "No test has a source that fails while it is subscribed to.",
  [A+"combine.py", A+"transform.py", A+"filtering.py", A+"create.py", A+"leave.py", A+"observers.py", A+"subscription.py"],
  [("subscriptions of inner sequences", A+"combine.py: merge_inner, aioreactive/transform.py: switch_latest, catch, retry"), ("subscriptions to two sources", A+"combine.py: combine_latest, with_latest_from, aioreactive/filtering.py: take_until"), ("task that subscribes", A+"leave.py: to_observable")],
  (), ["exceptions of subscribe_async, athrow calls, subscriptions still live"])

with open(os.path.join(os.path.dirname(__file__), "..", "properties.jsonl"), "w") as f:
    for x in P:
        f.write(json.dumps(x) + "\n")
print(len(P))
