import json
P=[]
def p(id,title,statement,over,qtext,why,files,mech,observe=None):
    d=dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=qtext),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=n,where=w) for n,w in mech]))
    if observe: d['anchors']['observe_at']=observe
    assert len(title)<=80,(title,len(title))
    P.append(d)
MUT='src/signal/mutable.rs';CH='src/signal/channel.rs';BR='src/signal/broadcaster.rs';SIG='src/signal/signal.rs';VEC='src/signal_vec.rs';MAP='src/signal_map.rs';FUT='src/future.rs';INT='src/internal.rs';ATO='src/atomic.rs'
p('C01','A change to a Mutable is never lost by any of its signals',
 'Whenever the value of a Mutable is changed (set, conditional set, replace, swap, or through a mutable lock guard), every live signal of that Mutable that has not yet observed the change yields the newest value at its next poll, and a signal whose last poll returned Pending has its most recently supplied waker woken after the new value is visible. This holds no matter how the change interleaves with polls, with creation of signals, and with other changes on other threads.',
 ['schedules','histories'],'every interleaving of polls, signal creation and mutations from any number of threads',
 'The tests are single-threaded and never place a mutation between the readiness check and the waker registration of a poll.',
 [MUT],[('MutableSignalState::poll_change',MUT),('ChangedWaker::{wake,set_waker,is_changed}',MUT),('Mutable::{set,set_if,replace,replace_with,swap,lock_mut}',MUT),('ReadOnlyMutable::signal_state',MUT)])
p('C02','Mutable signals end exactly when every handle is gone, after the last value',
 'A signal of a Mutable ends only when all the owning handles (the Mutable and its clones) have been dropped, and before ending it has yielded the final value. When the last handle is dropped every signal that returned Pending is woken; read-only handles do not keep signals alive, and clones are counted exactly under any concurrent cloning and dropping.',
 ['schedules','histories'],'every interleaving of clone, drop, mutation and poll on any number of handles and signals',
 'The tests drop handles only between polls on one thread.',
 [MUT],[('Mutable::clone / Mutable::drop',MUT),('MutableSignalState::poll_change (end decision)',MUT),('ReadOnlyMutable::signal_state',MUT)])
p('C03','A channel receiver never misses the latest value or its wakeup',
 'After a successful send, the receiver yields the most recently sent value at its next poll (older unread values are replaced, each value is yielded at most once), and if the receiver had returned Pending its most recent waker is woken after the value is visible. Closing, or dropping the last sender, wakes a pending receiver, which first yields any unread value and only then ends; this holds for every interleaving.',
 ['schedules','histories'],'every interleaving of send, close, sender drop and poll',
 'No test runs a send or close concurrently with a poll.',
 [CH,ATO],[('Receiver::poll_change',CH),('Sender::{send,close,drop}',CH),('Inner::notify',CH),('AtomicOption::{swap,store,take}',ATO)])
p('C04','Channel sender bookkeeping: closing is final and counts are exact',
 'The channel stays open exactly while it has not been closed explicitly and at least one sender exists; once closed it never reopens and every later send fails and hands the value back. Cloning, dropping and closing senders concurrently never miscounts the live senders (no underflow, no early end, no missed end).',
 ['schedules','histories'],'every interleaving of clone, drop, close and send on any number of senders',
 'There is no test with concurrent senders.',
 [CH],[('Sender::clone / drop / close',CH),('Inner::{has_senders,add_sender,remove_sender,remove_all_senders}',CH)])
p('C05','Every broadcast subscriber sees the latest value and is woken',
 'Each signal obtained from a Broadcaster independently yields the latest value of the source, exactly once per observed change, and ends after it has yielded the last value and the source has ended; a subscriber that returned Pending is woken whenever the source is woken. This holds for any number of subscribers polled from different threads, including subscribers created late, dropped, or racing with another subscriber that is refreshing the shared value.',
 ['schedules','histories'],'every interleaving of subscriber polls, subscriptions, drops and source wakeups',
 'Broadcaster tests poll subscribers sequentially on a single thread.',
 [BR,MUT],[('BroadcasterState::poll_change',BR),('BroadcasterSharedState::poll',BR),('BroadcasterInnerState::poll_signal',BR),('BroadcasterNotifier::notify',BR)])
p('C06','Cancelling a cancelable future always takes effect',
 'After the handle is discarded, the future is woken if it had returned Pending, and its next poll drops the wrapped future without polling it again, calls the cancellation callback exactly once and completes with its result. If the handle is not discarded the output is exactly the output of the wrapped future and the callback is never called; this holds for every interleaving of discard and poll.',
 ['schedules'],'every interleaving of discard with polls',
 'The single test checks one sequential scenario.',
 [FUT],[('CancelableFuture::poll',FUT),('CancelableFutureHandle::discard',FUT)])
p('C07','Library operations never deadlock on the library\'s own locks',
 'No public operation blocks forever on a lock the library itself holds: no operation acquires a lock that the same call already holds, and no two operations running concurrently acquire two library locks in opposite orders (in particular swapping two Mutables in both directions, or a Mutable with itself). User callbacks and wakers are out of scope unless they re-enter the same object.',
 ['schedules','inputs'],'every pair of concurrently running public operations on shared objects, including aliased arguments',
 'Deadlocks need a specific interleaving or aliasing that no test sets up.',
 [MUT,BR,VEC,MAP,FUT],[('Mutable::swap',MUT),('MutableLockState::notify -> ChangedWaker::wake',MUT),('BroadcasterNotifier::notify',BR),('MutableVec / MutableBTreeMap lock use',VEC)])
p('C08','A combinator that returns Pending will be woken by its inputs',
 'Whenever a signal, signal-vec, signal-map, stream or future built by this library returns Pending, at least one of its unfinished inputs was last polled in that same call with the current waker and returned Pending, and every input whose change could produce output in that state is so registered. In particular no input is left unpolled, or left at a value it just yielded, when Pending is returned.',
 ['inputs','histories'],'every combinator, every sequence of input behaviours',
 'Tests poll with a fixed script and a no-op or sampled waker; a missed registration only shows for specific input sequences.',
 [SIG,VEC,MAP,INT,FUT],[('every poll_change / poll_vec_change / poll_map_change / poll / poll_next',SIG),('Chain, Flatten, SwitchSignalVec, MapSignal, DelayRemove, FilterSignalCloned, IsEmpty',VEC),('MapValueSignal, MapWatchKeySignal',MAP),('MapRef1::poll',INT)])
p('C09','Inputs that have finished are never polled again',
 'No combinator polls an input signal, signal-vec, signal-map, stream or future again after that input has ended or completed, as long as the combinator itself is not polled after its own end.',
 ['inputs','histories'],'every combinator and every history of input results',
 'Most test inputs tolerate being polled after the end, so violations stay invisible.',
 [SIG,VEC,MAP,INT],[('Option-wrapped inputs set to None at end',SIG),('MapWatchKeySignal (is_done)',MAP),('MapRef1::poll',INT)])
p('C10','Combinators end exactly when no further output is possible',
 'A combinator reports its end only when all output owed for changes already received has been delivered and no remaining input can produce more output; and once its inputs have all ended and owed output is delivered, it reports its end rather than Pending. Combinators that stop early by definition end at that defined point.',
 ['inputs','histories'],'every combinator and every order in which its inputs change and end',
 'End-of-input is tested for a few orders only.',
 [SIG,VEC,MAP,INT],[('done / has_pending bookkeeping in poll functions',VEC),('Flatten, MapFuture, Throttle, map_ref',SIG)])
p('C11','Signals always have a value: the first poll never returns Pending or end',
 'If every input signal yields a value on its first poll, then so does every signal built from it by this library (futures, streams and signal-vecs used as inputs may still be pending or empty), and the placeholder used while nothing has arrived is the documented one (None, empty, zero).',
 ['inputs'],'every signal-producing combinator over every behaviour of its inputs',
 'Tests check the first poll for a few inputs.',
 [SIG,VEC,MAP],[('MapFuture.first, FromFuture.first, FromStream.first, FilterMap.first',SIG),('Len / IsEmpty / Sum / ToSignalMap first',VEC),('MapWatchKeySignal first value',MAP)])
p('C12','Value-mapping signals apply the callback once to each value they deliver',
 'map, inspect, dedupe_map, result, option, boxed/borrowed signals and stream conversion deliver, for every value the input yields and in the same order, exactly the callback\'s result for that value (or the value itself), calling the callback exactly once per delivered input value and never on a stale value.',
 ['inputs','histories'],'every sequence of input values and polls','Tests use short fixed sequences.',
 [SIG],[('Map, Inspect, ResultSignal, OptionSignal, SignalStream, forwarding impls',SIG)])
p('C13','Change filters emit exactly when the value really changed',
 'dedupe, dedupe_cloned and dedupe_map emit an input value exactly when it is the first or differs from the previously emitted input; eq and neq emit exactly when the comparison result is the first or differs from the previous result, with the right truth value. Nothing is emitted twice and no change is swallowed.',
 ['inputs','histories'],'every sequence of input values','Fixed sequences only.',
 [SIG],[('dedupe()',SIG),('Eq / Neq',SIG)])
p('C14','Stopping combinators stop at exactly the defined value',
 'stop_if yields every value up to and including the first that satisfies the test and then ends; first yields exactly one value and then ends; wait_for completes with the first matching value or with None if the signal ends first; to_future completes with the last value when the signal ends; sampling a signal pairs each stream item with the latest signal value.',
 ['inputs','histories'],'every sequence of input values','Fixed sequences only.',
 [SIG],[('StopIf, First, WaitFor, SignalFuture, SampleStreamCloned',SIG)])
p('C15','flatten and switch follow only the most recent inner signal',
 'A flattened or switched signal always yields the latest value of the inner signal created from the latest outer value; as soon as the outer changes, the previous inner signal is dropped and never polled or observed again, and the result ends only when the outer and the current inner have both ended.',
 ['inputs','histories'],'every interleaving of outer and inner changes and ends','Fixed scripts only.',
 [SIG],[('Flatten',SIG),('Switch',SIG)])
p('C16','Future- and stream-driven signals deliver the right result once',
 'map_future yields the output of the future for the latest input value only (a superseded future is dropped, its result never delivered), at most once; from_future and from_stream yield None first if nothing is ready and then each result in order; throttle delivers the latest input value no earlier than its timer allows and never drops the last one.',
 ['inputs','histories','schedules'],'every interleaving of input changes and future completions','Fixed scripts only.',
 [SIG],[('MapFuture, FromFuture, FromStream, Throttle',SIG)])
p('C17','Combining several signals uses the latest value of each',
 'map_ref, map_mut, and/or/not evaluate the combining expression exactly when at least one input changed in the poll, with every input polled in every poll and the latest value of every input, and end when all inputs have ended.',
 ['inputs','histories'],'every combination of per-input results (value, pending, end) in every poll','Only sampled combinations are tested.',
 [INT,'src/signal/macros.rs',SIG],[('MapRef1::poll, PollResult::merge',INT),('map_ref! / map_mut!','src/signal/macros.rs'),('and / or / not',SIG)])
p('C18','filter_map on signals emits the accepted values and one initial None',
 'filter_map calls the callback exactly once per input value in order, yields Some(result) for each accepted value, yields None only if the very first value is rejected, and skips later rejected values without losing the accepted ones that follow.',
 ['inputs','histories'],'every sequence of values and callback results','Fixed sequences only.',
 [SIG],[('FilterMap',SIG)])
p('C19','Wrappers and conversions are transparent',
 'A signal, signal-vec or signal-map polled through a mutable reference, a Box, a Pin, boxed(), boxed_local(), poll_*_unpin, debug() or inspect(), or consumed through to_stream() or for_each(), behaves exactly like the original: every poll is one poll of the original with the same context, every result is passed on unchanged and exactly once, for_each finishes the future for one value before it takes the next, and dropping the wrapper drops the original.',
 ['inputs','histories'],'every behaviour of the wrapped object and every history of polls','Tests use most wrappers with one script, or not at all.',
 [SIG,VEC,MAP],[('impl Signal / SignalVec / SignalMap for &mut A, Box<A>, Pin<A>',SIG),('boxed / boxed_local / poll_change_unpin / debug / inspect / to_stream / for_each',SIG)])
p('C20','MutableVec change notifications replay to exactly its contents',
 'After every public mutation of a MutableVec (push, pop, insert, remove, set, replace, move, swap, reverse, retain, drain, truncate, clear, extend, applying a diff; copied and cloned variants), applying the diffs sent to a subscriber to its previous copy gives exactly the new contents. Every diff is valid for the state it is applied to and every live subscriber receives the same diffs. The operations have the effect and the result of the Vec operations they are named after.',
 ['inputs','histories'],'every vector contents, every index or range, every number of subscribers','Only small fixed vectors are tested.',
 [VEC],[('MutableVecState::{notify,notify_with,...}',VEC),('MutableVecLockMut',VEC)])
p('C21','A new MutableVec or MutableBTreeMap subscriber starts from the current contents',
 'A subscription taken at any time first receives the complete contents at that moment (nothing if empty) and then every later change exactly once, with no gap or overlap with concurrent mutations; mutable access and subscription exclude each other. Once the container is dropped the subscriber receives everything already sent and then ends.',
 ['schedules','histories'],'every moment of subscription relative to mutations on other threads','Subscription during concurrent mutation is not tested.',
 [VEC,MAP],[('signal_vec_copy / signal_vec_clone',VEC),('signal_map / signal_map_cloned',MAP)])
p('C22','MutableBTreeMap change notifications replay to exactly its contents',
 'After every public mutation of a MutableBTreeMap, applying the diffs sent to a subscriber to its previous copy gives exactly the new contents; a key is reported as inserted exactly if it was absent and as updated exactly if it was present, and removal is reported exactly when the key was present. Every live subscriber receives the same diffs.',
 ['inputs','histories'],'every map contents, key and number of subscribers','Only small fixed maps are tested.',
 [MAP],[('MutableBTreeState::{insert,insert_cloned,remove,clear,replace,...}',MAP)])
p('C23','map and map_signal on vectors mirror the source position by position',
 'Replaying the diffs emitted by map gives, position by position, the callback results of the source elements, each computed once when the element arrived; with map_signal each position shows the latest value of the signal created for the element at that position, and diffs from removed or replaced elements never appear.',
 ['inputs','histories'],'every source diff sequence and inner signal behaviour','Fixed scripts only.',
 [VEC],[('Map, MapSignal, VecDiff::map',VEC)])
p('C24','Filtered vectors contain exactly the accepted elements in source order',
 'For filter, filter_map and filter_signal_cloned, replaying the emitted diffs gives exactly the source elements currently accepted (mapped, for filter_map), in source order, after every source change including moves and updates; every emitted index is valid for the filtered list.',
 ['inputs','histories'],'every source diff sequence and every predicate outcome','A handful of scripts are tested; e.g. moves across rejected elements are not.',
 [VEC],[('poll_filter_map, find_index, Filter, FilterMap',VEC),('FilterSignalCloned',VEC)])
p('C25','chain is always the left list followed by the right list',
 'Replaying the diffs emitted by chain always gives the current contents of the left vector followed by the current contents of the right vector, for every kind of change on either side in any order, once the changes received so far are delivered.',
 ['inputs','histories'],'every interleaving of diffs on both sides and every length','Fixed scripts only.',
 [VEC],[('Chain::{process_left,process_right_change,process_replace,process_clear}',VEC)])
p('C26','Flattened vectors are the concatenation of the inner vectors',
 'Replaying the diffs emitted by flatten on a vector of vectors always gives the concatenation of the current inner vectors in outer order, also after inner vectors are inserted, replaced, moved or removed.',
 ['inputs','histories'],'every sequence of outer and inner diffs','Fixed scripts only.',
 [VEC],[('Flatten, FlattenState',VEC)])
p('C27','enumerate gives every element its live current index',
 'With enumerate, the index attached to each element currently in the vector always equals its present position, the index attached to an element that left the vector becomes None, and the elements themselves are passed through unchanged.',
 ['inputs','histories'],'every sequence of source diffs and every length','Fixed scripts only.',
 [VEC],[('Enumerate',VEC)])
p('C28','sort_by output is a sorted permutation of the source',
 'Replaying the diffs emitted by sort_by_cloned always gives a permutation of the source elements, sorted by the comparison and stable in source order for equal elements, and every emitted index is valid.',
 ['inputs','histories'],'every source diff sequence and every total order','Fixed scripts only.',
 [VEC],[('SortByCloned',VEC)])
p('C29','delay_remove keeps an element until its future completes, then removes it',
 'With delay_remove an element removed from the source stays in the output, at a consistent position, until the future created for it completes, and is then removed exactly once; elements still in the source are never removed, keep their order, and later source changes are applied to the right element even while removals are pending.',
 ['inputs','histories','schedules'],'every source diff sequence and every completion order','Fixed scripts only.',
 [VEC],[('DelayRemove, DelayRemoveState',VEC)])
p('C30','len, is_empty, sum and to_signal always reflect the whole current vector',
 'len yields the exact current length, is_empty whether it is zero, sum the sum of the current elements, and to_signal_map / to_signal_cloned the callback applied to the exact current contents, whenever they yield; they yield initially and whenever the result may have changed, and is_empty never yields the same value twice in a row.',
 ['inputs','histories'],'every source diff sequence','Fixed scripts only.',
 [VEC],[('Len, IsEmpty, SumSignal, ToSignalMap, ToSignalCloned',VEC)])
p('C31','switch_signal_vec and vector conversions mirror the current source',
 'Replaying the diffs of switch_signal_vec always gives the contents of the vector chosen by the latest signal value, without leftovers of earlier vectors, also when that vector is pending or ends immediately; converting a signal of lists or a stream into a vector mirrors the latest list or all stream items in order.',
 ['inputs','histories'],'every interleaving of switches and inner diffs','Fixed scripts only.',
 [SIG,VEC],[('SwitchSignalVec, SignalSignalVec',SIG),('FromStream / always / to_stream on vectors',VEC)])
p('C32','Signal-map adapters mirror the current map',
 'map_value and map_value_signal give, for every key currently in the source, the (latest) mapped value and nothing for absent keys; watching one key yields its current value or None after every change and nothing when it is unaffected; the sorted key and entry vectors derived from a map mirror its keys and entries.',
 ['inputs','histories'],'every sequence of map diffs and inner changes','Fixed scripts only.',
 [MAP],[('MapValue, MapValueSignal, MapWatchKeySignal',MAP),('MutableBTreeMapKeys / MutableBTreeMapEntries',MAP)])
p('C33','Applying a diff has the documented effect',
 'Applying a vector diff to a vector gives exactly the documented result for every kind of diff (replace, insert, update, remove, move, push, pop, clear), and applying a diff to a mutable vector changes its contents in the same way.',
 ['inputs'],'every diff and vector','Only via sampled scripts.',
 [VEC],[('VecDiff::apply_to_vec, MutableVecLockMut::apply_vec_diff',VEC)])
p('C40','Types are sendable and shareable between threads exactly when that is sound',
 'No public type can be sent to or shared with another thread unless the data it gives access to may be; conversely the types that applications move between threads (Mutable, MutableVec, MutableBTreeMap, channels, broadcasters, signals and combinators over sendable parts) are sendable.',
 ['programs'],'every program that compiles against the library','Tests cannot show that an unsound program fails to compile.',
 [ATO,CH,MUT,BR,SIG,VEC,MAP,INT],[('AtomicOption (AtomicPtr field)',ATO),('auto traits of all public types','src/lib.rs')])
p('C41','Pinned inputs are never moved and pinning guarantees hold',
 'A combinator over inputs that must not move once polled never moves them afterwards and cannot itself be moved once pinned (it is movable after pinning only if its inputs are), including the combining macros.',
 ['programs','inputs'],'every program that compiles against the library and every execution','Tests cannot show that an unsound program fails to compile.',
 [INT,'src/signal/macros.rs',SIG,VEC,MAP],[('MapRefSignal / MapRef1::unsafe_pin',INT),('#[pin] fields and Unpin impls',SIG)])
p('C42','Values passed through the library are dropped exactly once',
 'Every value, waker and callback handed to the library is eventually returned to the caller or dropped exactly once: nothing is leaked, dropped twice or used after it was dropped, in particular in the hand-written atomic cell used by channels.',
 ['schedules','inputs','histories'],'every interleaving and every path including overwrite and drop without reading','Leaks and double drops are not checked by any test.',
 [ATO,CH],[('AtomicOption::{swap,store,take,drop}',ATO)])
p('C43','Every feature combination builds and keeps the core API',
 'The crate compiles without warnings-as-errors failures in every combination of its optional features, and the core API does not depend on the optional ones.',
 ['configurations'],'all four subsets of the features debug and serde','The tests are only built with default features.',
 ['Cargo.toml','src/lib.rs',SIG,VEC],[('feature gates',SIG)])
p('C44','No panic or overflow inside the library for well-behaved use',
 'For inputs that respect their contracts (valid diffs, in-range indices, signals that yield first), no combinator or container operation panics, indexes out of bounds or overflows a counter.',
 ['inputs','histories'],'every valid input history','Only sampled inputs are run.',
 [VEC,MAP,SIG],[('index arithmetic, unwrap and expect sites in adapters',VEC)])
p('C45','Containers serialize as their contents and deserialize back',
 'With the serialization feature on, a Mutable, MutableVec or MutableBTreeMap serializes exactly as the value it holds and deserializing produces a container holding the deserialized value.',
 ['inputs'],'every serializable content and format','There is no serialization test.',
 [MUT,VEC,MAP],[('Serialize / Deserialize impls',MUT)])
p('C46','Dropped subscribers stop costing memory and never block others',
 'Signals and subscriptions are held only weakly by the containers they come from: after a subscriber is dropped, the next change removes its bookkeeping, delivery to the remaining subscribers is unaffected, and subscribing to a Mutable with no owners left registers nothing.',
 ['histories'],'every history of subscribing, dropping and changing','Memory held for dropped subscribers is not observed by tests.',
 [MUT,BR,VEC,MAP],[('MutableLockState::notify retain/Weak',MUT),('BroadcasterNotifier::notify',BR),('MutableVecState::notify',VEC)])
p('C47','A Mutable is a cell: operations have their documented result and notice',
 'Every operation of Mutable and its read-only view acts on one shared value exactly as documented: set, set_if, set_neq, replace, replace_with, swap and lock_mut store the new value and return (or show to the callback) the old one; get, get_cloned, lock_ref, clones and read-only views always see the latest value; and subscribers are notified exactly once by every operation that stores a value, and not at all by one that stores nothing (a rejected set_if, a set_neq with an equal value, a lock_mut that was not written through, a swap with itself, reads and clones).',
 ['histories','inputs'],'every history of operations on a Mutable, its clones, its read-only view and a second Mutable it is swapped with, with every value and every result of the callbacks',
 'Tests try single operations with fixed values; they do not follow the value and the notifications through arbitrary histories.',
 [MUT],[('Mutable::{set,set_if,set_neq,replace,replace_with,swap,lock_mut}',MUT),('MutableLockMut Deref/DerefMut/Drop',MUT),('ReadOnlyMutable::{get,get_cloned,lock_ref}',MUT)])
p('C48','The lock guards of the containers read exactly like the contents',
 'The guards returned by lock_ref and lock_mut of MutableVec and MutableBTreeMap dereference, iterate, index, compare (equality and order, with slices, maps and other guards), hash and convert exactly like the slice or map they guard, however the container was made (new, default, with_capacity, from, with values), and a clone of a container gives access to the same contents.',
 ['inputs'],'every contents and every pair of contents, with elements that compare and hash in any consistent way',
 'The tests never compare, order, hash or index guards.',
 [VEC,MAP],[('make_shared! for MutableVecLockRef / MutableVecLockMut',VEC),('make_shared! for MutableBTreeMapLockRef / MutableBTreeMapLockMut',MAP)])
open('/verif/properties.jsonl','w').write(''.join(json.dumps(d)+'\n' for d in P))
print(len(P))
