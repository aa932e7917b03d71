import json, glob, collections
seeds = collections.defaultdict(list)
for f in sorted(glob.glob('/verif/seeded/*/meta.json')):
    m = json.load(open(f)); seeds[m['property']].append(f.split('/')[3])
n = sum(map(len, seeds.values()))
props = [json.loads(l) for l in open('/verif/properties.jsonl')]
how = {
'C01': ('D', 'per scenario: after every interleaving the signal must have delivered, or must be woken for, the newest value; the reference is the order of the writes under the state lock. All `case_conc_mut*` scenarios'),
'C02': ('D', 'same scenarios with drops and clones of handles, read-only views and locks: the end is delivered exactly after the last handle is gone, after the last value, and a parked waker is woken'),
'C03': ('D', '`case_conc_chan*`: send, close, drop, clone against a fresh, a parked and a polling receiver'),
'C04': ('D', 'sender count and closed flag against a reference kept by the harness; send results (value handed back) and `is_closed` compared in every order'),
'C05': ('D', '`case_conc_bc*`: two and three children polled, created and dropped in parallel, source changes during a poll, source end; one case through `SignalExt::broadcast`'),
'C06': ('D', '`case_conc_cancel*`: handle dropped before, between and during polls; wrapped future dropped, callback called once, output untouched otherwise'),
'C07': ('D+E', 'no reachable state of any scenario or history in which a thread waits for a lock it holds; the graph (lock held -> lock wanted) of all scenarios and histories has no cycle between different locks unless a common lock orders them'),
'C08': ('A', 'at every `Pending` returned: every unfinished input polled in this call returned Pending with the current waker, and the inputs that may matter were polled; a self wake is accepted'),
'C09': ('A', 'each input is an automaton that goes to an error state when polled after its end'),
'C10': ('A', '`Ready(None)` only if nothing is owed and no input can add output; not Pending when all inputs are finished and nothing is owed'),
'C11': ('A', 'first poll of the output with inputs that honour the first-value rule: never Pending, never end'),
'C12': ('A', 'acceptor over callback calls and emitted values (uninterpreted values, identity of the value tracked)'),
'C13': ('A', 'acceptor with the last emitted value; equality is an uninterpreted predicate that branches'),
'C14': ('A', 'acceptor per combinator'), 'C15': ('A', 'acceptor; generation of the inner signal tracked'), 'C16': ('A', 'acceptor; generation of the future tracked, futures must not be polled after completion'),
'C17': ('A', 'acceptor for map_ref!, map_mut!, and, or, not: one evaluation per poll with a change, with the latest value of every input'),
'C18': ('A', 'acceptor'),
'C19': ('A', 'wrapper and original are compared event by event: same number of polls of the input, same context, same results; covers &mut, Box, Pin, boxed, boxed_local, poll_*_unpin, debug, inspect, for_each, to_stream, for signals, vecs and maps'),
'C20': ('C', 'all histories of mutators against a reference list with the semantics of Vec; replayed diffs of every subscriber equal the contents; plus interleavings of two writers'),
'C21': ('C+D', 'a subscriber may be taken at every state of the history; plus interleavings of subscribing with every kind of mutator and with guards'),
'C22': ('C+D', 'same for the map, Insert / Update / Remove exactly as the key was absent / present'),
'C23': ('B', 'replayed output equals the reference; map_signal with inner signals that change and end at any time'),
'C24': ('B', 'filter, filter_map (uninterpreted predicate), filter_signal_cloned (inner signals of booleans)'),
'C25': ('B', 'two input lists changing in any order'), 'C26': ('B', 'outer list of inner lists, all changing'), 'C27': ('B', 'the index signal of every live and every removed element is read after each step'),
'C28': ('B', 'comparison: an uninterpreted total preorder, refined on demand'), 'C29': ('B', 'futures that complete at any poll; elements waiting for removal are part of the reference'),
'C30': ('B', 'len, is_empty, sum (uninterpreted addition), to_signal_map / to_signal_cloned'), 'C31': ('B', 'switch_signal_vec, signal -> signal_vec, stream -> signal_vec'),
'C32': ('B', 'map_value, map_value_signal, key_cloned with concrete small keys; keys and entries views driven by the real MutableBTreeMap'),
'C33': ('B+C', '`VecDiff::apply_to_vec` and `MutableVecLockMut::apply_vec_diff`'),
'C40': ('F', 'a table of all public types x which part is not Send / not Sync; positive witnesses must compile, negative ones must not'),
'C41': ('F+A', '`Unpin` witnesses for every public type, and an address typestate: an input polled at one address is never moved afterwards'),
'C42': ('A-D', 'obligations in all cases: every value, callback, input, waker dropped exactly once or handed out; raw pointers published with Release, taken with Acquire, freed once'),
'C43': ('H', 'the four feature sets are type checked with `-D warnings` as the crate asks for, with API witnesses; MIR of each function must be the same in each set, otherwise the changed set is analysed again'),
'C44': ('A-D', 'no reachable panic, failed bounds check or overflow in any case'),
'C45': ('C', 'a recording Serializer and a replaying Deserializer that may fail anywhere'),
'C46': ('C+D', 'after a subscriber is gone, the next change leaves no bookkeeping for it; the others still get every change'),
'C47': ('C', 'all histories over a Mutable, its clones, read-only views, guards and signals with a reference cell; the result, what callbacks are shown, and the number of notices are compared'),
'C48': ('C', 'each forwarding trait (Deref, Index, PartialEq, PartialOrd, Ord, Hash, Borrow, AsRef, iteration) compared with the same on the contents; constructors, capacity operations'),
}
o = []
w = o.append
w('''# Static analysis of futures-signals

All properties are decided from the source of /repo's working tree, without running any of it: not on concrete
inputs, not symbolically with a solver. Two deciders are used: abstract interpretation of the compiler's MIR, and the
type checker itself (witness programs which must, or must not, be accepted).

## Machinery

1. `harness/` is a crate (path dependency on /repo) that *names* the public operations with opaque inputs. It is
   compiled, never run. Its functions are only there to make rustc monomorphise the library code for the opaque
   types, and to state the reference (what a list should be, which value should be delivered) in Rust.
2. `mirdump/` is a rustc driver (nightly, `rustc_public`) that builds /repo's current tree and dumps all monomorphised
   MIR that can be reached from the requested harness functions, with layouts, drop glue and resolved vtable calls.
   std bodies are included where rustc has them; collections, iterators, locks, atomics, Arc, futures-channel and
   formatting are replaced by models.
3. `absint/` (Python) interprets that MIR over abstract values:
   * `engine.py`: places, enums, references, borrows, drop elaboration, calls, branching on unknown predicates;
   * `seq.py`, `iters.py`, `btree.py`, `chan.py`, `rel.py`: models of Vec/VecDeque/slices, iterators, BTreeMap,
     mpsc and of an uninterpreted order;
   * `env.py`, `poll.py`, `specs_sig.py`, `vecspec.py`, `mapspec.py`: monitors at the boundary (child poll, callback,
     returned poll) = analyses A and B;
   * `hist.py`: operation histories = analysis C; `conc.py`: interleavings = analysis D, lock order = E;
   * `typecheck.py`: witnesses = F, feature sets = H.
   States are canonicalised (renaming of allocations and values, dead locals dropped by liveness) and explored
   breadth first until no new abstract state appears. An alarm is one construct: a monitor rule with the source
   location and the path of calls which leads there (written to `evidence/<id>.violation.txt`).
4. What cannot be interpreted (an unmodelled std function, say) makes that path *undecided*: it is counted in the evidence and
   printed, and is never reported as a violation. A check with nothing decided gives no answer (exit 2), not "held".
   On the unchanged tree nothing is undecided.

Why this reaches what tests cannot: every input behaviour (each poll of each input: Pending, a value, the end; each
diff kind at each valid index), every order of operations and every schedule is covered up to the bounds below; values
are uninterpreted, so a result holds for every value.

### What the analyses cover, and their bounds

* **A** poll contract of signals: no bound on histories (fixpoint), values uninterpreted, input signals any
  behaviour that honours the Signal contract, callbacks any function that does not panic.
* **B** list and map combinators: the input lists hold at most N elements at any time and an input delivers at most K
  changes per poll (N, K printed in the evidence: quick mostly 3/2, thorough 4/2); histories are unbounded. Thresholds that
  only matter for longer lists are out of reach.
* **C** containers: every operation with every in-range argument, in every order, to the fixpoint, with at most N
  elements (quick 2-3, thorough 4-5) and up to two subscribers; ranges given in every form.
* **D** concurrency: every interleaving of the atomic operations, lock acquisitions and reference count operations of the scenarios in
  `harness/src/conc.rs`, `concvec.rs` (2-3 threads). The set of scenarios is the bound. Sequential consistency, except
  that raw pointers must be published with Release and received with Acquire. Reader locks may be blocked by a waiting
  writer, as std allows.
* **E** lock order: class level graph; edges between two instances of the same class are left to D (swap).
* **F** auto traits and `Unpin`: exact for the types listed by the generator (all public types).
* **H** all feature sets (debug, serde): exact.

## Per property

| id | analysis | what is decided | planted bugs (all caught by the property's own check) |
|----|----------|-----------------|------------------------------------------------------|''')
for p in props:
    a, t = how[p['id']]
    w('| %s | %s | %s | %s |' % (p['id'], a, t, ', '.join(seeds.get(p['id'], [])) or '-'))
w('''
%d planted bugs are kept in `seeded/`; `python3 tools/seed.py confirm` re-checks them (patch applies, tests pass, demo
discriminates) and `detect -a` runs the checks. Each is caught by the check of its property; `known_findings.json` is not
involved. Checks were strengthened when a planted bug was missed at first: guards and histories of Mutable (C47),
comparisons of guards (C48), memory order of `AtomicOption` (C42), end conditions with only lazy inputs left (C10),
duplicate wakers after `clone`, lock order (C07), serde (C45) all came from such misses.

## Defects found in the code

Fourteen genuine defects were found by the analyses, reproduced against the real code (`findings/*.rs`), and repaired by one `fix:`
commit each; see `known_findings.json` ("fixed"). No finding is left unrepaired, so no KNOWN-FINDING line is expected.

## False alarms that were corrected

* enumerate: the harness compared the index signal of an element replaced by UpdateAt; the library re-uses it, which is allowed.
* len: the first version required that equal lengths are never repeated; the statement never promised it (only is_empty does).
* set_neq: a scenario needed an equality that is not reflexive.
* "index out of bounds" inside `Vec::dedup_by`: std's unsafe MIR was interpreted instead of modelled.
* `into_iter().filter().collect()`: the model did not drop rejected items, giving a false C46/C42.
* `RuntimeChecks` operands (std's UbChecks) were taken as unknown, so std's internal assertions looked reachable; they are
  compiled out of a std release build, and preconditions of std's unsafe functions are not part of any property here.
* combinators that drop and recreate state under another name, `compare_exchange` loops, `try_update`: missing models
  found by refactoring (below).

## Behaviour-preserving changes that were tried

REFACTORINGS

## Not covered, known limits

* dropping the last Mutable while the same thread holds a lock guard of it; poisoned locks; wakers that re-enter the
  library while a guard is held (the statement of C07 excludes user code);
* leaked `Drain`; callbacks that panic; `move_from_to` out of range;
* flatten whose inner signal breaks the first-poll contract;
* a value sent in parallel with a close may be stored after the receiver has ended (it is dropped with the channel);
* thresholds beyond the bounds (for example garbage collection only from nine subscribers on);
* closures with owned captures that are passed by value to some std functions (`retain`) are not dropped by the model;
* formatting is opaque: what `Debug` prints is not checked, only which locks it takes;
* trait objects are resolved only when a single concrete type is possible;
* real time: `throttle`'s timer is a future chosen by the caller, nothing is said about clocks.
''' % n)
r = open('/verif/tools/refactorings.md').read() if glob.glob('/verif/tools/refactorings.md') else '(see below)'
open('/verif/DESIGN.md', 'w').write('\n'.join(o).replace('REFACTORINGS', r.strip()))
