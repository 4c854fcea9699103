#!/usr/bin/env python3
"""Source of /verif/properties.jsonl (kept as python so that the text is reviewable)."""
import json, os
L = "mockall/src/lib.rs"
F = "mockall_derive/src/mock_function.rs"
S = "mockall_derive/src/mock_item_struct.rs"
T = "mockall_derive/src/mock_trait.rs"
D = "mockall_derive/src/lib.rs"
A = "mockall_derive/src/automock.rs"
MS = "mockall_derive/src/mockable_struct.rs"
MI = "mockall_derive/src/mock_item.rs"
DB = "mockall_double/src/lib.rs"
props = []
def P(id, title, statement, over, text, why, files, mech, state=(), hook=None):
    assert len(title) <= 80, title
    props.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech],
                     state=[dict(name=n, meaning=m, where=w) for n, m, w in state],
                     hook_needed=hook)))

P("C01", "Calls go to the oldest matching expectation that can still be called",
  "A call on a mock method is answered by the oldest expectation of that method whose matcher accepts the arguments and which has not yet been called its maximum number of times; if the method has exactly one expectation, that one answers even when it is used up (and then fails). "
  "If no expectation qualifies, the call panics with a no-matching-expectation error and changes nothing: later calls and the final verification behave as if it had not been made. "
  "This holds alike for methods returning owned values, references and mutable references, for static methods and for generic methods.",
  ["histories", "inputs"],
  "every list of expectations (matchers x call-count ranges), every sequence of calls interleaved with new expectations, for each kind of generated dispatcher",
  "Dispatch depends on the whole history of earlier calls and on the list's content; the tests try two or three expectations in one fixed order on one of the three separately generated dispatchers.",
  [F], [("Expectations::call/call_mut find", F+":RefExpectations,RefMutExpectations,StaticExpectations"), ("GenericExpectations::call", F+":StaticGenericExpectations"), ("Times::is_done", L)],
  [("expectation list", "FIFO list per method and generic instantiation", F)])
P("C02", "An expectation never answers more calls than its maximum",
  "An expectation with maximum n answers at most n calls: if it is the method's only matching expectation's call beyond the maximum, the call panics at once with a called-too-often error instead of returning, and every further such call panics too. "
  "Only the calls that were routed to an expectation count against it, and calls within the maximum are never refused on account of the count.",
  ["histories", "inputs"],
  "every call count range (never, n, n.., ..n, a..b, inclusive forms, wildcard) and every history of calls to one or several expectations",
  "The tests check one or two ranges at one overshoot; the bound must hold for every range and after any history, including calls refused for other reasons.",
  [L, F], [("Times::call", L), ("Common::call", F)], [("count", "calls so far", L+":Times")])
P("C03", "Dropping a mock verifies every expectation's minimum call count",
  "When a mock object is dropped normally, the drop panics exactly if some remaining expectation was called fewer times than its minimum, or more often than its maximum, and names such an expectation with its count; otherwise it is silent. "
  "When it is dropped while the thread is already unwinding from a panic it never panics again.",
  ["histories", "inputs", "fault_sequences"],
  "every combination of expectations, ranges and call histories on all of an object's methods (inherent, from each mocked trait, generic), dropped normally or during unwinding",
  "Tests check one unsatisfied expectation of one method; verification must cover every method of every mock shape and every count, and stay silent in the unwinding case.",
  [F, L, S], [("Drop for Common", F), ("Times::is_satisfied", L)], [])
P("C04", "checkpoint() verifies and discards all of an object's expectations",
  "Calling checkpoint() on a mock object panics exactly if dropping the object at that point would have, covering inherent methods, methods of every mocked trait and every instantiation of generic methods, and leaves static methods alone. "
  "After a successful checkpoint the object has no expectations: calls find no match, and expectations added later are independent of the earlier ones.",
  ["histories", "configurations"],
  "every history of expectations and calls over every method kind of an object, with checkpoints at any point",
  "The tests checkpoint structs with one or two methods; whether every kind of method takes part, and nothing survives, depends on the shape of the mock and on the history.",
  [S, T, F], [("checkpoint in generated struct", S), ("Expectations::checkpoint", F), ("GenericExpectations::checkpoint", F), ("trait substruct checkpoint", S)], [])
P("C05", "Sequences admit exactly the calls that respect their order",
  "Expectations added to a Sequence can only be called in the order they were added, each after its predecessors have received all their calls, even across different methods, traits, objects, static functions and generic instantiations; a call out of order panics with a sequence violation, and calls in order are never refused on account of the sequence. "
  "Distinct sequences do not influence each other, expectations outside a sequence are unaffected, and dropping the Sequence value changes nothing. "
  "Adding an expectation whose call count is not exact panics; an expectation of exactly zero calls does not hold up its successors.",
  ["histories", "inputs"],
  "every assignment of expectations (exact counts) of several methods/objects to several sequences and every order of calls, including wrong ones",
  "Tests exercise one right and one wrong order of two or three expectations; the claim quantifies over all call orders, counts and interleavings of several sequences.",
  [L, F], [("SeqInner::verify/satisfy", L), ("Common::call", F), ("Common::in_sequence", F)], [("satisfaction_level", "number of satisfied members", L+":SeqInner"), ("next_seq", "members handed out", L+":Sequence")])
P("C06", "Call-count arguments mean what they say; invalid ranges are rejected",
  "times(n), times(a..b), times(a..=b), times(a..), times(..b), times(..=b), times(..), once() and never() set exactly the stated minimum and maximum, with the default of any number, and the last one set before use wins. "
  "A range that contains no number (a..b or ..b with nothing below b, or a..=b with b < a) is rejected with a panic when it is set, and every other is accepted.",
  ["inputs", "histories"],
  "all bounds a, b, n up to usize::MAX, all forms, all sequences of settings, and all numbers of calls",
  "The tests check a few fixed bounds; off-by-one errors at other bounds, in one of the conversions, or in one of the forwarding layers go unseen.",
  [L, F], [("From<..> for TimesRange", L), ("Times::{call,is_done,is_satisfied,minimum,maximum}", L), ("Common::{times,never}", F)], [("range", "half-open allowed counts", L+":Times")])
P("C07", "Owned return values come from the configured action, in order",
  "returning/returning_st run the supplied closure exactly once per accepted call with the very arguments passed, keeping the closure's state between calls; return_const/return_const_st yield a clone of the value each time; return_once/return_once_st run their closure for the first call only, and a further call panics. "
  "The last action set on an expectation wins, each expectation has its own, and a closure is never run for a call that is refused. "
  "An expectation without any action panics when called (without the nightly feature).",
  ["histories", "inputs"],
  "every action kind, sequence of settings, and history of calls, on instance, static, generic and trait methods, directly and through a context's expectation guard",
  "Tests call each action once or twice on one kind of method; each generated layer and forwarder can differ in one combination.",
  [F], [("StaticRfunc", F), ("StaticExpectation", F), ("ExpectationGuardCommonMethods", F)], [("rfunc", "what to return", F)])
P("C08", "Reference returns alias storage owned by the expectation",
  "For a method returning a shared reference, return_const makes every call yield a reference to one stored value, unchanged between calls and distinct per expectation. "
  "For a method returning a mutable reference, return_var yields one stored variable whose modifications through the returned reference are seen by later calls of the same expectation and by no other; returning/returning_st produce a fresh value for every call, discarding modifications.",
  ["histories", "inputs"],
  "every history of expectations, calls and writes through returned references, for plain, str/slice/path/dyn, generic and trait methods",
  "Tests write through one returned reference once; persistence and non-interference are properties of the whole history.",
  [F], [("RefRfunc", F), ("RefMutRfunc", F), ("destrify/dedynify/ownify", F)], [])
P("C09", "An expectation matches exactly the calls its matcher accepts",
  "with(p1..pn) accepts a call exactly if every predicate accepts the argument in its own position, for any number of arguments; withf/withf_st accept exactly if their function returns true for references to the arguments in order; without a matcher every call is accepted. "
  "Setting a matcher replaces the previous one, and matchers see the caller's argument values before the action consumes them.",
  ["inputs", "histories"],
  "all argument tuples and predicate tuples over a value domain, for 0 to 12 arguments of owned, reference, slice and generic types, and every order of matcher settings",
  "Tests use one or two predicates with one matching and one non-matching call; a wrong position, dropped conjunct or stale matcher shows only for particular tuples.",
  [F, L], [("Matcher::matches", F), ("Common::with/withf/withf_st", F), ("predexprs", F)], [])
P("C10", "Objects, methods, traits and generic instantiations do not interfere",
  "Expectations, counts and return state belong to one mock object, one method and one tuple of generic type arguments: expectations set for one are never used, counted, verified or discarded by operations on another. "
  "This includes one trait implemented for several type arguments, generic methods whose type arguments differ in any position or order, and generic static methods of different instantiations.",
  ["histories", "programs"],
  "every interleaving of operations over several objects, methods, traits and instantiations (one to three type parameters)",
  "The tests set expectations on at most two instantiations and check one call each; interference through a shared key or list depends on the combination.",
  [F, L, S, D], [("Key / gen_keyid", L+", "+D), ("GenericExpectations store", F), ("per-trait substructs", S)], [])
P("C11", "Static expectations live exactly as long as their context says",
  "Expectations of a static method or free function are set through a context, are used by every call of that function from then on, and are verified and discarded when a context of that function is checkpointed or dropped normally: the checkpoint or drop panics exactly if some expectation's count is out of range. "
  "Afterwards the function has no expectations, for every generic instantiation, and other functions' expectations are untouched; a mock module's checkpoint() does so for all its functions.",
  ["histories"],
  "every history of creating, checkpointing and dropping (possibly several) contexts, expectations and calls over several functions, generic or not, of structs, traits and modules",
  "Tests use one context in a straight line; verification and clearing must hold for any order of contexts, functions and instantiations.",
  [F, MI], [("Context::{expect,checkpoint,drop}", F), ("ExpectationGuard", F), ("module checkpoint", MI)], [("EXPECTATIONS", "process-wide list behind a Mutex", F)])
P("C12", "A panicking test leaves no trace in static expectations",
  "If a context is dropped while its thread unwinds from a panic - whether the panic came from user code, from an unmatched, over-called or out-of-order call, from a panicking closure, or from an unfinished expectation - the drop does not panic, whatever counts are unsatisfied. "
  "After that the function has no expectations and is fully usable again: a later context starts from a blank slate and its expectations behave as in a fresh process.",
  ["fault_sequences", "histories"],
  "every history of static expectations and calls with a panic at any point, unwinding one or several contexts, followed by any further history",
  "Only a few panic sources at one point are tested; hygiene must hold for every point at which the panic can occur, including while the internal lock is held.",
  [F], [("Context::drop panicking branch, clear_poison", F), ("Drop for Common panicking test", F)], [])
P("C13", "Counting stays exact under concurrent calls",
  "When several threads call a shared mock concurrently, every call is either answered or refused with a panic; no call is lost or counted twice, an expectation never answers more calls than its maximum under any interleaving, and the verification at the end sees exactly the calls made. "
  "With one matching expectation the outcomes are those of the same calls made one after another.",
  ["schedules"],
  "all interleavings of the steps of 2 to 3 threads calling one or more expectations, plus long stress runs",
  "The test suite is single threaded apart from trivial Send checks; a lost update needs a particular interleaving.",
  [L, F], [("Times (atomic counter)", L), ("Common::call", F)], [("count", "atomic", L)], "scheduling points at the counter and sequence atomics")
P("C14", "Return closures are never run concurrently, and once-closures run once",
  "The closure given to returning is never executed by two threads at the same time for the same expectation, and a return_once closure is executed at most once no matter how many threads call concurrently; the state mutated by such a closure is never lost. "
  "Closures of different expectations or methods do not block each other.",
  ["schedules"],
  "all interleavings of 2 to 3 threads calling expectations with stateful, once and blocking closures",
  "No test calls a mock from two threads at once; exclusion is a property of schedules.",
  [F], [("rfunc: Mutex<Rfunc>", F)], [])
P("C15", "Single-threaded matchers and actions refuse other threads",
  "A matcher or action set with withf_st, returning_st, return_once_st or return_const_st works like its Send counterpart on the thread that set it, and any call that would evaluate it on another thread panics without running it. "
  "Other expectations and the plain variants work from any thread.",
  ["schedules", "histories"],
  "all _st setters, receivers (instance, static, ref-mut), calling threads, and orders of earlier calls",
  "Tests call the _st variants from the creating thread, and from a foreign thread in at most one form.",
  [F], [("Fragile wrappers", F)], [])
P("C16", "Static calls from concurrent threads are atomic",
  "Concurrent calls of a mocked static method or free function behave as if executed one after another in some order: each selects, counts and runs its action as one step, so several expectations are consumed in FIFO order without gaps, overshoot, or spurious refusals. "
  "Creating expectations and checkpointing are likewise atomic with respect to calls.",
  ["schedules"],
  "all interleavings of 2 to 3 threads over static functions with one to three expectations and a sequence",
  "Tests synchronise access to static mocks with their own mutex; no test lets two threads race.",
  [F], [("get_expectations().lock() held across the call", F)], [])
P("C17", "A generated mock has the mocked item's interface",
  "For every supported signature - any receiver, argument and return kind, generics, bounds, where clauses, lifetimes, Self, associated types, async (also with async_trait), visibility, nested and super paths - mock! and automock produce a type that compiles, implements each mocked trait, offers a method of the same signature usable in place of the original, and an expectation interface that accepts the same arguments. "
  "Calling such a method passes each argument unchanged to matcher and action and returns the action's value unchanged. The mock is Send and Sync if its type parameters are, and a function of a foreign ABI keeps its symbol name.",
  ["programs"],
  "all combinations of signature features, enumerated from the Shapes specification, up to the pairwise/product bound",
  "Each existing test fixes one signature; the claim is over their combinations.",
  [D, F, A, MS, T, S], [("signature transformations (deselfify, supersuperfy, declosurefy, deimplify, destrify, split_lifetimes, merge_generics...)", D), ("associated type substitution", A)], [])
P("C18", "#[double] imports exactly the mock under test and the original otherwise",
  "For every supported use-tree annotated with #[double], a test build binds each imported name (or its rename) to the mock (MockFoo for types, mock_foo for modules), and a non-test build binds it to the original; no other name is affected. "
  "Glob imports and bare names are rejected at compile time; type aliases behave likewise.",
  ["programs", "configurations"],
  "all use-trees up to a size bound: paths, nested groups, renames, types and modules, visibility, and type aliases; both build configurations",
  "The tests contain a dozen hand written imports; renaming must work for every tree.",
  [DB], [("mock_itemuse / mock_usetree / mock_itemtype", DB)], [])
P("C19", "Failure messages identify the function, matcher, arguments and counts",
  "A refused call or failed verification names the mock method and, as applicable, shows each argument's Debug form in order (or ? for types without Debug), the matcher (predicate text, <function>, <single threaded function> or <anything>), the actual number of calls and the violated minimum or maximum. "
  "The numbers shown are those of the failing expectation at that moment.",
  ["inputs", "histories"],
  "every failure kind on every expectation of a list, all counts and ranges, all matcher kinds, 0 to 12 arguments with and without Debug",
  "Tests check a handful of fixed messages with one expectation.",
  [F, L], [("Common::call / drop messages", F), ("desc()", F), ("ArgPrinter", L), ("Matcher Display", F)], [])
P("C20", "Concretized generic methods share one list and match through references",
  "A generic method marked concretize has a single list of expectations shared by all instantiations: withf/withf_st and the action receive every generic argument as a trait object referring to the caller's own value, in position, and dispatch, counting and verification are those of an ordinary method. "
  "This holds for by-value, reference, mutable reference, slice-of-generic and where-clause forms of the parameter.",
  ["programs", "histories"],
  "parameter forms x other arguments x owners, each with every short history of expectations and calls over two instantiations",
  "Tests check each form with one call; mixing instantiations and histories is not covered.",
  [D, F], [("concretize_args", D), ("MockFunction concretize branches", F)], [])
P("C21", "Mocks are created empty and structurally complete",
  "new() (unless the mocked item itself has a method of that name) and default() create an object without expectations for every mock shape; creating a mock never inherits expectations from another object. "
  "Mocking several traits, including Clone or one trait for several type arguments, gives each its own independent methods, and a derived Debug prints without needing or consuming expectations.",
  ["programs", "histories"],
  "all mock structures: generics, several traits, same trait twice, user-supplied new/Debug/Clone, module functions",
  "Tests check individual structures.",
  [S, T, MS], [("new/default generation", S), ("Debug impl", S)], [])
P("C22", "With the nightly feature, an expectation without action returns the default",
  "With the nightly feature, an expectation with no action set returns the return type's Default value for every call if the type has one, also behind references and mutable references (where the stored default persists like return_var), and panics when called otherwise; a set action always overrides it. "
  "Without the feature every such call panics.",
  ["configurations", "inputs", "histories"],
  "all return kinds with and without Default, both feature settings, and call histories",
  "Nightly tests check two or three types once.",
  [L, F], [("DefaultReturner", L), ("Rfunc::Default", F)], [])
P("C23", "Panics in user code leave instance mocks consistent",
  "A panic raised by a matcher, action, argument Debug or Clone implementation propagates to the caller unchanged; the call counts if and only if its expectation had been selected and counted before the panic, and other expectations, methods and objects keep working. "
  "Dropping the object afterwards verifies the counts as usual, except that an expectation whose own matcher panicked may make the drop fail.",
  ["fault_sequences", "histories"],
  "a panic at each user-code point of each call of every short history",
  "No test resumes using a mock after a panicking closure.",
  [F], [("Common::call order, rfunc mutex", F)], [])
P("C24", "Conditional compilation and attributes carry over to the mock",
  "Methods, trait impls and functions that are configured out do not exist in the mock and need no expectations, those configured in do, whatever item follows or precedes them, and checkpoint/drop work either way. "
  "Attributes such as doc, must_use, inline, allow, deprecated or link_name on the mocked item do not change the mock's run-time behaviour.",
  ["programs", "configurations"],
  "all placements of true and false cfg conditions and attributes over methods, static methods, generic methods, trait impls and module functions",
  "Tests have a few cfg'd methods only.",
  [D, F, S, MI], [("AttrFormatter", D), ("attrs in checkpoint/expect/field_definition", F)], [])

P("C25", "Code generation is deterministic",
  "Expanding the same mock!, #[automock] or #[double] item always yields the same code: in every compilation of the crate, whatever other items the crate declares, and in whatever order they are declared. "
  "In particular the order of lifetimes, type parameters, trait impls and methods in the generated code never depends on a hasher's random keys, on addresses or on what the macros expanded before, so that builds with mocks are reproducible.",
  ["programs", "compiler processes"],
  "all supported items - with any number of lifetimes, generic parameters, closures, associated types, trait impls and methods - and all histories of what the compiler process expanded before",
  "The repository's CI compares two builds of one crate; no test can see a different order, which a hasher's random key gives only in some processes.",
  [D, F, S, MI], [("HashMap, HashSet (deterministic aliases)", D), ("alifetimes", F), ("split_lifetimes, find_lifetimes", D)], [])

path = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(path, "w") as f:
    for p in props:
        f.write(json.dumps(p) + "\n")
print(len(props))
