"""Source of properties.jsonl (run: python3 tools/mkprops.py)."""
import json, pathlib
S = "hypothesis-python/src/hypothesis/"
I = S + "internal/"
C = I + "conjecture/"
G = S + "strategies/_internal/"
X = S + "extra/"
P = []
def p(id, title, statement, over, qtext, why, files, mech, observe=()):
    assert len(title) <= 80, (id, len(title))
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=qtext), why_tests_cant=why,
        anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech],
                     observe_at=list(observe), hook_needed=None)))

p("C01", "Numeric strategies generate only values their arguments allow",
  "Every value produced by integers(), floats(), complex_numbers(), decimals(), fractions() or booleans() - while generating, mutating, shrinking, replaying stored choices or replaying arbitrary fuzzer bytes - has the documented type and satisfies every declared constraint (closed or excluded bounds, width representability, allow_nan / allow_infinity / allow_subnormal, magnitudes, places, max_denominator). Whenever the constraints admit a value, the endpoints included, the strategy can be constructed and produces values.",
  ["inputs", "configurations"], "all argument combinations of the numeric strategies, and all choice sequences fed to them",
  "Tests sample a few bound/flag combinations; the property quantifies over the product of bounds, exclusion flags, widths and choice sequences, where defects sit at subnormals, signed zeros, adjacent floats and crossing-zero ranges.",
  [G+"numbers.py", G+"core.py", C+"providers.py", I+"floats.py", C+"choice.py"],
  [("float clamping and constraints", I+"floats.py:make_float_clamper"), ("bound validation", G+"numbers.py:floats"), ("decimals/fractions construction", G+"core.py:decimals, fractions"), ("choice_permitted on replay", C+"choice.py:choice_permitted")],
  ["values received by the test function"])
p("C02", "Text, character and binary strategies respect alphabet and size",
  "Every value from text(), characters() and binary() has a length within min_size/max_size and consists only of characters admitted by the alphabet, codepoint range, codec, categories and include/exclude arguments (documented precedence), under generation, shrinking, stored replay and arbitrary fuzzer bytes. Conversely every character those arguments admit is one the strategy can produce, and a specification that admits none is rejected.",
  ["inputs", "configurations"], "all characters()/text()/binary() argument combinations and all choice sequences",
  "The character set is a set algebra over 1.1 million codepoints, 30 categories, codecs and include/exclude lists; tests check a handful of combinations.",
  [G+"strings.py", G+"core.py", I+"charmap.py", I+"intervalsets.py", C+"providers.py"],
  [("charmap.query", I+"charmap.py:query"), ("OneCharStringStrategy.from_characters_args", G+"strings.py"), ("draw_string", C+"providers.py")],
  ["values received by the test function"])
p("C03", "from_regex() strings match the pattern they were generated from",
  "Every string or bytes value drawn from from_regex(pattern, fullmatch, alphabet) matches that pattern under Python's re module (fullmatch when fullmatch=True, search otherwise), with the pattern's flags, and uses only characters from the given alphabet (except where the documentation says otherwise). This holds for every syntactically valid pattern the strategy accepts and for every choice sequence.",
  ["inputs", "programs"], "regular expressions over the sre grammar (classes, groups, backreferences, lookaround, conditionals, anchors, flags, lazy/possessive repeats) and choice sequences",
  "The grammar of regexes is unbounded; the test-suite lists a few dozen patterns.",
  [G+"regex.py"], [("regex translation", G+"regex.py:_strategy"), ("base/padding strategy", G+"regex.py:regex_strategy"), ("final filter", G+"regex.py:regex_strategy")], ["generated strings"])
p("C04", "Collection strategies respect sizes, uniqueness and element domains",
  "Every value from lists, sets, frozensets, dictionaries, fixed_dictionaries, tuples, iterables and permutations has the documented container type, a size within its bounds, elements drawn from the element strategies, the uniqueness promised by unique / unique_by, every required key, and only known optional keys. This holds while generating, shrinking and replaying arbitrary choice sequences, and reachable sizes include the declared extremes.",
  ["inputs", "configurations"], "element strategies x size bounds x uniqueness keys x choice sequences",
  "Uniqueness and size bounds interact with rejection, filtering and shrinking of choice sequences; tests use a few fixed shapes.",
  [G+"collections.py", G+"core.py", C+"utils.py", G+"strategies.py"],
  [("many()", C+"utils.py:many"), ("UniqueListStrategy", G+"collections.py"), ("FixedDictStrategy", G+"collections.py"), ("unique sampled fast path", G+"collections.py:UniqueSampledListStrategy")], ["generated containers"])
p("C05", "Date, time and timezone strategies stay inside their bounds",
  "Every value from dates, times, datetimes, timedeltas and the timezone strategies lies within min_value..max_value inclusive, carries a tzinfo from the timezones strategy it was given (or None), and exists in that timezone when allow_imaginary=False. Every one of these strategies accepts any consistent pair of bounds, including equal bounds and the type's extremes.",
  ["inputs", "configurations"], "bounds over the whole range of the datetime types, tz strategies, folds and choice sequences",
  "Component-by-component drawing makes each carry position (year/month/.../microsecond equal to a bound) a separate case; tests sample few.",
  [G+"datetime.py", X+"dateutil.py", X+"pytz.py"],
  [("draw_capped_multipart", G+"datetime.py"), ("allow_imaginary filter", G+"datetime.py:datetime_does_not_exist")], ["generated datetimes"])
p("C06", "Standard-object strategies generate well-formed, usable objects",
  "Every uuid, IP address, email, domain, URL, slice, generated callable and Random instance is valid for its type: it satisfies the requested version/network/size/length arguments, parses under an independent parser or grammar, slices index within the documented size, functions() return values from their returns strategy (identical for equal arguments if pure) and accept exactly like's signature, and randoms() objects honour the contracts of every random.Random method.",
  ["inputs", "configurations"], "argument combinations, choice sequences, and call histories on the generated objects",
  "Tests check single calls of each method and default arguments; the property spans call sequences and argument combinations.",
  [G+"misc.py", G+"ipaddress.py", G+"functions.py", G+"random.py", S+"provisional.py", G+"core.py"],
  [("HypothesisRandom method wrappers", G+"random.py"), ("functions()", G+"functions.py"), ("domains/urls", S+"provisional.py"), ("ip_addresses", G+"ipaddress.py")], ["generated objects and their method results"])
p("C07", "Strategy combinators mean what their definitions say",
  "map, filter, flatmap, |/one_of, just, none, nothing, sampled_from, builds, composite, data, recursive, deferred, shared and tuples compose compositionally: each value is one the naive set-theoretic reading of the expression allows, shared(key) yields one value per test case, recursive() respects max_leaves, sampled_from yields only (transformed) members, and a branch that can produce nothing is never chosen or reported empty wrongly. Reusing or nesting a strategy object never changes what it generates.",
  ["inputs", "programs"], "strategy expressions built from the combinators, and choice sequences",
  "Combinator expressions are an unbounded grammar with cached, lazily-computed strategy properties; tests cover individual combinators.",
  [G+"strategies.py", G+"core.py", G+"recursive.py", G+"deferred.py", G+"shared.py", G+"flatmapped.py", G+"lazy.py"],
  [("recursive property fixpoint", G+"strategies.py:recursive_property"), ("OneOfStrategy flattening", G+"strategies.py"), ("LimitedStrategy leaves cap", G+"recursive.py"), ("shared keys per test case", G+"shared.py")], ["generated values"])
p("C08", "filter() keeps exactly the values satisfying the predicate",
  "For every strategy s and predicate p, each value of s.filter(p) is a value of s satisfying p, and every value of s satisfying p remains producible, no matter whether the filter was rewritten into the strategy (comparisons, partials, lambdas, isfinite, str and collection predicates, compiled-regex methods), and no matter how filters are chained or ordered. Filtering never makes an unsatisfiable strategy appear satisfiable nor the reverse.",
  ["inputs", "programs"], "strategies with rewrite rules x predicates (operator partials, lambdas, methods) x chains of filters",
  "The rewriting is predicate-source analysis with float/integer edge cases; equivalence to naive filtering is a statement over all predicates.",
  [I+"filtering.py", G+"strategies.py", G+"numbers.py", G+"strings.py", G+"collections.py"],
  [("get_integer/float_predicate_bounds", I+"filtering.py"), ("per-strategy filter()", G+"numbers.py, strings.py, collections.py"), ("FilteredStrategy", G+"strategies.py")], ["values generated from the filtered strategy"])
p("C09", "from_type() and builds() produce instances of the requested type",
  "For every type expression the library can resolve (builtins, typing generics and unions, Literal, Annotated constraints, TypedDict, NamedTuple, dataclasses, attrs, enums, NewType, protocols and user-registered types), every value from from_type(T) or an inferred builds() argument is a valid instance of T, recursively. builds() passes exactly the given and inferred arguments, and register_type_strategy takes effect for exactly the registered type.",
  ["inputs", "programs"], "nested type expressions and class definitions, and choice sequences",
  "Type expressions nest arbitrarily and interact with forward references, Annotated and registration; tests cover individual forms.",
  [G+"types.py", G+"core.py", G+"attrs.py", G+"utils.py"],
  [("from_typing_type", G+"types.py"), ("_from_type", G+"core.py"), ("BuildsStrategy", G+"core.py"), ("from_attrs", G+"attrs.py")], ["generated values"])
p("C10", "Invalid strategy arguments are rejected cleanly, valid ones are not",
  "For every strategy function and every combination of arguments, validating or drawing either works or raises InvalidArgument (or TypeError for a bad call signature) before any test case runs; it never fails with an internal error, hangs, or silently yields values outside the request. In particular crossed bounds, impossible sizes, wrong types and non-finite bounds are always rejected.",
  ["inputs", "configurations"], "arbitrary argument tuples (right and wrong types, crossed bounds, extreme sizes) for every public strategy function",
  "The argument space is unbounded; tests list about 200 hand-picked bad calls.",
  [G+"core.py", G+"numbers.py", G+"strings.py", G+"datetime.py", I+"validation.py", G+"lazy.py"],
  [("check_* validators", I+"validation.py"), ("defines_strategy/validate", G+"utils.py"), ("InvalidArgument raised at definition", S+"core.py")], ["exception type"])
p("C11", "Small finite input spaces are explored exhaustively and without repeats",
  "When the test's input space (its set of possible choice sequences) is finite and smaller than the example budget, a passing run executes every input exactly once during generation and then stops; so a failure that some input triggers cannot be missed. In general no choice sequence is executed twice during generation of new examples with the default backend.",
  ["inputs", "programs"], "finite-domain strategy expressions, including dependent draws and filters, with budgets above the domain size",
  "Tests check a few fixed small domains; the property is over all finite draw trees.",
  [C+"datatree.py", C+"engine.py", C+"providers.py"],
  [("DataTree novel prefixes and exhaustion", C+"datatree.py:generate_novel_prefix"), ("exit when tree exhausted", C+"engine.py")], ["sequence of inputs received by the test function"])
p("C12", "A test run's verdict is honest",
  "A run of a @given test raises a test failure if and only if some executed test case raised a failure exception; the exception raised to the user is the one the reported minimal input produces when the original function is called directly with it, and the last execution of the test body is that reported input. Rejected cases (assume, failed filters, overruns) are never reported as failures or passes, and a run that satisfied no case at all reports Unsatisfiable rather than success.",
  ["programs", "inputs", "configurations"], "test bodies with arbitrary pass/fail/assume/raise behaviour over the input space x settings",
  "The verdict is a function of the test body's whole behaviour over its inputs; unit tests use a few bodies.",
  [S+"core.py", C+"engine.py", C+"data.py", S+"control.py"],
  [("execute_once / _execute_once_for_engine", S+"core.py"), ("run_engine final replay", S+"core.py"), ("test_function status bookkeeping", C+"engine.py")], ["exception raised by the test", "executions of the test body"])
p("C13", "Example budgets and phases bound what is executed",
  "With no failure, a run executes exactly max_examples valid test cases unless the input space is exhausted or the documented rejection limit is hit, and rejected cases do not count as valid. Each phase's activity happens only if that phase is enabled (explicit, reuse, generate, target, shrink, explain), and with shrink disabled a failure stops the run without further search.",
  ["configurations", "programs"], "max_examples x phases x rejection patterns x failure positions",
  "The product of phase sets, budgets and rejection patterns is sampled by tests at a few points.",
  [C+"engine.py", S+"core.py", S+"_settings.py"],
  [("test_function limits", C+"engine.py"), ("should_generate_more", C+"engine.py"), ("phase checks", C+"engine.py:_run")], ["counts and order of test executions"])
p("C14", "Seeded and derandomized runs are reproducible",
  "Two runs of the same test with the same @seed (or derandomize=True) and settings and no database execute the same inputs in the same order and report the same result, in the same process or another one, regardless of PYTHONHASHSEED, of the state of the global random generators, and of other Hypothesis tests run before it.",
  ["programs", "histories", "configurations"], "test programs x seeds x prior process history x hash seeds",
  "Requires comparing whole runs across processes and histories; tests check single properties in one process.",
  [S+"core.py", I+"entropy.py", C+"engine.py", C+"providers.py", I+"reflection.py"],
  [("get_random_for_wrapped_test", S+"core.py"), ("function_digest", I+"reflection.py"), ("engine Random threading", C+"engine.py")], ["sequence of executed inputs"])
p("C15", "Global PRNG state is controlled inside tests and restored after them",
  "During each test case the global random (and numpy.random and registered generators) start from a state determined only by the test case, so a failure depending on them replays; after every test case - passing, failing, rejected, nested or interrupted - the state outside the test is as if the test had not run. random_module() and register_random apply the same guarantee to the values they seed.",
  ["programs", "histories"], "test bodies consuming or reseeding PRNGs, outcomes, nesting and registered generators",
  "State restoration must hold on every exit path; tests exercise a few.",
  [I+"entropy.py", S+"control.py", S+"core.py", G+"random.py"],
  [("deterministic_PRNG", I+"entropy.py"), ("register_random", I+"entropy.py"), ("RandomModule seeding", G+"core.py:random_module")], ["random.getstate() before and after", "values drawn inside the test"])
p("C16", "Shrinking only simplifies, and reaches the documented minimal forms",
  "The reported failing input is never more complex than the first failing input found and is reached only through inputs that fail in the same way; re-running the shrinker on it changes nothing. For failures characterised by simple conditions (thresholds on numbers and sizes, membership, disjunctions, sums, ordered pairs, trees) the report is the simplest failing value under each strategy's documented shrink order.",
  ["programs", "inputs"], "failure predicates over strategy expressions, and starting inputs",
  "Shrinking is a search over arbitrary predicates; tests pin a few dozen.",
  [C+"shrinker.py", C+"shrinking/", C+"choice.py", C+"engine.py"],
  [("Shrinker.fixate_shrink_passes", C+"shrinker.py"), ("sort_key", C+"shrinker.py"), ("value shrinkers", C+"shrinking/*.py")], ["reported failing arguments"])
p("C17", "A saved failure is replayed first on the next run until it is fixed",
  "If a run with a database fails, then the next run of the same test (any process sharing the database) executes the saved minimal failing input before generating anything new, and fails the same way with the same input; entries that no longer fail are discarded and entries that still fail are never lost. With database=None or the reuse phase disabled nothing is replayed, and tests with different source or arguments never replay each other's entries.",
  ["histories", "programs", "configurations"], "sequences of runs with test behaviour changing between runs (bug fixed, moved, added), multiple bugs, phases and databases",
  "The guarantee is about histories of runs; tests cover short fixed histories.",
  [C+"engine.py", S+"database.py", S+"core.py", I+"reflection.py"],
  [("reuse_existing_examples", C+"engine.py"), ("save/downgrade_choices, clear_secondary_key", C+"engine.py"), ("function_digest as key", I+"reflection.py")], ["order of executed inputs", "database contents"])
p("C18", "Every example database behaves as a mapping from keys to sets of values",
  "For any sequence of save, delete, move and fetch operations, with any byte keys and values, each provided database (in-memory, directory, Redis, multiplexed, read-only, background-writing and their compositions, and a downloaded GitHub artifact read-only) returns from fetch exactly the values a mapping from keys to sets would hold. Listeners are told of every effective change and of nothing else.",
  ["histories", "configurations"], "operation histories x database compositions x keys and values",
  "A model-equivalence property over histories; the repository's own tests use small bundles on each backend separately.",
  [S+"database.py", X+"redis.py"],
  [("save/fetch/delete/move", S+"database.py"), ("listener broadcast", S+"database.py:_broadcast_change"), ("Redis pipelines", X+"redis.py")], ["fetch results", "listener events"])
p("C19", "The directory database survives faults, corruption and concurrent use",
  "However operations of several processes on one directory database interleave, and whatever OS error, crash point or foreign/corrupt file occurs, no operation raises, fetch yields only complete values that were saved under that key (plus the literal contents of foreign files), and a completed save not followed by a delete stays fetchable. A test run over a corrupted database still gives the right verdict.",
  ["schedules", "crash_points", "fault_sequences"], "interleavings of file-system calls of 2-3 actors; an error or crash at each file-system call; corrupt contents",
  "Tests use real threads/processes occasionally and cannot choose interleavings or fault points.",
  [S+"database.py", C+"engine.py"],
  [("write to temporary then rename", S+"database.py:DirectoryBasedExampleDatabase.save"), ("OSError handling", S+"database.py"), ("choices_from_bytes returning None", S+"database.py")], ["fetch results", "exceptions"])
p("C20", "Serialized test cases round-trip; reproduce_failure replays the failure",
  "Encoding any choice sequence to database bytes or to a reproduce_failure blob and decoding it gives back the identical sequence (including NaN payloads, signed zero, surrogates, huge integers), and decoding arbitrary bytes either yields a choice sequence or is reported as invalid, never crashes. A printed @reproduce_failure blob applied to the same test re-executes exactly the reported input and raises the same error; blobs that no longer fail, or do not fit, raise DidNotReproduce or InvalidArgument.",
  ["inputs", "programs"], "all choice sequences, all byte strings, and failing test programs",
  "Round-trip over unbounded data and garbage; tests sample.",
  [S+"database.py", S+"core.py"],
  [("choices_to_bytes/choices_from_bytes", S+"database.py"), ("encode_failure/decode_failure", S+"core.py"), ("reproduce_failure path", S+"core.py:given")], ["decoded choices", "exception and executed input"])
p("C21", "fuzz_one_input handles every byte string and replays canonically",
  "For any bytes, bytearray, memoryview or file object, fuzz_one_input runs the test at most once and returns None (invalid), or canonical bytes whose replay executes the same arguments and returns the same bytes, or re-raises the test's exception. Each new distinct failure is saved to the database so that the next ordinary run of the test reproduces it.",
  ["inputs", "programs", "histories"], "byte strings x test programs x sequences of fuzz calls",
  "Arbitrary bytes and histories of fuzz calls; tests use a few seeds and single failures.",
  [S+"core.py", C+"providers.py"],
  [("fuzz_one_input", S+"core.py"), ("BytestringProvider", C+"providers.py")], ["return value", "executed arguments", "database contents"])
p("C22", "Explicit examples always run first, exactly once each, in order",
  "Every @example (positional or keyword, above or below @given, in stacks) is executed exactly once with exactly the given values before any generated input, independent of max_examples, seed and database, and a failing one stops the test before generation. xfail examples must raise one of the listed exceptions (an unexpected pass or other exception is an error), and rejected explicit examples are skipped silently.",
  ["programs", "configurations"], "stacks of @example decorators x outcomes x phases x reporting settings",
  "Stack order, outcome and phase combinations multiply; tests check individual ones.",
  [S+"core.py"], [("execute_explicit_examples", S+"core.py"), ("example.xfail/via", S+"core.py")], ["order and arguments of executions", "exception raised"])
p("C23", "Distinct failures are all reported, each once, each minimal",
  "With report_multiple_bugs=True every distinct failure (by exception type, location and cause chain) discovered in a run is reported exactly once, each with its own minimal reproducing input, as an exception group when more than one; with False exactly one failure is raised. Two failures are considered the same exactly when type, raising location and chained causes agree, and shrinking one never replaces or loses another.",
  ["programs", "inputs"], "test bodies with several failure origins, nested causes and exception groups",
  "The set of origins is defined by program behaviour over all inputs.",
  [S+"core.py", C+"engine.py", I+"escalation.py"],
  [("InterestingOrigin", I+"escalation.py"), ("interesting_examples per origin", C+"engine.py"), ("_raise_to_user", S+"core.py")], ["raised exception (group)"])
p("C24", "Nondeterministic tests are reported as flaky, never mis-reported",
  "If the reported minimal input fails differently or passes when replayed, or a test draws different data for the same choices, the run raises a Flaky error that includes the original failure, rather than passing, hanging, crashing with an internal error, or presenting an unreproducible failure as reproducible. Deterministic tests are never reported flaky.",
  ["programs", "histories"], "test bodies whose outcome or draws depend on the execution index",
  "Each point at which behaviour may change between executions is a different case; tests cover about a dozen.",
  [S+"core.py", C+"engine.py", C+"datatree.py", S+"errors.py"],
  [("expected_failure check", S+"core.py:execute_once"), ("FlakyReplay/FlakyStrategyDefinition", C+"datatree.py"), ("shrink pre-check", C+"engine.py:shrink_interesting_examples")], ["exception type raised"])
p("C25", "Health checks fire exactly under their documented conditions",
  "filter_too_much, data_too_large, large_base_example, too_slow, return_value, differing_executors, nested_given and not_a_test_method fail the test when (and only when) their documented condition holds, are disabled by listing them in suppress_health_check, and suppressing or not suppressing a check never otherwise changes the outcome of the test.",
  ["programs", "configurations"], "rejection rates, sizes and draw times x suppression sets",
  "Thresholds and suppression form a product tests sample at a few points.",
  [I+"healthcheck.py", C+"engine.py", S+"core.py", S+"_settings.py"],
  [("record_for_health_check", C+"engine.py"), ("fail_health_check", I+"healthcheck.py")], ["FailedHealthCheck raised or not"])
p("C26", "Deadlines are enforced on test time and only on test time",
  "With deadline=d a test case whose own execution time (excluding data generation inside the test) reaches d is reported as DeadlineExceeded, and one below d never is; deadline=None disables it; a deadline failure that disappears on replay is reported as flaky, and shrinking keeps a tolerance so that the minimal report truly exceeds the deadline.",
  ["programs", "configurations"], "per-input run times and draw times under a controlled clock x deadlines",
  "Real-time tests cannot explore timing patterns; a controlled clock can.",
  [S+"core.py", C+"data.py"], [("deadline wrapper", S+"core.py:execute_once"), ("draw_times accounting", C+"data.py")], ["exception raised"])
p("C27", "Settings objects are immutable, inherit correctly and validate",
  "settings(parent, **kw) equals the parent (or current default/profile) overridden by exactly kw; profiles register, load and inherit as a mapping would; invalid values raise InvalidArgument at construction; settings objects cannot be mutated; repr/show_changed reflects them; and a test uses the settings applied to it, whatever is loaded later. Derandomize, database and CI defaults interact as documented.",
  ["histories", "configurations"], "sequences of register/load/construct/apply operations and setting values",
  "Histories of profile operations against a model; tests run a few.",
  [S+"_settings.py"], [("settings.__init__ and validators", S+"_settings.py"), ("register_profile/load_profile", S+"_settings.py")], ["attribute values"])
p("C28", "State machines execute rules as specified",
  "In every run of a RuleBasedStateMachine: all initialize rules run exactly once before any other rule, no rule or invariant runs while its precondition is false, invariants run after initialization and after every step, bundle arguments are values previously added (consumed ones never again), targets receive exactly the returned values (multiple() adds each), at most stateful_step_count steps run, and teardown runs exactly once at the end whatever happened.",
  ["histories", "programs"], "state machine definitions (rules, bundles, consumes, multiple, preconditions, invariants, initializers, inheritance) and their executions, including failing and shrinking ones",
  "Machine definitions and executions are unbounded; tests check particular machines.",
  [S+"stateful.py", G+"featureflags.py"],
  [("run_state_machine", S+"stateful.py"), ("RuleStrategy.is_valid/do_draw", S+"stateful.py"), ("Bundle/consumes/multiple", S+"stateful.py"), ("feature flags (swarm testing)", G+"featureflags.py")], ["trace of rule, invariant and teardown calls"])
p("C29", "The program printed for a failing state machine reproduces the failure",
  "The lines printed for a failing stateful test are, for arguments with evaluable reprs, a Python program which when executed against the same machine class performs the same rule calls with the same values in the same order and raises the same error. Bundle variables are named consistently, including multiple() and consumed values.",
  ["programs", "histories"], "failing state machine definitions",
  "Requires executing the printed program for arbitrary machines.",
  [S+"stateful.py", S+"vendor/pretty.py"], [("_repr_step/_add_result_to_targets", S+"stateful.py"), ("print_step", S+"stateful.py")], ["printed program text"])
p("C30", "Reported falsifying examples can be copied and evaluated",
  "For inputs built from standard types, builds(), dataclasses, enums, and map/flatmap over them, the printed 'Falsifying example' call is valid Python which, evaluated with the test's names in scope, calls the test with values equal to those that failed. The pretty-printer terminates on any object graph (cycles, deep nesting, broken __repr__), and for standard containers its output evaluates to an equal value.",
  ["inputs", "programs"], "nested values and object graphs; failing tests over them",
  "Value graphs and layouts (line wrapping, sharing, subclassing) are unbounded.",
  [S+"vendor/pretty.py", S+"core.py", I+"reflection.py", S+"control.py"],
  [("RepresentationPrinter", S+"vendor/pretty.py"), ("known_object_printers / repr_call", S+"vendor/pretty.py")], ["printed text"])
p("C31", "@given binds arguments and preserves signatures as documented",
  "For every function signature and every legal use of @given (positional from the right, keyword, Ellipsis inference, methods, defaults, keyword-only, *args/**kwargs), each parameter receives a value from exactly its strategy, the remaining parameters are passed through from the caller unchanged, and the decorated function's visible signature, name, docstring and defaults are the original's minus the filled arguments; illegal uses fail with InvalidArgument when called.",
  ["programs", "inputs"], "function signatures x ways of applying @given x call arguments",
  "The space of signatures is combinatorial; tests cover some tens.",
  [S+"core.py", I+"reflection.py"],
  [("is_invalid_test, new_given_signature", S+"core.py"), ("define_function_signature, convert_positional_arguments", I+"reflection.py")], ["arguments received", "inspect.signature"])
p("C32", "Character queries and interval sets agree with set semantics",
  "For every combination of category, codepoint-range, include and exclude arguments, the character query returns exactly the codepoints that unicodedata and the documented precedence prescribe, and interval-set operations (union, difference, intersection, indexing, membership, ordering) agree with the same operations on sets of integers. The shrink order on characters is a permutation of the interval set.",
  ["inputs"], "query arguments and arbitrary interval sets",
  "Exhaustive agreement over codepoints and set algebra is not reachable by examples.",
  [I+"charmap.py", I+"intervalsets.py"], [("query and caches", I+"charmap.py"), ("IntervalSet", I+"intervalsets.py")], ["query results"])
p("C33", "Choice ordering is a bijection with the simplest value first",
  "For every integer, boolean, string and bytes constraint, mapping a permitted value to its complexity index and back is the identity, indices are dense from 0 and respect the documented order (distance from the shrink target, shorter first), and only permitted values arise. The float encoding is a bijection on doubles that orders simple non-negative integers first, and float helpers (next/previous, ordering, rounding to width) agree with IEEE-754.",
  ["inputs"], "all constraints and values of the five primitive types",
  "A bijection over unbounded constraint sets; tests sample with the library's own strategies.",
  [C+"choice.py", C+"floats.py", I+"floats.py", I+"intervalsets.py"],
  [("choice_to_index/choice_from_index", C+"choice.py"), ("float_to_lex/lex_to_float", C+"floats.py"), ("next_up/next_down/clamper", I+"floats.py")], ["index and value round-trips"])
p("C34", "Observations and statistics account for every test case truthfully",
  "With observability callbacks active each executed test case yields exactly one observation with its true status (passed, failed, gave_up), phase, arguments, events and targets, conforming to the published JSON schema, and statistics counts equal the numbers of passing, failing and invalid executions. Events and notes appear for exactly the cases that recorded them, and enabling observability does not change the inputs or the verdict.",
  ["programs", "histories"], "test programs mixing outcomes, events, targets and phases",
  "Accounting must hold for every mixture of outcomes; tests check a few tallies.",
  [I+"observability.py", S+"core.py", S+"statistics.py", S+"control.py", C+"engine.py"],
  [("make_testcase/deliver_json_blob", I+"observability.py"), ("stats_per_test_case", C+"engine.py"), ("event()", S+"control.py")], ["observation records", "statistics dictionary"])
p("C35", "target() scores are recorded, reported and optimised soundly",
  "target(score, label) accepts any finite number once per label per test case (misuse raises InvalidArgument), returns its argument, never changes which inputs are valid nor the verdict, and the best reported score per label is exactly the maximum over executed valid cases. On easily climbable objectives the targeted phase reaches the maximum that the input space allows.",
  ["programs", "inputs"], "objective functions and labels over strategies",
  "Objectives are arbitrary functions of the input; tests fix a few.",
  [C+"optimiser.py", C+"pareto.py", C+"engine.py", S+"control.py"],
  [("Optimiser.hill_climb", C+"optimiser.py"), ("best_observed_targets", C+"engine.py"), ("ParetoFront", C+"pareto.py")], ["reported target maxima", "executed inputs"])
p("C36", "NumPy array strategies respect dtype, shape, element and uniqueness bounds",
  "Every value from the NumPy dtype and array strategies has exactly the requested dtype and shape, elements (including fill) drawn from the elements strategy as represented in that dtype, and pairwise distinct elements when unique=True; generated dtypes satisfy their sizes, endianness and structure arguments; values that cannot be represented are reported, never silently changed. The Array API strategies give the same guarantees for their namespace.",
  ["inputs", "configurations"], "dtypes x shapes x element strategies x fill x unique, and choice sequences",
  "Product of dtypes, shapes and fills; tests sample.",
  [X+"numpy.py", X+"array_api.py"], [("ArrayStrategy.do_draw/set_element", X+"numpy.py"), ("from_dtype", X+"numpy.py"), ("ArrayStrategy", X+"array_api.py")], ["generated arrays"])
p("C37", "Shape, axis, broadcasting and index strategies are valid for NumPy",
  "Every shape, tuple of axes, (mutually) broadcastable shape set, gufunc-signature shape set, basic index and integer-array index produced satisfies its dimension and side bounds and is accepted by NumPy with the documented result shape. Valid bound combinations can always be satisfied.",
  ["inputs", "configurations"], "base shapes, signatures, dimension and side bounds, choice sequences",
  "Arithmetic over shapes with many bounds; tests sample.",
  [X+"_array_helpers.py", X+"numpy.py"], [("MutuallyBroadcastableShapesStrategy", X+"_array_helpers.py"), ("BasicIndexStrategy", X+"_array_helpers.py")], ["generated shapes and indices"])
p("C38", "pandas strategies respect dtypes, elements, index and uniqueness",
  "Every Series, DataFrame, Index and range index produced has the declared dtypes, size within bounds, unique index/columns when requested, values from the element strategies, row fills consistent with columns, and an index drawn from the index strategy.",
  ["inputs", "configurations"], "column specifications x rows x index strategies x sizes",
  "Combination of columns, rows, fill and uniqueness; tests sample.",
  [X+"pandas/impl.py"], [("data_frames/series/indexes", X+"pandas/impl.py"), ("elements_and_dtype", X+"pandas/impl.py")], ["generated pandas objects"])
p("C39", "from_lark() strings belong to the grammar's language",
  "Every string generated from a Lark grammar, with any start symbol, explicit terminal strategies and alphabet, is accepted by an independent parse with that grammar from that start symbol and respects the alphabet; grammars with undefined or unproducible symbols are rejected with InvalidArgument.",
  ["inputs", "programs"], "EBNF grammars, start symbols, alphabets",
  "Grammars are unbounded; tests use a few.",
  [X+"lark.py"], [("LarkStrategy", X+"lark.py")], ["generated strings"])
p("C40", "Ghostwritten tests are valid, runnable programs",
  "For any functions with type annotations the ghostwriter understands, the text it emits for fuzz, roundtrip, equivalent, idempotent, binary_operation and ufunc modes parses as Python, imports what it uses, and runs: the test passes when the asserted property is true of the functions, and fails when it is false.",
  ["programs"], "annotated functions, modes and style options",
  "Functions and annotations are unbounded; tests compare fixed snapshots.",
  [X+"ghostwriter.py"], [("_make_test", X+"ghostwriter.py"), ("_valid_syntax_repr/_imports_for_object", X+"ghostwriter.py")], ["generated source text and its execution"])
p("C41", "Generated patches and codemods produce equivalent, valid source",
  "A patch written for a failing or covering example applies cleanly to the test's source, yields valid Python that differs only by the added (or removed) explicit-example decorators, and running the patched test executes exactly the recorded arguments. Codemods change only the deprecated constructs they document, are idempotent, and leave unrelated source byte-identical.",
  ["programs", "inputs"], "test source layouts x arguments; source files with and without deprecated constructs",
  "Source layouts are unbounded; tests compare fixed snapshots.",
  [X+"_patching.py", X+"codemods.py"], [("AddExamplesCodemod, make_patch", X+"_patching.py"), ("codemods", X+"codemods.py")], ["resulting source text"])
p("C42", "Running under pytest gives the same verdicts, correctly reported",
  "Under the pytest plugin each Hypothesis test has exactly one outcome equal to its standalone verdict (pass, fail, skip, xfail), with the falsifying example printed on failure; --hypothesis-seed/-profile/-verbosity take effect as documented, statistics match the executed cases, parametrized tests use separate database keys, and non-Hypothesis tests are unaffected.",
  ["programs", "configurations"], "test modules mixing Hypothesis and plain tests, fixtures, parametrization and plugin options",
  "Module/option combinations; tests run fixed modules.",
  ["hypothesis-python/src/_hypothesis_pytestplugin.py", S+"core.py"], [("pytest_runtest_call hook", "hypothesis-python/src/_hypothesis_pytestplugin.py")], ["pytest report"])
p("C43", "Django strategies produce objects that validate and save",
  "Every instance from from_model() is saved and passes the model's field validation, with explicitly given fields honoured and omitted nullable/default fields handled as documented; every from_form() result is a valid form; from_field() values pass the field's validators. Each test case runs in its own transaction, leaving the database as it was.",
  ["inputs", "configurations"], "field types, options (null, blank, choices, max_length, validators, unique) and choice sequences",
  "Field option combinations; tests use a fixed toystore.",
  [X+"django/_impl.py", X+"django/_fields.py"], [("from_field registry", X+"django/_fields.py"), ("from_model/from_form", X+"django/_impl.py")], ["model full_clean/save, form.is_valid"])
p("C44", "Alternative backends never change what a verdict means",
  "With any conforming alternative backend (any value source honouring the requested constraints, including ones that stop early, discard cases or claim verification), values still satisfy their strategies, failures are confirmed and shrunk with the default backend and replayable, a failure that does not reproduce is reported as flaky, and lifetimes and callbacks are invoked as documented.",
  ["configurations", "programs", "fault_sequences"], "provider behaviours (values, BackendCannotProceed scopes and times) x test programs",
  "Provider behaviours are arbitrary; tests implement a few.",
  [C+"engine.py", C+"providers.py", C+"data.py", S+"core.py"], [("provider switching", C+"engine.py"), ("realize_choices", C+"engine.py"), ("PrimitiveProvider contract", C+"providers.py")], ["verdict", "provider call log"])
p("C45", "Explain-mode comments are true of the failing test",
  "When the report says an argument could be any generated value ('or any other generated value', or that commented parts varied together), the test did fail for every executed variation of that part, and an argument on whose exact value the failure depends is never so marked. The comments appear only with the explain phase enabled and never alter the reported failure.",
  ["programs", "inputs"], "failing predicates with relevant and irrelevant arguments",
  "Requires predicates over many shapes; tests check a handful of outputs.",
  [C+"shrinker.py", S+"core.py", I+"scrutineer.py"], [("Shrinker.explain", C+"shrinker.py"), ("slice_comments printing", S+"vendor/pretty.py")], ["comments in the report"])
p("C46", "find() and example() return only genuine members",
  "find(s, p) returns a value of s satisfying p, minimal in the same sense as a reported failure, and raises NoSuchExample only if no executed value satisfied p; s.example() always returns a member of s. Neither leaves state behind that changes later runs.",
  ["inputs", "programs"], "strategies and predicates",
  "Arbitrary strategies and predicates.",
  [S+"core.py", G+"strategies.py"], [("find", S+"core.py"), ("SearchStrategy.example", G+"strategies.py")], ["returned value"])
p("C47", "Execution hooks wrap every test case exactly once and in order",
  "For test classes with setup_example/teardown_example or execute_example, and for a replaced inner_test, every test case (explicit, generated, shrunk and replayed) runs inside exactly one setup...teardown pair, teardown runs whatever the outcome, every cleanup registered in a test case runs exactly once after it, and runner() yields the executing instance (or default).",
  ["programs", "histories"], "hook behaviours x outcomes x phases",
  "Order and exactly-once across all phases; tests check few.",
  [S+"core.py", S+"control.py"], [("get_executor", S+"core.py"), ("BuildContext.close", S+"control.py"), ("runner()", G+"core.py")], ["trace of hook calls"])
p("C48", "Internal caches and random-access containers match their models",
  "Bounded caches never exceed their size, never evict a pinned entry, return the last value stored for a key, and evict according to their documented policy; copy-on-write/lazy sequences, self-organising lists and integer lists behave as the built-in list/dict they stand for, for every operation history. The weighted sampler only returns indices with non-zero weight and follows the weights exactly.",
  ["histories", "inputs"], "operation histories on the containers, weight vectors",
  "Model equivalence over histories.",
  [I+"cache.py", C+"junkdrawer.py", C+"utils.py"], [("GenericCache", I+"cache.py"), ("LazySequenceCopy, IntList", C+"junkdrawer.py"), ("Sampler", C+"utils.py")], ["operation results"])
out = pathlib.Path(__file__).resolve().parent.parent / "properties.jsonl"
out.write_text("".join(json.dumps(x) + "\n" for x in P))
print(len(P), "properties")
