"""Writes properties.jsonl and MANIFEST.json (run after editing this file)."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
CONV = "sqlparams/_converting.py"
INIT = "sqlparams/__init__.py"
ALLC = ["sqlparams/__init__.py", "sqlparams/_converting.py", "sqlparams/_styles.py", "sqlparams/_util.py"]

def P(id, title, statement, over, text, why, files, mech, observe, state=()):
	return {"id": id, "title": title, "statement": statement, "quantifier": {"over": over, "text": text},
		"why_tests_cant": why, "anchors": {"files": files, "state": [dict(zip(("name", "meaning", "where"), s)) for s in state],
		"mechanism": [dict(zip(("name", "where"), m)) for m in mech], "observe_at": observe, "hook_needed": None}}

CONV_STATE = [("per-call conversion plan", "maps in-parameters to out-parameters of one call; must never be shared", CONV + " convert(), convert_many()"),
	("per-call counters and lookup tables", "number out-parameters and deduplicate repeats", CONV + " convert(), convert_many()")]
CLAIMED = [
P("C01", "Concurrent calls on one shared converter do not affect each other",
	"When several threads call format and formatmany on the same converter at the same time, every call returns exactly the query and the parameters (or the error) it would return running alone on a fresh converter. This holds whatever queries and parameters the other calls use, however the threads are interleaved, and every call ends.",
	["schedules", "inputs", "histories"], "every interleaving of any number of callers at bytecode granularity, for every set of queries, parameters and converter settings",
	"The tests call one converter from one thread, one call per converter.",
	ALLC, [("conversion state is local to a call", CONV + " convert(), convert_many() of the nine converters"), ("the converter is immutable after construction", INIT + " SQLParams.__init__")],
	["return value or exception of SQLParams.format and SQLParams.formatmany"], CONV_STATE),
P("C02", "A converter behaves as its own constructor arguments say, for ever",
	"How a converter converts is fixed when it is constructed, by its own constructor arguments alone. Constructing, failing to construct, or using other converters at the same time or afterwards, and changing the list of comment styles that was passed to the constructor, never change the results of an existing converter, nor does the existence of other converters influence a new one.",
	["schedules", "configurations", "histories"], "every interleaving of constructions (accepted and rejected) and calls, for every combination of settings of the converters alive in one process",
	"Each test builds one converter and uses it once, so settings cannot leak between converters.",
	ALLC, [("settings and compiled patterns kept per instance", INIT + " SQLParams.__init__, __create_converter, __create_in_regex, __create_strip_comment_regexes"), ("style table is read-only after import", "sqlparams/_styles.py STYLES")],
	["return values of calls on each converter"], [("STYLES", "global table of parameter styles", "sqlparams/_styles.py"), ("DEFAULT_COMMENTS", "global default comment styles", INIT)]),
P("C03", "A call may re-enter its own converter",
	"While a call is reading the caller's parameters or rows, or at any point where a signal handler or finaliser can run, the same thread may make further complete calls on the same converter, to any depth, successful or failing. The inner calls and the interrupted outer call each return what they would return alone, and none of them blocks for ever.",
	["schedules", "programs", "histories"], "every point of an outer call at which Python code of the caller can run, and every inner call",
	"No test passes containers or row sources that call back, and none installs handlers.",
	ALLC, [("no state shared between activations", CONV + " convert(), convert_many(), __regex_replace()"), ("no lock is held while calling into caller objects", INIT)],
	["return values of inner and outer calls; termination"], CONV_STATE),
P("C04", "A failed or interrupted call leaves no trace on its converter",
	"After a call fails - because of bad input, because the caller's objects raised, or because an asynchronous exception (KeyboardInterrupt, timeout, memory or recursion error) stopped it at any point - every other and every later call on the same converter, including the same call again, behaves exactly as if the failed call had never been made. A converter never becomes unusable, stuck or wrong through failures.",
	["crash_points", "fault_sequences", "histories"], "every point at which a call can be stopped, every kind of exception, and every history of failing and succeeding calls",
	"Tests of failing calls end with the failure; none interrupts a call or goes on to use the converter.",
	ALLC, [("no state survives a call", CONV + " convert(), convert_many()")],
	["results of the calls made after, and concurrently with, a failed call"], CONV_STATE),
P("C05", "Errors are never swallowed, replaced by defaults or turned into short results",
	"An exception raised by the caller's parameters, rows or row source, or delivered asynchronously during a call, reaches the caller of that call as that same exception, and the call never returns a result instead. A parameter the query names but the caller did not supply always makes the call fail with an error saying so, and never yields a default value or a truncated result; a call over no rows at all fails with an ordinary error of its own.",
	["fault_sequences", "crash_points", "inputs"], "every access the library makes into caller objects and every instruction at which an asynchronous exception can arrive, every exception type, every set of missing parameters",
	"The tests only pass healthy dicts, lists and tuples, so no access ever raises.",
	ALLC, [("no except clauses or default lookups around caller objects", CONV + " __regex_replace(), __convert_params(), __convert_many_params(), _mapping_as_sequence()"), ("empty sources are rejected", INIT + " SQLParams.formatmany")],
	["the exception object a call raises, or its result"]),
P("C06", "Row streams are consumed exactly once, in order, row by row",
	"formatmany starts the caller's row source once and takes every row from it exactly once and in order, converting each row as it was when delivered, before asking for the next one, so sources that block, stream, or refill one buffer give one correct result row per source row. When a row is rejected or the source fails, the call fails and has taken no row beyond that one; a row that does not fit the query built from the first row is rejected, never dropped, padded or silently altered.",
	["schedules", "histories", "fault_sequences", "inputs"], "every kind of row source, length and timing, every position of bad rows and failures",
	"The tests pass short lists of dicts; none uses a one-pass, blocking, refilling or failing source.",
	[INIT, CONV], [("single pass over an iterator with the first row chained back", INIT + " SQLParams.formatmany; " + CONV + " convert_many(), __convert_many_params()")],
	["calls made on the row source and what is returned"]),
P("C07", "Caller-owned arguments are never modified, not even temporarily",
	"A call never modifies anything the caller passed to it: the parameter mapping or sequence, the list of rows, each row, the tuples and other values inside. No modification is visible at any moment - during the call to other threads or to the caller's own callbacks, or after the call returns, fails or is interrupted.",
	["schedules", "crash_points", "inputs"], "every moment of every call, including calls that fail or are killed half way",
	"Tests look at results; a modification that is undone, or made on a failing path, is invisible to them.",
	[INIT, CONV], [("arguments are only read", CONV + " convert(), convert_many(), _mapping_as_sequence()")],
	["mutating operations on, and contents of, the caller's objects"]),
P("C08", "Every result belongs to its caller alone",
	"The containers a call returns are new and belong to the caller: no two results, no two rows of one result, no result and an argument, and no result and the converter ever share a mutable container. Whatever the caller later does to a result or to its own arguments changes no other result and no later or concurrent call.",
	["histories", "schedules"], "every history in which callers keep, modify and compare results and reuse their arguments, in any interleaving",
	"Tests compare each result once and drop it.",
	[INIT, CONV], [("a new dict or list per call and per row", CONV + " __convert_params(), __convert_many_params()")],
	["identity and contents of returned containers over time"]),
P("C09", "A converter keeps nothing of a call once the call is over",
	"When a call has ended - returned, failed or interrupted - and its caller has dropped the result, the library holds no reference to the parameters, rows, row source or values of that call. Nor does the memory the library holds grow without bound with the number of calls made and converters constructed, whatever their queries. Long-lived processes therefore neither leak memory nor keep sensitive values alive.",
	["histories", "crash_points"], "every history of successful, failed and interrupted calls on a long-lived converter",
	"Tests build a converter per case and never look at object lifetimes.",
	[INIT, CONV], [("no caches or attributes hold call data", CONV + " convert(), convert_many()")],
	["weak references to the objects of finished calls; allocated memory over long histories"]),
P("C10", "Parameter values are opaque and never reach the query text",
	"A successful call passes every parameter value through as the very same object, without converting, comparing, hashing, testing, iterating or rendering it - only tuples that are to be expanded are looked into - so it runs no code of the values. The text of the returned query depends on the query and on which values are tuples and how long they are, never on what the values are.",
	["inputs", "histories", "schedules"], "every value object, however hostile its methods, in every position and style, including values that look equal, falsy or like placeholders",
	"Tests use ints and strings, for which copying, comparing or rendering cannot be observed.",
	[INIT, CONV], [("values are only moved and isinstance-tested for tuple", CONV + " __regex_replace(), __convert_params(), __convert_many_params()")],
	["identity of returned values, methods invoked on values, returned query text"]),
P("C11", "Parameters that change during a call never give torn results",
	"If other threads update the parameter container of a running call, the call either fails or returns a query and parameters that belong together: exactly one value per placeholder, each one a value that this parameter really had, and every group of placeholders made for a tuple filled from that one parameter with that many values - where the parameter occurs once in the query, with exactly the elements of one tuple it had. A value missing, left over or bound to another parameter's placeholder is never returned.",
	["schedules", "histories"], "every interleaving of updates (new values, tuples of other lengths, tuples becoming scalars and back) with the call",
	"It needs an update between two reads of one call, which no sequential test can place.",
	[CONV], [("values are re-validated against the plan the query was built from", CONV + " __convert_params(), _check_tuple(), __regex_replace()")],
	["consistency of the returned query and parameters"]),
P("C12", "The same call gives the same output in every process",
	"The query text, the parameter values and their order, and the kind of error of a call depend only on the converter's settings, the query and the parameters. They do not depend on the hash seed, interpreter optimisation flags, locale, environment, clock, garbage collection, the order in which a mapping's keys were inserted (as long as it names no parameter twice), or what else the process did before, so statement caches and replicas agree.",
	["configurations", "histories", "schedules"], "every combination of interpreter settings and every earlier history of the process",
	"Tests run in one process with one hash seed per run and compare with constants.",
	ALLC, [("order comes from the query text, not from sets, hashes or insertion order", CONV + " __regex_replace(), __convert_params()"), ("no environment, locale or clock is consulted", INIT)],
	["outcome digests of the same calls in differently configured interpreters"]),
P("C13", "Regenerating the documents is safe to interrupt, retry and repeat",
	"The documentation generator reports success only if README.rst and README-dist.rst are complete and exactly what the current README.rst.in and CHANGES.rst prescribe, whatever locale it runs in; any missing or corrupt input and any I/O error makes the run fail. Whatever crashes, full disks, torn or lost writes, stale or damaged outputs and clock changes came before, the next undisturbed run repairs everything; it never modifies its inputs or any other file.",
	["crash_points", "fault_sequences", "histories"], "every file operation as a crash or fault point, every sequence of runs, edits and damage",
	"No test executes the generator at all.",
	["prebuild.py"], [("outputs are rewritten from the inputs on every run", "prebuild.py generate_readme(), generate_readme_dist()"), ("errors propagate", "prebuild.py main()")],
	["exit status, README.rst, README-dist.rst, README.rst.in, CHANGES.rst"]),
P("C21", "Converters can be copied, pickled and forked at any moment",
	"A copy, deep copy or pickle round trip of a converter, taken at any moment - also while calls on it run in other threads, wait inside the caller's objects or have failed - yields a converter that reports the same settings and converts exactly as a newly constructed one with those settings, whatever happens to the original, and also when the pickle is loaded in another process. A pickle holds no parameter value of any call. In a process forked while other threads are in the middle of calls, converters old and new work and never block.",
	["schedules", "histories", "crash_points"], "every moment at which a converter in use can be copied, pickled, dropped or its process forked, and every history before and after",
	"No test copies or pickles a converter, and none forks.",
	[INIT, CONV], [("a converter is plain data: settings, compiled patterns and a stateless conversion object", INIT + " SQLParams.__init__"), ("no locks, caches or other per-process state", INIT)],
	["settings and results of copies and of converters in a forked child; bytes of pickles"], [("SQLParams instance attributes", "settings, patterns, converter object", INIT)]),
P("C22", "Racing or interrupted imports and constructions leave everything usable",
	"When several threads import the package and construct converters for the first time at the same time, each obtains the complete package and converters that report the settings they were given and convert as these say. An import or a construction that is interrupted by an exception at any point fails with that exception, never blocks or damages others, and succeeds when it is tried again.",
	["schedules", "crash_points", "histories"], "every interleaving of first imports and constructions, every point at which one can be interrupted, every sequence of retries",
	"The test process imports once, in one thread, and nothing interrupts it.",
	ALLC, [("modules are initialised by plain top-level code under the import lock", "sqlparams/_styles.py STYLES"), ("construction touches only the new object", INIT + " SQLParams.__init__, __create_converter()")],
	["outcome of imports and constructions; settings and results of the converters"], [("STYLES", "global table of parameter styles", "sqlparams/_styles.py")]),
P("C23", "Using the library leaves the process alone",
	"Importing the package, constructing converters and calling them - whether they return, fail or are interrupted - never changes a process-wide setting or shared facility: garbage collection, recursion limit, switch interval, trace and profile hooks, signal handlers and timers, warning filters, locale, decimal contexts, the shared random generator, environment, working directory, standard streams, open files. Not even for a moment that another thread could see; and nothing is printed.",
	["schedules", "crash_points", "histories"], "every moment during a call at which another thread can look, every way a call can end, every history",
	"Tests look at results only; a setting changed and put back is visible only to another thread, or after an interruption.",
	ALLC, [("conversion is a pure function of settings and arguments", CONV + " convert(), convert_many()"), ("no global side effects at import", "sqlparams/__init__.py module level")],
	["process-wide settings, standard output and error, before, during and after calls"]),
]
NA = [
(P("C14", "Every value is bound to the placeholder of its own parameter",
	"For every pair of styles, executing the returned query with the returned parameters binds to each placeholder the value the caller gave for the in-style parameter that stood there, repeated parameters included.",
	["inputs", "configurations"], "every query, parameter set and pair of styles", "Tests sample one or two parameters per pair of styles.",
	[CONV], [("conversion plan", CONV)], ["returned query and parameters"]),
	"A pure function of its inputs: no schedule, time, I/O or fault takes part, so simulation decides nothing that input generation alone would not. (As the oracle of C01 to C06 and C10 the reference model checks it on every simulated call.)"),
(P("C15", "Escapes, literals and foreign text pass through untouched",
	"Text that is not an in-style parameter appears in the output unchanged, except that escape sequences are unescaped when escaping is on and per cent signs are doubled when the out-style needs it.",
	["inputs", "configurations"], "every query text and escape setting", "Tests sample a few texts per style.",
	[CONV, "sqlparams/_styles.py"], [("style regular expressions", "sqlparams/_styles.py")], ["returned query"]),
	"A pure function of the query text; see C14."),
(P("C16", "Only whole comments of the configured styles are removed",
	"Stripping removes exactly the comments of the configured styles that start a line, and nothing else.",
	["inputs", "configurations"], "every text and set of comment styles", "Tests sample single comments.",
	[INIT], [("comment regular expressions", INIT + " __create_strip_comment_regexes")], ["returned query"]),
	"A pure function of the query text and settings; see C14."),
(P("C17", "Byte queries round-trip",
	"A bytes query is converted as its text is, and every byte outside parameters survives.",
	["inputs"], "every byte string", "Tests use ASCII.", [INIT], [("latin-1 decoding and encoding", INIT + " format(), formatmany()")], ["returned query"]),
	"A pure function of the query; see C14."),
(P("C18", "Tuples expand to as many placeholders as they have elements",
	"An expanded tuple becomes one parenthesised group with one placeholder per element, an empty one (NULL), and no expansion happens when it is off.",
	["inputs", "configurations"], "every tuple length and pair of styles", "Tests use tuples of three.", [CONV], [("expansion", CONV)], ["returned query and parameters"]),
	"A pure function of the parameters; the part of it that schedules can break is claimed as C11."),
(P("C19", "Invalid settings are rejected at construction",
	"Unknown styles and arguments of wrong types make the constructor fail, and every accepted combination gives a usable converter.",
	["configurations"], "every combination of constructor arguments", "Tests construct valid converters only.", [INIT, "sqlparams/_styles.py"], [("argument checks", INIT + " SQLParams.__init__")], ["constructor outcome"]),
	"A pure function of the constructor arguments; the effect of rejected constructions on others is claimed as C02."),
(P("C20", "Conversion takes time linear in the size of the query and parameters",
	"No query text or parameter set makes a call take more than linear time, whoever wrote the query.",
	["inputs"], "every query text", "Tests use short texts.", [INIT, CONV, "sqlparams/_styles.py"], [("backtracking-free regular expressions", "sqlparams/_styles.py")], ["running time"]),
	"The running time is spent inside CPython's regular expression engine, outside any seam, and virtual time does not measure it."),
]
NOTE = {
"*": "Seeded search: every run on the real code in the working tree is one repeatable execution, judged against an independent reference model; a quiet batch is evidence over the seeds explored, not proof. Trusts CPython, the simulator, and the model in dst/model.py.",
"C09": "Seeded search over histories with weak references to, or exact reference counts of, every query text, argument, key, value and row; immortal values (small ints, None) cannot be tracked.",
"C12": "Eight interpreters with different settings execute the same seeded histories and must agree; only the settings listed in dst/replica.py are varied.",
"C13": "Seeded search over fault and crash points of prebuild.py on a simulated disk; correctness of success is judged against a clean run on a fresh disk plus independent checks (inputs' lines kept, concatenation).",
}
def main():
	with open(os.path.join(V, "properties.jsonl"), "w") as fh:
		for p in CLAIMED + [n[0] for n in NA]:
			fh.write(json.dumps(p) + "\n")
	m = {"version": 1, "setup_cmd": "python3 -B dst/setup.py",
		"checks": [{"property": p["id"], "quick_cmd": "python3 -B dst/check.py %s --tier quick" % p["id"],
			"thorough_cmd": "python3 -B dst/check.py %s --tier thorough" % p["id"],
			"evidence_file": "evidence/%s.json" % p["id"],
			"technique": "deterministic simulation with fault injection, seeded search" + (
				" across differently configured replica processes" if p["id"] == "C12" else " on a simulated disk" if p["id"] == "C13" else ""),
			"level": "exploration", "level_note": NOTE.get(p["id"], NOTE["*"])} for p in CLAIMED],
		"not_applicable": [{"property": p["id"], "reason": r} for p, r in NA],
		"notes": "No hooks in /repo: the seams are the caller's own objects, threading and time, CPython's instruction events, and open/os for prebuild.py. Fixed defects are listed in KNOWN_FINDINGS.txt."}
	with open(os.path.join(V, "MANIFEST.json"), "w") as fh:
		json.dump(m, fh, indent=1)
		fh.write("\n")
main()
