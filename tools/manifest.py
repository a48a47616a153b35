#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and the tables below."""
import json, os

here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

NOTE = (
    "Decides the property for every path of the analysed functions in the abstraction described in DESIGN.md; "
    "it is neither a bounded exploration nor a machine-checked proof. "
)
TRUST = (
    " Trusts the Go type checker, golang.org/x/tools/go/ssa, the checker itself and its models of Dogma, "
    "configkit, enginekit and the standard library; run-time errors and integer overflow are not considered."
)

# property -> (technique, what is decided)
CHECKS = {
    "C01": ("abstract interpretation of the engine's SSA, rule over offers of messages to controllers",
            "Every way of processing one message offers it once to each consumer in the routing table, or once to its origin, and the routing table is built from the configuration; every controller gives the message to its handler unless that declines it."),
    "C02": ("abstract interpretation with loop summaries and a most general client for scopes",
            "Every envelope a handler produces is kept once and returned once, and the engine's worklists process every envelope obtained from any source exactly once, in order."),
    "C03": ("abstract interpretation; provenance of returned errors",
            "The error of every controller, handler step and validation reaches the result of the operation on every path, and no other error does."),
    "C04": ("abstract interpretation and a typestate automaton over announced facts",
            "On every path of Dispatch and Tick the facts are announced in bracketed order about the right handler, envelope and error: a message's completion carries exactly the failures of that message, a cycle's those of the operation."),
    "C05": ("abstract interpretation and a lock typestate automaton, with panicking calls",
            "Controllers are called and the engine's state is cleared only while the engine's mutex is held, and it is released on all exits."),
    "C06": ("abstract interpretation; decision table over path conditions",
            "The conditions under which a handler is invoked or skipped agree with the precedence rules, for every combination of settings, and a tick considers every handler."),
    "C07": ("abstract interpretation; field effect analysis of reset against all mutable fields",
            "Every field of a controller that anything else modifies has its initial value after Reset, and resetting the engine resets every controller and the generator of identifiers and calls every resetter it was made with once."),
    "C08": ("abstract interpretation with a most general client for scopes; provenance of envelope fields",
            "Identifiers come from one counter that is advanced atomically or under a lock and each envelope's lineage fields come from the envelope being handled."),
    "C09": ("abstract interpretation; path conditions dominating facts and handler calls",
            "Nothing is announced or invoked for a message that is not known to be valid and consumed, and such messages are never refused."),
    "C10": ("abstract interpretation with a most general client for scopes",
            "The root given to an aggregate is new and has exactly the instance's events applied in order; what is kept afterwards is exactly what was recorded."),
    "C11": ("abstract interpretation with a most general client for scopes; dominating path conditions",
            "Every misuse of a scope or an empty instance identifier panics before any effect, and nothing else is refused."),
    "C12": ("abstract interpretation with a most general client for scopes",
            "The root given to a process and the instances and timeouts kept afterwards are those the property demands, for every outcome of routing and handling."),
    "C13": ("abstract interpretation with a most general client for scopes; linear conditions over times",
            "Timeouts are divided by their scheduled time both when scheduled and on ticks, and the order in which those of one process are kept is that of their times."),
    "C14": ("abstract interpretation; protocol over the calls made to the projection",
            "The sequence of calls, their arguments and the errors returned follow the protocol on every path."),
    "C15": ("abstract interpretation with goroutine attribution; typestate of compaction facts and joins",
            "The condition for compaction is the interval since the last one, its facts bracket it, and its goroutine is joined before its outcome is used; the engine's option for compaction reaches every projection. Assumes that the compaction's goroutine and handling share no other state."),
    "C16": ("abstract interpretation with panicking calls",
            "Every call of an application's method that can report an unexpected message is wrapped so that the panic names the handler, method and message, and all other panics pass unchanged."),
    "C18": ("abstract interpretation with a most general client for scopes; announced facts compared with the uses made",
            "Each use of a scope announces exactly its facts with the right contents."),
    "C17": ("abstract interpretation; ordered fan-out over observer lists, lock discipline of the buffer, aliasing of its snapshot",
            "Every observer of an operation is notified of every fact once and in order on every path, and every access to the buffer's fields is made with its lock held and never shares memory with its callers."),
    "C21": ("abstract interpretation of composites made for lists of unknown children; truth tables over the children's verdicts",
            "For lists of one, two and three children, and lengths next to constants the code compares with, the verdict is the boolean combination of the children's for every assignment, and refusals are exactly those required. Longer lists are covered only as far as the code does not distinguish lengths."),
    "C33": ("abstract interpretation with loop summaries; linear terms over times",
            "Each iteration of the run loop ticks once with start plus scaled elapsed time before the caller's options, sleeps the right interval, and leaves the loop exactly with the error of a failed tick or sleep."),
    "C34": ("abstract interpretation; ownership of option lists, maps and observer lists",
            "Each operation's settings are newly made, options write only to them, and option lists given to actions share no writable memory with later ones."),
    "C19": ("abstract interpretation; decision table over path conditions",
            "On every path of Expect and Prepare the test is marked as failed exactly under the stated conditions, actions are performed as stated, and the report is made for the verdict that fails the test."),
    "C20": ("abstract interpretation with panicking actions; typestate automaton of the predicate; fan-out of composites made for lists of unknown children",
            "On every path of Expect, including those on which the action panics, the predicate's life cycle is followed; composites of one, two and three children (and lengths next to constants the code compares with) pass everything on once."),
    "C29": ("abstract interpretation of report generation; reports compared with verdicts under every assignment of children's verdicts",
            "Every report's outcome equals the verdict in the same state and carries the overall verdict; sub-reports and inversion are passed on as stated; the rendering's mark and sub-reports follow the report. The wording of reports is not considered."),
    "C22": ("abstract interpretation; inductive step of the predicate's verdict over every type of fact from every reachable state",
            "From the initial state and from every state that notifications can lead to, each fact changes the verdict exactly as stated; impossible message types are refused exactly under the stated conditions."),
    "C23": ("abstract interpretation; inductive step of the predicate's verdict over every type of fact from every reachable state",
            "From every state that notifications can lead to, each fact leads to exactly the calls of the user's function and the change of verdict that are stated."),
    "C24": ("abstract interpretation; inductive step over every type of fact; effects of actions and test options on predicate options",
            "Exactly the stated facts have an effect on message expectations, and the option that adds messages that start a dispatch is set by calls only and never kept by the test."),
    "C25": ("abstract interpretation; provenance of engine times and of stores to the test's clock",
            "Every action is given the clock and options whose first time is the clock's and precedes the options given at the start; nothing but performing actions changes the clock; advancing time ends in an error without effect when it would reverse the clock, and otherwise sets the clock and ticks the engine once at the new time. User-defined actions may set the clock that they are given; this is not considered."),
    "C26": ("abstract interpretation of life cycles of the executor: before, during and after call actions that return or panic, with and without interceptors",
            "In each state that call actions and options lead to, executing a command is refused, intercepted or dispatched exactly as stated, with the options of the action and its error unchanged; every access is under the executor's lock. Call actions nested in one another are not considered."),
    "C27": ("abstract interpretation; exploration of all abstract states that SatisfyT's methods lead to; all endings of the function and of up to three cleanup functions",
            "Every method marks and stops as stated from every abstract state of the flags; the verdict follows the flags; for up to three cleanup functions, every combination of returning, aborting and panicking ends as stated. Cleanup functions registered by other cleanup functions are not considered."),
    "C28": ("abstract interpretation with loop summaries over names, patterns and handlers; effects of the engine's options",
            "Default settings are as stated; for any names or patterns, exactly the settings stated are added, after all earlier ones, or a panic occurs under exactly the stated conditions; every operation is given these settings. Matching by package regexp is trusted."),
    "C30": ("abstract interpretation of the logger for every type of fact, with a model of texts written to builders",
            "for every declared type of fact and each combination of its optional error and envelope: that no path panics, calls through nil or dereferences a nil envelope; that facts which must be reported give the log function exactly one line; and that the line consists of the identifiers of the envelope concerned, in order and unaltered, and contains the error of a failure"),
    "C31": ("abstract interpretation of every exported constructor, once per kind of unusable argument and once with usable ones",
            "for every exported function that makes an action, expectation, adjustment of the clock or option of a call: that every path panics if an argument is nil, negative, empty or less than one, or if a message that is kept does not pass its own validation; that no path panics otherwise; and that what is returned holds the argument as it was given"),
    "C32": ("abstract interpretation of comparators, predicates and steps",
            "which comparison the result of the default comparator is under each combination of the messages being protocol-buffers messages; that the verdict of specific-message expectations follows from it or from the configured comparator only; and that the comparator given to a test reaches every expectation, including nested ones, and is not replaced by actions or steps"),
    "C35": ("abstract interpretation with a model of the call stack",
            "For four shapes of the stack: the frames that the functions of the location package look at are those of the abstract call stack, so that every action has the location of its construction, every panic about a use of a scope that of the use, every panic about a refused result that of the definition of the responsible method, and every unexpected-message panic that of the application's call of panic(); and what the text of a location shows. How the runtime attributes lines to frames is not covered."),
    "C36": ("abstract interpretation following written texts",
            "Which messages are rendered by which printer, that every piece of their difference is written in order and unaltered with the right marks, and that the printer has exactly one annotator per annotation, which gives its text exactly for equal values of the same type. The third-party functions that render values and compute differences are trusted."),
    "C37": ("abstract interpretation of constructed actions against a symbolic scope",
            "For every path through the actions that dispatch a message, performed twice: the message, options and engine of the single dispatch, the error returned, and that it is left out exactly if the application does not have the message's type; no other action uses the engine other than as described."),
    "C38": ("abstract interpretation; decision table over path conditions",
            "For every exported option of the engine: under which conditions making and applying it panics; under which conditions New and MustNew return, fail and panic. What configkit considers a valid name is not covered."),
    "C39": ("abstract interpretation; provenance of contexts; typestate over traces",
            "For every path through the controllers, the engine's operations, the run loop and the test's actions: the provenance of each context that is passed on; that the context's error is asked for between messages and between handlers' ticks and decides whether to go on. Contexts made with a deadline are refused, whatever the deadline."),
    "C40": ("abstract interpretation with a most general client of each scope",
            "For every state of a scope that any sequence of uses reaches: the value that each of its questions answers, and that asking has no announced effect."),
}

NOT_APPLICABLE = {}

props = [json.loads(l) for l in open(os.path.join(here, "properties.jsonl")) if l.strip()]
checks, na = [], []
for p in props:
    i = p["id"]
    if i in CHECKS:
        t, n = CHECKS[i]
        checks.append({
            "property": i,
            "quick_cmd": "bin/check " + i,
            "evidence_file": "evidence/%s.json" % i,
            "technique": t,
            "level": "other",
            "level_note": n + " " + NOTE.strip() + TRUST,
        })
    else:
        na.append({"property": i, "reason": NOT_APPLICABLE.get(i, "no check has been registered for this property yet")})
m = {"version": 1, "setup_cmd": "bash bin/setup", "checks": checks, "not_applicable": na}
with open(os.path.join(here, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")
