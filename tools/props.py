#!/usr/bin/env python3
"""Single source for properties.jsonl and MANIFEST.json (python3 tools/props.py)."""
import json, os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []
def p(id, title, statement, over, text, why, files, mech, observe, state=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech], "observe_at": observe, "hook_needed": None}
    if state:
        a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    P.append({"id": id, "title": title, "statement": statement, "quantifier": {"over": over, "text": text}, "why_tests_cant": why, "anchors": a})

p("C01", "Binary sessions deliver faithfully",
  "Two participants that follow dual binary session types exchange exactly the values that were sent, once each and in order, whatever the payload types, and every send returns without waiting for the receiver. A branch chosen with any of the binary choice operations is the branch the other side enters, and when both participants reach the end of their type, both closes succeed.",
  ["programs", "inputs", "schedules"],
  "every binary protocol (sends, receives, left/right and n-ary choices, recursion, delegated endpoints) up to the generated size, every payload value, every interleaving of the two participants",
  "the tests run four fixed protocols with one value each on free-running threads; they sample neither other protocol shapes nor interleavings",
  ["src/binary/send.rs", "src/binary/recv.rs", "src/binary/choose.rs", "src/binary/offer.rs", "src/binary/close.rs", "src/binary/fork.rs", "src/binary/struct_trait/send.rs", "src/binary/struct_trait/recv.rs", "src/binary/struct_trait/end.rs"],
  [("one-shot channel per action, continuation travels with the payload", "src/binary/send.rs"), ("dual endpoint creation", "src/binary/struct_trait/send.rs")],
  ["values returned by recv, branch entered by offer, results of close and of the joined threads"])
p("C02", "Binary failures are reported, never hang",
  "When one participant of a binary session stops early (explicit cancel, dropped endpoint, error return or panic), the other one still receives every message sent before that point and then gets an error from its next receive, offer or close instead of blocking; a cancel-aware send to the vanished participant fails while a plain send stays silent. A thread created by fork joins successfully exactly when its function returned Ok.",
  ["crash_points", "schedules", "programs"],
  "every point at which either participant of a generated binary protocol may stop, every way of stopping, every interleaving",
  "one test covers a single cancel point of a single protocol",
  ["src/binary/cancel.rs", "src/binary/close.rs", "src/binary/recv.rs", "src/binary/send.rs", "src/binary/fork.rs", "src/binary/offer.rs"],
  [("disconnection detected through the channel", "src/binary/recv.rs"), ("error turned into a panic of the forked thread", "src/binary/fork.rs")],
  ["results of recv/offer/close/send, JoinHandle::join"])
p("C03", "Selection over receiving endpoints",
  "Selecting over a list of receiving endpoints returns a value that was actually sent on one of them together with that endpoint's own continuation, removes exactly that endpoint and leaves every other one usable, and when every endpoint already holds a message or is disconnected it returns without blocking. An empty list and a disconnected endpoint are reported as errors, and repeatedly selecting drains every value exactly once.",
  ["inputs", "histories", "schedules"],
  "every list of endpoints in every mix of ready, delayed, empty and disconnected states, every sequence of selections",
  "the tests select over ten endpoints in one fixed history",
  ["src/binary/select.rs"],
  [("dynamic selection over channels, removal of the chosen endpoint", "src/binary/select.rs")],
  ["select, select_mut results and the remaining list"])
p("C04", "Duality and description of types",
  "For every session type, role stack and participant name the library or its macros can express, the dual of the dual is the type itself, creating a pair gives two endpoints of dual types that are connected to each other, and the printed head, tail and self descriptions are the ones prescribed for that type: the outermost action, then the description of the continuation.",
  ["programs", "inputs"],
  "every type built from the library's session, role and name constructors (built-in and macro-generated, timed and untimed) up to the generated depth",
  "the tests check the strings of a handful of fixed types",
  ["src/binary/struct_trait/session.rs", "src/binary/struct_trait/send.rs", "src/binary/struct_trait/recv.rs", "src/binary/struct_trait/end.rs", "src/role/mod.rs", "src/role/a.rs", "src/role/a_dual.rs", "src/role/a_to_all.rs", "src/role/all_to_a.rs", "src/role/broadcast.rs", "src/role/end.rs", "src/name/mod.rs", "src/macros_simple/role.rs", "src/macros_simple/name.rs", "src/meshedchannels/mod.rs", "src/binary_atmp/struct_trait/send.rs"],
  [("associated Dual types and new()", "src/binary/struct_trait/session.rs"), ("role stacks", "src/role/mod.rs")],
  ["head_str/tail_str/self_* of values and types, TypeId of Dual"])
p("C05", "Attempt blocks stop at the first error",
  "An attempt block evaluates its fallible steps in order and stops at the first one that fails: none of the later steps run, and the catch handler runs exactly once with that first error. When every step succeeds, each runs exactly once, in order, and the handler does not run. This holds for any number of steps, any mix of value types, and for blocks nested in steps or handlers.",
  ["inputs", "histories"],
  "every sequence of succeeding and failing steps",
  "the macro is only exercised inside fixed protocols that fail at one place",
  ["src/attempt.rs"], [("and_then chain built by the macro", "src/attempt.rs")],
  ["result and side effects of attempt!"])
p("C10", "Multiparty runs are faithful and complete",
  "For any number of participants, any participant names and any global protocol, the endpoint programs projected from it and written with the API generated by the generate macro type-check; when run under any schedule, every participant receives exactly the values the protocol prescribes from the participant it prescribes, in order, nobody blocks forever, and all participants close and join successfully. This holds for all variants of the generated API (basic, recursive, cancel, recursive with cancel).",
  ["programs", "schedules", "inputs"],
  "generated global protocols (2 to 9 participants, all payload types including delegated endpoints, loops, choices), every participant order and naming, every interleaving explored by an owned scheduler plus free-running threads",
  "the tests and examples are fixed protocols, mostly with three participants named A, B, C/D, with free-running threads",
  ["mpst_seq_proc/src/baking/mod.rs", "mpst_seq_proc/src/baking/baking_basic.rs", "mpst_seq_proc/src/baking/baking_with_enum.rs", "mpst_seq_proc/src/baking/baking_with_cancel.rs", "mpst_seq_proc/src/baking/baking_with_enum_and_cancel.rs", "mpst_seq_proc/src/common_functions/expand/fork.rs", "mpst_seq_proc/src/common_functions/expand/send.rs", "mpst_seq_proc/src/common_functions/expand/recv.rs", "mpst_seq_proc/src/common_functions/expand/close.rs", "mpst_seq_proc/src/common_functions/maths.rs"],
  [("mesh of binary channels created by fork", "mpst_seq_proc/src/common_functions/expand/fork.rs"), ("index of the channel between two participants", "mpst_seq_proc/src/common_functions/maths.rs")],
  ["values returned by recv in each generated endpoint, results of close and join"])
p("C11", "A choice is followed by everyone",
  "When a participant of a generated multiparty API makes a choice, every other participant enters exactly that branch, with the links of that branch connecting the same participants as before, however many branches there are, whichever participant chooses, and however often and in whatever order choices by different participants are nested or repeated.",
  ["programs", "schedules", "histories"],
  "generated protocols with up to five-way choices, up to four mutually recursive choice points and different choosers, every sequence of picks, every interleaving",
  "tests take one or two fixed paths through choices made by the last participant",
  ["mpst_seq_proc/src/choose_mpst_multi_to_all.rs", "mpst_seq_proc/src/common_functions/expand/choose.rs", "mpst_seq_proc/src/common_functions/expand/offer.rs", "mpst_seq_proc/src/common_functions/maths.rs", "src/macros_multiple/offer.rs", "src/macros_multiple/choose.rs"],
  [("fresh mesh created by the chooser and broadcast", "mpst_seq_proc/src/choose_mpst_multi_to_all.rs"), ("left/right choice over stacked duals", "mpst_seq_proc/src/common_functions/expand/choose.rs")],
  ["branch entered by each participant, subsequent messages"])
p("C12", "Multiparty failures reach everyone",
  "If any participant of a generated multiparty session stops at any point (cancel, dropped session, error return or panic), every other participant terminates: it still receives all messages already sent to it, then gets an error (or a panic in the non-cancel variants) from the first operation that needs the vanished participant, and no participant closes or joins successfully. In the cancel variants a send to a vanished participant fails and a receive from it returns an error.",
  ["crash_points", "fault_sequences", "schedules", "programs"],
  "every stopping point of one or two participants in generated protocols, every way of stopping, every interleaving explored",
  "the cancel tests stop one participant at one hand-picked point",
  ["mpst_seq_proc/src/common_functions/expand/send.rs", "mpst_seq_proc/src/common_functions/expand/recv.rs", "mpst_seq_proc/src/common_functions/expand/close.rs", "mpst_seq_proc/src/common_functions/expand/cancel.rs", "mpst_seq_proc/src/common_functions/expand/fork.rs", "src/binary/cancel.rs"],
  [("dropping endpoints disconnects the peers", "mpst_seq_proc/src/common_functions/expand/cancel.rs"), ("close handshake with every peer", "mpst_seq_proc/src/common_functions/expand/close.rs")],
  ["results of send/recv/offer/close, JoinHandle::join"])
p("C13", "Deviating programs are rejected",
  "An endpoint program that deviates from its protocol in one place (an action on the wrong participant, in the wrong order, with the wrong payload type, skipped, repeated, a reused or prematurely closed session, a session type that is not dual to its peer's) does not compile, while the unmodified program does.",
  ["programs"],
  "single-point deviations at every position of generated well-typed programs in every notation",
  "there are no compile-fail tests at all",
  ["mpst_seq_proc/src/common_functions/expand/send.rs", "mpst_seq_proc/src/common_functions/expand/recv.rs", "mpst_seq_proc/src/common_functions/expand/meshedchannels.rs", "mpst_seq_proc/src/common_functions/expand/fork.rs", "mpst_seq_proc/src/common_functions/expand/close.rs", "src/binary/struct_trait/send.rs", "src/functionmpst/send.rs"],
  [("impl blocks restricted to the head of the role stack and the matching session", "mpst_seq_proc/src/common_functions/expand/send.rs"), ("dual types required by fork", "mpst_seq_proc/src/common_functions/expand/fork.rs")],
  ["rustc diagnostics for generated modules"])
p("C14", "The macro toolkit gives faithful sessions",
  "Participants, roles, names, send/receive/choose/offer functions, close and fork created one by one or in bundles with the macros for any number of participants compose into sessions with the same guarantees as the generated API: any projected protocol type-checks, runs to completion under any schedule with exactly the prescribed values and branches, and a stopped participant makes everyone else terminate with an error without losing delivered messages.",
  ["programs", "schedules", "inputs", "crash_points"],
  "generated protocols written with the plain, cancel-aware and left/right flavours of the macros_multiple and macros_simple notations",
  "tests use fixed three- and four-party protocols",
  ["src/macros_multiple/mod.rs", "src/macros_multiple/send.rs", "src/macros_multiple/recv.rs", "src/macros_multiple/choose.rs", "src/macros_multiple/offer.rs", "src/macros_multiple/close.rs", "src/macros_multiple/fork.rs", "src/macros_simple/send.rs", "src/macros_simple/recv.rs", "src/macros_simple/choose.rs", "src/macros_simple/offer.rs", "src/macros_simple/role.rs", "mpst_seq_proc/src/macros_multiple/mod.rs", "mpst_seq_proc/src/macros_simple/mod.rs"],
  [("functions created per pair of participants", "src/macros_multiple/send.rs"), ("bundles", "src/macros_multiple/mod.rs")],
  ["values, branches, results of close and join"])
p("C15", "The three-party API is faithful",
  "Any three-party protocol written with the built-in functions (send, receive, choose, offer, close, fork for participants A, B and C) type-checks and, under any schedule, delivers exactly the prescribed values between the prescribed participants, makes everyone follow every choice, and ends with all three closing; if one participant stops, the others terminate with an error after receiving what was already sent.",
  ["programs", "schedules", "inputs", "crash_points"],
  "generated three-party protocols with left/right and n-ary recursive choices by each participant, every stopping point and interleaving explored",
  "tests are about ten fixed three-party protocols",
  ["src/functionmpst/send.rs", "src/functionmpst/recv.rs", "src/functionmpst/choose.rs", "src/functionmpst/offer.rs", "src/functionmpst/close.rs", "src/functionmpst/fork.rs", "src/functionmpst/recursion/choose.rs", "src/functionmpst/recursion/offer.rs", "src/meshedchannels/impl_a.rs", "src/meshedchannels/impl_b.rs", "src/meshedchannels/impl_c.rs"],
  [("functions per ordered pair of participants", "src/functionmpst/send.rs"), ("choice broadcast", "src/functionmpst/choose.rs")],
  ["values, branches, results of close and join"])
p("C16", "Interleaved sessions in one thread work",
  "One participant can hold several multiparty sessions in a single thread (forked with the interleaved and solo forks) and interleave their actions in any order compatible with each session; every session keeps its own values and partners, and the closing operations complete all of them.",
  ["programs", "schedules", "inputs"],
  "generated pairs of protocols and generated interleavings of their actions",
  "two fixed interleavings are tested",
  ["src/interleaved/fork.rs", "src/interleaved/close.rs", "src/interleaved/offer.rs", "mpst_seq_proc/src/interleaved/fork_mpst_multi_solo.rs", "mpst_seq_proc/src/interleaved/close_mpst_interleaved.rs", "mpst_seq_proc/src/baking/baking_interleaved_with_enum_and_cancel.rs", "mpst_seq_proc/src/common_functions/expand/fork.rs"],
  [("two meshes created by one fork", "mpst_seq_proc/src/baking/baking_interleaved_with_enum_and_cancel.rs")],
  ["values, results of close and join"])
p("C17", "Cancellation is broadcast by the monitor",
  "With the broadcasting toolkit (checked sends, cancel-aware choices and offers, send_cancel, broadcast_cancel), the monitoring participant runs until everyone has closed or one participant sends a cancel. Without a cancel every participant receives exactly the values and branches the protocol prescribes and everyone, the monitor included, completes successfully. When one participant cancels, at whatever point, every thread terminates and nobody, the monitor included, completes successfully; values sent before the cancel are still received unchanged, and once the monitor has announced the cancellation every further checked send, choice and entering of a branch fails.",
  ["crash_points", "schedules", "programs"],
  "generated protocols with a monitor and two to six participants, any participant choosing, every point at which a participant may cancel",
  "the cancel tests cancel at one hand-picked point of one protocol and only look at join results",
  ["src/macros_multiple/cancel.rs", "mpst_seq_proc/src/macros_multiple/multiple", "src/macros_multiple/send.rs", "src/macros_multiple/close.rs"],
  [("monitor loop", "mpst_seq_proc/src/macros_multiple/multiple/broadcast_cancel.rs"), ("cancel check before each send", "mpst_seq_proc/src/macros_multiple/multiple/send/create_send_check_cancel.rs")],
  ["results of every participant's operations and of join"])
p("C20", "Timed actions respect their window",
  "A timed send or receive succeeds only if the named clock exists and its elapsed time, counted in whole seconds, lies within the declared window with the declared inclusive or exclusive bounds (a negative bound meaning no bound on that side), and outside the window or with malformed bounds it fails (with an error or a panic) and delivers nothing. Inside the window it behaves as the untimed action, and a receive whose message does not arrive before the window closes fails instead of waiting longer.",
  ["inputs", "configurations"],
  "every combination of bounds, inclusiveness, reset and elapsed clock value in the generated grid, message present, absent, or sender gone",
  "tests fix a handful of windows with real sleeps",
  ["src/binary_atmp/send.rs", "src/binary_atmp/recv.rs", "src/binary_atmp/struct_trait/send.rs", "src/binary_atmp/struct_trait/recv.rs"],
  [("window check against the clock", "src/binary_atmp/send.rs"), ("bounded wait", "src/binary_atmp/recv.rs")],
  ["results of timed send and recv, delivered values"])
p("C21", "Timed actions reset exactly their clock",
  "A successful timed action that declares a reset sets exactly that clock to the present and leaves every other clock untouched; an action without a reset, or one that fails, changes no clock. Missing clocks are reported as errors.",
  ["inputs", "histories"],
  "every history of timed actions over several clocks",
  "tests only look at protocol outcomes, not at clocks",
  ["src/binary_atmp/send.rs", "src/binary_atmp/recv.rs"],
  [("clock map update", "src/binary_atmp/send.rs")],
  ["contents of the clock map after each action"])
p("C22", "Timed multiparty runs are faithful",
  "Programs projected from any timed global protocol whose windows are met, written with the generated timed API, type-check, deliver exactly the prescribed values under any schedule, follow every choice, reset exactly the clocks the types declare and close everywhere; a participant that misses a window gets an error there and everyone else terminates without completing.",
  ["programs", "schedules", "inputs", "crash_points"],
  "generated timed protocols (2 to 5 participants, several clocks, resets, choices), clocks moved into and out of the windows",
  "three fixed protocols are tested",
  ["mpst_seq_proc/src/baking_atmp/baking_atmp_with_enum_and_cancel.rs", "mpst_seq_proc/src/common_functions/expand", "src/baking_atmp/choose.rs", "src/baking_atmp/mod.rs"],
  [("generated timed send/recv", "mpst_seq_proc/src/baking_atmp/baking_atmp_with_enum_and_cancel.rs")],
  ["values, branches, results of every action, close and join"])
p("C30", "Projection of timed global protocols",
  "Translating a valid timed global protocol file (a sequence of messages and loops that may end with one choice; clocks are single letters) produces, for every participant, exactly the projection of the protocol: the session type towards each other participant lists that pair's messages in order with their payloads, clocks, windows and resets, the role stack lists the partners in order of action, every choice and recursion appears in all participants, the generated file type-checks against the runtime API, and every endpoint function creates the clocks its participant uses.",
  ["programs", "inputs"],
  "every valid global protocol file up to the generated size, with every layout the format allows",
  "five fixed protocol files are translated, two compared to golden files",
  ["src/top_down_nuscr/generator.rs", "src/top_down_nuscr/generate_regular_protocol.rs", "src/top_down_nuscr/auxiliary_objects"],
  [("line-by-line translation", "src/top_down_nuscr/generator.rs")],
  ["the generated file"])
p("C31", "Only well-timed protocol files are accepted",
  "A timed global protocol file is accepted exactly when, in every message, sender and receiver are two different declared participants, the window is non-empty, and the window does not end before the window of the previous use of the same clock by the sender or the receiver (unless that clock was reset in between; branches continue with the clocks used before the choice, a loop is followed once). Any other file (unknown participant or loop, empty or backward window, bounds that are not representable, unbalanced blocks, a branch outside a choice, a nested choice, a missing or second header, a line that is not understood) is rejected with an error, never by crashing, and leaves no complete output; when the external check is requested, a protocol it refuses is rejected too.",
  ["inputs", "programs"],
  "every single-point corruption of valid protocol files and arbitrary window bounds",
  "about thirty fixed bad files",
  ["src/top_down_nuscr/generator.rs", "src/top_down_nuscr/auxiliary_objects"],
  [("validity checks per line", "src/top_down_nuscr/auxiliary_objects")],
  ["result of the generator"])
p("C40", "Extracted graphs describe the endpoints",
  "For every set of endpoint types (any participants, payloads and branch names), the checker returns for each participant exactly one graph whose labelled paths are the sequences of actions of that endpoint: one edge per send or receive with its peer and payload, in order, one outgoing path per branch at a choice, a way back at each recursion and an end where the endpoint ends.",
  ["programs"],
  "generated endpoint types with choices and recursion for 2 to 6 participants",
  "fixed protocols compared to golden output",
  ["src/checking/mod.rs", "src/checking/aux_checker.rs", "mpst_seq_proc/src/checking/aux_checking_impl.rs"],
  [("graph built from the printed types", "src/checking/aux_checker.rs")],
  ["the graphs returned by the checker"])
p("C41", "Verification input and verdict are relayed",
  "The communicating automata the checker writes for the external verifier contain, for each participant (in alphanumerical order), exactly the transitions of its graph with the right peers, directions and payloads and a single initial state, and the verifier's verdict is returned to the caller unchanged: the first depth at which it accepts is returned, a negative verdict at every depth is returned as no depth, and a verifier that fails or says nothing is never reported as success.",
  ["programs", "configurations"],
  "generated endpoint types, every verdict of a stand-in verifier",
  "two fixed protocols, only when the verifier is installed",
  ["src/checking/mod.rs", "src/checking/aux_checker.rs"],
  [("automata export and verifier invocation", "src/checking/aux_checker.rs")],
  ["the automata file and the checker's result"])
p("C50", "Sessions over TCP and UDP are faithful",
  "A session run over a TCP or UDP connection delivers to a participant that uses the connection both the typed values and the bytes sent along with each message, complete and in order however the connection cuts them, follows every choice, and closes on both sides. When the other side stops, or the connection ends, receives and closes return an error instead of inventing bytes; cancelling always succeeds and ends the connection, and connecting to a refused address is an error and starts nothing.",
  ["programs", "inputs", "crash_points"],
  "generated binary protocols over loopback, every payload size the buffer allows",
  "two fixed ping-pong sessions",
  ["src/transport/tcp", "src/transport/udp"],
  [("bytes sent alongside the typed channel", "src/transport/tcp")],
  ["values and buffers returned by receive, results of close"])

CLAIMED = ["C01", "C02", "C03", "C04", "C05", "C20", "C21", "C22", "C10", "C11", "C12", "C13", "C14", "C15", "C16", "C17", "C30", "C31", "C40", "C41", "C50"]
NA = {}
TECH = {
 "C17": ("generated monitored protocols and programs (proptest), one cancellation at a generated point or none, owned and free schedules, reference-model oracle", "random protocols with a monitor are emitted with the broadcasting macros and compiled; before the cancellation exactly the model, after it the announced failures, termination and join results of everybody"),
 "C40": ("generated sets of endpoint types (proptest), reference graphs and path-language comparison; generated programs compiled with the checker macros", "graphs returned by the checker compared with reference graphs built from the generated types; a sample goes through the real macros and rustc"),
 "C41": ("generated endpoint types and generated behaviours of a stand-in verifier (proptest), reference automata and verdict as oracle", "exported automata compared with the reference transition systems; every answer of the verifier (verdict per depth, failure, silence, absence) is generated"),
 "C50": ("generated sessions, payloads, connection cuts, stops and connection failures over loopback TCP and UDP (proptest), reference oracle", "each case drives both sides of a real connection through a generated history and compares values, bytes, results and the state of the connection"),
 "C30": ("generated protocol files (proptest), reference projection as oracle, generated output type-checked by rustc", "every fact of the generated file (messages, peers, clocks, windows, resets, stacks, branches, loops, payloads, clocks) is compared with an independent projection; a sample of the outputs is compiled"),
 "C31": ("generated protocol files with raw and nudged windows and generated faults (proptest), reference acceptance rule as oracle, stand-in external checker", "acceptance, rejection and absence of crashes are decided for every generated file by an independent rule"),
 "C04": ("generated session, role, name and timed types (proptest): algebraic laws and printed forms against an independent reference", "types are generated and compiled; duality, printed heads and tails, matrices and involution compared with a reference implementation"),
 "C13": ("generated deviations of generated programs (proptest): metamorphic, every deviating module must be rejected, its original accepted", "one deviation (order, direction, peer, payload, missing step, branch, dual) is applied to a generated program; rustc is the system under test"),
 "C16": ("generated protocols with the interleaved entry points (proptest), faults included, reference-model oracle", "as C10/C12 with two participants run in one thread by the interleaved forks"),
 "C03": ("stateful generated histories (proptest) against a model of the endpoints; concurrent senders", "histories of sends, drops, selections over generated endpoint lists, judged against what each endpoint holds, plus free-running senders"),
 "C05": ("generated scripts of step outcomes over several block shapes (proptest), reference interpreter as oracle", "outcome of every step generated; log of executed steps compared with a reference"),
 "C20": ("generated window types, clock ages, peers and delays (proptest), window oracle", "const-generic windows are generated and compiled; clock ages are generated around the bounds and compared with the declared window"),
 "C22": ("generated timed protocols and programs (proptest), clocks moved in and out of windows, faults, reference-model oracle", "as C10/C12 with the timed API: windows, resets and clock ages are generated; values, branches, failures and clock maps compared with the model"),
 "C21": ("generated window types and clock maps (proptest), exact clock-map oracle", "whole clock map compared before and after each generated action"),
 "C01": ("generated binary protocols and programs (proptest), owned and free schedules, reference-model oracle", "random two-party protocols emitted with the binary API and run under generated schedules against an exact model"),
 "C02": ("fault injection at generated points of generated binary programs, reference-model oracle", "stop points, kinds and schedules are generated; exact model for owned schedules, validity predicate for free threads"),
 "C14": ("generated protocols and programs built with the macro toolkit (proptest), faults included, reference-model oracle", "as C10/C12 with every participant, role, name and function created by the macros, one by one or in bundles"),
 "C15": ("generated three-party protocols and programs (proptest), faults included, reference-model oracle", "as C10/C12 with the built-in three-party functions"),
 "C10": ("generated protocols and programs (proptest), owned and free schedules, reference-model oracle", "random global protocols are projected, emitted as Rust in the library's notation, compiled against /repo and run under generated schedules against an exact reference model"),
 "C11": ("generated choice protocols (proptest), owned and free schedules, reference-model oracle", "as C10 with choice-heavy protocols; branch entered by every participant compared to the model"),
 "C12": ("fault injection at generated points of generated programs, reference-model oracle", "stop points, kinds and schedules are generated; exact model for owned schedules, validity predicate for free threads"),
}
LATER = "check under construction"

def main():
    with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
        for x in P:
            f.write(json.dumps(x) + "\n")
    m = {"version": 1, "setup_cmd": "bash setup.sh", "checks": [], "not_applicable": []}
    hooks = os.path.join(HERE, "tools", "hooks.json")
    if os.path.exists(hooks):
        m["hooks"] = json.load(open(hooks))
    for x in P:
        i = x["id"]
        if i in CLAIMED:
            t, note = TECH[i]
            m["checks"].append({"property": i, "quick_cmd": f"bash run.sh {i} quick", "thorough_cmd": f"bash run.sh {i} thorough", "technique": t, "level": "exploration", "level_note": note})
        else:
            m["not_applicable"].append({"property": i, "reason": NA.get(i, LATER)})
    json.dump(m, open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
    open(os.path.join(HERE, "MANIFEST.json"), "a").write("\n")
main()
