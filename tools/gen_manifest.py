#!/usr/bin/env python3
"""Writes MANIFEST.json."""
import json, os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SIM = "deterministic simulation: seeded histories with fault injection, "
T = {
 "C01": ("invariant (declared range) after every step", "allocation failures, throwing handlers, failing devices"),
 "C02": ("every object compared before and after each failed step, then the history goes on", "allocation failures inside reports, handler exceptions of several types, device exceptions"),
 "C03": ("each step against exact integer mathematics", "allocation failures; earlier errors"),
 "C04": ("each representable step must complete, whatever failed before or is failing", "allocation failures during every step, handler faults, preceding errors"),
 "C05": ("recorded handler events against the documented class, code and count", "handlers that throw, return, allocate or re-enter the library"),
 "C06": ("every exception examined in two other translation units, after copying and rethrowing", "allocation failures at every allocation of a report, nested errors"),
 "C07": ("stream input against the built-in extraction on an identical simulated device", "device end, transient end, device exceptions, fragmentation, allocation failures"),
 "C08": ("stream output against the built-in insertion on an identical simulated device", "device refusal and exceptions, transient and permanent, exception masks"),
 "C09": ("values written, carried over by the simulator (whole, cut or damaged), read back and compared", "truncated and damaged stored text, fragmentation"),
 "C10": ("real threads, every memory access of instrumented code a schedule point of a seeded scheduler; interleaved trace against the solo trace, and happens-before over static storage", "forced switches, allocation failures, handler and device faults, cold starts"),
 "C11": ("allocation accounting of every step", "allocation failures, nested errors inside handlers, device faults"),
 "C12": ("position and state of the stream against the built-in extraction, and what later reads deliver", "device faults, recovery actions (clear, skip) in the history"),
 "C13": ("with handlers that return: value against the built-in operation, handler events counted", "handlers that return, throw, re-enter"),
 "C14": ("compound expressions against exact evaluation, node by node", "allocation failures, retries after errors"),
 "C15": ("chains of checked results against extended integers", "errors of every kind injected at any link, no memory available"),
}
NA = {
 "C16": "A pure function of one operand pair: no history, schedule or fault is involved, so exhaustive or symbolic evaluation decides it and simulation adds nothing. (Values inside histories are judged by C03, C14 and C15.)",
 "C17": "A property of which programs compile. Nothing executes, so there is nothing to simulate.",
 "C18": "Agreement of the compiler's constant evaluator with run time: no schedule, fault, clock or I/O reaches a constant expression.",
 "C19": "A property of static types, decided by the compiler (the simulator reads the result types the policies produce and uses them, but no execution can violate it).",
 "C20": "A property of object layout and generated code; performance is outside what simulation decides.",
}
m = {
 "version": 1,
 "setup_cmd": "python3 check.py selftest",
 "hooks": {"guard": "none", "enable": "no hooks are needed: the seams are template parameters (exception policies, stream types), the replaceable allocation functions, stream buffers, and compiler instrumentation", "source_commits": []},
 "checks": [], "not_applicable": [{"property": k, "reason": v} for k, v in sorted(NA.items())],
 "notes": "check.py builds /repo's headers into a simulator (cached by content hash under /verif/build), proves determinism on a sample, searches, minimises, and replays every violation in fresh processes before reporting it. check.py replay FILE reproduces one. VERIF_SEED chooses the seed, VERIF_SECONDS overrides the length of the search.",
}
for k, (what, faults) in sorted(T.items()):
    m["checks"].append({"property": k, "quick_cmd": "python3 check.py %s quick" % k, "thorough_cmd": "python3 check.py %s thorough" % k, "evidence_file": "evidence/%s.json" % k,
      "technique": SIM + what, "level": "exploration",
      "level_note": "Seeded sampling of histories: a quiet run is evidence, not proof. Faults: %s. Trusted: the reference model in sim/model.cpp%s, gcc 13 on x86-64 Linux, libstdc++. DESIGN.md gives the bounds." % (faults, " and sim/exec_checked.cpp" if k == "C15" else "")})
json.dump(m, open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
