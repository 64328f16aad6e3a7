#!/usr/bin/env python3
"""Writes MANIFEST.json from the table below."""
import json
T = {
"C01": ("reference-evaluator monitor on generated expression trees in several layouts", "Samples trees, values and layouts; every render of the real code is compared with an independent evaluator over the generator's own tree. Trusts that evaluator."),
"C02": ("reference-interpreter monitor on generated branch trees with planted faults", "Samples branch shapes, truthiness vectors and faults in evaluated and unevaluated conditions; trusts the reference interpreter."),
"C03": ("reference-interpreter monitor on generated loop nests with control directives", "Samples loop nests, lengths and control positions; trusts the reference interpreter."),
"C04": ("reference-interpreter monitor on generated assign/read programs over a small name pool", "Samples programs and data; trusts the scope chain of the reference interpreter; reads of names bound by an earlier pass of a loop are unspecified and discarded."),
"C06": ("reference-interpreter monitor on generated layout/page trees on disk, fault injection", "Samples trees and single faults; trusts the reference interpreter."),
"C07": ("reference-interpreter monitor on generated component/slot trees on disk, fault injection", "Samples trees, uses and single faults; trusts the reference interpreter."),
"C05": ("concatenation oracle over generated text/escape/comment segments with an independent scanner; exhaustive short lexeme sequences", "Samples byte-level segments plus all sequences of up to 5 lexemes of a small alphabet, in string and file mode; trusts the independent scanner."),
"C08": ("termination/crash watchdog and error-line monitor on prefixes, mutations and token/byte soup", "Samples inputs; non-termination is judged by a CPU budget per case; must-fail is known by construction for prefixes, unclosed constructs and illegal characters."),
"C09": ("crash/hang/error-form monitor on enumerated built-in calls, untyped programs, mutants and hostile data", "Samples programs and data (built-in x receiver kind x arguments up to 2 is enumerated); must-fail is judged by the reference evaluator and by construction of the data."),
"C10": ("output-escaping oracle between markers on enumerated and random hostile literals in 33 use positions", "Enumerates literals of up to 3 hostile pieces, samples longer ones; decides by unescaping the observed output, not by a fixed escaped form."),
"C11": ("contract monitor on enumerated and random built-in calls with a recording function for results, receivers and arguments", "Enumerates small numeric domains and all kinds of up to 2 arguments, samples the rest; trusts the contract table; unspecified corners are discarded and counted."),
"C12": ("structure monitor on Go values of run-time-built types: every access path, twin comparison of the caller's data", "Samples types, values and spellings of paths; expected leaves come from reflection over the same value."),
"C14": ("equality monitor over repeated evaluations and loads in one process and over processes with different environment and file order", "Samples programs, data and trees biased to map-ordered state; a divergence of low probability can be missed (6 repetitions x 2 processes per case, many cases)."),
"C13": ("line and path oracle by construction on single planted faults in multi-line noise", "Samples noise, faults and places; lines are counted in the generated source at the offending token."),
}
T.update({
"C15": ("Go race detector plus result comparison over concurrent call storms with scheduler noise inside the renders", "Samples schedules the Go scheduler produces under GOMAXPROCS 1-16 and yields inside renders; happens-before races are found without the bad interleaving itself, wrong results only when they occur."),
"C16": ("history monitor: every call along histories (de Bruijn over pairs and triples of calls, random) against the same call in a fresh process", "Enumerates all pairs of 26 and triples of 7 sampled calls per tree; samples trees, calls and longer histories."),
"C17": ("configuration-model monitor over random Configure/NewTemplate/EvaluateResponse histories against a recording ResponseWriter with planted faults", "Samples configurations, faults and error pages; the expected body, status, headers and absence of internal text come from the configuration model."),
"C18": ("directory-model monitor on generated trees, names, extensions, symlinks and permissions", "Samples trees, extensions and lookup names; trusts the model of which files are templates."),
"C19": ("tiling monitor over the token stream of the real lexer (positions against an independent line/column count); exhaustive short lexeme sequences", "Enumerates lexeme sequences of two alphabets, samples longer sources and mutants; the position of every token is recounted from the source."),
"C20": ("registry-model monitor over registration/call histories with recording functions; twin comparison of results passed as data", "Enumerates registration/call/load sequences of up to 4 (5) operations on one name, samples longer histories, arguments, results and positions."),
})
ALL = ["C%02d" % i for i in range(1, 21)]
m = {"version": 1, "setup_cmd": "./run.sh build", "checks": [], "not_applicable": []}
for i in ALL:
    if i in T:
        t, n = T[i]
        m["checks"].append({"property": i, "quick_cmd": "./run.sh " + i, "thorough_cmd": "VERIF_TIER=thorough ./run.sh " + i,
                            "technique": "runtime monitoring: " + t, "level": "exploration", "level_note": n})
    else:
        m["not_applicable"].append({"property": i, "reason": "monitor not built yet"})
m["notes"] = "See DESIGN.md. All checks run the real code built from /repo; no hooks are needed."
open("MANIFEST.json", "w").write(json.dumps(m, indent=1) + "\n")
