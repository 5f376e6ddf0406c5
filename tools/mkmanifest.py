import json
props=[json.loads(l) for l in open("/verif/properties.jsonl")]
tech={
"C01":"deterministic simulation: seeded scheduler preempting real threads at basic blocks; results compared with solo runs",
"C02":"deterministic simulation: end-of-text faults at every character; compared with uncut run and constructed tokens",
"C03":"deterministic simulation: storage damage faults; tiling of the text checked over the recorded token history",
"C04":"deterministic simulation: seeded request histories (retries, moves, queries, drops) against the plain run",
"C05":"deterministic simulation: logical clock of basic blocks; progress within a polynomial budget under damage and nesting",
"C06":"deterministic simulation: cancellation (unwind) at seeded reads, drops; allocator accounting as invariant",
"C07":"deterministic simulation: allocation refusal faults (one-shot, sticky, by size, windows) at seeded allocations",
"C08":"deterministic simulation: delivery in pieces with short and duplicated submissions against a reference string model",
"C09":"deterministic simulation: crash and restart at statement boundaries, history replacement; differential against the uninterrupted run",
"C10":"deterministic simulation: simulated clock, environment, random source, descriptors, memory contents and addresses",
"C11":"deterministic simulation: storage damage faults; conservation of tokens between lexer history and accepted tree",
"C12":"deterministic simulation: storms of failed, dropped and cancelled sessions; residue against pristine process",
"C13":"deterministic simulation: storage damage faults behind seeded characters; what was delivered before them compared with the undamaged run",
"C15":"deterministic simulation: a transport that reformats between tokens; differential against the original delivery",
"C16":"deterministic simulation: a transport that replaces names, literals and comments; differential against the original delivery",
"C14":"deterministic simulation: a transport that rewrites line ends; differential against the original delivery",
}
note="Seeded search over simulated executions of the real lexer and parser; a clean run is evidence, not proof. Trusts the simulator (scheduler, allocator, clock and system-service seams in sim/core), the generator's constructed expectations and rustc's basic-block instrumentation."
na={
"N01":"Pure function of the text: no schedule, time, I/O, fault or second party enters it, so a simulator has nothing to decide. (The classification of the generated programs' tokens is compared in C02 and C03 as a side effect, which is sampling of inputs and not claimed for this property.)",
"N02":"Pure function of the text; the accepted number grammar does not depend on anything a simulator controls.",
"N03":"Pure function of the text; what depends on early end, pieces or damage is claimed in C02, C03 and C08.",
"N04":"Pure function of the text; what depends on damage, cuts, history and restarts is claimed in C03 and C09.",
"N05":"Pure function of the text: tree shape depends on no schedule, fault, time or history.",
"N06":"Pure function of the text; the grammar accepted depends on nothing a simulator controls. What damage may not do to an accepted text is claimed in C11.",
"N07":"Pure function of the text: ranges depend on no schedule, fault, time or history.",
"N08":"Recursion depth is a pure function of the text and is unbounded by the design of the parser (recursive descent without a depth limit): the property is false beyond a few thousand levels and can only be restored by redesign. Nesting up to 100 is claimed in C05.",
}
m={"version":1,"setup_cmd":"sim/build.sh",
"hooks":{"guard":"cfg(dst)","enable":"sim/build.sh compiles /repo/src/main.rs as a library with rustc --cfg dst (plus basic-block instrumentation); without the flag the hooks do not exist","source_commits":["2df9e64"]},
"checks":[{"property":p["id"],"quick_cmd":f"./run.sh {p['id']} --tier quick","thorough_cmd":f"./run.sh {p['id']} --tier thorough","technique":tech[p["id"]],"level":"exploration","level_note":note} for p in props if p["id"] in tech],
"not_applicable":[{"property":k,"reason":v} for k,v in na.items()],
"notes":"Replay a reported run with: $(sim/build.sh) replay <file>. Determinism check: $(sim/build.sh) selfcheck <property>."}
json.dump(m,open("/verif/MANIFEST.json","w"),indent=1)
