#!/usr/bin/env python3
"""Writes MANIFEST.json."""
import json, os
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
S = "deterministic simulation with fault injection: "
tech = {
 "C01": S + "seeded simulated sources (fragmentation, empty reads, early EOF), compared with a reference model of the document",
 "C02": S + "sources that fail at a seeded offset in a seeded way; result checked against the fault and against a repeated parse",
 "C03": S + "seeded damage to generated documents (truncation, flips, splices, shape changes) under step bounds",
 "C04": S + "destinations that fail at seeded offsets, fully or partially; bytes compared with a fault-free write",
 "C05": S + "sessions with writes interspersed under changing hash orders, and a twin run without the writes",
 "C06": S + "load/edit/save/crash/reload histories on a simulated disk, refinement against a reference model",
 "C07": S + "load/edit/save/crash/reload histories on a simulated disk, refinement against a reference model",
 "C08": S + "type-heavy load/save/crash/reload histories, refinement against a reference model of RAML kinds and facets",
 "C09": S + "example-heavy load/save/crash/reload histories, refinement against a reference model",
 "C10": S + "pass-through-heavy load/save/crash/reload histories, refinement against a reference model",
 "C11": S + "long edit histories with saves, crashes and reloads, refinement against a reference model after every edit",
 "C12": S + "interleaved client histories with failing callbacks, refinement against a list model of an ordered map",
 "C13": S + "interleaved client histories with mode switches, hash orders and failing values; output compared with the model's form",
 "C14": S + "statement-level seeded preemption of sessions on different documents, each compared with its run alone; race detector as a second oracle",
 "C15": S + "statement-level seeded preemption of readers and writers of one document, compared with their runs alone; race detector as a second oracle",
 "C16": S + "caller values that fail to serialise, permanently or on the n-th call, in histories with removal and healing",
 "C20": S + "histories of edits in which parts of documents are serialised in every way there is, refinement against a reference model",
 "C21": S + "simulated sources and destinations that record every use, failing at seeded places; tasks and timers of the library run under the scheduler until nothing is left to happen",
 "C22": S + "seeded histories with faults repeated many times under one schedule; simulated statements per round and memory kept are compared over the rounds",
 "C23": S + "seeded histories executed on documents of seeded growth; simulated statements per operation are compared between sizes",
 "C24": S + "seeded damage and values of other shapes in documents; what is accepted is compared with a normal form of the same text read by the YAML library alone, through accessors, a write and a reload",
 "C17": S + "histories mixing failing and working operations, kills inside operations, compared with a twin run without the failures",
}
notes = {
 "C01": "All bytes and reads go through simulated readers; the oracle is the generator's own model of the content. Sampled, not exhaustive.",
 "C02": "Fault offset, kind and persistence are seeded; every run also repeats the parse without the fault.",
 "C03": "A step bound under the simulator decides termination.",
 "C04": "Also covers saves to a simulated disk with lost and torn writes.",
 "C05": "Go maps put in by the caller are a known finding (K4).",
 "C06": "Crash points are instrumented statements of the library; violations that involve a crash are confirmed by really ending the process.",
 "C07": "As C06, for libraries.",
 "C08": "Defaults and kinds follow RAML 1.0 as modelled in the harness.",
 "C09": "As C08, for examples.",
 "C10": "Content that yaml.v3 itself cannot carry is left out and counted.",
 "C11": "Every setter, unsetter and map operation is found by reflection and modelled.",
 "C12": "All 21 map types; keys of several Go types for AnyMap.",
 "C13": "Structured and text forms, YAML and JSON.",
 "C14": "Preemption at every statement of the repository and of lib-go-yaml.",
 "C15": "Preemption at every statement of the repository and of lib-go-yaml.",
 "C16": "Failing values in every place that accepts caller values.",
 "C20": "Whole text, encoder, node, text of a type, MarshalRAML; content is compared, order is not.",
 "C21": "Sources and destinations offer everything files and buffers offer; a task may end after its call, but not wait for ever or touch a stream.",
 "C22": "Work is counted in instrumented statements, so it is exact; memory is measured after garbage collection and has to grow in three runs of the plan.",
 "C23": "More than quadratic work is reported; the constant factor is not judged.",
 "C24": "The normal form knows which places can hold what; texts that have several readings are left out and counted.",
 "C17": "Twin runs drop all or half of the failing operations.",
}
checks = []
for p in sorted(tech):
    checks.append({
        "property": p,
        "quick_cmd": "bin/check %s quick" % p,
        "thorough_cmd": "bin/check %s thorough" % p,
        "technique": tech[p],
        "level": "exploration",
        "level_note": notes[p],
    })
m = {
 "version": 1,
 "setup_cmd": "bin/setup",
 "checks": checks,
 "not_applicable": [
  {"property": "C18", "reason": "The generators are offline programs that turn fixed templates into fixed files: there is no schedule, time, fault or history that the result could depend on, so a simulated execution has nothing to vary; comparing their output once is an ordinary test."},
  {"property": "C19", "reason": "The library deliberately does not validate (unknown keys are kept as extra facets, ranges are not compared), so the property does not hold by design; it also depends on nothing but the input text."},
 ],
}
with open(os.path.join(root, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")
