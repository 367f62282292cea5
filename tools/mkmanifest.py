#!/usr/bin/env python3
"""Writes MANIFEST.json."""
import json, os, re
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
T = "deterministic simulation: "
checks = {
 "C01": ("exploration", T + "seeded delivery schedules (short/empty reads, stalls, scribbling readers, failing trace output, disk short reads) against the parse of the string and the document model",
  "Sampled documents, damages, source kinds and delivery scripts; large inputs cross every buffer boundary up to a megabyte. Trusts the document model for the undamaged half."),
 "C02": ("fault_enumeration", T + "read failures injected at every kind of offset, with and without data, through every reader shape and the simulated disk",
  "Fault positions are drawn per document, biased to token boundaries; error values cover 16 kinds including ones that look like end of file."),
 "C03": ("exploration", T + "seeded stream damage, step budgets as hang detector, allocation bound for hidden quadratic work",
  "Budgets are eight times the worst cost per byte measured on the unchanged tree; sampled inputs up to tens of kilobytes."),
 "C04": ("fault_enumeration", T + "the stream is cut at every offset of every generated document",
  "All cut points of each sampled document are tried in drawn modes and source kinds."),
 "C05": ("exploration", T + "seeded damage and cuts; declarations completed before the damage compared with the undamaged run and the document model",
  "Sampled documents and damages."),
 "C06": ("exploration", T + "single lost/replaced/doubled/stray tokens injected into one declaration; later declarations compared with the undamaged run",
  "Scope as in the statement; sampled documents and damages."),
 "C07": ("exploration", T + "seeded damage; positions of diagnostics checked against the delivered bytes and the first damaged byte",
  "Sampled documents and damages."),
 "C08": ("exploration", T + "trees of damaged streams pushed through seeded resolver sequences and renderers under step budgets",
  "Sampled documents, damages and resolver orders, each resolver possibly several times."),
 "C09": ("fault_enumeration", T + "the writer fails at every write of every generated rendering",
  "Every write index of each sampled rendering fails once, with several failure shapes; healthy output compared with the document model."),
 "C10": ("fault_enumeration", T + "the visitor misbehaves (stop, error, panic, skip) at seeded calls; history compared with a reference depth-first walk",
  "Sampled trees (parsed, damaged, resolved, built by hand) and answer scripts; small trees get every call position."),
 "C11": ("fault_enumeration", T + "scripted resolvers fail or panic at each position; call log and entries compared with a reference",
  "Every position of the failing resolver in each sampled list."),
 "C12": ("exploration", T + "seeded histories of failing and healthy operations on shared objects; each healthy operation compared with a fresh instance, and in cold runs with a fresh process",
  "Sampled histories; process-fresh reference runs cover state left in the process."),
 "C13": ("exploration", T + "seeded interleavings of callers at statement granularity compared with running alone, plus the race detector on the same schedules",
  "Sampled schedules; a context switch happens between statements, the race detector pass covers accesses inside one."),
 "C14": ("exploration", T + "seeded interleavings of readers of one tree with failing writers and visitors; deep snapshot before and after; race detector on the same schedules",
  "Sampled trees, operations and schedules."),
 "C15": ("exploration", T + "seeded histories of instance construction, use and slice mutation, partly interleaved, compared with a reference configuration per instance",
  "Sampled histories over all public options."),
 "C16": ("exploration", T + "the caller rewrites its buffers at seeded points after parsing, including interleaved with other callers' parses; snapshots before and after",
  "Sampled documents, source kinds and rewrites."),
 "C17": ("fault_enumeration", T + "disk faults (open, read, short, stall) injected per file; package compared with each file parsed alone",
  "Sampled file lists, contents and faults; real files in a scratch directory behind a fault hook."),
 "C18": ("exploration", T + "one caller stalls inside its callback while seeded schedules run the others; blocking primitives are simulated so that a stall is observed as lack of progress",
  "Sampled stall points and schedules; step budgets bound normal work."),
 "C19": ("exploration", T + "map iteration order is drawn by the simulator; per-file entry order and multiset compared with each file alone",
  "Sampled packages and file orders."),
}
props = [json.loads(l) for l in open(os.path.join(here, "properties.jsonl"))]
src = "".join(open(os.path.join(here, "sim/harness", f)).read() for f in sorted(os.listdir(os.path.join(here, "sim/harness"))) if f.endswith(".go"))
done = set(re.findall(r'ID: "(C\d\d)"', src))
pure = "pure function of its argument: no concurrency, time, I/O or multi-party behaviour for the property to depend on, so a simulated schedule or fault cannot decide it"
na = {
 "C20": pure + " (the document model does check it on every undamaged document of C01, as the reference of the fault checks)",
 "C21": pure, "C22": pure, "C23": pure, "C24": pure,
 "C25": pure + " (C09 compares healthy output with the document model as the reference of the fault check)", "C26": pure,
}
m = {"version": 1, "setup_cmd": "./check.sh setup", "checks": [], "not_applicable": [],
     "notes": "No hooks in /repo: the instrumented copy (a yield before each statement, simulated sync primitives, channels and map order, fault hooks in package os) is generated at build time and passed to go build as an overlay. ./check.sh replay FILE reproduces a violation."}
for p in props:
    i = p["id"]
    if i in na:
        m["not_applicable"].append({"property": i, "reason": na[i]})
    elif i in done:
        lv, t, n = checks[i]
        m["checks"].append({"property": i, "quick_cmd": "./check.sh %s quick" % i, "thorough_cmd": "./check.sh %s thorough" % i, "technique": t, "level": lv, "level_note": n})
    else:
        m["not_applicable"].append({"property": i, "reason": "check not built yet"})
json.dump(m, open(os.path.join(here, "MANIFEST.json"), "w"), indent=1, ensure_ascii=False)
