#!/usr/bin/env python3
"""Writes MANIFEST.json from the table below and properties.jsonl."""
import json, os
V = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
T = {
 "C01": "runtime differential of derived parsers against a reference interpreter of the grammar",
 "C02": "runtime differential with position probes after every failed or successful attempt",
 "C03": "runtime differential of repetitions against the reference interpreter, all lengths",
 "C04": "runtime differential of optional/either/end nodes against the reference interpreter",
 "C05": "runtime differential of operator chains against a fold over operands and operators",
 "C06": "work and stack-depth monitors in item types; termination watchdog on processor time",
 "C07": "runtime differential of delimited nodes on right, wrong and overfull groups",
 "C08": "runtime oracle: independent decoder of literal spellings",
 "C09": "runtime round-trip oracle over literal values, floats compared bit for bit",
 "C10": "runtime law checker for equality, order and hash on value pairs with varied locations",
 "C11": "runtime membership model over generated keyword modules and words",
 "C12": "runtime token-level comparison of printed nodes with their input",
 "C13": "runtime round trip through three printing routes",
 "C14": "runtime re-lexing oracle on formatted token streams",
 "C15": "runtime layout oracle: independent model of the formatter",
 "C16": "fault injection: a sink that fails after every k bytes",
 "C17": "runtime oracle: sources assembled from pieces with recorded offsets",
 "C18": "runtime monitor of a choice's error against its alternatives run separately",
 "C19": "runtime monitor of error paths against the field-level errors",
 "C20": "crash monitor (panics, overflow checks, signals) under hostile input",
 "C21": "operation histories checked against a list model",
 "C22": "runtime conservation laws of conversions and accessors with recorded locations",
 "C23": "operation histories of Either and its iterator against the wrapped one",
 "C24": "compiled declared and random shapes, trait queries at run time, rejected declarations",
 "C25": "runtime agreement of entry points, leftovers, quote macros and locations",
 "C26": "metamorphic runtime differential over layouts of the same tokens",
}
NOTE = {
 "C16": "Every failing position is enumerated for each generated stream and node; the streams themselves are a sample.",
 "C24": "Holds for the declared shapes and the random ones compiled in this run; the verdict on a declaration is rustc's.",
 "C06": "Linear work and constant depth are measured by probes up to tens of thousands of items; termination is judged by processor time with a wide margin.",
}
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"), encoding="utf-8")]
assert sorted(p["id"] for p in props) == sorted(T)
m = {"version": 1, "setup_cmd": "./check build",
     "checks": [{"property": p["id"], "quick_cmd": "./check %s quick" % p["id"], "thorough_cmd": "./check %s thorough" % p["id"], "technique": T[p["id"]],
                 "level": "fault_enumeration" if p["id"] == "C16" else "exploration",
                 "level_note": NOTE.get(p["id"], "Holds on the executions observed: fixed and randomly generated node types, random and boundary inputs (counts in the evidence).") + " Trusts rustc, the proc_macro2 lexer and the reference models in harness/pmon."} for p in props],
     "not_applicable": [],
     "notes": "No hooks are needed in /repo: all observation is through the public interface. known-findings.txt lists repaired defects."}
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1, ensure_ascii=False); open(os.path.join(V, "MANIFEST.json"), "a").write("\n")
