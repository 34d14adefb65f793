#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and the table below."""
import json, os
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
T = {
 "C01": "property-based testing: schema models rendered as RIDL in random layout, compared with the model",
 "C02": "property-based testing: schema models rendered as RIDL in random layout, compared with the model",
 "C03": "property-based testing: schema models rendered as RIDL in random layout, compared with the model",
 "C04": "property-based testing: schema models rendered as RIDL in random layout, compared with the model",
 "C05": "property-based testing: comments placed by a model, compared per definition",
 "C06": "metamorphic property-based testing over layouts of one model",
 "C07": "property-based testing: random nested type expressions against a reference type tree",
 "C08": "property-based testing with fault operators on type expressions",
 "C09": "property-based testing with fault operators on whole schemas",
 "C10": "property-based testing: models rendered as JSON documents, compared with the model",
 "C11": "property-based testing: round trip and differential between both formats",
 "C12": "metamorphic property-based testing with an independent hash",
 "C13": "property-based testing: import trees against a reference merge",
 "C14": "exhaustive small import graphs and random large ones against a reference cycle search",
 "C15": "grammar-based and mutation fuzzing, in-process crash, hang and leak oracle",
 "C16": "structure-aware mutation fuzzing of JSON documents, crash oracle",
 "C17": "fuzzing with an independent invariant checker on everything accepted",
 "C18": "property-based testing against reference reachability",
 "C19": "property-based testing against a reference filter",
 "C20": "property-based testing against a reference filter",
 "C21": "property-based testing against a reference analysis",
 "C22": "property-based testing and enumeration against a reference normaliser",
 "C23": "property-based testing: malformed lines inserted at known positions",
 "C24": "property-based testing: generated directory trees, differential with in-memory parsing",
 "C25": "property-based testing and enumeration: text round trip at every quotable place",
 "C26": "property-based testing: types rebuilt through real templates, compared with the model",
 "C27": "exhaustive pairs over a grid and random pairs against a reference order, through real templates",
 "C28": "metamorphic and differential property-based testing of generation",
 "C29": "differential property-based testing of the built command against composed library calls",
 "C30": "stateful and property-based testing of template functions against reference functions",
 "C31": "property-based testing of template variables against the model",
 "C32": "stateful model-based testing of the template cache with injected fetch faults",
 "C33": "concurrent property-based testing under the race detector",
 "C34": "property-based testing of the accessors against the model",
 "C35": "stateful property-based testing of client and server with injected faults against a reference of the wire format",
 "C36": "property-based testing by fault injection: one wrong response per run of the suite, enumerated and random",
 "C37": "property-based testing by fault injection: generated import trees on a faulty file system, model of the merged schema",
 "C38": "stateful model-based property testing: histories of transforms against the model",
}
props = [json.loads(l) for l in open(os.path.join(here, "properties.jsonl"))]
done = set(l.strip() for l in open(os.path.join(here, "tools", "claimed.txt")) if l.strip())
checks, na = [], []
for p in props:
    i = p["id"]
    if i not in done:
        na.append({"property": i, "reason": "check under construction"})
        continue
    checks.append({
        "property": i,
        "quick_cmd": "python3 check.py %s quick" % i,
        "thorough_cmd": "python3 check.py %s thorough" % i,
        "technique": T[i],
        "level": "exploration",
        "level_note": "Held on every generated case of the run (counts in the evidence file); no proof. Trusts the reference model in /verif/harness, the Go toolchain and rapid.",
    })
m = {"version": 1, "setup_cmd": "python3 check.py --setup", "checks": checks, "not_applicable": na,
     "notes": "All checks share check.py and the Go module in harness/. No hooks are needed in /repo."}
json.dump(m, open(os.path.join(here, "MANIFEST.json"), "w"), indent=1)
open(os.path.join(here, "MANIFEST.json"), "a").write("\n")
