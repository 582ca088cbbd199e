"""Writes MANIFEST.json from properties.jsonl and the checks present.  python3 tools/gen_manifest.py"""
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(os.path.join(HERE, "properties.jsonl"))]
TECH = {
    "C01": "property-based testing: generated federations, exhaustive reference split search, metamorphic repartition",
    "C02": "property-based testing: generated federations, reference tree walk, metamorphic row subsets/permutations",
    "C03": "property-based testing with message recording: generated federations, scan of every transported object for secrets",
    "C04": "property-based testing over generated schedules and buffering with deadlock detection",
    "C05": "property-based testing: generated federations, structural invariants, metamorphic batching",
    "C06": "property-based testing: before/after snapshots and metamorphic reuse",
    "C07": "property-based testing: round trip of generated and trained trees",
    "C08": "property-based testing: reference split search and differential against federated training",
    "C09": "property-based testing: generated expressions against exact rational arithmetic",
    "C10": "property-based testing: generated keys, invariants of keys and ciphertexts",
    "C11": "stateful property-based testing: generated table histories against the plain values",
    "C12": "property-based testing: generated expressions against exact rational arithmetic",
    "C13": "property-based testing: round trips over generated ciphers, keys and containers",
    "C14": "stateful property-based testing: generated operation histories against an ordered-dictionary model",
    "C15": "property-based testing: round trip under generated fragmentations of the byte stream",
    "C16": "property-based testing with injected faults: generated routings, connection orders and failure points",
    "C17": "property-based testing: generated insertion/merge histories against exact ranks",
    "C18": "property-based testing: generated tables against the definition of a bin",
    "C19": "property-based testing: generated node assignments against direct summation",
    "C20": "property-based testing: generated histograms against exhaustive search",
    "C21": "property-based testing: generated labels/scores against high-precision derivatives",
    "C22": "property-based testing: generated inputs against high-precision definitions",
    "C23": "property-based testing: generated label sets, metamorphic relabelling",
    "C24": "property-based testing: generated parameter values and configurations against a model of the documentation",
    "C25": "property-based testing: generated CSV files, round trip and cross-party differential",
    "C26": "property-based testing: generated tables against direct statistics",
    "C27": "property-based testing: generated run arguments against a model of the stages",
    "C28": "property-based testing: generated regressions, monotonicity and stopping model",
    "C29": "property-based testing: generated CSV files and start orders run through the real programs, differential against an in-process federation",
    "C31": "property-based testing: generated partitionings of generated tables through a model table class, against the whole-table oracles",
    "C30": "property-based testing: generated federations and rates, reference split search over every possible draw, statistics of repeated draws",
}
claimed = [p["id"] for p in props if os.path.exists(os.path.join(HERE, "checks", p["id"].lower() + ".py"))]
m = {
    "version": 1,
    "setup_cmd": "bash setup.sh",
    "checks": [{
        "property": i,
        "quick_cmd": "bash check.sh %s" % i,
        "thorough_cmd": "VERIF_TIER=thorough bash check.sh %s" % i,
        "technique": TECH[i],
        "level": "exploration",
        "level_note": "Generated-input search of the real code under /repo against an explicit oracle; no violation among the cases "
                      "counted in the evidence, no proof beyond them. Trusts the oracle in checks/%s.py and the library shims "
                      "described in DESIGN.md." % i.lower(),
    } for i in claimed],
    "not_applicable": [{"property": p["id"], "reason": "no check built yet"} for p in props if p["id"] not in claimed],
}
json.dump(m, open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
print(len(claimed), "claimed")
