"""Writes MANIFEST.json from properties.jsonl and the table below."""
import json, os

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

TECH = {
    "C01": "stateful model-based property testing and coverage-guided fuzzing of histories against a list of bits",
    "C02": "stateful model-based property testing and coverage-guided fuzzing of histories against a list of integers",
    "C03": "property testing of triples of vectors made by different histories; metamorphic relations of ==, cmp, hash",
    "C04": "differential property testing of every accessor of every bit-vector type against a list of bits",
    "C05": "model-based property testing of nested slices against a list of bits",
    "C06": "property testing against direct counting at every position",
    "C07": "property testing against direct counting at every position",
    "C08": "property testing against bit-by-bit definitions, with exhaustive bytes and directed words",
    "C09": "property testing against lists of positions, and inverse relations with rank on computed rank functions",
    "C10": "round-trip property testing of mixed value streams",
    "C11": "fuzzing of decoders with arbitrary and mutated bit strings against reference decoders",
    "C12": "differential property testing against reference encoders",
    "C13": "differential property testing of integer transfers against their bit definition",
    "C14": "stateful model-based property testing against a file of bits",
    "C15": "fault injection at every point of generated transfers",
    "C16": "stateful property testing with an allocator that counts",
    "C17": "stateful property testing against an allocator that counts bytes",
    "C18": "property testing of rejected requests, with the contents compared afterwards",
    "C19": "stateful model-based property testing against array iterators",
    "C20": "differential property testing against 128-bit definitions",
    "C21": "round-trip property testing with short reads and faults",
    "C22": "differential property testing of wrapper against inner structure",
    "C23": "property testing on huge and computed bit vectors against formulas",
    "C24": "property testing with instrumented stores and rank functions that count accesses",
    "C25": "the other checks' cases run in a 32-bit build, and cases beyond 32-bit positions",
    "C26": "stateful model-based property testing of families of clones",
    "C27": "property testing of concurrent queries against a model, with fixed auto-trait scenarios",
    "C28": "property testing of growth histories with a counting allocator and counting blocks and stores",
    "C29": "property testing and fuzzing with an allocator that measures peaks, balance and calls",
}
NOTE = ("Generated-input search: no failing input among the cases counted in the evidence, in builds with and "
        "without overflow and debug checks, plus coverage-guided mutation. Trusts the oracle in /verif/harness, "
        "rustc and std. ")
EXTRA = {
    "C23": "Materialised vectors reach just over 2^32 bits; beyond that only computed stores and rank functions.",
    "C24": "The bounds are generous constants, stated in the rule of the evidence.",
    "C27": "Schedules are those that 8 cores and the system's scheduler produce, not controlled ones.",
    "C28": "The bounds are generous constants, stated in the rule of the evidence.",
    "C29": "The bounds are generous constants, stated in the rule of the evidence.",
    "C25": "The 32-bit target is i686 Linux, not WebAssembly, which cannot be run here.",
}
PENDING = {}


def main():
    ids = [json.loads(l)["id"] for l in open(os.path.join(V, "properties.jsonl"))]
    checks = [{
        "property": i,
        "quick_cmd": "python3 check.py " + i,
        "thorough_cmd": "VERIF_TIER=thorough python3 check.py " + i,
        "evidence_file": "evidence/%s.json" % i,
        "technique": TECH[i],
        "level": "exploration",
        "level_note": (NOTE + EXTRA.get(i, "")).strip(),
    } for i in ids if i not in PENDING]
    m = {
        "version": 1,
        "setup_cmd": "python3 check.py --setup",
        "checks": checks,
        "not_applicable": [{"property": i, "reason": r} for i, r in sorted(PENDING.items())],
        "notes": "check.py --replay FILE re-runs a replay file. /repo has no hooks; its commits are fixes only.",
    }
    json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)


main()
