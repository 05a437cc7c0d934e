"""What each check claims. `python3 overlay/claims.py` rewrites claims.json and MANIFEST.json."""
import json, os, subprocess
V = "/verif"
RULES = {
 "C01": "random writer configurations x random ascending entry sets written, reopened, scanned forward and backward; non-trivial: the described configuration and entries",
 "C02": "random files x probes near stored keys, both extremes and all three seeks, against a sorted reference",
 "C03": "random operation histories with clones and resets against a position model",
 "C04": "random files x pairs of bounds (present, absent, equal, inverted) forward and reverse against a filter of the reference",
 "C05": "random files x prefixes (empty, 0xFF runs, stored keys, longer) forward and reverse against a filter of the reference",
 "C06": "random overlapping sorted sources merged with a logging merge function, against the reference union",
 "C07": "random insert sequences x sorter configurations x output routes, against sort-and-merge",
 "C08": "insert sequences of small entries x budgets with a counting chunk creator",
 "C09": "random configurations decoded by an independent decoder of the V2 format, offsets and tables included",
 "C10": "V1 files synthesised from V2 ones, every query compared with the V2 answers",
 "C11": "the same operations under whole, short and interrupted I/O, outputs compared",
 "C12": "every single failing call of a scenario enumerated (up to a cap) with distinct error kinds",
 "C13": "truncations, mutations and random tails of files, accepted iff the tail is a valid trailer",
 "C14": "key and value lengths around every framing boundary, and the length codec on random words",
 "C15": "block boundaries recomputed from the emitted bytes against the cut rule",
 "C16": "block loads counted per cursor operation by an instrumented source",
 "C17": "sorters with small budgets under a checking allocator (layout, canaries, leaks)",
 "C18": "unsorted and duplicated insert sequences: the writer panics or emits sorted blocks only",
}
from proofs import PROOFS
def main():
    claims = {}
    for p, rule in RULES.items():
        c = {"level": "exploration", "quick_secs": 25, "thorough_secs": 240, "rule": rule, "modules": [], "goals": [], "open": [], "note": "bounded check only: no contract proof of this property is claimed"}
        c.update(PROOFS.get(p, {}))
        claims[p] = c
    json.dump(claims, open(V + "/overlay/claims.json", "w"), indent=1, sort_keys=True)
    hook = subprocess.run(["git", "-C", "/repo", "log", "--format=%H", "--grep=^verif hook"], capture_output=True, text=True).stdout.split()
    man = {
        "version": 1,
        "setup_cmd": "sh setup.sh",
        "hooks": {"guard": "cfg(grenad_verif)", "enable": "RUSTFLAGS=\"--cfg grenad_verif\" (used by the replay crate with its feature `hooks`)", "source_commits": hook},
        "checks": [],
        "not_applicable": [],
        "notes": "See DESIGN.md. Every check runs the verifier on contracts merged with the code extracted from /repo, and the replay engine for concrete inputs.",
    }
    for p in sorted(claims):
        c = claims[p]
        man["checks"].append({
            "property": p,
            "quick_cmd": "python3 check.py " + p,
            "thorough_cmd": "VERIF_TIER=thorough python3 check.py " + p,
            "evidence_file": "evidence/%s.json" % p,
            "technique": "contract-based deductive verification (Verus) of code extracted from /repo, concrete replay of violations" if c["modules"] else "bounded stand-in for contracts: replay engine with an independent oracle",
            "level": c["level"],
            "level_note": c["note"],
            **({"theorems": c["goals"]} if c["level"] == "proof" else {}),
        })
    json.dump(man, open(V + "/MANIFEST.json", "w"), indent=1)
main()
