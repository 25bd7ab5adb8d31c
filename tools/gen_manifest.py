#!/usr/bin/env python3
"""Writes MANIFEST.json from the list of claimed properties."""
import json, os, subprocess
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(os.path.join(here, "properties.jsonl"))]
HOOK = "fddae444c018b4fc0b383c070313662ad8ebb707"
NA = {
    "C20": "Asymptotic proof size and running time are static cost properties: no schedule, fault or history changes them, simulated time does not measure arithmetic, and a wall-clock bound would raise alarms on slow machines.",
    "C21": "Knowledge soundness quantifies over all computationally bounded adversaries and needs a cryptographic reduction; a simulator can only run particular adversaries (which C04, C05, C07, C09 and C11 do).",
}
NOTE = {
    "C01": "Every product of a run is compared with an independent term-by-term sum, under seeded schedules, thread-pool sizes and aborted neighbours.",
    "C02": "Openings and both homomorphisms are compared with an independent computation; partial commitments are merged by simulated workers over a faulty network.",
    "C03": "Every honest argument of a run must be produced and accepted by every verifier, after any mix of network, disk, crash and clock faults.",
    "C04": "Each forged message is refused or reported; forgeries are a fixed repertoire of single and paired alterations, splices, challenge-aware attacks and deviating provers, for witnesses in general position.",
    "C05": "As C04, with the verification key and the opening proofs of the folded keys among the altered parts.",
    "C06": "Every honest SIPP proof of a run must be produced and accepted by every verifier, after any mix of faults.",
    "C07": "Each forged SIPP statement or proof is refused or reported; the repertoire includes alterations computed from the challenges so that they cancel.",
    "C08": "Every honest aggregate of a run must be produced and accepted; request refusals are checked too.",
    "C09": "Each forged aggregate, claim, public input or key is refused or reported, including false instances hidden among true ones.",
    "C10": "Every honest opening of a run must be produced and accepted; over-capacity requests must be refused.",
    "C11": "Each forged opening, value, point, commitment or key is refused or reported.",
    "C12": "Prover and verifier challenge sequences are recorded at the digest seam and compared; alterations must change every later challenge.",
    "C13": "Encodings cross simulated streams that deliver short, interrupted and failing reads and writes; the outcome is compared with the original.",
    "C14": "Verifiers receive structurally wrong messages among honest ones; a panic, an endless run or a verifier that stops serving is reported.",
    "C15": "The same work under different schedules, pools, neighbours, aborts and feature sets must give byte-identical results.",
    "C16": "Keys are set up from random streams of every kind and their algebraic structure is checked.",
}
claimed = os.environ.get("CLAIM", "").split() or sorted(NOTE)
m = {
    "version": 1,
    "setup_cmd": "bash tools/build.sh all",
    "hooks": {
        "guard": "ripp_sim",
        "enable": "RUSTFLAGS='--cfg ripp_sim' (set by tools/build.sh); without it the derives do not exist",
        "source_commits": [HOOK],
    },
    "checks": [],
    "not_applicable": [],
    "notes": "check.sh builds the simulator from /repo's working tree and runs one property's check; replay.sh executes a replay file. See DESIGN.md.",
}
for p in props:
    i = p["id"]
    if i in claimed:
        m["checks"].append({
            "property": i,
            "quick_cmd": f"bash check.sh {i} quick",
            "thorough_cmd": f"bash check.sh {i} thorough",
            "evidence_file": f"evidence/{i}.json",
            "technique": "deterministic simulation with fault injection (seeded search over schedules, faults and inputs)",
            "level": "exploration",
            "level_note": NOTE[i] + " Assurance: every explored run (fixed number, derived from VERIF_SEED) held; runs that were not drawn are not covered. Trusted: the simulator's scheduler seam, the independent oracles, and for most runs a stand-in pairing group.",
        })
    else:
        m["not_applicable"].append({"property": i, "reason": NA.get(i, "The check for this property is not finished yet.")})
json.dump(m, open(os.path.join(here, "MANIFEST.json"), "w"), indent=1)
open(os.path.join(here, "MANIFEST.json"), "a").write("\n")
