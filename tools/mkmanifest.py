#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and the property modules that exist."""
import json
import os
import re

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
LEVEL = {"P07": "fault_enumeration", "P08": "fault_enumeration"}
NOTE = {
    "P01": "Seeded search over message orders, groupings, delays, duplicates, losses, failed evaluations and restarts, every report checked against a single-copy reference log.",
    "P02": "As P01, with adversarial objective values (ties, signed zeros, huge, denormal); incumbent and trace recomputed from the reference log after every operation.",
    "P03": "Seeded search over spaces, algorithms, surrogates, histories and fixed variables; each proposal judged by an independent membership test.",
    "P04": "As P03 in small and nearly exhausted spaces; each proposal compared with the reference log and with its batch.",
    "P05": "As P03 with inequality and equality constraints and constraint functions that raise; each proposal judged by re-evaluating the constraint.",
    "P06": "Twin executions: uninterrupted, saved, reloaded, and continued in a new process with another hash seed; every later step compared bit for bit.",
    "P07": "Real code on a real file system in a scratch directory through interposed system calls; crash, power loss, full disk, I/O error, short write at every kind of call; file reloaded and compared with old and new state.",
    "P08": "As P07 for the data file; file parsed by an independent CSV reader after every acknowledged report, crash and restart.",
    "P09": "The schedules of worker processes (joblib replaced by a seeded scheduler, real pickling) and of pre-empted threads (byte-code level) are the search space; calls, alignment and records are compared with the sequential outcome.",
    "P10": "Seeded search over budgets, targets, directions, batch sizes and failing evaluations; counters, stop reason and result compared with the calls the objective really received.",
    "P11": "Twin executions of one seeded campaign with different clock, entropy, hash seed, worker schedule, logging and polluted global generators; all proposals and histories compared.",
    "P12": "Each optimizer's run in a random interleaving is compared with its run alone, the global random state pinned per operation; user objects compared before and after.",
    "P13": "Faults in every phase (objective, constraint, model training and prediction, malformed report, data file, interrupts); all-or-nothing recording and recovery checked against the reference log.",
    "P14": "Several optimizers with log files in random interleavings, with failing log disk, save and restore; log contents attributed line by line, histories compared with logging off.",
    "P15": "The real daemon code on a simulated operating system (process table, fork, signals, clock, files in a scratch directory); no real process is forked or signalled.",
    "P16": "Warm-started campaigns in all data formats against the reference log, with restarts, compared with budget and termination rules.",
    "P17": "Random condition trees; every configuration judged by an independent evaluator of the conditions, results delivered in any order; per-branch data compared with a reference partition.",
    "P18": "Multi-objective campaigns with adversarial value grids; recommended set compared with a brute-force Pareto filter after every report.",
}
TECH = "deterministic simulation with fault injection (seeded search over schedules and faults, reference-model oracle)"
ASSUME = " Not exhaustive: assurance is that of the explored seeds. Trusts the simulator's seams (clock, entropy, workers, disk), the reference model, numpy/scikit-learn/dill."


def main():
    props = [json.loads(l) for l in open(os.path.join(HERE, "properties.jsonl"))]
    have = {f[:-3].upper() for f in os.listdir(os.path.join(HERE, "sim/props")) if re.fullmatch(r"p\d\d\.py", f)}
    checks, na = [], []
    for p in props:
        i = p["id"]
        if i in have:
            checks.append(
                {
                    "property": i,
                    "quick_cmd": f"python3 check.py {i} --tier quick",
                    "thorough_cmd": f"python3 check.py {i} --tier thorough",
                    "evidence_file": f"evidence/{i}.json",
                    "technique": TECH,
                    "level": LEVEL.get(i, "exploration"),
                    "level_note": NOTE[i] + ASSUME,
                }
            )
        else:
            na.append({"property": i, "reason": "check not built yet"})
    m = {
        "version": 1,
        "setup_cmd": "/opt/venv/bin/python -B -c 'import numpy, scipy, sklearn, joblib, dill'",
        "hooks": {"guard": "none (no hooks in /repo; the simulator replaces clock, entropy, workers and file calls from outside)", "enable": "nothing to enable", "source_commits": []},
        "checks": checks,
        "not_applicable": na,
        "notes": "Replay a reported violation with: python3 check.py replay <file>. Determinism of the simulator: python3 check.py determinism.",
    }
    with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
        json.dump(m, f, indent=1)
        f.write("\n")
    import jsonschema

    jsonschema.validate(m, json.load(open("/root/.vp/MANIFEST.schema.json")))


main()
