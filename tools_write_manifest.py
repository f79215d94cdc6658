"""Regenerates MANIFEST.json."""
import json
T = {
 "C01": "bounded exhaustive enumeration of sketch executions over formats, checked against a dense reference model",
 "C02": "explicit-state exploration of all update histories up to a depth, replayed on the real code against a linear reference model",
 "C03": "exhaustive enumeration of block partitions and rank-increase histories against the one-shot sketch",
 "C04": "bounded exhaustive enumeration of low-rank inputs, rank requests, DRM pairs and methods",
 "C05": "bounded exhaustive enumeration of shapes, rank requests, DRMs, methods and directions against a closed-form contract",
 "C06": "bounded exhaustive enumeration of operations and their transposes (commuting diagrams)",
 "C07": "exhaustive exploration of all histories of seeded calls up to a length and all process environments in the bounds",
 "C08": "stateless model checking of the real code: all schedules of pool tasks up to a preemption bound under a controlled scheduler",
 "C09": "exhaustive enumeration of (seed, index, column) blocks and query sequences against a reference model of the hash",
 "C10": "exhaustive enumeration of (rank, non-zeros, shape, slice, query) against the definition",
 "C11": "explicit-state exploration of all operation sequences up to a depth against a dense model",
 "C12": "bounded exhaustive enumeration of operand pairs and modification histories against dense values",
 "C13": "explicit-state exploration of all operation sequences with byte-level snapshots of every operand",
 "C14": "bounded exhaustive enumeration of tensor trains, truncation requests and options against dense SVDs",
 "C15": "bounded exhaustive enumeration of dense tensors and rank requests against dense SVDs",
 "C16": "complete enumeration of shapes and rank vectors against the definition (exhaustive search) and a closed form",
 "C17": "complete enumeration of shapes, modes and structured matrices against the definitions",
 "C18": "bounded exhaustive enumeration of linear maps and compositions against their explicit matrices",
 "C19": "bounded exhaustive enumeration of sums, rank requests and methods against dense values",
 "C20": "bounded exhaustive enumeration of linear systems and options, run on the real solver, with true residuals recomputed densely",
 "C21": "complete enumeration of single inconsistencies in every argument position",
 "C22": "bounded exhaustive enumeration of constructor arguments with poisoned uninitialised memory",
 "C23": "explicit-state exploration of histories with exhaustive crash-point and torn-write injection into the real code",
 "C24": "bounded exhaustive enumeration of full-rank inputs against a dense evaluation of the formulas",
 "C25": "explicit-state exploration of all histories of queries, derivations and modifications up to a depth, compared with newly built objects",
 "C26": "bounded exhaustive enumeration of benchmark runs and options, with true errors recomputed densely",
}
NOTE = ("Every execution within the stated bounds is run on the real code of the current tree and compared step by step with an independent reference "
        "model; nothing is claimed beyond the bounds (see DESIGN.md).")
json.dump({"version": 1, "setup_cmd": "python3 run.py setup",
           "checks": [{"property": p, "quick_cmd": f"python3 run.py {p}", "thorough_cmd": f"VERIF_TIER=thorough python3 run.py {p}",
                       "evidence_file": f"evidence/{p}.json", "technique": t, "level": "model_checking", "level_note": NOTE} for p, t in T.items()],
           "not_applicable": []}, open("/verif/MANIFEST.json", "w"), indent=1)
