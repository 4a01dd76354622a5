"""writes MANIFEST.json (run in /verif)"""
import json
import sys
sys.path.insert(0, "harness")
import main

T = {
    "C01": "TLA+ registry spec (TLC model checked); TLC-generated operation histories replayed on real handlers, every observation judged by TLC",
    "C02": "TLA+ spec of build layout and of relabelled/reordered definitions; generated histories and runs replayed, compared by TLC",
    "C03": "TLA+ session spec (TLC model checked); TLC-generated sessions replayed on real models, traces checked by TLC",
    "C04": "TLA+ truss mechanics in exact fixed-point arithmetic; recorded runs of real models trace-checked by TLC",
    "C05": "TLA+ path-following controller (TLC model checked); generated behaviours replayed in pathfollow(), recorded runs trace-checked by TLC",
    "C06": "TLA+ path-following controller and job state machine (TLC model checked; refines an abstract controller proved inductively with Apalache); generated behaviours replayed, recorded runs trace-checked",
    "C07": "TLA+ path-following controller (TLC model checked); generated behaviours replayed in pathfollow(), recorded runs trace-checked by TLC",
    "C08": "TLA+ controller and job state machines (TLC model checked); generated failures forced in real runs, traces checked by TLC",
    "C09": "TLA+ job state machine (TLC model checked); scripted and random multi-step runs trace-checked by TLC",
    "C10": "TLA+ material law (TLC model checked over strain histories); generated histories replayed, traces checked by TLC",
    "C11": "TLA+ evaluation/job state machines (TLC model checked); generated evaluation orders and runs trace-checked by TLC",
    "C12": "TLA+ truss kinematics in exact fixed-point arithmetic; generated evaluation orders and runs trace-checked by TLC",
    "C13": "TLA+ truss stiffness in exact arithmetic incl. difference quotients; generated evaluation orders trace-checked by TLC",
    "C14": "TLA+ job record and result book specs (TLC model checked); generated and random runs and result histories trace-checked by TLC",
    "C15": "TLA+ spec of history/path curves; curves of real figures trace-checked by TLC",
    "C16": "TLA+ spec of model drawings and movies; artists of real figures trace-checked by TLC",
    "C17": "TLA+ session spec (TLC model checked); TLC-generated sessions with two streams and log files replayed, traces checked by TLC",
    "C18": "TLA+ Newton iteration spec (TLC model checked); generated behaviours replayed in newton(), traces checked by TLC",
    "C19": "TLA+ path-following controller (TLC model checked); generated behaviours replayed in pathfollow(), recorded runs trace-checked by TLC",
    "C20": "TLA+ path-following controller (TLC model checked) extended by the account it owes; logs of real runs, parsed line by line, trace-checked by TLC",
}
NOTE = ("The specification is model checked exhaustively within the bounds of its cfg files; the code is bound to it by conformance checking "
        "of generated and recorded behaviours (seeded by VERIF_SEED), so a violation outside the explored behaviours can be missed. "
        "Trusted: TLC, the 28-digit fixed-point arithmetic of spec/Fix.tla, the recorder in harness/, numpy/scipy, the tolerance bands in DESIGN.md.")
props = [json.loads(l)["id"] for l in open("properties.jsonl")]
checks = [dict(property=p, quick_cmd="./check.sh " + p, thorough_cmd="VERIF_TIER=thorough ./check.sh " + p, technique=T[p], level="model_checking", level_note=NOTE)
          for p in props if p in main.DRIVERS]
na = [dict(property=p, reason="check under construction") for p in props if p not in main.DRIVERS]
json.dump(dict(version=1, setup_cmd="./setup.sh", checks=checks, not_applicable=na), open("MANIFEST.json", "w"), indent=1)
