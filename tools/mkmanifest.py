# Writes MANIFEST.json from the checks that exist.
import json, os, sys
R = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, R)
NOTE = {
 "P01": "Seeded search, not exhaustive: every update of the simulated workers is followed by an independent recomputation of the whole diagram; trusts the harness's reading of the data structures.",
 "P02": "Statistical: pooled estimates against an exact independent evaluation of the skeleton diagrams; a deviation is reported only beyond a fixed number of standard errors, so small biases below the resolution stay undetected.",
 "P03": "Independent account kept at every measurement and compared with each written file; seeded search over histories.",
 "P04": "Twin runs (interrupted and uninterrupted) compared update by update after resume; seeded search.",
 "P05": "Crash and disk-fault points sampled at and inside every file operation; process crashes only (completed writes survive).",
 "P06": "Every poll is judged against the history of the simulated disk; seeded search over interleavings and read faults.",
 "P07": "Signals at sampled instants and file operations of C++ and Python saves; seeded search.",
 "P08": "Virtual clocks with skew, jumps and stalls; bounded-response checks on every task.",
 "P09": "State before and after every print and re-tune compared; exact re-tuning rule recomputed.",
 "P10": "Real collector against scripted workers on the simulated disk; merged result compared with an independent sum.",
 "P11": "Real self-consistency process over multi-version histories with injected failures; twin without the failed versions.",
 "P12": "Every visible state of the simulated disk is judged over crash and restart histories.",
 "P13": "Every published version recomputed independently.",
 "P14": "Whole system (workers, self-consistency process, restart supervisor) in one world; bounded progress after faults stop.",
 "P15": "Real job manager against a simulated process table.",
 "P16": "Real job generation over successive simulated campaigns.",
 "P17": "Both languages' file layers on the simulated disk with faults and concurrent readers.",
}
NA = {"P18": "Pure functions of their arguments: no concurrency, time, I/O, randomness or multi-party behaviour for a simulator to schedule or fault, so deterministic simulation with fault injection cannot add anything (errors in them show up indirectly in P01-P03, P10 and P13)."}
m = {"version": 1, "setup_cmd": "python3 sim/build.py", "checks": [], "not_applicable": []}
for l in open(os.path.join(R, "properties.jsonl")):
    i = json.loads(l)["id"]
    if os.path.exists(os.path.join(R, "props", i.lower() + ".py")):
        m["checks"].append({"property": i, "quick_cmd": "python3 check.py %s --tier quick" % i, "thorough_cmd": "python3 check.py %s --tier thorough" % i,
                            "technique": "deterministic simulation with fault injection (seeded search)", "level": "exploration", "level_note": NOTE[i]})
    else:
        m["not_applicable"].append({"property": i, "reason": NA.get(i, "No check built yet.")})
m["notes"] = "No hooks in /repo: the native worker is linked with wrapped symbols and the Python programs run under import and module shims, all in /verif."
json.dump(m, open(os.path.join(R, "MANIFEST.json"), "w"), indent=1)
