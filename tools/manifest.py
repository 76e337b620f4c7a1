"""Writes MANIFEST.json."""
import json, os, sys
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, H)
import tasks
NA = {
    "C21": "schedules: the executor runs one thread; what the code shares between threads is once_cell's Lazy and inventory's registry, whose synchronisation is in dependencies and atomics that neither this executor nor Kani encodes concurrently",
    "C23": "unbounded: it speaks of all depths, and the stack is that of the machine code, which the executor does not model; parser and evaluation are recursive and known to use stack in proportion to nesting, so a text nested tens of thousands deep does exhaust it (DESIGN.md)",
}
checks = []
for p in sorted(p for p in tasks.QUICK if p != "SELF"):
    checks.append({
        "property": p, "quick_cmd": f"python3 check.py {p} --tier quick", "thorough_cmd": f"python3 check.py {p} --tier thorough",
        "technique": "symbolic execution of the compiled crate's LLVM IR, SMT (z3), " + ("asserting a bound on the instructions executed at one size and at twice that size" if p == "C22" else "against an RFC reference executed alongside"),
        "level": "model_checking",
        "level_note": "Bounded: the solver decides every branch and assertion for all values of the symbolic inputs within the stated sizes, on IR regenerated from /repo each run; every path is followed to its end. Trusts the executor (confirmed by native runs of sampled paths), z3, rustc, and the reference written from the RFCs. Nothing is said outside: " + tasks.OUTSIDE[p] + ".",
    })
m = {"version": 1, "setup_cmd": "python3 setup.py", "checks": checks, "not_applicable": [{"property": k, "reason": v} for k, v in NA.items()],
     "notes": "No hooks in /repo: the harness uses public interfaces only. See DESIGN.md."}
with open(os.path.join(H, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1, ensure_ascii=False)
    f.write("\n")
