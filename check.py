#!/usr/bin/env python3
"""check.py PROP: verify the contracts of one property against /repo's working tree.

The verifier (govc) generates and discharges every obligation of the property from /repo's current
source.  If one stays open, the replay program looks for a concrete failing input; the violation is
reported either way.  Exit 0: everything discharged.  Exit 1: VIOLATION line printed.
"""
import json, os, subprocess, sys, time, hashlib

V = os.path.dirname(os.path.abspath(__file__))
PROP = sys.argv[1]
TIER = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
if TIER not in ("quick", "thorough"):
    TIER = "quick"
SEED = int(os.environ.get("VERIF_SEED", "1") or "1")
T0 = time.time()
ENV = dict(os.environ, HOME="/root", GOPATH="/root/go", GOMODCACHE="/root/go/pkg/mod", GOCACHE="/root/.cache/go-build",
           GOTOOLCHAIN="local", GOFLAGS="-mod=mod", GOWORK="off", GOPROXY="off",
           PATH="/usr/local/bin:/usr/bin:/bin:" + os.environ.get("PATH", ""))
OUT = os.path.join(V, "out", PROP)
os.makedirs(OUT, exist_ok=True)
os.makedirs(os.path.join(V, "evidence"), exist_ok=True)
os.makedirs(os.path.join(V, "bin"), exist_ok=True)


def build(what):
    exe = os.path.join(V, "bin", what)
    r = subprocess.run(["go", "build", "-o", exe, "."], cwd=os.path.join(V, what), env=ENV, capture_output=True, text=True)
    return exe if r.returncode == 0 else None, (r.stdout + r.stderr)[-4000:]


def evidence(rep, violations, extra=None):
    obl = (rep or {}).get("obligations") or []
    proved = [o for o in obl if o["status"] == "proved"]
    kinds = {}
    for o in obl:
        k = kinds.setdefault(o["kind"], [0, 0])
        k[0] += 1
        k[1] += o["status"] == "proved"
    trusted = list((rep or {}).get("trusted") or [])
    cov = {
        "obligations": len(obl), "discharged": len(proved),
        "checker_cmd": "/verif/bin/govc -prop %s (source /verif/govc, contracts /verif/contracts)" % PROP,
        "trusted_base": ["govc: the verification-condition generator in /verif/govc, with go/types and go/ssa of golang.org/x/tools",
                         "z3 5.3, z3 4.8.12, cvc5 1.1.2"] + trusted,
        "functions_under_contract": sorted({u["name"] for u in (rep or {}).get("units") or []}),
        "by_kind": {k: {"generated": a, "discharged": b} for k, (a, b) in sorted(kinds.items())},
        "by_solver": (rep or {}).get("by_solver") or {},
        "solver_s": round((rep or {}).get("solver_s") or 0, 2),
        "loop_invariants_kept": (rep or {}).get("invariants_kept") or 0,
        "open": ["%s: %s at %s in %s" % (o["kind"], o["label"], o["pos"], o["unit"]) for o in obl if o["status"] != "proved"][:50],
        "problems": (rep or {}).get("problems") or [],
        "contracts_without_function": (rep or {}).get("contracts_without_function") or [],
    }
    if extra:
        cov.update(extra)
    ev = {"property": PROP, "tier": TIER, "seed": SEED, "level": "proof", "coverage": cov,
          "assumptions": [t for t in trusted] + STANDING, "wall_s": round(time.time() - T0, 2), "violations": violations}
    with open(os.path.join(V, "evidence", PROP + ".json"), "w") as f:
        json.dump(ev, f, indent=1)


STANDING = [
    "integers of Go's int type are mathematical integers where they index memory (no overflow below 2^63); conversions and fixed-width arithmetic wrap",
    "memory is unbounded: allocation never fails; goroutine stacks are unbounded",
    "code outside /repo and the modelled library functions neither panics nor writes to the objects passed to it",
    "single-threaded: no other goroutine writes the objects under contract during a call",
]


def violation(rep, why):
    """The property is not proved: look for a concrete input, then report."""
    replay_exe, log = build("replay")
    path = os.path.join(OUT, "replay.json")
    if os.path.exists(path):
        os.remove(path)
    found = False
    secs = 240 if TIER == "thorough" else 60
    rlog = ""
    if replay_exe:
        cmd = [replay_exe, "-prop", PROP, "-secs", str(secs), "-seed", str(SEED), "-out", path]
        try:
            r = subprocess.run(cmd, env=ENV, capture_output=True, text=True, timeout=secs + 120, cwd=OUT)
            rlog = (r.stdout + r.stderr)[-3000:]
            found = r.returncode == 3 and os.path.exists(path)
            if not found and r.returncode != 0 and not os.path.exists(path):
                # the search itself died: a fatal error of the code under test (stack overflow, out of memory)
                if "fatal error" in r.stderr or "stack overflow" in r.stderr or "goroutine" in r.stderr:
                    last = os.path.join(OUT, "current-input")
                    with open(path, "w") as f:
                        json.dump({"property": PROP, "detail": "the code under test dies: " + r.stderr[:1500],
                                   "input_hex": open(last, "rb").read().hex() if os.path.exists(last) else ""}, f, indent=1)
                    found = True
        except subprocess.TimeoutExpired:
            rlog = "search stopped"
    else:
        rlog = "the search program does not build:\n" + log
    if not found:
        fails = [o for o in (rep or {}).get("obligations", []) or [] if o["status"] != "proved"]
        with open(path, "w") as f:
            json.dump({"property": PROP, "why": why, "problems": (rep or {}).get("problems"),
                       "failed_obligations": [{k: o.get(k) for k in ("kind", "label", "pos", "func", "unit", "status", "solver", "ms", "model")} for o in fails[:30]],
                       "search": rlog}, f, indent=1)
    else:
        try:
            d = json.load(open(path))
            d["failed_obligations"] = ["%s: %s at %s in %s (%s)" % (o["kind"], o["label"], o["pos"], o["unit"], o["status"])
                                       for o in (rep or {}).get("obligations", []) or [] if o["status"] != "proved"][:30]
            d["problems"] = (rep or {}).get("problems")
            json.dump(d, open(path, "w"), indent=1)
            print("replayed on the real code: " + str(d.get("detail"))[:400])
            if d.get("input"):
                print("input: %r" % d["input"][:300])
        except Exception as e:
            print("note:", e)
    evidence(rep, 1, {"failing_input_found": found})
    print(why[:1500])
    print("VIOLATION property=%s replay=%s%s" % (PROP, path, "" if found else " no-failing-input-found"))
    sys.exit(1)


def main():
    for ln in known(PROP):
        print("KNOWN-FINDING: property=%s %s" % (PROP, ln))
    exe, log = build("govc")
    if not exe:
        print(log)
        print("error: the verifier does not build")
        sys.exit(2)
    repf = os.path.join(OUT, "report.json")
    if os.path.exists(repf):
        os.remove(repf)
    t = "60" if TIER == "thorough" else "20"
    rep = None
    try:
        r = subprocess.run([exe, "-prop", PROP, "-json", repf, "-t", t, "-contracts", os.path.join(V, "contracts")], env=ENV,
                           capture_output=True, text=True, timeout=560 if TIER == "quick" else 3000)
        log = r.stdout + r.stderr
        rc = r.returncode
    except subprocess.TimeoutExpired as e:
        log, rc = "the verifier ran out of time", -1
    try:
        rep = json.load(open(repf))
    except Exception:
        rep = None
    if rc == 0 and rep and rep.get("obligations") and all(o["status"] == "proved" for o in rep["obligations"]) and not rep.get("problems"):
        evidence(rep, 0)
        print(log.strip()[-400:])
        sys.exit(0)
    lines = [l for l in log.splitlines() if l.startswith(("FAILED", "PROBLEM"))]
    why = "\n".join(lines[:12]) or log[-1500:]
    violation(rep, why)


def known(prop):
    p = os.path.join(V, "known_findings.txt")
    out = []
    if os.path.exists(p):
        for l in open(p):
            l = l.strip()
            if l.startswith("finding: property=%s " % prop):
                out.append(l.split(" ", 2)[2])
    return out


main()
