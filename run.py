"""Runs the obligations of one property against /repo's current tree.

  run.py C08                 all obligations, verdict, evidence/C08.json
  run.py --one C08 NAME      one obligation in this process (verbose)
  run.py --replay FILE       re-evaluate a reported failing input on the real code
"""
import importlib, json, os, signal, subprocess, sys, time, traceback
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
TIER = os.environ.get("VERIF_TIER", "quick")
SEED = int(os.environ.get("VERIF_SEED", "1") or 1)
OUT = os.path.join(HERE, "out")
DEADLINE = float(os.environ.get("VC_DEADLINE", "810" if TIER == "quick" else "3300"))
JOBS = int(os.environ.get("VC_JOBS", "8"))


def jdump(o, path):
    tmp = path + ".tmp%d" % os.getpid()
    with open(tmp, "w") as fh:
        json.dump(o, fh, indent=1, default=str)
    os.replace(tmp, path)


def load(prop):
    return importlib.import_module("checks." + prop.lower())


def one(prop, name, out=None):
    import threading, resource
    resource.setrlimit(resource.RLIMIT_AS, (int(os.environ.get("VC_MEM_GB", "12")) << 30,) * 2)
    sys.setrecursionlimit(200000)
    threading.stack_size(1024 * 1024 * 1024)
    box = []
    t = threading.Thread(target=lambda: box.append(_one(prop, name, out)))
    t.start(); t.join()
    return box[0] if box else 1


def _one(prop, name, out=None):
    obs = {o.name: o for o in load(prop).obligations()}
    r = obs[name].run()
    if out:
        jdump(r, out)
    else:
        print(json.dumps(r, indent=1, default=str)[:6000])
    return 0


def replay(path):
    d = json.load(open(path))
    prop, bad = d["property"], False
    for v in d.get("violated", []):
        obs = {o.name: o for o in load(prop).obligations()}
        o = obs[v["name"]]
        if hasattr(o, "replay"):
            fails, text = o.replay(v["ce"])
            print("%s: %s  %s" % (v["name"], "FAILS" if fails else "holds", text))
            bad |= fails
        else:
            r = o.run()
            print(v["name"], r["status"], json.dumps(r.get("ce", r.get("residue", "")), default=str)[:1500])
            bad |= r["status"] == "violated"
    for v in d.get("undecided", []):
        print("obligation not discharged: %s\n%s" % (v["name"], v.get("residue") or v.get("proof_error") or v.get("reason")))
    return 1 if bad else 0


def known():
    out = []
    p = os.path.join(HERE, "known_findings.txt")
    if os.path.exists(p):
        for line in open(p):
            line = line.strip()
            if line.startswith("finding:"):
                d = dict(x.split("=", 1) for x in line.split()[1:3])
                out.append((d["property"], d["obligation"], line.split(None, 3)[3]))
    return out


def main(prop):
    t0 = time.time()
    os.makedirs(OUT, exist_ok=True)
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    for f in os.listdir(OUT):
        if f.startswith(prop + "."):
            os.remove(os.path.join(OUT, f))
    listed, note = [], None
    try:
        r = subprocess.run([sys.executable, "-c", "import sys; sys.path.insert(0,%r)\nfrom run import load\nm=load(%r)\nimport json\n"
                            "print('LIST'+json.dumps([[o.name, getattr(o,'cost',10)] for o in m.obligations()]))" % (HERE, prop)],
                           capture_output=True, text=True, timeout=120, cwd=HERE)
        for line in r.stdout.splitlines():
            if line.startswith("LIST"):
                listed = json.loads(line[4:])
        if not listed:
            note = (r.stderr or r.stdout)[-1500:]
    except subprocess.TimeoutExpired:
        note = "listing the obligations timed out"
    if not listed:
        p = os.path.join(OUT, prop + ".json")
        jdump({"property": prop, "reason": "the obligations could not be generated from the current tree", "output": note}, p)
        evidence(prop, [{"name": prop, "status": "undecided", "proof_error": note}], time.time() - t0)
        print(note)
        print("VIOLATION property=%s replay=%s no-failing-input-found" % (prop, p))
        return 1
    listed_known = {(p, o) for p, o, t in known()}
    todo = [n for n, c in sorted(listed, key=lambda x: -x[1])]
    run, res = {}, {}
    while todo or run:
        while todo and len(run) < JOBS:
            n = todo.pop(0)
            out = os.path.join(OUT, "%s.%s.json" % (prop, n.replace("/", "_").replace(" ", "_")))
            log = open(out[:-5] + ".log", "w")
            run[n] = (subprocess.Popen([sys.executable, os.path.join(HERE, "run.py"), "--one", prop, n, out], stdout=log, stderr=log,
                                       cwd=HERE, start_new_session=True), out, time.time())
        for n in list(run):
            p, out, ts = run[n]
            late = time.time() - t0 > DEADLINE
            if p.poll() is None and late:
                try:
                    os.killpg(p.pid, signal.SIGKILL)
                except OSError:
                    pass
                p.wait()
            if p.poll() is not None:
                del run[n]
                if os.path.exists(out):
                    res[n] = json.load(open(out))
                else:
                    tail = open(out[:-5] + ".log").read()[-1500:]
                    res[n] = {"name": n, "status": "undecided", "reason": "time limit" if late else "the prover ended with status %s" % p.returncode, "residue": tail}
                r = res[n]
                print("%-9s %s  (%.0f s)%s" % (r["status"], n, time.time() - ts, "" if r["status"] == "proved" else
                                              "  " + str(r.get("ce") or r.get("residue") or r.get("proof_error") or r.get("reason"))[:300].replace("\n", " ")), flush=True)
        if any(r["status"] == "violated" and (prop, n) not in listed_known for n, r in res.items()):
            # a failing input on the real code decides the check
            for n in list(run):
                p = run.pop(n)[0]
                try:
                    os.killpg(p.pid, signal.SIGKILL)
                except OSError:
                    pass
                p.wait()
                todo.append(n)
            for n in todo:
                res[n] = {"name": n, "status": "not run", "reason": "another obligation is violated"}
            todo = []
        if time.time() - t0 > DEADLINE:
            for n in todo:
                res[n] = {"name": n, "status": "undecided", "reason": "time limit"}
            todo = []
        time.sleep(0.05)
    rs = [res[n] for n, _ in listed]
    fnd = {(p, o): t for p, o, t in known()}
    viol = [r for r in rs if r["status"] == "violated"]
    und = [r for r in rs if r["status"] == "undecided"]
    for r in list(viol):
        if (prop, r["name"]) in fnd:
            print("KNOWN-FINDING: property=%s %s %s" % (prop, r["name"], fnd[(prop, r["name"])]))
            viol.remove(r)
    evidence(prop, rs, time.time() - t0, len(viol) + len(und))
    if not viol and not und:
        print("property %s: %d obligations discharged in %.0f s" % (prop, len(rs), time.time() - t0))
        return 0
    p = os.path.join(OUT, prop + ".json")
    jdump({"property": prop, "violated": viol, "undecided": und, "how_to_replay": "%s/check --replay %s" % (HERE, p)}, p)
    if viol:
        print("VIOLATION property=%s replay=%s" % (prop, p))
    else:
        print("VIOLATION property=%s replay=%s no-failing-input-found" % (prop, p))
    return 1


def evidence(prop, rs, wall, nviol=0):
    m = None
    info = {}
    try:
        info = json.load(open(os.path.join(HERE, "checks", "trust.json")))
    except Exception:
        pass
    proofs = [r for r in rs if r.get("level", "proof") == "proof"]
    bounded = [r for r in rs if r.get("level", "proof") != "proof"]
    funcs = sorted({f for r in rs for f in r.get("functions", [])})
    tb = list(info.get("common", [])) + list(info.get(prop, []))
    level = "proof"
    cov = {
        "obligations": len(proofs), "discharged": sum(r["status"] == "proved" for r in proofs),
        "checker_cmd": "/verif/check %s %s" % (prop, TIER),
        "trusted_base": tb or ["vc engine"],
        "functions_under_contract": funcs,
        "functions": len(funcs),
        "obligation_results": [{k: v for k, v in r.items() if k not in ("functions", "doc") and v not in (None, {}, [])} for r in rs],
        "statements": {r["name"]: r.get("doc", "") for r in rs},
        "solver_seconds": round(sum(r.get("proof_s", 0) for r in rs), 1),
        "equations_extracted": sum(r.get("eqns", 0) or 0 for r in rs),
        "cases": sum(r.get("cases", 0) or 0 for r in rs),
        "boxes": sum(r.get("boxes", 0) or 0 for r in rs),
        "inputs_replayed_on_real_code": sum(r.get("explored_inputs", 0) or 0 for r in rs),
    }
    if bounded:
        cov["bounded_checks"] = [{"name": r["name"], "bound": r.get("bound", ""), "status": r["status"]} for r in bounded]
    ev = {"property": prop, "tier": TIER if TIER in ("quick", "thorough") else "quick", "seed": SEED, "level": level, "coverage": cov,
          "assumptions": tb, "violations": nviol, "wall_s": round(wall, 2)}
    jdump(ev, os.path.join(HERE, "evidence", prop + ".json"))


if __name__ == "__main__":
    a = sys.argv[1:]
    if a and a[0] == "--one":
        sys.exit(one(a[1], a[2], a[3] if len(a) > 3 else None))
    if a and a[0] == "--replay":
        sys.exit(replay(a[1]))
    sys.exit(main(a[0]))
