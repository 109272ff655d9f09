#!/usr/bin/env python3
"""check.py Cxx            run the check of one property (VERIF_SEED, VERIF_TIER)
   check.py --replay FILE  run a saved counterexample again
   check.py --setup        build every harness
   check.py --all          run every check, one after another (developer use)"""
import json
import os
import subprocess
import sys
import tempfile
import time

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import vlib                                   # noqa: E402
from units import PROPS, HARNESSES            # noqa: E402

VERIF = vlib.VERIF
KNOWN = os.path.join(VERIF, "known-findings.txt")


def exe_of(h, v):
    opt = HARNESSES.get(h, {})
    return vlib.harness(h, v, opt.get("src", ()), opt.get("flags", ()), opt.get("link", ()))


def run_unit(u, seed, cases, budget, tier):
    exe = exe_of(u["h"], u["v"])
    with tempfile.NamedTemporaryFile(suffix=".json", delete=False) as f:
        out = f.name
    try:
        for attempt in (0, 1):
            cmd = [exe, "--unit", u["u"], "--seed", str(seed), "--cases", str(cases), "--workers", str(u.get("w", 8)),
                   "--budget", "%.0f" % budget, "--tier", tier, "--out", out]
            env = dict(os.environ)
            env.pop("ASAN_OPTIONS", None)
            p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, env=env, errors="replace", text=True)
            if p.returncode in (0, 1):
                with open(out) as fh:
                    return json.load(fh)
        raise RuntimeError("harness failed: %s\n%s" % (" ".join(cmd), p.stdout[-2000:]))
    finally:
        os.unlink(out)


def write_replay(pid, u, d, seed):
    f = d["failure"]
    rd = os.path.join(VERIF, "evidence", "replays")
    os.makedirs(rd, exist_ok=True)
    path = os.path.join(rd, "%s-%s-%d.txt" % (pid, u["u"], seed))
    with open(path, "w") as fh:
        fh.write("# property %s\n#harness %s\n#variant %s\n#unit %s\n" % (pid, u["h"], u["v"], u["u"]))
        fh.write("# run again: python3 /verif/check.py --replay %s\n" % path)
        fh.write("# mode %d (1: alone, 2: needs the cases of its batch, 0: schedule dependent) seed %d confirmed %d of %d\n"
                 % (f["mode"], seed, f["confirmed"], f["replays"]))
        for ln in ("case: " + f["notes"][-4000:] + "\nresult: " + f["message"]).splitlines():
            fh.write("# " + ln.encode("ascii", "replace").decode() + "\n")
        fh.write("%d\n" % f["index"])
        fh.write(" ".join(str(c) for c in f["choices"]) + "\n")
    return path


def replay(path, quiet=False):
    meta = {}
    with open(path) as fh:
        for ln in fh:
            for k in ("harness", "variant", "unit"):
                if ln.startswith("#%s " % k):
                    meta[k] = ln.split()[1]
    p = subprocess.run([exe_of(meta["harness"], meta["variant"]), "--unit", meta["unit"], "--replay", path],
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT, errors="replace", text=True)
    if not quiet:
        print(p.stdout)
    return p.returncode


def known_findings(pid):
    """known: property=C10 replay=known/x.txt <what fails>"""
    out = []
    if os.path.exists(KNOWN):
        for ln in open(KNOWN):
            if ln.startswith("known: property=%s " % pid):
                parts = ln.strip().split(" ", 3)
                out.append((os.path.join(VERIF, parts[2].split("=", 1)[1]), parts[3]))
    return out


def check(pid):
    t0 = time.time()
    prop = PROPS[pid]
    tier = "thorough" if os.environ.get("VERIF_TIER") == "thorough" else "quick"
    seed = int(os.environ.get("VERIF_SEED") or 1)
    total = 420.0 if tier == "quick" else float(os.environ.get("VERIF_BUDGET") or 2400)
    units = prop["units"]
    wsum = float(sum(u.get("share", 1) for u in units))
    res, viol, notes = [], None, []
    for u in units:
        exe_of(u["h"], u["v"])
    for u in units:
        cases = u["q"] if tier == "quick" else u.get("t", u["q"] * 40)
        budget = total * u.get("share", 1) / wsum
        d = run_unit(u, seed, cases, budget, tier)
        res.append((u, d))
        f = d["failure"]
        if not f:
            continue
        if f["mode"] == 0:
            # not reproduced in isolation: see whether independent runs fail as well
            again = 0
            for k in (1, 2):
                d2 = run_unit(u, seed + 1000003 * k, cases, min(budget, 120), tier)
                res.append((u, d2))
                f2 = d2["failure"]
                if f2:
                    again += 1
                    if f2["mode"]:
                        d, f, again = d2, f2, 2
                        break
            if again == 0 or (f["kind"] == 3 and again < 2):
                notes.append("unit %s: one unreproduced failure, not reported: %s" % (u["u"], f["message"][:300]))
                continue
        path = write_replay(pid, u, d, seed)
        viol = (path, u, d)
        break
    kf = []
    if not viol:
        for path, what in known_findings(pid):
            if replay(path, quiet=True) == 1:
                kf.append(what)
                print("KNOWN-FINDING: property=%s %s" % (pid, what))
            else:
                notes.append("known finding no longer fails: " + what)
    samples, labels, per = [], {}, []
    for u, d in res:
        for s in d["samples"][:3]:
            if s.strip():
                samples.append("%s: %s" % (u["u"], s[:700]))
        per.append({"unit": u["u"], "harness": u["h"], "variant": u["v"], "seed": d["seed"], "requested": d["requested"],
                    "evaluations": d["evaluations"], "nontrivial": d["nontrivial"], "distinct_nontrivial": d["distinct"],
                    "rule": d["rule"], "classes": d["labels"], "wall_s": d["wall_s"]})
    ev = {
        "property": pid, "tier": tier, "seed": seed, "level": "exploration",
        "coverage": {
            "evaluations": sum(d["evaluations"] for _, d in res),
            "distinct_nontrivial": sum(d["distinct"] for _, d in res),
            "rule": prop["rule"] + " Non-trivial, per unit: " + "; ".join("%s: %s" % (u["u"], d["rule"]) for u, d in res if d["rule"]),
            "samples": samples[:12] or ["(no non-trivial case was sampled)"],
            "units": per,
        },
        "assumptions": prop.get("assumptions", []) + notes,
        "wall_s": round(time.time() - t0, 2),
        "violations": 1 if viol else 0,
    }
    if kf:
        ev["coverage"]["known_findings"] = kf
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    tmp = os.path.join(VERIF, "evidence", ".%s.tmp" % pid)
    with open(tmp, "w") as fh:
        json.dump(ev, fh, indent=1)
    os.replace(tmp, os.path.join(VERIF, "evidence", pid + ".json"))
    for n in notes:
        print("note: " + n.splitlines()[0])
    if viol:
        path, u, d = viol
        print("unit %s (%s, %s): %s" % (u["u"], u["h"], u["v"], d["failure"]["message"].splitlines()[0] if d["failure"]["message"] else ""))
        print("case: " + d["failure"]["notes"][-1500:])
        print("VIOLATION property=%s replay=%s" % (pid, path))
        return 1
    print("%s held: %d cases, %d distinct non-trivial, %.1f s" % (pid, ev["coverage"]["evaluations"], ev["coverage"]["distinct_nontrivial"], ev["wall_s"]))
    return 0


def main():
    a = sys.argv[1:]
    try:
        if a[:1] == ["--replay"]:
            return replay(a[1])
        if a[:1] == ["--setup"]:
            for h, v in sorted({(u["h"], u["v"]) for p in PROPS.values() for u in p["units"]}):
                print("built", exe_of(h, v))
            return 0
        if a[:1] == ["--all"]:
            bad = 0
            for pid in sorted(PROPS):
                bad |= check(pid)
            return bad
        return check(a[0])
    except (vlib.BuildError, RuntimeError, OSError, ValueError) as e:
        print("ERROR: %s" % e)
        return 2


if __name__ == "__main__":
    sys.exit(main())
