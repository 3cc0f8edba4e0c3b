"""python3 -m dmlcheck <property>|--self-test|--list|--driver NAME [--root DIR]"""
from __future__ import annotations

import json
import multiprocessing as mp
import os
import sys
import time

sys.setrecursionlimit(20000)
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def run_one(job):
    import resource
    resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))
    import signal
    from .drive import Run
    from . import evrules, nf
    d, root, tmax = job
    t0 = time.time()
    r = Run(root, d["name"], d["src"], None, d["params"])

    def onalarm(*a):
        raise TimeoutError()
    signal.signal(signal.SIGALRM, onalarm)
    signal.alarm(tmax)
    try:
        r.analyse()
    except TimeoutError:
        r.add("driver completes", "undecided", "analysis time limit")
    except MemoryError:
        r.add("driver completes", "undecided", "analysis memory limit")
    except Exception as e:                     # noqa: BLE001  analyser limitation: no verdict
        r.add("driver completes", "undecided", "analyser limitation: " + repr(e)[:200])
    signal.alarm(0)
    try:
        if d["events"]:
            evrules.apply(r)
    except Exception as e:                     # noqa: BLE001
        r.add("event rules", "undecided", repr(e)[:200])
    it = getattr(r, "it", None)
    obl = [(o.label, o.status, o.detail, o.loc) for o in r.obls]
    stats = {}
    if it is not None:
        stats = {"funcs": sorted({(os.path.relpath(p, root), q) for p, q in it.funcs_seen if p.startswith(root)}),
                 "calls": len(it.calls_seen), "steps": it.steps, "events": len(it.events),
                 "unmodelled": dict(it.unmodelled), "at": list(it.unmodelled_at)}
    return d["name"], obl, stats, time.time() - t0


def tags(label):
    """'P01,P02:name' -> ({'P01','P02'}, 'name'); no tag: every property"""
    import re
    m = re.match(r"^((?:P\d\d,?)+):(.*)$", label, re.S)
    if m:
        return set(m.group(1).strip(",").split(",")), m.group(2)
    return None, label


def main(argv):
    root = "/repo"
    if "--root" in argv:
        i = argv.index("--root")
        root = argv[i + 1]
        del argv[i:i + 2]
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--thorough" in argv:
        argv.remove("--thorough")
        tier = "thorough"
    from . import specs, rules
    if argv and argv[0] == "--self-test":
        from . import selftest
        return selftest.main()
    ds = specs.load()
    if argv and argv[0] == "--list":
        for d in ds:
            print(d["name"], sorted(d["props"] - specs.EVENT_PROPS))
        return 0
    if argv and argv[0] == "--driver":
        import fnmatch
        sel = [d for d in ds if any(fnmatch.fnmatch(d["name"], a) for a in argv[1:])]
        for nm, obl, stats, w in pool_run(sel, root, 600):
            seen = {}
            for lab, stt, det, loc in obl:
                if stt != "proven" or "-v" in argv:
                    seen[(stt, lab, loc)] = seen.get((stt, lab, loc), [0, str(det)[:300 if "-v" not in argv else None]])
                    seen[(stt, lab, loc)][0] += 1
            for (stt, lab, loc), (c, det) in seen.items():
                print(f"{stt:10} {c}x {lab} {det} {loc}")
            print(nm, sum(o[1] == "proven" for o in obl), "of", len(obl), f"{w:.1f}s", stats.get("at"))
        return 0
    if argv and argv[0] == "--all":
        return run_all(ds, root, tier, rules)
    pid = argv[0]
    return check(pid, [d for d in ds if pid in d["props"] and (tier == "thorough" or d["tier"] == "quick")], root, tier,
                 rules)


DEADLINE = 600.0


def pool_run(sel, root, tmax=200):
    jobs = [(d, root, tmax) for d in sel]
    n = min(8, max(1, len(jobs)), os.cpu_count() or 1)
    if n == 1:
        return [run_one(j) for j in jobs]
    # drivers are independent; whatever is not finished by the deadline (or whose
    # worker process died) is reported as undecided, never as a violation
    out, end = [], time.time() + DEADLINE
    with mp.get_context("fork").Pool(n, maxtasksperchild=1) as p:
        it = p.imap_unordered(run_one, jobs, chunksize=1)
        while len(out) < len(jobs):
            try:
                out.append(it.next(timeout=max(1.0, end - time.time())))
            except mp.TimeoutError:
                break
        p.terminate()
    done = {r[0] for r in out}
    for d in sel:
        if d["name"] not in done:
            out.append((d["name"], [("driver completes", "undecided", "not finished before the deadline", None)], {}, 0.0))
    return sorted(out, key=lambda r: r[0])


def known_findings():
    p = os.path.join(HERE, "known_findings.json")
    if not os.path.exists(p):
        return []
    with open(p) as fh:
        return [f for f in json.load(fh)["findings"] if f.get("status") == "known"]


def run_all(ds, root, tier, rules):
    t0 = time.time()
    bad = 0
    tot = {}
    for nm, obl, stats, w in pool_run(ds, root):
        k = sum(o[1] == "proven" for o in obl)
        for lab, stt, det, loc in obl:
            tot[stt] = tot.get(stt, 0) + 1
            if stt != "proven":
                bad += 1
                print(f"{stt:10} {nm} :: {lab} :: {det[:300]} {loc}")
        if w > 20:
            print("slow", nm, f"{w:.1f}")
    for pid, rule in rules.RULES:
        for lab, stt, det, loc in rule(root):
            tot[stt] = tot.get(stt, 0) + 1
            if stt != "proven":
                print(f"{stt:10} rule {pid} :: {lab} :: {det[:300]} {loc}")
    print(tot, f"{time.time() - t0:.1f}s")
    return 0


def check(pid, sel, root, tier, rules):
    t0 = time.time()
    res = pool_run(sel, root)
    obls = []
    funcs, calls, steps, events, unm = set(), 0, 0, 0, {}
    for nm, obl, stats, w in res:
        for lab, stt, det, loc in obl:
            tg, name = tags(lab)
            if tg is None or pid in tg:
                obls.append((nm, name, stt, det, loc))
        funcs |= {tuple(f) for f in stats.get("funcs", ())}
        calls += stats.get("calls", 0)
        steps += stats.get("steps", 0)
        events += stats.get("events", 0)
        for k, v in stats.get("unmodelled", {}).items():
            unm[k] = unm.get(k, 0) + v
    nrules = 0
    for p, rule in rules.RULES:
        if p == pid:
            nrules += 1
            for lab, stt, det, loc in rule(root):
                obls.append(("rule " + rule.__name__, lab, stt, det, loc))
    kf = [f for f in known_findings() if f["property"] == pid]
    viol, known, und, ok = [], [], [], 0
    seen = set()
    for nm, name, stt, det, loc in obls:
        if stt == "proven":
            ok += 1
        elif stt == "undecided":
            und.append((nm, name, det, loc))
        else:
            hit = next((f for f in kf if f["where"] == f"{nm}::{name}" or
                        (f["where"].endswith("*") and f"{nm}::{name}".startswith(f["where"][:-1]))), None)
            if hit is not None:
                known.append((hit, nm, name, det, loc))
            else:
                viol.append((nm, name, det, loc))
    for f in {id(k[0]): k[0] for k in known}.values():
        print(f"KNOWN-FINDING: property={pid} {f['what']}")
    evdir = os.path.join(HERE, "evidence")
    os.makedirs(evdir, exist_ok=True)
    replay = os.path.join(evdir, f"{pid}.violations.txt")
    if viol:
        with open(replay, "w") as fh:
            for nm, name, det, loc in viol:
                fh.write(f"{fmtloc(loc, root)}: {name} [driver {nm}]\n    {det}\n")
    elif os.path.exists(replay):
        os.remove(replay)
    from . import evidence
    evidence.write(evdir, pid, tier, root, t0, sel, obls, ok, und, viol, known, funcs, calls, steps, events, unm, nrules)
    print(f"{pid}: {ok} obligations proven, {len(und)} undecided, {len(viol)} violated, "
          f"{len(known)} known findings; {len(sel)} drivers, {nrules} rules, {len(funcs)} functions, "
          f"{time.time() - t0:.1f}s")
    for nm, name, det, loc in und[:10]:
        print(f"  undecided {nm}: {name}: {det[:160]}")
    if viol:
        for nm, name, det, loc in viol[:12]:
            print(f"  {fmtloc(loc, root)}: {name} [driver {nm}]: {det[:300]}")
        print(f"VIOLATION property={pid} replay={replay}")
        return 1
    return 0


def fmtloc(loc, root):
    if not loc:
        return "doubleml"
    return f"{os.path.relpath(loc[0], root) if str(loc[0]).startswith(root) else loc[0]}:{loc[1]} in {loc[2]}"


if __name__ == "__main__":
    try:
        rc = main(sys.argv[1:])
    except SystemExit:
        raise
    sys.stdout.flush()
    sys.exit(rc)
