#!/usr/bin/env python3
"""check.py <property id>: analyses /repo's current source and decides one property.

exit 0: held on everything analysed; exit 1 with a VIOLATION line otherwise. Writes evidence/<id>.json."""
import gc, json, os, pickle, select, struct, sys, time, traceback

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
import dump, engine, props, rules  # noqa: E402
from interp import Gap, LOOPS, SEGS  # noqa: E402

VERIF = os.path.dirname(HERE)
WORKERS = max(2, min(8, os.cpu_count() or 2))
BUDGET = 780  # seconds after which what is unfinished is reported as not analysed


def findings():
    try:
        with open(VERIF + "/known-findings.json") as f:
            return json.load(f)
    except FileNotFoundError:
        return []


def work(p, prop, job):
    """analyses one entry point and runs the property's rules on it"""
    root, names = job
    t = time.time()
    res = {"root": root, "n": {}, "viol": [], "gap": None, "stats": {}, "sites": []}
    try:
        o = rules.analyse(p, root)
        rep = rules.Rep(root)
        for n in names:
            props.rule(n)(o, rep)
        res.update(n=rep.n, viol=rep.viol, sites=sorted("%s @ %s" % x for x in rep.sites))
        if o is not None and getattr(o, "ip", None) is not None:
            res["stats"] = {"functions": len(o.ip.visited), "steps": o.ip.steps, "paths": len(o.ends),
                            "awaits": sum(1 for g in SEGS if g.kind == "await"), "loops": sum(1 for l in LOOPS if l),
                            "opaque_calls": sorted(o.ip.unknown)}
            res["fns"] = sorted(o.ip.visited)
            if o.ip.gaps or rep.unsure:
                res["gap"] = "; ".join(sorted(o.ip.gaps) + sorted(rep.unsure))
    except Gap as g:
        res["gap"] = "not analysable: %s" % g
    except Exception:
        res["gap"] = "internal: " + traceback.format_exc()[-1200:]
    res["wall"] = round(time.time() - t, 2)
    return res


def pool(p, prop, jobs, deadline):
    """one forked process per job; their results"""
    out, running, todo = [], {}, list(jobs)
    gc.collect()
    gc.freeze()
    while todo or running:
        while todo and len(running) < WORKERS:
            job = todo.pop(0)
            r, w = os.pipe()
            pid = os.fork()
            if pid == 0:
                os.close(r)
                data = pickle.dumps(work(p, prop, job))
                with os.fdopen(w, "wb") as f:
                    f.write(data)
                os._exit(0)
            os.close(w)
            running[r] = (pid, job, b"")
        ready, _, _ = select.select(list(running), [], [], max(0.1, deadline - time.time()))
        for fd in ready:
            pid, job, buf = running[fd]
            x = os.read(fd, 1 << 20)
            if x:
                running[fd] = (pid, job, buf + x)
                continue
            os.close(fd)
            os.waitpid(pid, 0)
            del running[fd]
            try:
                out.append(pickle.loads(buf))
            except Exception:
                out.append({"root": job[0], "n": {}, "viol": [], "gap": "the analysis process died", "stats": {}, "sites": [], "wall": 0})
        if time.time() > deadline:
            for fd, (pid, job, _) in running.items():
                os.kill(pid, 9)
                os.waitpid(pid, 0)
                out.append({"root": job[0], "n": {}, "viol": [], "gap": "time budget used up", "stats": {}, "sites": [], "wall": 0})
            for job in todo:
                out.append({"root": job[0], "n": {}, "viol": [], "gap": "time budget used up", "stats": {}, "sites": [], "wall": 0})
            break
    return out


def main():
    t0 = time.time()
    pid = sys.argv[1]
    tier = "thorough" if "--thorough" in sys.argv else "quick"
    prop = props.PROPS[pid]
    dumpdir = os.environ.get("SA_DUMP") or dump.dump()
    t1 = time.time()
    p = engine.load(dumpdir)
    for g in props.shared(p):
        print("NOT-ANALYSED property=%s %s" % (pid, g))
    jobs = prop.jobs(p, tier)
    res = pool(p, prop, jobs, t0 + BUDGET)
    res.sort(key=lambda r: r["root"])
    n, viol, gaps, fns, opaque = {}, [], [], set(), set()
    for r in res:
        for k, c in r["n"].items():
            n[k] = n.get(k, 0) + c
        viol += r["viol"]
        fns |= set(r.get("fns", ()))
        opaque |= set(r["stats"].get("opaque_calls", ()))
        if r["gap"]:
            gaps.append((r["root"], r["gap"]))
    # rules that find nothing to check are broken, unless the analysis says itself what it did not see
    for k, least in prop.floor.items() if not gaps else ():
        least = min(least, 2)
        if sum(c for kk, c in n.items() if kk.startswith(k)) < least:
            viol.append({"rule": k, "root": "*", "site": "*", "what": "anchor missing: the rule found %d instance(s), needs %d%s" % (
                sum(c for kk, c in n.items() if kk.startswith(k)), least, "; " + "; ".join("%s: %s" % g for g in gaps) if gaps else "")})
    # a violation in an unanalysed remainder cannot be excluded; what was analysed decides
    known, fresh = [], []
    for v in viol:
        f = next((f for f in findings() if f.get("status") == "known" and f["property"] == pid
                  and f["rule"] == v["rule"] and f["site_function"] in (v.get("fn"), v["site"]) and f["root"] in (v["root"], "*")), None)
        (known if f else fresh).append((v, f))
    total = sum(n.values())
    bad = len(viol)
    ev = {"property": pid, "tier": tier, "seed": int(os.environ.get("VERIF_SEED", "1") or 1), "level": prop.level,
          "coverage": {"obligations": total, "discharged": total - bad if total >= bad else 0,
                       "checker_cmd": "python3 sa/check.py " + pid,
                       "trusted_base": props.TRUSTED,
                       "explanation": prop.explain,
                       "obligations_by_rule": dict(sorted(n.items())),
                       "entry_points": {r["root"]: dict(r["stats"], wall_s=r["wall"]) for r in res},
                       "functions_analysed": len(fns), "opaque_external_calls": sorted(opaque),
                       "not_analysed": [{"entry_point": a, "why": b} for a, b in gaps],
                       "samples": sorted({s for r in res for s in r["sites"]})[:40]},
          "assumptions": prop.assume, "wall_s": round(time.time() - t0, 1), "violations": len(fresh)}
    for r in ev["coverage"]["entry_points"].values():
        r.pop("opaque_calls", None)
    os.makedirs(VERIF + "/evidence", exist_ok=True)
    with open("%s/evidence/%s.json" % (VERIF, pid), "w") as f:
        json.dump(ev, f, indent=1)
    for a, b in gaps:
        print("NOT-ANALYSED property=%s entry=%s %s" % (pid, a, b[:400]))
    for s in sorted({"%s at %s" % (f["id"], v["site"]) for v, f in known}):
        print("KNOWN-FINDING: property=%s %s" % (pid, s))
    print("%s: %d obligations over %d entry points and %d functions, %d violations (%.0fs, of which dump %.0fs)" % (
        pid, total, len(res), len(fns), len(fresh), time.time() - t0, t1 - t0))
    if fresh:
        path = "%s/evidence/%s.violations.json" % (VERIF, pid)
        with open(path, "w") as f:
            json.dump([v for v, _ in fresh], f, indent=1)
        for v, _ in fresh[:10]:
            print("  %s | %s | %s | %s" % (v["rule"], v["root"], v["site"], v["what"][:500]))
        print("VIOLATION property=%s replay=%s" % (pid, path))
        return 1
    return 0


if __name__ == "__main__":
    try:
        rc = main()
    except dump.DumpError as e:
        print("ERROR: /repo does not type-check under the driver:", e)
        rc = 2
    sys.stdout.flush()
    os._exit(rc)
