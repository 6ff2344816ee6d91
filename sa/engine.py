"""Runs the abstract interpreter on an entry point and collects its outcomes."""
import sys, time
import terms, prog, interp, models
from terms import *
from interp import Interp, St, LOOPS, Gap


class Outcome:
    """every way an entry point can end"""

    def __init__(self, key, ip, ends):
        self.key, self.ip, self.ends = key, ip, ends


def load(dumpdir, crates=("cycles_ledger-lib", "cycles_ledger-bin")):
    sys.setrecursionlimit(20000)
    return prog.Prog(dumpdir, crates)


def run_root(p, key, args=(), prepare=None, extra=None):
    ms = models.Models()
    ip = Interp(p, ms)
    ms.bind(ip)
    if extra:
        ms.extra.update(extra)
    st = St()
    fn = p.prep(p.funcs[key])
    if prepare:
        prepare(ip, st)
    args = list(args)
    for i in range(len(args), fn.args):
        args.append(mk("sym", "arg%d" % i, ty=fn.locals[i + 1]))
    rets = ip.call_fn(st, fn, args, fn.locals[0]) if fn.kind != "coroutine" else ip.run_fn(st, fn, args)
    ends = list(ip.ends)
    for s, v in rets:
        ends.append(interp.End("ret", s, v, fn.end and "%s:%s" % (fn.loc.split(":")[0], fn.end) or fn.loc, ()))
    return Outcome(key, ip, ends)


def exports(p, crate="cycles_ledger-bin"):
    return {r["export"]: r["key"] for r in p.roots[crate] if r.get("export")}


if __name__ == "__main__":
    import dump
    d = dump.BUILD + "/dump"
    p = load(d)
    ex = exports(p)
    for name in sys.argv[1:]:
        k = ex.get(name) or ex.get("canister_update." + name) or ex.get("canister_query." + name) or name
        t = time.time()
        o = run_root(p, k)
        print("==", k, "%.1fs" % (time.time() - t), "steps", o.ip.steps, "ends", len(o.ends), "loops", len(LOOPS))
        print("unknown", o.ip.unknown)
        print("noninline", o.ip.noninline)
        print('segs', [(g.id, g.kind, g.loc, len(g.pre)) for g in interp.SEGS][:40])
        for e in o.ends:
            print("--", e.kind, e.val if isinstance(e.val, str) else show(e.val), e.loc, "facts", len(e.st.f.lin), len(e.st.f.bl), len(e.st.f.var))
            for x in e.st.ev:
                if x.a[0] in ("mut",):
                    print("     mut", x.a[2].a[0], x.a[3].a[0], show(x.a[4], lim=6)[:200], x.a[5].a[0])
                else:
                    print("    ", show(x, lim=7)[:300])
