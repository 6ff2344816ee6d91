"""Writes /verif/seeded/<id>/ for the bugs described in tools/bugs.py and confirms each one:
   plant.py [ids...]          write, and confirm (patch applies, builds, stable tests pass, demo passes without and fails with it)
   plant.py --write [ids...]  write only
   plant.py --check [ids...]  run the check of the bug's property (and any given with P=..) against it"""
import json, os, shutil, subprocess, sys

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = "/repo"
SIM = V + "/tools/sim"


def sh(cmd, **k):
    return subprocess.run(cmd, shell=True, capture_output=True, text=True, **k)


def clean():
    sh("git -C /repo checkout -- .")


def diff_of(bug):
    clean()
    for f, old, new in bug["edits"]:
        p = REPO + "/" + f
        s = open(p).read()
        assert s.count(old) == 1, (bug["id"], f, s.count(old), old)
        open(p, "w").write(s.replace(old, new))
    d = sh("git -C /repo diff").stdout
    clean()
    return d


def write(bug):
    d = V + "/seeded/" + bug["id"]
    shutil.rmtree(d, ignore_errors=True)
    shutil.copytree(SIM, d, ignore=shutil.ignore_patterns("target"))
    open(d + "/patch.diff", "w").write(diff_of(bug))
    open(d + "/demo_body.rs", "w").write(bug["demo"].strip() + "\n")
    os.chmod(d + "/demo.sh", 0o755)
    json.dump({"property": bug["property"], "needs": bug["needs"], "what_it_breaks": bug["breaks"]}, open(d + "/meta.json", "w"), indent=1)
    return d


def demo(d):
    r = sh("bash %s/demo.sh" % d, cwd=REPO)
    return r.returncode, (r.stdout + r.stderr)[-700:]


def stable():
    b = json.load(open("/opt/vp/BASELINE.json"))
    r = sh("bash /opt/vp/build.sh")
    if r.returncode:
        return "does not build: " + r.stderr[-800:]
    sh("bash /opt/vp/test.sh /tmp/plant.json")
    return None


def main():
    sys.path.insert(0, V + "/tools")
    import bugs
    args = [a for a in sys.argv[1:] if not a.startswith("-")]
    todo = [b for b in bugs.BUGS if not args or b["id"] in args]
    assert not sh("git -C /repo status --porcelain").stdout.strip(), "/repo is not clean"
    for b in todo:
        if "--check" in sys.argv:
            d = V + "/seeded/" + b["id"]
            assert sh("git -C /repo apply %s/patch.diff" % d).returncode == 0, b["id"]
            for p in os.environ.get("P", b["property"]).split(","):
                r = sh("python3 sa/check.py " + p, cwd=V)
                print("%-28s %s rc=%d %s" % (b["id"], p, r.returncode, (r.stdout.strip().splitlines() or [r.stderr[-300:]])[0][:260]), flush=True)
                for l in r.stdout.splitlines():
                    if "NOT-ANALYSED" in l:
                        print("     ", l[:200], flush=True)
            clean()
            continue
        d = write(b)
        if "--write" in sys.argv:
            print("wrote", d)
            continue
        base, out0 = demo(d)
        assert sh("git -C /repo apply %s/patch.diff" % d).returncode == 0, b["id"]
        err = stable()
        tests = None
        if err is None:
            base_ok = json.load(open("/opt/vp/BASELINE.json"))
            got = json.load(open("/tmp/plant.json"))
            tests = summary(base_ok, got)
        bad, out1 = demo(d)
        clean()
        print("%-28s demo clean=%d bug=%d tests=%s %s" % (b["id"], base, bad, tests, err or ""), flush=True)
        if base != 0:
            print("   clean:", out0)
        if bad == 0 or bad == 3 or os.environ.get("SHOW"):
            print("   bug:", out1)
    sh("bash /opt/vp/build.sh")


def summary(base, got):
    return "%s" % (got.get("failed") if isinstance(got, dict) and "failed" in got else str(got)[:300])


if __name__ == "__main__":
    main()
