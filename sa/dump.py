"""Type-checks /repo's current tree with the MIR driver and loads the dumps."""
import fcntl, glob, json, os, shutil, subprocess, sys, time
import overlay

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
REPO = os.environ.get("SA_REPO", "/repo")
BUILD = os.environ.get("SA_BUILD", VERIF + "/build")
CRATES = ["cycles_ledger-lib", "cycles_ledger-bin", "depositor-bin", "fake_cmc-bin"]


class DumpError(Exception):
    pass


def sh(cmd, cwd, env):
    p = subprocess.run(cmd, cwd=cwd, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if p.returncode:
        raise DumpError("command failed: %s\n%s" % (" ".join(cmd), p.stdout[-6000:]))
    return p.stdout


def base_env():
    env = dict(os.environ)
    for k in ("RUSTFLAGS", "RUSTC_WRAPPER", "RUSTC_WORKSPACE_WRAPPER", "CARGO_TARGET_DIR", "RUSTUP_TOOLCHAIN",
              "CARGO_ENCODED_RUSTFLAGS", "CARGO_BUILD_TARGET"):
        env.pop(k, None)
    env["CARGO_NET_OFFLINE"] = "true"
    return env


def build_driver():
    env = base_env()
    env["CARGO_TARGET_DIR"] = VERIF + "/build/driver"
    sh(["cargo", "+nightly", "build", "--release", "--offline", "--quiet"], VERIF + "/driver", env)
    return VERIF + "/build/driver/release/mirdump"


def dump(out=None):
    """Returns the directory with the fresh dumps."""
    os.makedirs(BUILD, exist_ok=True)
    os.makedirs(VERIF + "/build", exist_ok=True)
    with open(VERIF + "/build/.lock", "w") as lock:
        fcntl.flock(lock, fcntl.LOCK_EX)
        drv = build_driver()
        ws, out = BUILD + "/ws", out or BUILD + "/dump"
        os.makedirs(ws, exist_ok=True)
        overlay.make(REPO, ws)
        if os.path.isdir(out):
            shutil.rmtree(out)
        os.makedirs(out)
        env = base_env()
        sysroot = sh(["rustc", "+nightly", "--print", "sysroot"], VERIF, env).strip()
        env.update(CARGO_TARGET_DIR=BUILD + "/target", RUSTFLAGS="-Zalways-encode-mir --cap-lints=warn",
                   RUSTC_WORKSPACE_WRAPPER=drv, LD_LIBRARY_PATH=sysroot + "/lib", MIRDUMP_OUT=out)
        # a warm target directory would skip the wrapper: drop the members' fingerprints
        for m in ("cycles-ledger", "depositor", "fake-cmc"):
            for d in (glob.glob(f"{BUILD}/target/debug/.fingerprint/{m}-*")
                      + glob.glob(f"{BUILD}/target/debug/build/{m}")):
                shutil.rmtree(d)
        sh(["cargo", "+nightly", "check", "--offline", "--workspace", "--lib", "--bins"], ws, env)
        missing = [c for c in CRATES if not os.path.isfile(f"{out}/{c}.json")]
        if missing:
            raise DumpError("no dump for " + ", ".join(missing))
    return out


if __name__ == "__main__":
    t = time.time()
    print(dump(), "%.1fs" % (time.time() - t))
