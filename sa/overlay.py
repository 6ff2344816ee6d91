"""Lays out an analysis workspace: symlinks into /repo, manifests derived from
/repo's on every run.  The only difference from /repo: the one git dependency
that cannot be fetched offline is redirected to /verif/stubs (types only), so
the canister binary (main.rs) is type-checked and analysed as well."""
import os, re, shutil

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
MISSING = "ic-canisters-http-types"


def read(p):
    with open(p, encoding="utf-8") as f:
        return f.read()


def write(p, text):
    if not os.path.isfile(p) or read(p) != text:
        with open(p, "w", encoding="utf-8") as f:
            f.write(text)


def link(src, dst, skip):
    os.makedirs(dst, exist_ok=True)
    want = {n for n in os.listdir(src) if n not in skip}
    for n in os.listdir(dst):
        p = os.path.join(dst, n)
        if os.path.islink(p) and n not in want:
            os.unlink(p)
    for n in want:
        p, target = os.path.join(dst, n), os.path.join(src, n)
        if os.path.islink(p) and os.readlink(p) == target:
            continue
        if os.path.islink(p) or os.path.isfile(p):
            os.unlink(p)
        elif os.path.isdir(p):
            shutil.rmtree(p)
        os.symlink(target, p)


def make(repo, ws):
    members = sorted(d for d in os.listdir(repo)
                     if d != "target" and os.path.isfile(f"{repo}/{d}/Cargo.toml"))
    link(repo, ws, {"Cargo.toml", "Cargo.lock", "target", ".git", "rust-toolchain.toml", *members})
    write(ws + "/Cargo.toml", read(repo + "/Cargo.toml"))
    for m in members:
        link(f"{repo}/{m}", f"{ws}/{m}", {"Cargo.toml", "target"})
        text = read(f"{repo}/{m}/Cargo.toml")
        text = re.sub(rf"(?m)^{MISSING}\s*=.*\n",
                      f'{MISSING} = {{ path = "{VERIF}/stubs/{MISSING}" }}\n', text)
        write(f"{ws}/{m}/Cargo.toml", text)
    blocks = read(repo + "/Cargo.lock").split("\n\n")
    out = []
    for b in blocks:
        if f'name = "{MISSING}"' in b:
            b = re.sub(r'(?m)^source = .*\n', '', b)
        out.append(b)
    write(ws + "/Cargo.lock", "\n\n".join(out))
    return members


if __name__ == "__main__":
    import sys
    print(make(sys.argv[1], sys.argv[2]))
