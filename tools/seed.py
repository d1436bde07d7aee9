"""Development helper: create and confirm planted bugs (nothing a check runs uses this).

    make(id, prop, [(file, old, new)...], main_rs, needs, breaks, deps)   write /verif/seeded/<id>/
    python3 tools/seed.py confirm ID...     build + stable tests + demo with the patch, demo without it
    python3 tools/seed.py catch [ID...]     run the property's check on /repo with the patch applied
"""
import json, os, shutil, subprocess, sys, tempfile

ROOT = os.path.realpath(os.path.join(os.path.dirname(os.path.abspath(__file__)), ".."))
SEEDED = f"{ROOT}/seeded"
DEPS = {
    "fields": 'fields = { path = "/repo/fields", default-features = false }',
    "starky": 'starky = { path = "/repo/starky" }',
    "algebraic": 'algebraic = { path = "/repo/algebraic" }',
    "algebraic-gpu": 'algebraic-gpu = { path = "/repo/algebraic-gpu" }',
    "recursion": 'recursion = { path = "/repo/recursion" }',
    "ff_ce": 'ff = { package = "ff_ce", version = "0.12", features = ["derive"] }',
    "ff": 'ff = { version = "0.13", features = ["derive"] }',
    "hex": 'hex = "0.4"',
    "blstrs": 'blstrs = "0.7"',
    "dsl_compile": 'dsl_compile = { path = "/repo/dsl_compile" }',
    "anyhow": 'anyhow = "1"',
    "serde_json": 'serde_json = "1"',
    "rayon": 'rayon = "1.5"',
    "num-bigint": 'num-bigint = "0.4"',
    "franklin-crypto": 'franklin-crypto = { git = "https://github.com/matter-labs/franklin-crypto", branch = "snark-wrapper" }',
}
CIRCOM = '[patch."https://github.com/iden3/circom.git"]\n' + "".join(
    f'{c} = {{ path = "../shims/circom/{c}" }}\n'
    for c in ("parser", "program_structure", "type_analysis", "constraint_generation", "constraint_writers", "compiler", "dag")
) + '\n[patch.crates-io]\nwast = { path = "../shims/wast" }\nlalrpop-util = { path = "../shims/lalrpop-util" }\n'
DEMO = """#!/bin/bash
# exit 0: the property holds in what this program tries; nonzero: it does not
d=$(cd "$(dirname "$0")" && pwd)
t=$(mktemp -d) || exit 3
trap 'rm -rf "$t"' EXIT
cp -r "$d/demo" "$d/shims" "$t/" || exit 3
cd "$t/demo" || exit 3
export RUSTUP_TOOLCHAIN=1.88.0 CARGO_NET_OFFLINE=true CARGO_TARGET_DIR="${DEMO_TARGET:-$t/target}" RUST_MIN_STACK=67108864
unset RUSTFLAGS CARGO_ENCODED_RUSTFLAGS RUSTC_WRAPPER
cargo build --release --offline -q || { echo "the demonstration does not build"; exit 2; }
cd "$t" && timeout 200 "$CARGO_TARGET_DIR/release/demo"
"""


def make(id, prop, edits, main, needs, breaks, deps):
    d = f"{SEEDED}/{id}"
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(f"{d}/demo/src")
    t = tempfile.mkdtemp()
    try:
        out = ""
        files = []
        for f, old, new in edits:
            if f not in files:
                files.append(f)
                for s in ("a", "b"):
                    os.makedirs(os.path.dirname(f"{t}/{s}/{f}"), exist_ok=True)
                    shutil.copy(f"/repo/{f}", f"{t}/{s}/{f}")
            x = open(f"{t}/b/{f}").read()
            assert x.count(old) == 1, (id, f, x.count(old), old)
            open(f"{t}/b/{f}", "w").write(x.replace(old, new))
        for f in files:
            r = subprocess.run(["diff", "-u", f"a/{f}", f"b/{f}"], cwd=t, stdout=subprocess.PIPE, text=True)
            ls = r.stdout.split("\n")
            ls[0] = f"--- a/{f}"
            ls[1] = f"+++ b/{f}"
            out += f"diff --git a/{f} b/{f}\n" + "\n".join(ls)
        open(f"{d}/patch.diff", "w").write(out)
    finally:
        shutil.rmtree(t)
    json.dump({"property": prop, "needs": needs, "what_it_breaks": breaks}, open(f"{d}/meta.json", "w"), indent=1)
    open(f"{d}/demo.sh", "w").write(DEMO)
    os.chmod(f"{d}/demo.sh", 0o755)
    open(f"{d}/demo/src/main.rs", "w").write(main)
    open(f"{d}/demo/Cargo.toml", "w").write(
        '[package]\nname = "demo"\nversion = "0.1.0"\nedition = "2021"\n\n[workspace]\n\n[dependencies]\n'
        + "\n".join(DEPS[x] for x in deps)
        + '\n\n[patch."https://github.com/ChengYueJia/profiler-rs"]\nprofiler_macro = { path = "../shims/profiler_macro" }\n'
        + '[patch."https://github.com/matter-labs/franklin-crypto"]\nfranklin-crypto = { path = "../shims/franklin-crypto" }\n'
        + '[patch."https://github.com/0xEigenLabs/powdr"]\npowdr = { path = "../shims/powdr" }\npowdr-parser-util = { path = "../shims/powdr-parser-util" }\n'
        + ("" if "dsl_compile" not in deps else CIRCOM)
        + '\n[profile.release]\nopt-level = 2\n')
    shutil.copy(f"{ROOT}/harness/Cargo.lock", f"{d}/demo/Cargo.lock")
    shutil.copytree(f"{ROOT}/shims", f"{d}/shims", ignore=shutil.ignore_patterns("target", "Cargo.lock"))


def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)


class Applied:
    def __init__(self, id):
        self.id = id

    def __enter__(self):
        assert sh(["git", "-C", "/repo", "status", "--porcelain", "-uno"]).stdout == "", "/repo is not clean"
        r = sh(["git", "-C", "/repo", "apply", f"{SEEDED}/{self.id}/patch.diff"])
        assert r.returncode == 0, r.stdout

    def __exit__(self, *a):
        sh(["git", "-C", "/repo", "checkout", "--", "."])


def demo(id):
    e = dict(os.environ, DEMO_TARGET=f"{ROOT}/build/demo")
    r = sh(["bash", f"{SEEDED}/{id}/demo.sh"], cwd="/repo", env=e)
    return r.returncode, r.stdout.strip()[-300:]


def confirm(id):
    with Applied(id):
        b = sh(["bash", "/opt/vp/build.sh"])
        if b.returncode:
            return f"does not build: {b.stdout[-800:]}"
        t = sh(["bash", "/opt/vp/test.sh", "/tmp/seed-tests.json"])
        o = json.load(open("/tmp/seed-tests.json"))
        if o["failed"] or len(o["passed"]) < 99:
            return f"tests fail: {o['failed']}"
        w = demo(id)
    c = demo(id)
    ok = w[0] not in (0, 2, 3) and c[0] == 0
    return ("OK " if ok else "NOT OK ") + f"with: {w} without: {c}"


def catch(id):
    p = json.load(open(f"{SEEDED}/{id}/meta.json"))["property"]
    with Applied(id):
        e = dict(os.environ, VERIF_TIER="quick", VERIF_SEED="1")
        r = sh(["python3", f"{ROOT}/tools/check.py", p], cwd=ROOT, env=e)
    v = [l for l in r.stdout.split("\n") if l.startswith("VIOLATION")]
    return f"{p} rc={r.returncode} {'CAUGHT' if r.returncode == 1 and v else 'MISSED'} {r.stdout[-300:] if not v else v[0][:150]}"


if __name__ == "__main__":
    what, ids = sys.argv[1], sys.argv[2:] or sorted(os.listdir(SEEDED))
    for i in ids:
        print(i, (confirm if what == "confirm" else catch)(i), flush=True)
