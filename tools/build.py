"""How each check's monitors are built from /repo's working tree, and which runs make up a check."""
import os, subprocess, sys

ROOT = os.path.realpath(os.path.join(os.path.dirname(os.path.abspath(__file__)), ".."))
STABLE = "1.88.0"
NIGHTLY = "nightly"
TRIPLE = "x86_64-unknown-linux-gnu"

# flavour: how the harness workspace and the code under test are compiled
FLAVOURS = {
    "plain": dict(toolchain=STABLE, target="target", flags="--cfg verif_hooks"),
    # AVX-512 intrinsics are stable from Rust 1.89 on
    "avx2": dict(toolchain="1.98.1", target="target-avx2", flags="--cfg verif_hooks -C target-feature=+avx2"),
    "avx512": dict(toolchain="1.98.1", target="target-avx512",
                   flags="--cfg verif_hooks -C target-feature=+avx512f,+avx512bw,+avx512cd,+avx512dq,+avx512vl"),
    # sanitizers; asan also turns on the standard library's checks of unsafe preconditions and alignment
    "asan": dict(toolchain=NIGHTLY, target="target-asan", triple=TRIPLE,
                 flags="--cfg verif_hooks -Zsanitizer=address -C debug-assertions=on -C overflow-checks=off -C debuginfo=line-tables-only -C target-feature=+avx2"),
    "asan512": dict(toolchain=NIGHTLY, target="target-asan512", triple=TRIPLE,
                    flags="--cfg verif_hooks -Zsanitizer=address -C debug-assertions=on -C overflow-checks=off -C debuginfo=line-tables-only "
                          "-C target-feature=+avx512f,+avx512bw,+avx512cd,+avx512dq,+avx512vl"),
    "tsan": dict(toolchain=NIGHTLY, target="target-tsan", triple=TRIPLE, extra=["-Zbuild-std"],
                 flags="--cfg verif_hooks -Zsanitizer=thread -C debuginfo=line-tables-only"),
    "msan": dict(toolchain=NIGHTLY, target="target-msan", triple=TRIPLE, extra=["-Zbuild-std"],
                 flags="--cfg verif_hooks -Zsanitizer=memory -C debuginfo=line-tables-only"),
    "miri": dict(toolchain=NIGHTLY, target="target-miri", flags="--cfg verif_hooks -Awarnings"),
}


def run(part="", pkg=None, bin=None, flavour="plain", **kw):
    return dict(part=part, pkg=pkg, bin=bin, flavour=flavour, **kw)


RUNS = {
    "F01": [run(pkg="starky-mon", bin="field")],
    "F02": [run(part="avx2", pkg="starky-mon", bin="simd", flavour="avx2"),
            run(part="avx512", pkg="starky-mon", bin="simd", flavour="avx512")],
    "F03": [run(pkg="starky-mon", bin="field")],
    "F04": [run(pkg="starky-mon", bin="fft")],
    "H01": [run(pkg="starky-mon", bin="hash")],
    "H02": [run(pkg="starky-mon", bin="hash")],
    "M01": [run(pkg="starky-mon", bin="merkle")],
    "M02": [run(pkg="starky-mon", bin="merkle")],
    "T01": [run(pkg="starky-mon", bin="transcript")],
    "R01": [run(pkg="r1cs-mon", bin="r1cs")],
    "R02": [run(pkg="r1cs-mon", bin="wtns")],
    "R03": [run(pkg="r1cs-mon", bin="r1cs")],
    "R04": [run(pkg="r1cs-mon", bin="wtns")],
    "C01": [run(pkg="rec-mon", bin="plonk")],
    "C02": [run(pkg="rec-mon", bin="recur")],
    "C03": [run(pkg="rec-mon", bin="recur")],
    "C04": [run(pkg="rec-mon", bin="join")],
    "C05": [run(pkg="rec-mon", bin="export")],
    "K01": [run(pkg="gnark-mon", bin="bridge")],
    "K02": [run(pkg="gnark-mon", bin="bridge", needs=[("wrap-call", "wrap-call", "plain")])],
    "J01": [run(pkg="starky-mon", bin="starkjs")],
    "D01": [run(pkg="starky-mon", bin="digest")],
    "D02": [run(pkg="starky-mon", bin="stark")],
    "D03": [run(pkg="starky-mon", bin="store")],
    "S01": [run(pkg="starky-mon", bin="stark")],
    "S02": [run(pkg="starky-mon", bin="stark")],
    "S03": [run(pkg="starky-mon", bin="stark")],
    "S04": [run(pkg="starky-mon", bin="stark")],
    "S05": [run(pkg="starky-mon", bin="fri")],
    "V01": [run(pkg="starky-mon", bin="circom")],
    "E01": [run(pkg="starky-mon", bin="circom")],
    "V02": [run(pkg="starky-mon", bin="circom")],
    "G01": [run(pkg="groth-mon", bin="groth")],
    "G02": [run(pkg="groth-mon", bin="sol")],
    "U01": [run(pkg="starky-mon", bin="mem", args=[f"{ROOT}/build"],
                needs=[("starky-mon", "memwork", f) for f in ("asan", "asan512", "tsan", "msan", "miri")])],
    "P01": [run(pkg="starky-mon", bin="trace")],
    "Z01": [run(pkg="zkit-mon", bin="cli", needs=[("zkit-mon", "eigen-zkit", "plain")])],
    "Z02": [run(pkg="zkit-mon", bin="cli", needs=[("zkit-mon", "eigen-zkit", "plain")])],
}


def env_of(fl):
    e = dict(os.environ, RUSTUP_TOOLCHAIN=fl["toolchain"], CARGO_NET_OFFLINE="true",
             CARGO_TARGET_DIR=f"{ROOT}/build/{fl['target']}", RUSTFLAGS=fl["flags"], CARGO_TERM_COLOR="never")
    for k in ("CARGO_ENCODED_RUSTFLAGS", "RUSTC_WRAPPER", "CARGO_BUILD_TARGET"):
        e.pop(k, None)
    return e


def cargo(fl, args, cwd, env={}):
    r = subprocess.run(["cargo"] + args, cwd=cwd, env=dict(env_of(fl), **env), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode != 0:
        sys.stdout.write(r.stdout[-6000:])
        print("the monitors did not build against /repo")
        sys.exit(4)


def exe(r):
    fl = FLAVOURS[r["flavour"]]
    return f"{ROOT}/build/{fl['target']}/release/{r['bin']}"


def build(r):
    fl = FLAVOURS[r["flavour"]]
    ws = r.get("ws", "harness")
    if r["flavour"] == "miri":
        # Miri interprets: `elements` over nothing compiles everything it will interpret
        cargo(fl, ["miri", "run", "--offline", "-q", "-p", r["pkg"], "--bin", r["bin"], "--", "elements", "1", "0", "0"], f"{ROOT}/{ws}",
              {"MIRIFLAGS": "-Zmiri-disable-isolation -Zmiri-ignore-leaks"})
        return
    args = ["build"] + fl.get("extra", []) + ["--release", "--offline", "-q", "-p", r["pkg"], "--bin", r["bin"]]
    if "triple" in fl:
        args += ["--target", fl["triple"]]
    cargo(fl, args, f"{ROOT}/{ws}")
    for pkg, bin, flavour in r.get("needs", []):
        build(dict(r, pkg=pkg, bin=bin, flavour=flavour, needs=[]))


def command(r, prop):
    return [exe(r), prop] + r.get("args", [])


def setup():
    seen = set()
    for p, rs in RUNS.items():
        for r in rs:
            k = (r["flavour"], r["pkg"], r["bin"])
            if k not in seen:
                seen.add(k)
                build(r)
                print("built", *k, flush=True)


if __name__ == "__main__":
    setup()
