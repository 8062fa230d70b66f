#!/usr/bin/env python3
"""Compile a harness crate (with /repo's crates) to one linked LLVM IR file.

usage: ir.py CRATE OUT.ll   (uses /verif/build)"""
import glob, os, re, subprocess, sys, json, shutil

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
HARNESS = os.path.join(VERIF, "harness")
BUILD = os.path.join(VERIF, "build")
TARGET = "x86_64-unknown-linux-gnu"
FLAGS = "--cfg jester_verif -Copt-level=1 -Cpanic=abort --emit=llvm-bc,metadata,link -Cno-vectorize-loops -Cno-vectorize-slp -Cdebuginfo=0 -Coverflow-checks=on -Cdebug-assertions=off -Ccodegen-units=1 -Crelocation-model=static --cap-lints=allow"


def sysroot():
    return subprocess.check_output(["rustc", "--print", "sysroot"], text=True, cwd=HARNESS).strip()


def run(cmd, **kw):
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)
    if r.returncode != 0:
        raise RuntimeError("%s failed:\n%s" % (" ".join(cmd[:6]), r.stdout[-6000:]))
    return r.stdout


def std_bc(root):
    """bitcode of the standard library the toolchain ships (for LTO)"""
    out = os.path.join(BUILD, "stdbc")
    stamp = os.path.join(out, "done")
    ver = subprocess.check_output(["rustc", "-vV"], text=True, cwd=HARNESS)
    ver += "2"
    if os.path.exists(stamp) and open(stamp).read() == ver:
        return sorted(glob.glob(out + "/*.bc"))
    shutil.rmtree(out, ignore_errors=True)
    os.makedirs(out)
    lib = os.path.join(root, "lib/rustlib", TARGET, "lib")
    bind = os.path.join(root, "lib/rustlib", TARGET, "bin")
    for name in ["core", "alloc", "std", "hashbrown", "cfg_if", "libc", "memchr", "rustc_demangle", "std_detect", "unwind", "panic_abort", "gimli", "addr2line", "object", "miniz_oxide", "adler2"]:
        for r in glob.glob("%s/lib%s-*.rlib" % (lib, name)):
            d = os.path.join(out, name)
            os.makedirs(d, exist_ok=True)
            run([bind + "/llvm-ar", "x", r], cwd=d)
            for o in glob.glob(d + "/*.o"):
                bc = os.path.join(out, name + "_" + os.path.basename(o) + ".bc")
                p = subprocess.run([bind + "/llvm-objcopy", "--dump-section", ".llvmbc=" + bc, o, "/dev/null"], capture_output=True)
                if p.returncode != 0 and os.path.exists(bc):
                    os.remove(bc)
            shutil.rmtree(d)
    open(stamp, "w").write(ver)
    return sorted(glob.glob(out + "/*.bc"))


def build(crate, out):
    root = sysroot()
    bind = os.path.join(root, "lib/rustlib", TARGET, "bin")
    os.makedirs(BUILD, exist_ok=True)
    env = dict(os.environ, RUSTFLAGS=FLAGS, CARGO_TARGET_DIR=os.path.join(BUILD, "ir"), CARGO_INCREMENTAL="0")
    env.pop("CARGO_ENCODED_RUSTFLAGS", None)
    # dependency graph with artefacts: cargo tells which files belong to this build
    p = subprocess.run(
        ["cargo", "build", "--offline", "--release", "--target", TARGET, "-p", crate, "--message-format=json"],
        cwd=HARNESS, env=env, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True)
    if p.returncode != 0:
        msgs = []
        for l in p.stdout.splitlines():
            try:
                m = json.loads(l)
            except ValueError:
                continue
            if m.get("reason") == "compiler-message" and m["message"]["level"] == "error":
                msgs.append(m["message"]["rendered"])
        raise RuntimeError("cargo build of %s failed:\n%s\n%s" % (crate, p.stderr[-1000:], "\n".join(msgs)[-6000:]))
    bcs = []
    for l in p.stdout.splitlines():
        try:
            m = json.loads(l)
        except ValueError:
            continue
        if m.get("reason") != "compiler-artifact":
            continue
        for f in m["filenames"]:
            if ("/" + TARGET + "/") in f and f.endswith(".rmeta"):
                base = os.path.basename(f)[3:-6]  # libNAME-HASH.rmeta
                d = os.path.dirname(f)
                cand = os.path.join(d, base + ".bc")
                if not os.path.exists(cand):
                    raise RuntimeError("no bitcode for " + f)
                bcs.append(cand)
    entries = []
    for f in glob.glob(os.path.join(HARNESS, crate, "src/*.rs")):
        entries += re.findall(r'#\[no_mangle\]\s*pub extern "C" fn (\w+)', open(f).read())
    std = std_bc(root)
    tmp = out + ".tmp"
    run([bind + "/llvm-link", "-o", tmp + ".bc"] + bcs + std)
    run([bind + "/opt", "-passes=internalize,globaldce", "-internalize-public-api-list=" + ",".join(entries), "-o", tmp + "2.bc", tmp + ".bc"])
    run([bind + "/llvm-dis", "-o", tmp + ".ll", tmp + "2.bc"])
    os.remove(tmp + ".bc")
    os.remove(tmp + "2.bc")
    os.rename(tmp + ".ll", out)
    return entries


if __name__ == "__main__":
    print(build(sys.argv[1], sys.argv[2]))
