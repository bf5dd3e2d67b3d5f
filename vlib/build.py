"""Builds, from /repo's working tree: the symbolic executor, the LLVM IR of the
harnesses linked with the code under test and the Rust standard library, and the
native replay binary."""
import glob
import hashlib
import os
import re
import shutil
import subprocess
import sys
import time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
BUILD = os.environ.get("VERIF_BUILD") or os.path.join(VERIF, "build")
# kept in every module: called by the executor's models or by intrinsics
KEEP = ["log", "exp", "sx_sched_point"]


class BuildError(Exception):
    pass


def run(cmd, env=None, cwd=None, log=None):
    e = dict(os.environ)
    e.pop("RUSTFLAGS", None)
    e.pop("CARGO_ENCODED_RUSTFLAGS", None)
    e["CARGO_NET_OFFLINE"] = "true"
    if env:
        e.update(env)
    p = subprocess.run(cmd, env=e, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if p.returncode != 0:
        raise BuildError("%s failed (%d)\n%s" % (" ".join(cmd[:8]), p.returncode, p.stdout[-6000:]))
    return p.stdout


def llvm_bin():
    s = subprocess.check_output(["rustc", "--print", "sysroot"], text=True).strip()
    return s + "/lib/rustlib/x86_64-unknown-linux-gnu/bin/"


def engine():
    """the symbolic executor"""
    t = os.path.join(BUILD, "sx")
    run(["cargo", "build", "--release", "--offline", "--manifest-path", VERIF + "/sx/Cargo.toml"], env={"CARGO_TARGET_DIR": t})
    return os.path.join(t, "release", "sx")


def harness_archive():
    """staticlib of bitcode members: harnesses + code under test + dependencies + std"""
    t = os.path.join(BUILD, "ir")
    run(
        ["cargo", "rustc", "--lib", "--release", "--offline", "--crate-type", "staticlib", "--manifest-path", VERIF + "/harness/Cargo.toml"],
        env={
            "CARGO_TARGET_DIR": t,
            "RUSTFLAGS": "--cfg sx --cfg verif -C linker-plugin-lto -C no-vectorize-loops -C no-vectorize-slp",
        },
    )
    return os.path.join(t, "release", "libhx.a")


def link_all(archive):
    """one bitcode module with everything"""
    B = llvm_bin()
    ob = os.path.join(BUILD, "obj")
    shutil.rmtree(ob, ignore_errors=True)
    os.makedirs(ob)
    run([B + "llvm-ar", "x", archive, "--output", ob])
    bcs = []
    for f in sorted(glob.glob(ob + "/*.o")):
        b = os.path.basename(f)
        if "compiler_builtins" in b:
            continue
        d = open(f, "rb").read(4)
        if d in (b"BC\xc0\xde", b"\xde\xc0\x17\x0b"):
            bcs.append(f)
        else:
            o = f + ".bc"
            p = subprocess.run([B + "llvm-objcopy", "--dump-section=.llvmbc=" + o, f, "/dev/null"], stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
            if p.returncode == 0 and os.path.exists(o) and os.path.getsize(o) > 0:
                bcs.append(o)
    out = os.path.join(BUILD, "all.bc")
    run([B + "llvm-link", "-o", out] + bcs)
    shutil.rmtree(ob, ignore_errors=True)
    return out


def module(allbc, entries, out):
    """textual IR with the given entry points only"""
    B = llvm_bin()
    t = out + ".bc"
    run([B + "opt", "-passes=internalize,globaldce", "-internalize-public-api-list=" + ",".join(list(entries) + KEEP), allbc, "-o", t])
    run([B + "opt", "-passes=function(sroa,early-cse,instcombine<no-verify-fixpoint>,simplifycfg),globaldce", t, "-o", t + "2"])
    run([B + "opt", "-strip-debug", t + "2", "-o", t])
    run([B + "llvm-dis", t, "-o", out])
    os.remove(t)
    os.remove(t + "2")
    return out


def replay_bin():
    """the same harnesses compiled natively, to replay what the executor finds"""
    t = os.path.join(BUILD, "native")
    run(["cargo", "build", "--offline", "--bin", "replay", "--manifest-path", VERIF + "/harness/Cargo.toml"], env={"CARGO_TARGET_DIR": t, "RUSTFLAGS": "--cfg verif"})
    return os.path.join(t, "debug", "replay")


RND_SEED = "0x123456789abcdef1"
SLOW = (
    # name of the function, how its body is replaced
    (r"RawRwLock19lock_exclusive_slow", "  call void @sx_rw_excl(ptr {0})\n  ret i1 true"),
    (r"RawRwLock16lock_shared_slow", "  %z = zext i1 {1} to i32\n  call void @sx_rw_shared(ptr {0}, i32 %z)\n  ret i1 true"),
    (r"RawMutex9lock_slow", "  call void @sx_mutex(ptr {0})\n  ret i1 true"),
    (r"(unlock_shared_slow|unlock_exclusive_slow|RawMutex11unlock_slow)", "  call void @sx_never()\n  ret void"),
    (r"5stdio(6_print|7__print|6__print|7_eprint|8__eprint|7__eprint)$", "  ret void"),
)


def sched_bin(ll):
    """the module the executor runs, compiled, with the schedule decided by the replay file"""
    out, skip = [], False
    decl = {"sx_point": "void ()", "sx_rw_excl": "void (ptr)", "sx_rw_shared": "void (ptr, i32)", "sx_mutex": "void (ptr)", "sx_never": "void ()"}
    for l in open(ll):
        if skip:
            if l.startswith("}"):
                skip = False
                out.append(l)
            continue
        if l.startswith("define "):
            m = re.search(r'@"?([^"( ]+)"?\(', l)
            for pat, body in SLOW:
                if re.search(pat, m.group(1)):
                    args = re.findall(r"%\w+", l[m.end() :].split(" unnamed_addr")[0].split(" !guid")[0])
                    out.append(l)
                    out.append(body.format(*args, *([""] * 4)) + "\n")
                    skip = True
                    break
            if skip:
                continue
            out.append(l)
            continue
        m = re.match(r"\s+%?\S+ = cmpxchg (weak )?(volatile )?ptr .* (\w+) \w+, align", l)
        if m and m.group(3) != "release":
            out.append("  call void @sx_point()\n")
        out.append(l)
    for n, t in decl.items():
        r, a = t.split(" ", 1)
        out.append("declare %s @%s%s\n" % (r, n, a))
    f = ll + ".sched"
    open(f + ".ll", "w").writelines(out)
    run([llvm_bin() + "llc", "-O1", "-filetype=obj", "-relocation-model=pic", f + ".ll", "-o", f + ".o"])
    os.remove(f + ".ll")
    run(["gcc", "-O1", "-DRND_SEED=%sull" % RND_SEED, "-rdynamic", "-w", "-o", f, os.path.join(VERIF, "vlib", "sched_rt.c"), f + ".o", "-ldl", "-lpthread", "-lm", "-lgcc_s"])
    os.remove(f + ".o")
    return f


def entries():
    """regenerates harness/src/entries.rs: every h_* entry point"""
    src = os.path.join(VERIF, "harness", "src")
    o = "// generated by vlib/build.py: every h_* entry point\nstatic ENTRIES: &[(&str, extern \"C\" fn())] = &[\n"
    names = []
    for f in sorted(glob.glob(src + "/*.rs")):
        m = os.path.basename(f)[:-3]
        for n in re.findall(r'pub extern "C" fn (h_\w+)\(', open(f).read()):
            names.append(n)
            o += '    ("%s", hx::%s::%s),\n' % (n, m, n)
    o += "];\n"
    f = os.path.join(src, "entries.rs")
    if not os.path.exists(f) or open(f).read() != o:
        open(f, "w").write(o)
    return names
