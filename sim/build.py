#!/usr/bin/env python3
"""Builds what the simulator runs, from /repo's current working tree, into /verif/.work (ignored by git).

 build.py main    the real addon (node-gyp, binding.gyp's own flags) with the simulator's seams, + simhost.node
 build.py builds  the same, and with other compilers and options of binding.gyp (C13), in <dir>/alt-*
 build.py far     the native code for other architectures and build configurations, for C18 (far/build.py)
 build.py conc    the same with instrumented memory accesses and blocking calls, for C10
Prints the directory holding the result. Content-addressed: unchanged sources are not rebuilt."""
import array, fcntl, hashlib, os, re, shutil, subprocess, sys, threading, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("YSIM_REPO", "/repo")
WORK = os.path.join(VERIF, ".work")
SIM = os.path.join(VERIF, "sim")
COPIES = 16


def files(root, tops):
    out = []
    for t in tops:
        p = os.path.join(root, t)
        if os.path.isfile(p):
            out.append(t)
        for d, dn, fn in os.walk(p):
            dn.sort()
            out += [os.path.relpath(os.path.join(d, f), root) for f in sorted(fn)]
    return out


def digest(root, names, extra=""):
    h = hashlib.sha256(extra.encode())
    for n in names:
        h.update(n.encode() + b"\0")
        with open(os.path.join(root, n), "rb") as f:
            h.update(hashlib.sha256(f.read()).digest())
    return h.hexdigest()[:16]


def run(cmd, env=None, cwd=None, log=None):
    r = subprocess.run(cmd, env=env, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    if log:
        with open(log, "ab") as f:
            f.write((" ".join(cmd) + "\n").encode() + r.stdout)
    if r.returncode:
        sys.stderr.write(r.stdout.decode(errors="replace")[-6000:])
        raise SystemExit("build failed: " + " ".join(cmd[:6]))


def env():
    e = {"PATH": "/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin", "HOME": os.environ.get("HOME", "/root"),
         "LANG": "C.UTF-8", "npm_config_offline": "true", "npm_config_update_notifier": "false"}
    return e


def build_host(native):
    out = os.path.join(WORK, "host-" + digest(SIM, native))
    if not os.path.exists(out + "/ok"):
        shutil.rmtree(out, ignore_errors=True)
        os.makedirs(out)
        src = [os.path.join(SIM, n) for n in native if n.endswith(".cc") and os.path.basename(n) != "ysim.cc"]
        objs = []
        ps = []
        for s in src:
            o = os.path.join(out, os.path.basename(s) + ".o")
            objs.append(o)
            ps.append(subprocess.Popen(["g++", "-std=c++17", "-O2", "-fPIC", "-I/usr/include/node", "-c", s, "-o", o]))
        if any(p.wait() for p in ps):
            raise SystemExit("host build failed")
        run(["g++", "-shared", "-o", out + "/simhost.node"] + objs + ["-ldl"], env=env())
        open(out + "/ok", "w").close()
    return out


def repo_names():
    names = files(REPO, sorted(n for n in os.listdir(REPO) if n[0] not in "._" and n not in ("build", "node_modules", "test", "tests", "examples")))
    return [n for n in names if os.path.isfile(os.path.join(REPO, n))]


# further builds of the addon: compiler, options of binding.gyp
ALT = {"clang": ("clang++", []), "gcc-noavx256": ("g++", ["--disable_avx256=1"]), "gcc-nocrcutil": ("g++", ["--disable_crcutil=1"]),
       "clang-noavx256-nocrcutil": ("clang++", ["--disable_avx256=1", "--disable_crcutil=1"])}


def build_alts(out, names):
    """builds which fail are left out: alt-<name>/ok tells"""
    def one(name):
        cxx, opts = ALT[name]
        d = out + "/alt-" + name
        if os.path.exists(d + "/done"):
            return
        shutil.rmtree(d, ignore_errors=True)
        os.makedirs(d)
        try:
            if not shutil.which(cxx):
                raise SystemExit("no " + cxx)
            compile_addon(d, names, "main", cxx, opts, 1)
            open(d + "/ok", "w").close()
        except SystemExit as e:
            with open(d + "/why", "w") as f:
                f.write(str(e))
        open(d + "/done", "w").close()
    ts = [threading.Thread(target=one, args=(n,)) for n in ALT]
    for t in ts:
        t.start()
    for t in ts:
        t.join()


def build_addon(variant):
    names = repo_names()
    simn = files(SIM, ["native"]) + ["cxxwrap.sh", "build.py"]
    key = digest(REPO, names, variant + digest(SIM, [n for n in simn if os.path.exists(os.path.join(SIM, n))]))
    out = os.path.join(WORK, variant + "-" + key)
    if os.path.exists(out + "/ok"):
        os.utime(out)
        return out
    shutil.rmtree(out, ignore_errors=True)
    compile_addon(out, names, variant, "g++", [], COPIES)
    open(out + "/ok", "w").close()
    return out


def compile_addon(out, names, variant, cxx, opts, copies):
    tree = out + "/tree"
    for n in names:
        os.makedirs(os.path.dirname(os.path.join(tree, n)), exist_ok=True)
        shutil.copy(os.path.join(REPO, n), os.path.join(tree, n))
    log = out + "/log"
    e = env()
    ysim = out + "/ysim.o"
    base = ["g++", "-std=c++17", "-O2", "-fPIC", "-fno-gnu-unique", "-I" + tree + "/src", "-I" + SIM + "/native", "-c", SIM + "/native/ysim.cc", "-o", ysim, "-DYSIM_NODE", "-I/usr/include/node"] + (["-DYSIM_CONC"] if variant == "conc" else [])
    if subprocess.run(base, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT).returncode:
        run(base + ["-DYSIM_NO_NATIVE"], env=e, log=log)
    e.update(CC=SIM + "/cxxwrap.sh", CXX=SIM + "/cxxwrap.sh", YSIM_DIR=SIM, YSIM_OBJ=ysim, YSIM_VARIANT=variant, YSIM_REAL_CXX=cxx)
    run(["node", "/usr/lib/node_modules/npm/node_modules/node-gyp/bin/node-gyp.js", "configure", "build", "--nodedir=/usr",
         "--enable_native_tuning=0"] + opts + ["-j", str(os.cpu_count() or 4)], env=e, cwd=tree, log=log)
    for i in range(copies):
        shutil.copy(tree + "/build/Release/yencode.node", f"{out}/yencode_{i}.node")
    # where every instruction of the addon starts (C13: instructions the simulated machine lacks are made to trap)
    d = subprocess.run(["objdump", "-d", "--no-show-raw-insn", "-w", out + "/yencode_0.node"], stdout=subprocess.PIPE, env=e, text=True)
    addrs = [int(l[:l.index(":")], 16) for l in d.stdout.splitlines() if re.match(r" +[0-9a-f]+:\t", l) and "(bad)" not in l]
    if d.returncode or not addrs:
        raise SystemExit("no instruction list")
    with open(out + "/insns.bin", "wb") as f:
        array.array("I", addrs).tofile(f)
    for n in names:
        if re.search(r"\.(js|cjs|json)$", n):
            os.makedirs(os.path.dirname(os.path.join(out, "js", n)), exist_ok=True)
            shutil.copy(os.path.join(tree, n), os.path.join(out, "js", n))
    shutil.rmtree(tree)


def prune(keep):
    ds = sorted((os.path.join(WORK, d) for d in os.listdir(WORK) if "-" in d), key=os.path.getmtime, reverse=True)
    for d in ds[8:]:
        if d not in keep and time.time() - os.path.getmtime(d) > 1800:
            shutil.rmtree(d, ignore_errors=True)


def main():
    variant = sys.argv[1] if len(sys.argv) > 1 else "main"
    os.makedirs(WORK, exist_ok=True)
    with open(WORK + "/lock", "w") as lock:
        fcntl.flock(lock, fcntl.LOCK_EX)
        native = files(SIM, ["native"])
        host = build_host(native)
        if variant == "far":
            sys.path.insert(0, os.path.join(SIM, "far"))
            sys.dont_write_bytecode = True
            import farbuild as far
            names = repo_names()

            def copy(tree):
                for n in names:
                    os.makedirs(os.path.dirname(os.path.join(tree, n)), exist_ok=True)
                    shutil.copy(os.path.join(REPO, n), os.path.join(tree, n))
            out = far.build(REPO, WORK, names, copy)
        else:
            out = build_addon("main" if variant == "builds" else variant)
            if variant == "builds":
                build_alts(out, repo_names())
        prune((host, out))
    print(host)
    print(out)


main()
