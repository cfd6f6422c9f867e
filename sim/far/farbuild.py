"""Far machines: the library's native code compiled for other architectures and build configurations, with the flags
its own binding.gyp gives each file, and linked with a small runtime (rt.cc, far.cc) instead of Node.

 build(repo, work, say) -> directory with one executable per configuration and far.json. A configuration which
 cannot be built (no such compiler, internal functions renamed) is left out and mentioned in far.json."""
import concurrent.futures, glob, hashlib, json, os, re, shlex, shutil, subprocess, sys, threading, time

FAR = os.path.dirname(os.path.abspath(__file__))
GYP = "/usr/lib/node_modules/npm/node_modules/node-gyp/bin/node-gyp.js"
FREE = "-ffreestanding -fno-stack-protector -fno-pic -fno-pie -U_FORTIFY_SOURCE"

# header-only parts of the host's C++ library
STD = " ".join("-isystem " + d for d in sorted(glob.glob("/usr/include/c++/[0-9]*"))[-1:] + sorted(glob.glob("/usr/include/x86_64-linux-gnu/c++/[0-9]*"))[-1:])


def cross(triple, flags=""):
    return f"clang++ --target={triple} {flags} -nostdlibinc -nostdinc++ -isystem {FAR}/include {STD}"


GCC32 = f"g++ -m32 -nostdinc -isystem $GCCINC -isystem {FAR}/include {STD}"
X64MARCH = ["nocona", "core2", "nehalem", "westmere", "sandybridge", "ivybridge", "haswell", "broadwell", "skylake", "bonnell",
            "silvermont", "goldmont", "tremont", "alderlake", "skylake-avx512", "cascadelake", "icelake-server", "sapphirerapids",
            "x86-64", "x86-64-v2", "x86-64-v3", "x86-64-v4", "k8-sse3", "amdfam10", "btver1", "btver2", "znver1", "znver2", "znver3", "znver4", "native"]


def configs():
    c = []

    def add(name, arch, cxx, gyp=(), free=True, march=None, **kw):
        c.append(dict(name=name, arch=arch, cxx=cxx, gyp=list(gyp), free=free, march=march, **kw))
    add("arm64", "arm64", cross("aarch64-linux-musl"), emu="qemu-aarch64")
    add("arm64-native", "arm64", cross("aarch64-linux-musl"), gyp=["--enable_native_tuning=1"], emu="qemu-aarch64", march="armv8.4-a+crc+crypto")
    add("arm", "arm", cross("armv7a-linux-gnueabihf", "-mfpu=vfpv3-d16"), emu="qemu-arm")
    # code meant for GCC, which is not here for these: clang poses as it
    for v in ((8, 5), (9, 4), (10, 2), (13, 2)):
        gcc = "-U__clang__ -U__GNUC__ -U__GNUC_MINOR__ -U__GNUC_PATCHLEVEL__ -D__GNUC__=%d -D__GNUC_MINOR__=%d -D__GNUC_PATCHLEVEL__=0" % v
        add("arm64-as-gcc%d" % v[0], "arm64", cross("aarch64-linux-musl", gcc), emu="qemu-aarch64")
        if v[0] in (8, 10):
            add("arm-as-gcc%d" % v[0], "arm", cross("armv7a-linux-gnueabihf", "-mfpu=vfpv3-d16 " + gcc), emu="qemu-arm")
    # other systems' ways to learn about the processor
    add("arm64-android", "arm64", cross("aarch64-linux-android"), emu="qemu-aarch64")
    add("arm64-apple", "arm64", cross("aarch64-linux-musl", "-U__linux__ -D__APPLE__=1"), emu="qemu-aarch64")
    add("arm64-freebsd", "arm64", cross("aarch64-unknown-freebsd13"), emu="qemu-aarch64")
    add("arm-freebsd", "arm", cross("armv7a-unknown-freebsd13-gnueabihf", "-mfpu=vfpv3-d16"), emu="qemu-arm")
    # Windows: its data model and calling conventions, and clang posing as several versions of Microsoft's compiler
    # (which, unlike clang, compiles all intrinsics without being told to)
    ms = "-fms-extensions -fms-compatibility-version=19 -fno-threadsafe-statics -fno-rtti -mno-stack-arg-probe -D__GCC_ATOMIC_TEST_AND_SET_TRUEVAL=1 -D_STDINT -U__OPTIMIZE__ -U__clang__ -U_MSC_VER -U_MSC_FULL_VER -D_MSC_VER=%d -D_MSC_FULL_VER=%d00000"
    for v, f in ((1500, "-march=penryn -mpopcnt -mlzcnt"), (1600, "-march=nehalem -mlzcnt -mpclmul"), (1700, "-march=sandybridge -mlzcnt"), (1800, "-march=haswell"), (1930, "-march=icelake-server")):
        add("win64-msc%d" % v, "x64", cross("x86_64-pc-windows-msvc-elf", ms % (v, v)), emu="", os="win", flags=f.split())
        if v in (1600, 1930):
            add("win32-msc%d" % v, "ia32", cross("i686-pc-windows-msvc-elf", ms % (v, v)), emu="", os="win", flags=f.split() + ["-D_M_IX86_FP=2"])
    add("winarm64-msc1930", "arm64", cross("aarch64-linux-musl", ms.replace(" -mno-stack-arg-probe", "") % (1930, 1930) + " -U__linux__ -D_WIN32=1 -D_WIN64=1 -D_M_ARM64=1"), emu="qemu-aarch64", os="win", flags=["-march=armv8-a+crc+crypto", "-isystem", FAR + "/winarm"])
    # and a compiler none of the preprocessor conditions know
    add("s390x-unknown", "s390x", cross("s390x-linux-musl", "-U__clang__ -U__GNUC__"), emu="qemu-s390x")
    add("riscv64", "riscv64", cross("riscv64-linux-musl", "-march=rv64gc -mabi=lp64d"), emu="qemu-riscv64")
    add("riscv32", "riscv32", cross("riscv32-linux-musl", "-march=rv32gc -mabi=ilp32d"), emu="qemu-riscv32")
    add("s390x", "s390x", cross("s390x-linux-musl"), emu="qemu-s390x")
    add("ppc64", "ppc64", cross("powerpc64-linux-musl"), emu="qemu-ppc64")
    add("ppc", "ppc", cross("powerpc-linux-musl"), emu="qemu-ppc")
    add("ia32", "ia32", GCC32)
    add("ia32-clang", "ia32", cross("i686-linux-musl"))
    add("ia32-nocrcutil", "ia32", GCC32, gyp=["--disable_crcutil=1"])
    for cc in ("g++", "clang++"):
        t = "gcc" if cc == "g++" else "clang"
        if cc == "clang++":
            add(f"x64-{t}", "x64", cc, free=False)
        add(f"x64-{t}-noavx256", "x64", cc, gyp=["--disable_avx256=1"], free=False)
        add(f"x64-{t}-nocrcutil", "x64", cc, gyp=["--disable_crcutil=1"], free=False)
        for i, m in enumerate(X64MARCH):
            if cc == "clang++" and m not in ("core2", "nehalem", "haswell", "skylake-avx512", "icelake-server", "silvermont", "znver4"):
                continue
            add(f"x64-{t}-{m}", "x64", cc, gyp=["--enable_native_tuning=1"], free=False, march=m)
    add("x64-gcc-native-noavx256", "x64", "g++", gyp=["--enable_native_tuning=1", "--disable_avx256=1"], free=False, march="icelake-server")
    add("x64-gcc-haswell-noavx256", "x64", "g++", gyp=["--enable_native_tuning=1", "--disable_avx256=1"], free=False, march="haswell")
    return c


# features whose instructions no compiler emits by itself
UNUSED = {"__%s__" % f for f in "SGX PTWRITE WAITPKG HRESET KL WIDEKL PCONFIG ENQCMD UINTR SSE4A CLZERO MWAITX WBNOINVD RDPRU INVPCID PREFETCHWT1".split()}


def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, **kw)


def features(cxx, flags):
    r = sh(shlex.split(cxx) + flags + ["-dM", "-E", "-x", "c", "/dev/null"])
    if r.returncode:
        return None
    return set(re.findall(r"#define (__[A-Z][A-Z0-9_]*__) 1$", r.stdout.decode(), re.M))


def gcc_include():
    return sh(["g++", "-print-file-name=include"]).stdout.decode().strip()


def env(cxx):
    return {"PATH": "/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin", "HOME": os.environ.get("HOME", "/root"), "LANG": "C.UTF-8",
            "npm_config_offline": "true", "npm_config_update_notifier": "false", "CXX": cxx, "CC": cxx, "CXX_target": cxx}


def commands(cfg, tree, out):
    """[(file, [flags])] as binding.gyp has them"""
    key = "gyp-" + cfg["arch"] + "-" + hashlib.sha256((cfg["cxx"] + " ".join(cfg["gyp"])).encode()).hexdigest()[:8]
    d = os.path.join(out, key)
    if not os.path.exists(d + ".json"):
        shutil.copytree(tree, d)
        g = cfg["gyp"] if any("native" in a for a in cfg["gyp"]) else cfg["gyp"] + ["--enable_native_tuning=0"]
        r = sh(["node", GYP, "configure", "--nodedir=/usr", "--arch=" + cfg["arch"]] + g + ["--", "-f", "compile_commands_json"] + (["-DOS=" + cfg["os"]] if cfg.get("os") else []), env=env(cfg["cxx"]), cwd=d)
        p = d + "/build/Release/compile_commands.json"
        if r.returncode or not os.path.exists(p):
            raise RuntimeError("configure failed: " + r.stderr.decode(errors="replace")[-400:])
        shutil.move(p, d + ".json")
        shutil.rmtree(d)
    res, seen = [], set()
    for e in json.load(open(d + ".json")):
        f = os.path.normpath(os.path.join(d, e["directory"], e["file"])) if not os.path.isabs(e["file"]) else e["file"]
        f = os.path.relpath(f, d)
        if f.startswith(".."):
            f = os.path.normpath(e["file"])
            while f.startswith("../"):
                f = f[3:]
        if f in seen or not re.search(r"\.(cc|cpp|cxx|c|S)$", f) or os.path.basename(f) in ("yencode.cc", "test_alignalloc.cc", "win_delay_load_hook.cc"):
            continue
        seen.add(f)
        a = shlex.split(e["command"])[1:] if isinstance(e.get("command"), str) else e["arguments"][1:]
        # where the wrapper's own words (target, include paths) come first they are part of cxx already
        flags, i = [], 0
        own = shlex.split(cfg["cxx"])[1:]
        while i < len(a):
            x = a[i]
            if x in ("-o", "-c", "-MF", "-include", "-isystem", "-MT"):
                i += 2 if x != "-c" else 1
                if x == "-c" and i < len(a) and not a[i].startswith("-"):
                    i += 1
                continue
            i += 1
            if x.startswith("-I"):
                q = os.path.normpath(os.path.join(d, e["directory"], x[2:]))
                if q.startswith(d + "/"):
                    flags.append("-I" + q[len(d) + 1:])
            elif x.startswith("-") and x not in ("-pthread", "-MMD", "-MD", "-mminimal-toc") and not x.startswith("-MF") and x not in own:
                flags.append(x)
        res.append((f, flags))
    if not res:
        raise RuntimeError("no sources")
    return res


def march(cfg, flags):
    """-march=native stands for the machine the library is built on; the configuration says which one that is"""
    m = cfg["march"]
    if not m:
        return flags
    o = [f for f in flags if f != "-march=native"]
    if m == "native":
        return flags
    if "-march=native" in flags:
        o.insert(flags.index("-march=native"), "-march=" + m)
    elif cfg["arch"] == "arm64" and not any(f.startswith("-march=") for f in o):
        o.insert(0, "-march=" + m)
    return o


def build(repo, work, names, copy, only=None):
    h = hashlib.sha256()
    own = [os.path.join(d, f) for d, _, fs in sorted(os.walk(FAR)) if "__pycache__" not in d for f in sorted(fs) if not f.endswith(".pyc")]
    for r, f in [(repo, n) for n in names if not re.search(r"\.(js|md)$", n)] + [("", o) for o in own]:
        h.update(f.encode() + b"\0" + hashlib.sha256(open(os.path.join(r, f), "rb").read()).digest())
    out = os.path.join(work, "far-" + h.hexdigest()[:16])
    if os.path.exists(out + "/ok"):
        os.utime(out)
        return out
    shutil.rmtree(out, ignore_errors=True)
    os.makedirs(out + "/bin")
    tree = out + "/tree"
    copy(tree)
    objs = os.path.join(work, "farobj")
    os.makedirs(objs, exist_ok=True)
    ginc = gcc_include()
    native = {c: features(c, ["-march=native"]) for c in ("g++", "clang++")}
    notes, good = {}, []
    pool = concurrent.futures.ThreadPoolExecutor(os.cpu_count() or 8)

    def compile1(args, f, cwd):
        """object of one file, from the cache where its preprocessed text was compiled with these flags before"""
        pre = sh(args + ["-E", f], cwd=cwd)
        if pre.returncode:
            raise RuntimeError(pre.stderr.decode(errors="replace")[-600:])
        text = re.sub(rb"^# .*$", b"", pre.stdout, flags=re.M)
        k = hashlib.sha256(" ".join(a for a in args if not a.startswith("-I")).encode() + b"\0" + text).hexdigest()[:24]
        o = os.path.join(objs, k + ".o")
        if not os.path.exists(o):
            tmp = o + ".%d-%d.tmp" % (os.getpid(), threading.get_ident())
            r = sh(args + ["-c", f, "-o", tmp], cwd=cwd)
            if r.returncode:
                raise RuntimeError(r.stderr.decode(errors="replace")[-600:])
            os.rename(tmp, o)
        else:
            os.utime(o)
        return o

    def glue1(args):
        try:
            return compile1(args, FAR + "/far.cc", tree)
        except RuntimeError:  # the decoder's types have other names: without its functions
            return compile1(args + ["-DFAR_NO_DECODE"], FAR + "/far.cc", tree)

    todo = []
    for cfg in configs():
        if only and not re.search(only, cfg["name"]):
            continue
        cfg["cxx"] = cfg["cxx"].replace("$GCCINC", ginc)
        if cfg.get("emu") and not shutil.which(cfg["emu"]):
            notes[cfg["name"]] = "no " + cfg["emu"]
            continue
        if cfg["arch"] == "x64" and cfg["march"] and cfg["march"] != "native":
            f = features(cfg["cxx"], ["-march=" + cfg["march"]])
            more = f and f - native[cfg["cxx"]] - UNUSED
            if f is None or more:
                notes[cfg["name"]] = "this host's processor lacks " + " ".join(sorted(more)) if f else "unknown to the compiler"
                continue
        if cfg.get("os") == "win" and cfg["arch"] != "arm64":
            more = (features("clang++ " + ("-m32" if cfg["arch"] == "ia32" else ""), cfg["flags"]) or set()) - features("clang++ " + ("-m32" if cfg["arch"] == "ia32" else ""), ["-march=native"]) - UNUSED
            if more:
                notes[cfg["name"]] = "this host's processor lacks " + " ".join(sorted(more))
                continue
        todo.append(cfg)
    # configure (one node-gyp run per distinct command line)
    first = {}
    for cfg in todo:
        first.setdefault((cfg["arch"], cfg["cxx"], tuple(cfg["gyp"])), cfg)
    conf = {}

    def conf1(k):
        try:
            return commands(first[k], tree, out)
        except Exception as e:
            return str(e)
    for k, r in zip(first, pool.map(conf1, first)):
        conf[k] = r
    jobs = {}
    for cfg in todo:
        cm = conf[(cfg["arch"], cfg["cxx"], tuple(cfg["gyp"]))]
        if isinstance(cm, str):
            notes[cfg["name"]] = cm
            continue
        base = shlex.split(cfg["cxx"]) + (FREE.split() if cfg["free"] else ["-fno-pie", "-fno-pic"])
        js = []
        incs = []
        for f, flags in cm:
            if f.startswith("crcutil") and (cfg["arch"] not in ("ia32", "x64") or any("crcutil=1" in g for g in cfg["gyp"])):
                continue
            flags = march(cfg, flags)
            flags = [x for x in flags if x not in ("-fPIC", "-fPIE")]
            if cfg.get("os") == "win":
                flags = [x for x in flags if not x.startswith("-m")] + cfg["flags"] + ["-include", FAR + "/win.h"]
            incs += [x for x in flags if x.startswith("-I") or x.startswith("-D")]
            if cfg["arch"] in ("ia32", "x64") and not f.startswith("crcutil") and not cfg.get("os"):
                flags = flags + ["-include", FAR + "/cpuid_seam.h"]
            js.append(pool.submit(compile1, base + flags + ["-w"], f, tree))
        glue = base + ["-O2", "-w", "-std=gnu++17", "-fno-exceptions", "-fno-rtti", "-fno-strict-aliasing"] + list(dict.fromkeys(incs)) + ["-I" + tree + "/src"] + ([] if cfg["free"] else ["-DFAR_HOSTED"])
        if cfg.get("os") == "win":
            glue += cfg["flags"] + ["-include", FAR + "/win.h"]
        if cfg["arch"] == "arm64":
            glue += ["-mno-outline-atomics"]
        noloop = ["-fno-builtin"] + (["-fno-tree-loop-distribute-patterns"] if "g++" == glue[0] else [])
        js.append(pool.submit(glue1, glue))
        js.append(pool.submit(compile1, glue + noloop, FAR + "/rt.cc", tree))
        jobs[cfg["name"]] = (cfg, js)
    for name, (cfg, js) in jobs.items():
        try:
            os_ = [j.result() for j in js]
            exe = out + "/bin/" + name
            if cfg["free"]:
                ld = shlex.split(cfg["cxx"])
                ld = ld + ["-nostdlib", "-static", "-no-pie", "-Wl,--build-id=none"] + ([] if ld[0] == "g++" else ["-fuse-ld=lld"])
            else:
                ld = shlex.split(cfg["cxx"]) + ["-no-pie"]
            if cfg.get("os") == "win" and cfg["arch"] != "arm64":
                ld = ["ld.lld", "-m", "elf_x86_64" if cfg["arch"] == "x64" else "elf_i386", "-static"]
            r = sh(ld + os_ + ["-o", exe])
            if r.returncode:
                raise RuntimeError("link: " + r.stderr.decode(errors="replace")[-600:])
            good.append(dict(name=name, arch=cfg["arch"], emu=cfg.get("emu"), os=cfg.get("os", ""), march=cfg["march"], noavx256=any("avx256=1" in g for g in cfg["gyp"]),
                             native=any("tuning=1" in g for g in cfg["gyp"]), nocrcutil=any("crcutil=1" in g for g in cfg["gyp"]), free=cfg["free"]))
        except Exception as e:
            notes[name] = str(e)
    pool.shutdown()
    shutil.rmtree(tree)
    json.dump({"configs": good, "left_out": notes}, open(out + "/far.json", "w"), indent=1)
    open(out + "/ok", "w").close()
    now = time.time()
    for f in os.listdir(objs):
        p = os.path.join(objs, f)
        if now - os.path.getmtime(p) > 6 * 3600:
            os.remove(p)
    return out


if __name__ == "__main__":
    REPO = os.environ.get("YSIM_REPO", "/repo")
    w = sys.argv[1]
    os.makedirs(w, exist_ok=True)
    names = [os.path.relpath(os.path.join(d, f), REPO) for t in ("src", "crcutil-1.0") for d, _, fs in os.walk(os.path.join(REPO, t)) for f in fs] + ["binding.gyp", "package.json"]

    def cp(dst):
        for n in names:
            os.makedirs(os.path.dirname(os.path.join(dst, n)), exist_ok=True)
            shutil.copy(os.path.join(REPO, n), os.path.join(dst, n))
    print(build(REPO, w, names, cp, sys.argv[2] if len(sys.argv) > 2 else None))
