"""Build and run machinery shared by all checks."""
import fcntl, filecmp, hashlib, json, os, re, shutil, subprocess, sys, threading, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("ODV_REPO", "/repo")
BUILD = os.environ.get("ODV_BUILD", os.path.join(VERIF, "build"))
ECKIT = "/opt/odc-deps/lib/python3.12/site-packages/eckitlib"
NCPU = os.cpu_count() or 8

SAN = {
    "asan": "-fsanitize=address,undefined -fno-sanitize=vptr,function -fno-sanitize-recover=all -D_GLIBCXX_ASSERTIONS",
    "tsan": "-fsanitize=thread",
    "plain": "",
}
COMMON = "-O1 -gline-tables-only -fno-omit-frame-pointer"


def log(*a):
    print("[odv]", *a, file=sys.stderr, flush=True)


def sync_source():
    """Copy the working tree of REPO (without .git and _build) to BUILD/src, touching only what changed."""
    dst = os.path.join(BUILD, "src")
    os.makedirs(dst, exist_ok=True)
    seen = set()
    for root, dirs, files in os.walk(REPO):
        rel = os.path.relpath(root, REPO)
        if rel == ".":
            dirs[:] = [d for d in dirs if d not in (".git", "_build")]
        dirs[:] = [d for d in dirs if not os.path.islink(os.path.join(root, d))]
        os.makedirs(os.path.join(dst, rel), exist_ok=True)
        for f in files:
            s = os.path.join(root, f)
            d = os.path.join(dst, rel, f)
            r = os.path.normpath(os.path.join(rel, f))
            seen.add(r)
            if os.path.islink(s) or not os.path.isfile(s):
                continue
            if os.path.exists(d) and filecmp.cmp(s, d, shallow=False):
                continue
            shutil.copyfile(s, d)
            shutil.copymode(s, d)
    for root, dirs, files in os.walk(dst):
        rel = os.path.relpath(root, dst)
        for f in files:
            if os.path.normpath(os.path.join(rel, f)) not in seen:
                os.unlink(os.path.join(root, f))
    return dst


def sh(cmd, logf, env=None):
    with open(logf, "ab") as lf:
        lf.write(("\n$ " + (cmd if isinstance(cmd, str) else " ".join(cmd)) + "\n").encode())
        lf.flush()
        r = subprocess.run(cmd, shell=isinstance(cmd, str), stdout=lf, stderr=subprocess.STDOUT, env=env)
    return r.returncode


class BuildError(Exception):
    pass


def tail(path, n=40):
    try:
        with open(path, errors="replace") as f:
            return "".join(f.readlines()[-n:])
    except OSError:
        return ""


def build(flavour, targets, name, sources, fortran="", extra_defs="", link_tools=False):
    """Configure and build odc in the flavour and the harness 'name' from the sources. Returns paths."""
    os.makedirs(BUILD, exist_ok=True)
    lock = open(os.path.join(BUILD, "lock"), "w")
    fcntl.flock(lock, fcntl.LOCK_EX)
    try:
        t0 = time.time()
        src = sync_source()
        out = os.path.join(BUILD, flavour)
        os.makedirs(out, exist_ok=True)
        logf = os.path.join(out, "build.log")
        open(logf, "w").close()
        env = dict(os.environ)
        for k in ("CFLAGS", "CXXFLAGS", "LDFLAGS", "FFLAGS", "LD_LIBRARY_PATH", "ASAN_OPTIONS", "UBSAN_OPTIONS", "TSAN_OPTIONS"):
            env.pop(k, None)
        env["ASAN_OPTIONS"] = "detect_leaks=0"
        env["CC"], env["CXX"] = "clang", "clang++"
        env["PATH"] = "/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin"
        flags = f"{COMMON} {SAN[flavour]}"
        # the harness, with its own ninja file
        bdir = os.path.join(out, "odc")
        hdir = os.path.join(out, "h-" + name)
        os.makedirs(hdir, exist_ok=True)
        cdir = os.path.join(out, "h-common")
        os.makedirs(cdir, exist_ok=True)
        hflags = (f"-std=c++17 {flags} -I{src}/src -I{VERIF}/harness -I{ECKIT}/include {extra_defs}")
        nin = [f"hflags = {hflags}", "rule cxx", "  command = clang++ $hflags -MD -MF $out.d -c $in -o $out", "  depfile = $out.d", "  deps = gcc"]
        objs = []
        for s in ["odv", "main", "ref", "rows"] + sources:
            o = os.path.join(cdir if s in ("odv", "main", "ref", "rows") else hdir, s + ".o")
            nin.append(f"build {o}: cxx {VERIF}/harness/{s}.cc")
            objs.append(o)
        if fortran:  # the Fortran interface of the tree, and its counterpart in the harness which uses its module
            nin += ["rule f90", f"  command = gfortran -g -O1 -fcheck=all -fno-omit-frame-pointer -ffree-line-length-none -J{hdir} -c $in -o $out"]
            fo = os.path.join(hdir, "odc.f90.o")
            ho = os.path.join(hdir, fortran + ".o")
            nin += [f"build {fo}: f90 {src}/src/odc/api/odc.f90", f"build {ho}: f90 {VERIF}/harness/{fortran}.f90 | {fo}"]
            objs += [fo, ho]
        nf = os.path.join(hdir, "build.ninja")
        text = "\n".join(nin) + "\n"
        if not os.path.exists(nf) or open(nf).read() != text:
            with open(nf, "w") as f:
                f.write(text)
        res = {}

        def harness():
            res["h"] = sh(["ninja", "-C", hdir, "-j4"], os.path.join(hdir, "log"), env)

        open(os.path.join(hdir, "log"), "w").close()
        th = threading.Thread(target=harness)
        th.start()
        done = os.path.join(out, "configured")
        if not os.path.exists(done) or open(done).read() != flags:
            rc = sh(["cmake", "-S", src, "-B", os.path.join(out, "odc"), "-G", "Ninja", "-DCMAKE_BUILD_TYPE=None", "-DENABLE_TESTS=OFF",
                     "-DBUILD_TESTING=OFF", "-DENABLE_FORTRAN=OFF", "-DENABLE_DOCS=OFF",
                     f"-Deckit_DIR={ECKIT}/lib64/cmake/eckit", f"-DCMAKE_CXX_FLAGS={flags}", f"-DCMAKE_C_FLAGS={flags}"], logf, env)
            if rc:
                th.join()
                raise BuildError("configure failed:\n" + tail(logf))
            with open(done, "w") as f:
                f.write(flags)
        rc = sh(["ninja", "-C", bdir, f"-j{NCPU}"] + targets, logf, env)
        th.join()
        if rc:
            raise BuildError("build of odc failed:\n" + tail(logf))
        if res["h"]:
            raise BuildError("build of the harness failed:\n" + tail(os.path.join(hdir, "log")))
        exe = os.path.join(hdir, name)
        libs = f"-L{bdir}/lib " + ("-lodctools " if link_tools else "") + f"-lodccore -L{ECKIT}/lib64 -leckit -leckit_sql" + (" -lgfortran" if fortran else "")
        rc = sh(f"clang++ {flags} {' '.join(objs)} {libs} -lpthread -Wl,--allow-shlib-undefined "
                f"-Wl,-rpath,{bdir}/lib:{ECKIT}/lib64 -o {exe}", os.path.join(hdir, "log"), env)
        if rc:
            raise BuildError("link of the harness failed:\n" + tail(os.path.join(hdir, "log")))
        log(f"{flavour} build for {name}: {time.time() - t0:.1f} s")
        return {"exe": exe, "bin": os.path.join(bdir, "bin"), "lib": os.path.join(bdir, "lib"), "src": src, "odc": bdir,
                "build_s": round(time.time() - t0, 1)}
    finally:
        fcntl.flock(lock, fcntl.LOCK_UN)
        lock.close()


def run_env(flavour, leaks=False):
    env = dict(os.environ)
    for k in ("LD_LIBRARY_PATH", "ODC_ENABLE_WRITING_LONG_STRING_CODEC"):
        env.pop(k, None)
    env["ASAN_OPTIONS"] = ("exitcode=98:abort_on_error=0:handle_abort=2:allocator_may_return_null=1:detect_stack_use_after_return=1:"
                           "detect_odr_violation=0:malloc_context_size=12:max_allocation_size_mb=8192:detect_leaks=" + ("1" if leaks else "0"))
    env["UBSAN_OPTIONS"] = "print_stacktrace=1:halt_on_error=1:exitcode=98"
    env["LSAN_OPTIONS"] = "exitcode=98"
    env["TSAN_OPTIONS"] = f"exitcode=98:halt_on_error=0:second_deadlock_stack=1:history_size=4:suppressions={VERIF}/tools/tsan.supp"
    env["PATH"] = "/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin"
    return env


FRAME = re.compile(r"#\d+ 0x[0-9a-f]+ in (.+?) (?:/|\(|<|$)")


def crash_key(text, rc):
    """A stable name for a crash: kind of report and innermost frame inside odc."""
    kind = None
    m = re.search(r"ERROR: AddressSanitizer: ([\w-]+)", text)
    if m:
        kind = "asan:" + m.group(1)
    m2 = re.search(r"runtime error: (.{0,60})", text)
    if not kind and m2:
        kind = "ubsan:" + re.sub(r"[-+]?\b(0x)?[0-9a-f]*\d[0-9a-f.e+]*\b", "N", m2.group(1))[:50]
    if not kind and "LeakSanitizer" in text:
        kind = "leak"
    m3 = re.search(r"WARNING: ThreadSanitizer: ([\w -]+)", text)
    if not kind and m3:
        kind = "tsan:" + m3.group(1).strip().replace(" ", "-")
    if not kind and "terminate called" in text:
        kind = "terminate"
    if not kind and re.search(r"Assertion '.*' failed", text):
        kind = "glibcxx-assert"
    if not kind:
        kind = f"exit{rc}" if rc >= 0 else f"signal{-rc}"
    pos = text.find("ERROR: AddressSanitizer")
    if pos < 0:
        pos = text.find("runtime error:")
    if pos < 0:
        pos = max(0, text.find("WARNING: ThreadSanitizer"))
    fn = ""
    for m in FRAME.finditer(text[pos:]):
        f = m.group(1)
        if f.startswith("odc") or "odc::" in f or f.startswith("odb_"):
            fn = re.sub(r"\(.*", "", f)
            fn = re.sub(r"<.*?>", "", fn)
            break
    return f"crash:{kind}" + (f":{fn}" if fn else "")


def known_findings():
    """[(property, key)] of the findings recorded, not repaired, in the committed file."""
    out = []
    p = os.path.join(VERIF, "known_findings")
    if os.path.exists(p):
        for line in open(p):
            line = line.strip()
            m = re.match(r"finding: property=(\S+) key=(\S+)\s+(.*)", line)
            if m:
                out.append((m.group(1), m.group(2), m.group(3)))
    return out


class Shard:
    def __init__(self, k, first, step, end):
        self.k, self.first, self.step, self.end = k, first, step, end


def run_cases(prop, cfg, b, tier, seed, first=0, end=None, only=None, quiet=False):
    """Runs all cases in parallel shards. Returns a dict with violations, stats, signatures, inconclusive."""
    work = os.path.join(BUILD, "run", prop)
    shutil.rmtree(work, ignore_errors=True)
    os.makedirs(work)
    flav = cfg.get("flavour", "asan")
    env = run_env(flav, cfg.get("leaks", False))
    env.update(cfg.get("env", {}))
    R = {"viol": [], "stats": {}, "sigs": set(), "inc": [], "samples": [], "done": 0, "crashes": 0, "errors": []}
    lk = threading.Lock()
    deadline = cfg["deadline"][tier]
    percase = cfg.get("percase", 60)
    nsh = cfg.get("shards", NCPU)
    start_t = time.time()
    probes = int(subprocess.run([b["exe"], "--info", "1"], capture_output=True, text=True, env=env).stdout.split()[0])
    if end is None:
        end = probes + cfg["cases"][tier]

    def invoke(k, first, step, end, pc, tag=""):
        d = os.path.join(work, f"s{k}{tag}")
        os.makedirs(d, exist_ok=True)
        out, status, err = os.path.join(d, "out"), os.path.join(d, "status"), os.path.join(d, "err")
        scratch = os.path.join(d, "scratch")
        shutil.rmtree(scratch, ignore_errors=True)
        os.makedirs(scratch)
        left = max(1, int(deadline - (time.time() - start_t)))
        open(out, "w").close()
        open(status, "w").close()
        with open(err, "wb") as ef:
            p = subprocess.Popen(
                [b["exe"], "--seed", str(seed), "--first", str(first), "--step", str(step), "--end", str(end), "--out", out, "--status",
                 status, "--scratch", scratch, "--tier", tier, "--deadline", str(left), "--percase", str(pc), "--bindir", b["bin"]],
                stdout=subprocess.DEVNULL, stderr=ef, stdin=subprocess.DEVNULL, env=env, cwd=scratch, start_new_session=True)
            # the harness ends itself when a case takes too long, but ThreadSanitizer may hold its alarm back: watch the status from outside
            seen, since = None, time.time()
            while True:
                try:
                    rc = p.wait(timeout=1)
                    break
                except subprocess.TimeoutExpired:
                    now = os.stat(status).st_mtime_ns
                    if now != seen:
                        seen, since = now, time.time()
                    elif time.time() - since > pc + 30:
                        os.killpg(p.pid, 9)
                        p.wait()
                        rc = 77
                        break
            try:
                os.killpg(p.pid, 9)
            except ProcessLookupError:
                pass
        recs = []
        with open(out, errors="replace") as f:
            for line in f:
                try:
                    recs.append(json.loads(line))
                except ValueError:
                    pass
        try:
            cur = int(open(status).read().split()[0])
        except (ValueError, IndexError):
            cur = -1
        with open(err, "rb") as f:
            f.seek(0, 2)
            n = f.tell()
            f.seek(max(0, n - 400000))
            text = f.read().decode(errors="replace")
        shutil.rmtree(scratch, ignore_errors=True)
        return rc, recs, cur, text

    def absorb(recs):
        with lk:
            for r in recs:
                if r["t"] == "viol":
                    R["viol"].append(r)
                elif r["t"] == "sample":
                    R["samples"].append(f"case {r['case']}: {r['msg']}")
                elif r["t"] == "inc":
                    R["inc"].append(r)
                elif r["t"] == "stats":
                    for a, v in r["stats"].items():
                        R["stats"][a] = R["stats"].get(a, 0) + v
                    R["sigs"].update(r["sigs"])
                    R["done"] += r["done"]

    def shard(k):
        f = first + k
        crashes = 0
        while f < end:
            rc, recs, cur, text = invoke(k, f, nsh, end, percase)
            absorb(recs)
            if cfg.get("post"):
                cfg["post"](R, lk, text, f)
            if rc == 0 or (flav == "tsan" and rc == 98 and cur + nsh >= end and recs and recs[-1]["t"] == "stats"):
                if flav == "tsan" and rc == 98:
                    with lk:
                        for rep in tsan_reports(text):
                            R["viol"].append({"t": "viol", "case": cur, "probe": False, "key": rep[0], "msg": rep[1]})
                return
            if cur < 0:
                with lk:
                    R["errors"].append(f"shard {k}: harness ended with {rc} before its first case: {text[-600:]}")
                return
            with lk:
                R["done"] += (cur - f) // nsh + 1
            if rc == 77:
                if R.get("hung"):  # shown already by another shard
                    return
                rc2, recs2, cur2, text2 = invoke(k, cur, nsh, cur + 1, 2 * percase, "r")
                if rc2 == 77:
                    with lk:
                        R["hung"] = True
                        R["viol"].append({"t": "viol", "case": cur, "probe": cur < probes, "key": "hang",
                                          "msg": f"the case did not finish within {percase} s nor, alone, within {2 * percase} s"})
                else:
                    absorb(recs2)
                    with lk:
                        R["inc"].append({"case": cur, "msg": f"no answer within {percase} s, finished when repeated alone"})
            elif rc == -9:
                with lk:
                    R["inc"].append({"case": cur, "msg": "killed (memory)"})
            elif flav == "tsan" and rc == 98 and "ThreadSanitizer" in text:
                with lk:
                    for rep in tsan_reports(text):
                        R["viol"].append({"t": "viol", "case": cur, "probe": False, "key": rep[0], "msg": rep[1]})
            else:
                m = re.search(r"(==\d+==ERROR|[^\n]*runtime error:|terminate called|[^\n]*Assertion '[^\n]*failed|==\d+==WARNING)", text)
                with lk:
                    R["viol"].append({"t": "viol", "case": cur, "probe": cur < probes, "key": crash_key(text, rc),
                                      "msg": (text[m.start():m.start() + 2500] if m else text[-1500:])})
            crashes += 1
            if crashes > 12:
                with lk:
                    R["stats"]["shards abandoned after 12 crashes"] = R["stats"].get("shards abandoned after 12 crashes", 0) + 1
                return
            if time.time() - start_t > deadline or R.get("hung"):
                return
            f = cur + nsh

    if only is not None:
        rc, recs, cur, text = invoke(0, only, 1, only + 1, 2 * percase)
        absorb(recs)
        if rc not in (0,):
            R["viol"].append({"t": "viol", "case": only, "probe": False, "key": "hang" if rc == 77 else crash_key(text, rc), "msg": text[-3000:]})
        R["text"] = text
    else:
        ths = [threading.Thread(target=shard, args=(k,)) for k in range(nsh)]
        [t.start() for t in ths]
        [t.join() for t in ths]
    R["probes"] = probes
    R["end"] = end
    R["run_s"] = round(time.time() - start_t, 1)
    shutil.rmtree(work, ignore_errors=True)
    return R


def tsan_reports(text):
    out = []
    for part in re.split(r"(?=WARNING: ThreadSanitizer)", text)[1:]:
        part = part.split("\n==================")[0]
        m = re.match(r"WARNING: ThreadSanitizer: ([^(\n]+)", part)
        fr = [re.sub(r"\(.*", "", f) for f in FRAME.findall(part)]
        own = [f for f in fr if "odc" in f]
        fn = own[0] if own else (fr[0] if fr else "")
        fn = re.sub(r"<.*>", "", fn)
        out.append((f"tsan:{m.group(1).strip().replace(' ', '-')}:{fn}"[:160], part[:3000]))
    return out
