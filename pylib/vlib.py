"""Build, TLC and trace-validation plumbing shared by all checks."""
import glob, hashlib, json, os, random, re, shutil, subprocess, sys, time
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
SPEC = os.path.join(VERIF, "spec")
BUILD = os.path.join(VERIF, "build")
JARS = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
NCPU = os.cpu_count() or 4


class Infra(Exception):
    """The check itself failed (neither verdict)."""


def log(*a):
    print(*a, file=sys.stderr, flush=True)


# ---------------------------------------------------------------- build ------
# Library sources per component; globs relative to /repo.  New files added next
# to these are picked up by the globs.
G = {
    "hash": ["pir/hashing/*.cc"],
    "prng": ["pir/prng/*.cc"],
    "fkh": ["dpf/aes_128_fixed_key_hash.cc"],
    "dpf": ["dpf/*.cc", "dpf/internal/*.cc"],
    "dcf": ["dcf/*.cc", "dcf/fss_gates/*.cc", "dcf/fss_gates/prng/*.cc"],
    "pir": ["pir/*.cc", "pir/internal/*.cc", "pir/hashing/*.cc", "pir/prng/*.cc"],
    "inner": ["pir/internal/*.cc", "dpf/internal/get_hwy_mode.cc"],
}
PROTO = {
    "hash": ["pir/hashing/hash_family_config.proto"],
    "dpf": ["dpf/distributed_point_function.proto"],
    "dcf": ["dcf/distributed_comparison_function.proto",
            "dcf/fss_gates/multiple_interval_containment.proto"],
    "pir": ["pir/private_information_retrieval.proto", "pir/hashing/hash_family_config.proto",
            "dpf/distributed_point_function.proto"],
}
PROTO["inner"] = PROTO["pir"]
TYPES = ["types_a.cc", "types_b.cc", "types_c.cc", "types_d.cc", "types_e.cc"]
DRIVERS = {
    "drv_hash": (["drv_hash.cc"], ["hash"]),
    "drv_prim": (["drv_prim.cc"], ["hash", "prng", "fkh"]),
    "drv_types": (["drv_types.cc", "msgs.cc"] + TYPES, ["dpf", "dcf"]),
    "drv_seeds": (["drv_seeds.cc"], ["dpf"]),
    "drv_dcf": (["drv_dcf.cc", "msgs.cc"] + TYPES, ["dpf", "dcf"]),
    "drv_inner": (["drv_inner.cc"], ["inner"]),
    "drv_pir": (["drv_pir.cc", "msgs.cc"] + TYPES, ["dpf", "dcf", "pir"]),
    "drv_dpf": (["drv_dpf.cc", "msgs.cc"] + TYPES, ["dpf", "dcf"]),
}
CXX = os.environ.get("VERIF_CXX", "g++")
LIBS = ("-L/usr/lib/x86_64-linux-gnu/android -l:libcrypto.so -Wl,-rpath,/usr/lib/x86_64-linux-gnu/android "
        "-lfarmhash -lhwy -lprotobuf ")


def _absl_libs():
    libs = sorted(glob.glob("/usr/lib/x86_64-linux-gnu/libabsl_*.so"))
    if libs:
        return "-Wl,--as-needed " + " ".join(libs)
    return "-Wl,--start-group " + " ".join(sorted(glob.glob("/usr/lib/x86_64-linux-gnu/libabsl_*.a"))) + " -Wl,--end-group"


def sources(comps):
    out = []
    for c in comps:
        for g in G.get(c, []):
            for f in sorted(glob.glob(os.path.join(REPO, g))):
                b = os.path.basename(f)
                if b.endswith("_test.cc") or b.endswith("_benchmark.cc") or b.startswith("status_matchers"):
                    continue
                if f not in out:
                    out.append(f)
    return out


# Drivers run with memory checking (a bad access ends the driver: a crash event) and with allocated and freed
# memory filled, so that what is read from it before or after its time is not right by accident.
ASAN = "-fsanitize=address"
# (the check for uses after the end of a scope triples the compile time of template-heavy files)
NO_SCOPE = "-fno-sanitize-address-use-after-scope"
ASAN_OPTIONS = ("detect_leaks=0:detect_container_overflow=0:detect_odr_violation=0:allocator_may_return_null=1:"
                "max_malloc_fill_size=1048576:malloc_fill_byte=167:max_free_fill_size=1048576:free_fill_byte=88")


def build(drv, flags=ASAN, tag=""):
    """Builds a driver from /repo's current sources; returns its path."""
    srcs, comps = DRIVERS[drv]
    bdir = os.path.join(BUILD, tag or "std")
    os.makedirs(bdir, exist_ok=True)
    gen = os.path.join(BUILD, "gen")
    os.makedirs(os.path.join(gen, "farmhash"), exist_ok=True)
    fh = os.path.join(gen, "farmhash", "farmhash.h")
    if not os.path.lexists(fh):
        os.symlink("/usr/include/farmhash.h", fh)
    protos = []
    for c in comps:
        for p in PROTO.get(c, []):
            if p not in protos:
                protos.append(p)
    # include any further .proto imported
    n = ["ninja_required_version = 1.5", "builddir = %s" % bdir,
         "rule cxx\n command = %s -std=c++17 -O1 %s $x -w -isystem /usr/include/android -I%s -I%s -I%s/shims -I%s/harness "
         "-include %s/shims/prelude.h -MD -MF $out.d -c $in -o $out\n depfile = $out.d\n deps = gcc"
         % (CXX, flags, REPO, gen, VERIF, VERIF, VERIF),
         "rule protoc\n command = protoc -I%s --cpp_out=%s $in" % (REPO, gen),
         "rule link\n command = %s %s $in -o $out %s %s -lpthread -ldl" % (CXX, flags, LIBS, _absl_libs())]
    objs, pbh = [], []
    for p in protos:
        base = os.path.join(gen, p[:-6])
        n.append("build %s.pb.cc %s.pb.h: protoc %s" % (base, base, os.path.join(REPO, p)))
        pbh.append(base + ".pb.h")
    for s in sources(comps) + [os.path.join(gen, p[:-6] + ".pb.cc") for p in protos] + \
            [os.path.join(VERIF, "harness", s) for s in srcs]:
        if s.startswith(gen):
            o = os.path.join(bdir, "gen_" + os.path.relpath(s, gen).replace("/", "_") + ".o")
        elif s.startswith(VERIF + "/harness"):
            o = os.path.join(bdir, "h_" + os.path.basename(s) + ".o")
        else:
            o = os.path.join(bdir, os.path.relpath(s, REPO).replace("/", "_") + ".o")
        light = ASAN in flags and (not s.startswith(REPO + "/") or "hwy" in s)
        n.append("build %s: cxx %s || %s\n x = %s" % (o, s, " ".join(pbh), NO_SCOPE if light else ""))
        objs.append(o)
    exe = os.path.join(bdir, drv)
    n.append("build %s: link %s" % (exe, " ".join(objs)))
    n.append("default %s" % exe)
    nf = os.path.join(bdir, drv + ".ninja")
    with open(nf, "w") as f:
        f.write("\n".join(n) + "\n")
    t = time.time()
    r = subprocess.run(["ninja", "-f", nf, "-j", str(NCPU)], capture_output=True, text=True)
    if r.returncode != 0:
        raise Infra("build of %s failed:\n%s" % (drv, (r.stdout + r.stderr)[-4000:]))
    log("built %s in %.1f s" % (drv, time.time() - t))
    return exe


# ------------------------------------------------------------------ TLC ------
class Tlc:
    def __init__(self, rc, out):
        self.rc, self.out = rc, out
        m = re.findall(r"(\d+) states generated(?: \([^)]*\))?, (\d+) distinct states found", out)
        self.generated, self.distinct = (int(m[-1][0]), int(m[-1][1])) if m else (0, 0)
        m = re.search(r"number of states generated: (\d+)", out)      # simulation
        if m:
            self.generated = self.distinct = int(m.group(1))
        m = re.search(r"depth of the complete state graph search is (\d+)", out)
        self.depth = int(m.group(1)) if m else 0
        self.prints = [l for l in out.splitlines() if l.startswith('"@@')]


def tlc(module, cfg, workdir, env=None, workers=1, timeout=600, args=(), heap="2g", spec_dir=None):
    """Runs TLC on SPEC/module.tla with configuration text cfg."""
    os.makedirs(workdir, exist_ok=True)
    cfgf = os.path.join(workdir, module + ".cfg")
    with open(cfgf, "w") as f:
        f.write(cfg)
    meta = os.path.join(workdir, "meta")
    shutil.rmtree(meta, ignore_errors=True)
    os.makedirs(meta)
    cmd = ["java", "-Djava.io.tmpdir=" + meta, "-XX:+UseParallelGC", "-XX:ParallelGCThreads=%d" % max(2, min(4, workers)), "-Xmx" + heap,
           "-Xss256m", "-DTLA-Library=" + SPEC, "-cp", JARS, "tlc2.TLC", "-metadir", meta, "-workers", str(workers),
           "-config", cfgf, "-deadlock", "-noGenerateSpecTE", *args, os.path.join(SPEC, module + ".tla")]
    e = dict(os.environ)
    e.update(env or {})
    try:
        r = subprocess.run(cmd, capture_output=True, text=True, timeout=timeout, env=e, cwd=workdir)
    except subprocess.TimeoutExpired:
        raise Infra("TLC timed out on %s" % module)
    finally:
        shutil.rmtree(meta, ignore_errors=True)
    return Tlc(r.returncode, r.stdout + r.stderr)


def model_check(module, cfg, workdir, workers=NCPU, timeout=600, args=(), heap="6g"):
    """Exhaustive check of a bounded model; a violation here is a broken model, not broken code."""
    t = time.time()
    r = tlc(module, cfg, workdir, workers=workers, timeout=timeout, args=args, heap=heap)
    if r.rc != 0:
        raise Infra("model check of %s failed (rc %d):\n%s" % (module, r.rc, r.out[-3000:]))
    log("TLC %s: %d states, %d distinct, %.1f s" % (module, r.generated, r.distinct, time.time() - t))
    return r


def scripts_of(r):
    """JSON values printed by a model as "@@{...}"."""
    out = []
    for l in r.prints:
        out.append(json.loads(json.loads(l)[2:]))
    return out


# -------------------------------------------------------------- driver -------
def run_driver(exe, script, out, timeout=300, env=None):
    """Runs a driver; appends a crash event if it does not finish normally."""
    e = dict(os.environ, ASAN_OPTIONS=ASAN_OPTIONS, MALLOC_PERTURB_="167")
    e.update(env or {})
    try:
        r = subprocess.run([exe, script, out], capture_output=True, text=True, timeout=timeout, env=e,
                           errors="replace")
        rc, err = r.returncode, r.stderr
    except subprocess.TimeoutExpired as ex:
        rc, err = "timeout", ""
    if rc == 99:
        raise Infra("driver %s: bad script: %s" % (exe, err[-500:]))
    if rc != 0:
        # Drop a partial last line, then record the crash.
        data = open(out).read() if os.path.exists(out) else ""
        if data and not data.endswith("\n"):
            data = data[:data.rfind("\n") + 1]
        at = ""
        try:
            at = open(out + ".at").read().split("\n\n")[0]
        except OSError:
            pass
        log("driver ended abnormally (%s) at: %s\n%s" % (rc, at[:300], err[-1500:]))
        with open(out, "w") as f:
            f.write(data)
            f.write(json.dumps({"e": "crash", "rc": str(rc), "at": at[:300].replace("\n", " ")}) + "\n")
    try:
        os.unlink(out + ".at")
    except OSError:
        pass
    return rc


# ---------------------------------------------------------- validation -------
REJECT_RC = {75, 76, 77}      # evaluation failed on the trace: the record does not fit the specification


def validate_one(module, trace, workdir, consts="", timeout=600, heap="2g"):
    n = sum(1 for _ in open(trace))
    if n == 0:
        return True, 0, 0, None
    cfg = "SPECIFICATION Spec\nPOSTCONDITION TraceAccepted\nCHECK_DEADLOCK FALSE\n" + consts
    r = tlc(module, cfg, workdir, env={"TRACE": os.path.abspath(trace)}, workers=1, timeout=timeout, heap=heap)
    m = re.search(r'<<"ACCEPTED", (\d+), (\d+)>>', r.out)
    if m and r.rc == 0:
        got, want = int(m.group(1)), int(m.group(2))
        if want != n:
            raise Infra("trace %s: %d lines, TLC read %d" % (trace, n, want))
        return got == want, got, r.distinct, None
    if r.rc in REJECT_RC or (r.rc != 0 and "Error: " in r.out and "evaluat" in r.out
                             and "Parsing or semantic" not in r.out and "OutOfMemory" not in r.out):
        states = re.findall(r"^/\\ l = (\d+)|^l = (\d+)", r.out, re.M)
        last = max([int(a or b) for a, b in states], default=0)
        return False, max(0, last - 1), r.distinct, r.out[-2500:]
    raise Infra("trace validation with %s failed (rc %s):\n%s" % (module, r.rc, r.out[-3000:]))


def split_trace(trace, outdir, reset, chunk):
    """Splits a trace into pieces of about `chunk` events, only before a `reset` event
    (reset=None: anywhere)."""
    os.makedirs(outdir, exist_ok=True)
    files, cur, cnt, size = [], None, 0, 0
    for line in open(trace):
        start = reset is None or any(line.startswith('{"e":"%s"' % x) for x in reset)
        if cur is None or ((cnt >= chunk or size > 30000000) and start):
            if cur:
                cur.close()
            p = os.path.join(outdir, "t%03d.ndjson" % len(files))
            files.append(p)
            cur, cnt, size = open(p, "w"), 0, 0
        cur.write(line)
        cnt += 1
        size += len(line)
    if cur:
        cur.close()
    return files


class Verdict:
    def __init__(self):
        self.ok, self.events, self.states, self.bad = True, 0, 0, None


def validate(module, trace, workdir, reset=("new",), chunk=None, consts="", timeout=700, heap="2g"):
    n = sum(1 for _ in open(trace))
    if chunk is None:
        chunk = max(200, min(6000, n // NCPU + 1))
    files = split_trace(trace, os.path.join(workdir, "chunks"), reset, chunk)
    v = Verdict()
    t = time.time()
    with ThreadPoolExecutor(NCPU) as ex:
        res = list(ex.map(lambda f: validate_one(module, f, f + ".d", consts, timeout, heap), files))
    for f, (ok, got, st, err) in zip(files, res):
        v.events += got
        v.states += st
        if not ok and v.ok:
            lines = open(f).read().splitlines()
            v.ok, v.bad = False, (f, got, lines, err)
    log("TLC %s: %d/%d events accepted in %d pieces, %.1f s" % (module, v.events, n, len(files), time.time() - t))
    return v
