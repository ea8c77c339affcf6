#!/usr/bin/env python3
"""mutate.py SLOT COUNT SEED [FILE..]: plants small random changes in a scratch clone and reports which the quick checks let
through (for a person to judge: equivalent, or a blind spot).  Scratch: /tmp/mu/SLOT.  Results: /tmp/mu/SLOT.log"""
import os, random, re, subprocess, sys, time
MAP = {
    "dpf/aes_128_fixed_key_hash.cc": "H01", "dpf/internal/evaluate_prg_hwy.cc": "H02 D03", "dpf/internal/aes_128_fixed_key_hash_hwy.h": "H02",
    "dpf/distributed_point_function.cc": "D05 D04 D03 D02 D01 D07", "dpf/distributed_point_function.h": "D03 D02 D04 D05 D01",
    "dpf/int_mod_n.cc": "D06 D04", "dpf/int_mod_n.h": "D06 D05", "dpf/internal/proto_validator.cc": "D04 D02 C01",
    "dpf/internal/value_type_helpers.cc": "D06 D04 D05", "dpf/internal/value_type_helpers.h": "D06 D04 D05 D01", "dpf/tuple.h": "D06", "dpf/xor_wrapper.h": "D06",
    "dcf/distributed_comparison_function.cc": "C01", "dcf/distributed_comparison_function.h": "C01", "dcf/fss_gates/multiple_interval_containment.cc": "M01",
    "dcf/fss_gates/prng/basic_rng.h": "R02",
    "pir/hashing/cuckoo_hash_table.cc": "T01", "pir/hashing/simple_hash_table.cc": "T02", "pir/hashing/multiple_choice_hash_table.cc": "T02",
    "pir/hashing/sha256_hash_family.cc": "F01", "pir/hashing/farm_hash_family.cc": "F01", "pir/hashing/hash_family.cc": "F01", "pir/hashing/hash_family_config.cc": "F01",
    "pir/prng/aes_128_ctr_seeded_prng.cc": "R01",
    "pir/internal/inner_product_hwy.cc": "I01",
    "pir/dense_dpf_pir_database.cc": "B01 I01 P01", "pir/cuckoo_hashed_dpf_pir_database.cc": "B01 P02", "pir/simple_hashed_dpf_pir_database.cc": "B01 P03",
    "pir/dense_dpf_pir_client.cc": "P01 V01", "pir/cuckoo_hashing_sparse_dpf_pir_client.cc": "V01 P02", "pir/simple_hashing_sparse_dpf_pir_client.cc": "V01 P03",
    "pir/dense_dpf_pir_server.cc": "V01 P01 L01", "pir/cuckoo_hashing_sparse_dpf_pir_server.cc": "V01 L01 P02", "pir/simple_hashing_sparse_dpf_pir_server.cc": "V01 L01 P03",
    "pir/dpf_pir_server.cc": "L01 V01", "pir/dpf_pir_client.h": "L01 P01 V01",
}
SWAP = [(" < ", [" <= ", " > "]), (" <= ", [" < "]), (" > ", [" >= ", " < "]), (" >= ", [" > "]), (" == ", [" != "]), (" != ", [" == "]),
        (" + ", [" - "]), (" - ", [" + "]), (" * ", [" + "]), (" / ", [" * "]), (" % ", [" / "]), (" & ", [" | "]), (" | ", [" & "]), (" ^ ", [" | "]),
        (" << ", [" >> "]), (" >> ", [" << "]), (" && ", [" || "]), (" || ", [" && "]), ("++", ["--"]), (" += ", [" -= ", " = "]), (" ^= ", [" = ", " |= "]),
        (" = 0;", [" = 1;"]), ("true", ["false"]), ("false", ["true"]), (".back()", [".front()"]), ("std::max", ["std::min"]), ("std::min", ["std::max"])]
def mutants(text):
    out, lines = [], text.split("\n")
    for n, l in enumerate(lines):
        s = l.strip()
        if not s or s.startswith(("//", "#", "*", "using", "namespace", "template", "LOG", "static_assert", "typename", "}  //")):
            continue
        code = l.split("//")[0]
        quoted = [m.span() for m in re.finditer(r'"[^"]*"', code)]
        def free(i): return not any(a <= i < b for a, b in quoted)
        for a, bs in SWAP:
            for m in re.finditer(re.escape(a), code):
                if free(m.start()):
                    for b in bs:
                        out.append((n, code[:m.start()] + b + code[m.end():]))
        for m in re.finditer(r"(?<![\w.])(\d+)(?![\w.])", code):
            if free(m.start()):
                v = int(m.group(1))
                for w in {v + 1, max(0, v - 1)} - {v}:
                    out.append((n, code[:m.start()] + str(w) + code[m.end():]))
        m = re.match(r"^(\s*)(?:}? ?else )?if \((.*)\) \{$", code)
        if m and "constexpr" not in code:
            out.append((n, code.replace("if (" + m.group(2) + ")", "if (false && (" + m.group(2) + "))")))
            out.append((n, code.replace("if (" + m.group(2) + ")", "if (!(" + m.group(2) + "))")))
        if s.endswith(";") and not s.startswith(("return", "const", "}", "auto", "int", "bool", "size_t", "absl::", "std::", "friend", "break", "continue")) and \
                re.match(r"^[\w\->.\[\]():&*]+(\(| [+\-^|&]?= )", s) and code.count("(") == code.count(")") and n > 0 and lines[n - 1].rstrip().endswith((";", "{", "}")):
            out.append((n, ""))
    return [(n, lines[n], new, "\n".join(lines[:n] + [new] + lines[n + 1:])) for n, new in out]
RUN = r'''
import sys, os, pickle, hashlib, time
sys.path.insert(0, "pylib")
import vlib, checklib, registry
real = vlib.model_check
def cached(module, cfg, workdir, **k):
    h = hashlib.sha1((module + cfg + repr(k.get("args"))).encode()).hexdigest()
    p = "/tmp/mu/cache_" + h
    if os.path.exists(p): return pickle.load(open(p, "rb"))
    r = real(module, cfg, workdir, **k)
    pickle.dump(r, open(p + ".%d" % os.getpid(), "wb")); os.rename(p + ".%d" % os.getpid(), p)
    return r
vlib.model_check = cached
c = checklib.Ctx(sys.argv[1], "quick", int(os.environ.get("VERIF_SEED", "1")))
try:
    registry.owners()[sys.argv[1]](c)
except checklib.Violation: sys.exit(1)
except vlib.Infra as e:
    print("INFRA", str(e)[-1500:]); sys.exit(2)
'''
def sh(*a, **k):
    return subprocess.run(a, capture_output=True, text=True, errors="replace", **k)
def main():
    slot, count, seed = sys.argv[1], int(sys.argv[2]), int(sys.argv[3])
    files = sys.argv[4:] or list(MAP)
    W = "/tmp/mu/" + slot
    os.makedirs(W, exist_ok=True)
    if not os.path.exists(W + "/repo"):
        sh("git", "clone", "-q", "/repo", W + "/repo", env=dict(os.environ, GIT_LFS_SKIP_SMUDGE="1"))
    sh("rsync", "-a", "--delete", "--exclude", "/build", "--exclude", "/seeded", "--exclude", "/evidence", "--exclude", ".git", "/verif/", W + "/verif/")
    open(W + "/verif/run.py", "w").write(RUN)
    log = open("/tmp/mu/%s.log" % slot, "a")
    rng = random.Random(seed)
    pool = []
    for f in files:
        ms = mutants(open(W + "/repo/" + f).read())
        rng.shuffle(ms)
        pool += [(f,) + m for m in ms[:max(1, count)]]
    rng.shuffle(pool)
    for f, n, old, new, text in pool:
        p = W + "/repo/" + f
        orig = open(p).read()
        open(p, "w").write(text)
        res = "SURVIVED"
        t = time.time()
        try:
            for c in MAP[f].split():
                try:
                    r = sh("python3", "run.py", c, cwd=W + "/verif", env=dict(os.environ, VERIF_REPO=W + "/repo", VERIF_SEED="1"), timeout=900)
                except subprocess.TimeoutExpired:
                    res = "TIMEOUT " + c; break
                if r.returncode == 1:
                    res = "caught " + c; break
                if r.returncode != 0:
                    res = "compile" if "build of" in r.stdout else "INFRA " + c + " " + r.stdout[-300:].replace("\n", " ")
                    break
        finally:
            open(p, "w").write(orig)
        log.write("%s %s:%d (%d s)\n    - %s\n    + %s\n" % (res, f, n + 1, time.time() - t, old.strip(), new.strip())); log.flush()
main()
