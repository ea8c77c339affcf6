#!/usr/bin/env python3
"""plant.py FILE.py [ID..] [--try] [--check]: FILE defines BUGS = [dict(id, property, needs, breaks, edits=[(file, old, new)], cc=str, libs=[...])].
Applies the edits to a scratch clone (/tmp/pb/repo) and records the diff and its demonstration under /verif/seeded/<id>/.
--try: runs the demonstration with and without the change, and the repository's own core tests with it.
--check: runs the property's quick check (from a copy of /verif) against the changed clone."""
import json, os, runpy, shutil, subprocess, sys
V, W = "/verif", "/tmp/pb"
os.environ["GIT_LFS_SKIP_SMUDGE"] = "1"
R = W + "/repo"
SH = r'''#!/bin/bash
# Exit 0 when the behaviour is right.  Runs in the repository root after its build.
here=$(cd "$(dirname "$0")" && pwd)
repo=$PWD
t=$(mktemp -d /tmp/demo.XXXXXX) || exit 2
trap 'rm -rf "$t"' EXIT
bash "$here/build.sh" "$repo" "$here" "$t" || { echo "demo does not build"; exit 2; }
timeout 250 "$t/demo"
'''
def sh(*a, **k):
    return subprocess.run(a, capture_output=True, text=True, errors="replace", **k)
def build_script(comps):
    """Compiles the demo with the repository sources it needs."""
    return r'''#!/bin/bash
# build.sh REPO HERE OUT : compiles the demonstration with the repository sources it needs.
repo=$1; here=$2; t=$3
mkdir -p "$t/gen/farmhash" "$t/o"; ln -sf /usr/include/farmhash.h "$t/gen/farmhash/farmhash.h"
inc="-isystem /usr/include/android -I$repo -I$t/gen -I$here/shims -include $here/shims/prelude.h"
(cd "$repo" && protoc -I. --cpp_out="$t/gen" %s) || exit 1
ls $(cd "$repo" && ls -d %s | grep -v -e _test.cc -e _benchmark.cc -e status_matchers | sed "s|^|$repo/|") \
   $(find "$t/gen" -name '*.cc') "$here/demo.cc" > "$t/srcs"
i=0; while read f; do i=$((i+1)); echo "$f $t/o/$i.o"; done < "$t/srcs" |
  xargs -P 8 -L 1 bash -c 'g++ -std=c++17 -O1 -w '"$inc"' -c "$0" -o "$1" || exit 255' || exit 1
g++ "$t"/o/*.o -o "$t/demo" -L/usr/lib/x86_64-linux-gnu/android -l:libcrypto.so \
  -Wl,-rpath,/usr/lib/x86_64-linux-gnu/android -lfarmhash -lhwy -lprotobuf \
  -Wl,--as-needed $(ls /usr/lib/x86_64-linux-gnu/libabsl_*.so 2>/dev/null) \
  $(ls /usr/lib/x86_64-linux-gnu/libabsl_*.so >/dev/null 2>&1 || echo -Wl,--start-group /usr/lib/x86_64-linux-gnu/libabsl_*.a -Wl,--end-group) -lpthread -ldl
''' % (" ".join(PROTO[c] for c in comps), " ".join(SRC[c] for c in comps))
PROTO = {"hash": "pir/hashing/hash_family_config.proto", "prng": "", "fkh": "", "dpf": "dpf/distributed_point_function.proto",
         "dcf": "dpf/distributed_point_function.proto dcf/distributed_comparison_function.proto dcf/fss_gates/multiple_interval_containment.proto",
         "inner": "pir/private_information_retrieval.proto pir/hashing/hash_family_config.proto dpf/distributed_point_function.proto",
         "pir": "pir/private_information_retrieval.proto pir/hashing/hash_family_config.proto dpf/distributed_point_function.proto"}
SRC = {"hash": "pir/hashing/*.cc", "prng": "pir/prng/*.cc", "fkh": "dpf/aes_128_fixed_key_hash.cc", "dpf": "dpf/*.cc dpf/internal/*.cc",
       "dcf": "dpf/*.cc dpf/internal/*.cc dcf/*.cc dcf/fss_gates/*.cc dcf/fss_gates/prng/*.cc",
       "inner": "pir/internal/*.cc dpf/internal/get_hwy_mode.cc",
       "pir": "pir/*.cc pir/internal/*.cc pir/hashing/*.cc pir/prng/*.cc dpf/*.cc dpf/internal/*.cc"}
def reset():
    sh("git", "-C", R, "checkout", "-q", "--", ".")
    sh("git", "-C", R, "pull", "-q")
def original(f, line):
    s = sh("git", "-C", R, "show", "bcb6806:" + f).stdout.splitlines()
    return line in s
def tail(r):
    return (r.stdout + r.stderr)[-250:].strip().replace("\n", " | ")
def plant(b, flags):
    d = "%s/seeded/%s" % (V, b["id"])
    os.makedirs(d, exist_ok=True)
    reset()
    for f, old, new in b["edits"]:
        p = R + "/" + f
        s = open(p).read()
        assert s.count(old) == 1, (b["id"], f, s.count(old))
        open(p, "w").write(s.replace(old, new))
    open(d + "/patch.diff", "w").write(sh("git", "-C", R, "diff").stdout)
    f = None
    for l in open(d + "/patch.diff").read().splitlines():
        if l.startswith("+++ b/"):
            f = l[6:]
        elif l.startswith("-") and not l.startswith("---") and not original(f, l[1:]):
            print("  NOT ORIGINAL:", l, flush=True)
    open(d + "/meta.json", "w").write(json.dumps({"property": b["property"], "needs": b["needs"], "what_it_breaks": b["breaks"]}, indent=1) + "\n")
    open(d + "/demo.sh", "w").write(SH)
    open(d + "/demo.cc", "w").write(b["cc"])
    bs = build_script(b["libs"])
    if not any(PROTO[c] for c in b["libs"]):
        bs = "\n".join(l for l in bs.splitlines() if "protoc" not in l) + "\n"
    open(d + "/build.sh", "w").write(bs)
    shutil.rmtree(d + "/shims", ignore_errors=True)
    shutil.copytree(V + "/shims", d + "/shims")
    print(b["id"], flush=True)
    if "--try" in flags:
        r1 = sh("bash", d + "/demo.sh", cwd=R)
        print("  demo with the change:", r1.returncode, tail(r1), flush=True)
        r = sh("bash", W + "/ct/run.sh")
        print("  core tests failing:", [l[:150] for l in r.stdout.splitlines() if "rc=0" not in l], flush=True)
    if "--check" in flags:
        sh("rsync", "-a", "--delete", "--exclude", "/build", "--exclude", "/seeded", "--exclude", "/evidence", V + "/", W + "/verif/")
        for pid in b.get("checks", [b["property"]]):
            r = sh("python3", "bin/check.py", pid, "--tier", "quick", cwd=W + "/verif", env=dict(os.environ, VERIF_REPO=R, VERIF_SEED="1"))
            print("  check %s: rc=%d %s" % (pid, r.returncode, r.stdout.strip().splitlines()[-1:]), flush=True)
    reset()
    if "--try" in flags:
        r0 = sh("bash", d + "/demo.sh", cwd=R)
        print("  demo without:", r0.returncode, tail(r0), flush=True)
if __name__ == "__main__":
    m = runpy.run_path(sys.argv[1])
    only = [a for a in sys.argv[2:] if not a.startswith("--")]
    for b in m["BUGS"]:
        if not only or b["id"] in only:
            plant(b, sys.argv)
