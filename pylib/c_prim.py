"""F01 hash families, H01 fixed-key hash, R01 seeded streams, R02 basic generator."""
import vlib


def hexb(rng, n):
    return bytes(rng.randrange(256) for _ in range(n)).hex() or "-"


def hx(b):
    return b.hex()


def rb(rng, n):
    return bytes(rng.randrange(256) for _ in range(n))


BOUNDS = [1, 2, 3, 5, 7, 10, 64, 100, 255, 256, 257, 1000, 65535, 65536, 65537, 1 << 20, 1000003, (1 << 24) - 3,
          (1 << 30) - 1, 1 << 30, (1 << 30) + 1, (1 << 31) - 1, 1500000000]


def f01(ctx):
    rng, L = ctx.rng, []
    inputs = [b"", b"\0", b"a", b"abc", b"\0\0", b"\xff" * 16] + [rb(rng, n) for n in
             (1, 2, 5, 16, 31, 32, 33, 54, 55, 56, 57, 63, 64, 65, 100, 119, 120, 128, 130)]
    seeds = [b"", b"0", b"\0", b"seed", rb(rng, 16), rb(rng, 55), rb(rng, 64), rb(rng, 65), b"\xff\0\x80"]
    n = ctx.pick(40, 250)
    for rep in range(n):
        L.append("reset")
        # several functions alive at once, called in any order
        ids = 0
        for fam in ("sha", "sha", "farm"):
            ids += 1
            wraps = [rb(rng, rng.choice([0, 1, 3, 20])) for _ in range(rng.choice([0, 0, 1, 2, 3]))]
            w = (" wrap=" + ",".join(x.hex() or "-" for x in wraps)) if wraps else ""
            L.append("fn id=%d fam=%s seed=%s%s" % (ids, fam, hx(rng.choice(seeds)), w))
        k = rng.choice([-1, 0, 1, 2, 3, 11, 12, 101 if rep % 8 == 0 else 4])
        L.append("mk id=100 fam=%s n=%d seed=%s" % (rng.choice(["sha", "farm"]), k, hx(rng.choice(seeds))))
        L.append("cfg id=50 fam=%d seed=%s sub=%s" % (rng.choice([1, 1, 1, 0, 2, -1, 7]), hx(rng.choice(seeds)),
                                                     hx(rng.choice(seeds))))
        for _ in range(12):
            i = rng.choice([1, 2, 3, 50] + [100 + rng.randrange(k)] * 3 if k > 0 else [1, 2, 3, 50])
            L.append("%s id=%d in=%s ub=%d" % (rng.choice(["call"] * 4 + ["mv"]), i, hx(rng.choice(inputs)),
                                              rng.choice(BOUNDS)))
        if rep % 10 == 0:
            L.append("callmt id=%d ins=%s ub=%d nt=8 reps=300" % (
                rng.choice([1, 3]), ",".join(x.hex() or "-" for x in inputs[:8]), rng.choice(BOUNDS)))
    # every configuration value around the enum
    L.append("reset")
    for fam in (-1, 0, 1, 2, 3, 100):
        for s in ("", "00", "61", "6162"):
            L.append("cfg id=%d fam=%d seed=%s sub=30" % (60, fam, s))
            L.append("call id=60 in=6162 ub=1000003")
    # one call per bound and input for both families
    L.append("reset")
    L.append("fn id=1 fam=sha seed=%s" % hx(rb(rng, 9)))
    L.append("fn id=2 fam=farm seed=%s" % hx(rb(rng, 9)))
    for b in BOUNDS:
        for x in (rng.sample(inputs, 3) if ctx.quick else inputs):
            for i in (1, 2):
                L.append("call id=%d in=%s ub=%d" % (i, hx(x), b))
    L += ["reset", "big over=%d ub=2147483647 at=8,0,16" % rng.randrange(1, 1 << 20)]     # longer than 2^30 bytes
    if not ctx.quick:
        L += ["big over=%d ub=2147483647 at=8,0,16,1,15" % (1 << 30 | rng.randrange(1 << 20)), "big over=0 ub=2147483647 at=8,0,16", "big over=1 ub=2147483647 at=8,0,16"]
    ctx.conform("drv_prim", "PrimsTrace", L, chunk=None)
    model_derive(ctx)
    ctx.assumptions += ["the Farm fingerprint itself is the farmhash library's", "inputs up to 130 bytes are recomputed; "
                        "longer than 2^30 bytes: agreement between divisions into seed and input"]


def model_derive(ctx):
    ctx.model("HashFamiliesMC", "SPECIFICATION Spec\nCONSTANTS MaxLen=%d MaxBound=%d\nINVARIANTS InRange ModOk DerivedDistinct "
              "DigitsOk\n" % (2, ctx.pick(9, 17)), "families")


def h01(ctx):
    ctx.model("FixedKeyHashMC", "SPECIFICATION Spec\nCHECK_DEADLOCK FALSE\nCONSTANTS N=%d Batch=2 Threads={1}\nINVARIANT Correct\n"
              % ctx.pick(7, 9), "inplace")
    ctx.model("FixedKeyHashMC", "SPECIFICATION Spec\nCHECK_DEADLOCK FALSE\nCONSTANTS N=%d Batch=1 Threads={1,2}\nINVARIANT Correct\n"
              % ctx.pick(3, 4), "shared")
    rng, L = ctx.rng, []
    key = lambda: "%032x" % rng.getrandbits(128)
    keys = ["0", "f" * 32, "5be037ccf6a03de5935f08d0a5b6a2fd", "ef94b6aedebb026ce2ea1fe0f66f4d0b",
            "05a5d1588c5423e346a31101b21d1c98", "1", "8" + "0" * 31]
    lens = [0, 1, 2, 3, 5, 7, 8, 15, 16, 17, 31, 32, 33, 63, 64, 65, 66, 100, 127, 128, 129, 130, 191, 192, 193]
    if not ctx.quick:
        lens += [255, 256, 257, 320, 321, 640, 1000]
    for n in lens:                                   # separate buffers, then exactly in place
        L.append("fkh key=%s len=%d oi=1 oo=%d n=%d rs=%d" % (key(), 2 * n + 3, n + 2, n, rng.randrange(1, 1 << 30)))
        L.append("fkh key=%s len=%d oi=1 oo=1 n=%d rs=%d" % (rng.choice(keys), n + 2, n, rng.randrange(1, 1 << 30)))
        for s in rng.sample([1, 2, 3, 63, 64, 65], 2):   # overlapping by a shift, both directions
            L.append("fkh key=%s len=%d oi=0 oo=%d n=%d rs=%d" % (key(), n + s + 1, s, n, rng.randrange(1, 1 << 30)))
            L.append("fkh key=%s len=%d oi=%d oo=0 n=%d rs=%d" % (key(), n + s + 1, s, n, rng.randrange(1, 1 << 30)))
    for k in keys:
        for pat in ("zero", "ones", "bit"):
            L.append("fkh key=%s len=256 oi=0 oo=128 n=128 pat=%s rs=1" % (k, pat) if pat == "bit" else
                     "fkh key=%s len=4 oi=0 oo=2 n=2 pat=%s rs=1" % (k, pat))
    for n in (0, 1, 5, 64, 65):                      # unequal sizes, object moved around
        for m in (0, 1, 2, n + 1, 63, 64):
            if m != n:
                L.append("fkh key=%s len=140 oi=0 oo=70 n=%d m=%d rs=%d" % (key(), n, m, rng.randrange(1, 1 << 30)))
        L.append("fkh key=%s len=140 oi=0 oo=70 n=%d mv rs=%d" % (key(), n, rng.randrange(1, 1 << 30)))
    for _ in range(ctx.pick(60, 600)):
        n = rng.randint(1, 40)
        L.append("fkh key=%s len=120 oi=%d oo=%d n=%d rs=%d" % (key(), rng.randint(0, 80), rng.randint(0, 80), n,
                                                               rng.randrange(1, 1 << 30)))
    for n in (1, 7, 64, 65, 130):
        L.append("fkhmt key=%s nt=8 n=%d reps=%d rs=%d" % (key(), n, ctx.pick(3000, 20000), rng.randrange(1, 1 << 30)))
    ctx.conform("drv_prim", "PrimsTrace", L, reset=None)
    ctx.assumptions += ["AES as defined in AES.tla (checked against FIPS-197)",
                        "thread interleavings are those that occurred in the repeated runs"]


def r01(ctx):
    rng, L = ctx.rng, []
    r = ctx.model("StreamsMC", "SPECIFICATION Spec\nCHECK_DEADLOCK FALSE\nCONSTANTS B=3 M=3 MaxReq=%d MaxLen=%d "
                  "PrintScripts=TRUE\nINVARIANTS Chunking Script\n" % (ctx.pick(4, 6), ctx.pick(3, 4)), "chunking")
    sc = vlib.scripts_of(r)
    rng.shuffle(sc)
    wrap = ["ff" * 16, "00" * 15 + "ff", "00" * 8 + "ff" * 8, "ff" * 15 + "fe", "00" * 16, "7f" + "ff" * 15,
            "00" * 14 + "ffff", "ff" * 12 + "fffffffd"]
    # model behaviours: a model request of n bytes with B=3 is scaled so that block ends fall alike
    scale = {0: 0, 1: 5, 2: 11, 3: 16, 4: 21, 5: 27, 6: 32}
    for s in sc[:ctx.pick(120, 1500)]:
        L.append("reset")
        L.append("prng id=1 seed=%s nonce=%s" % (rb(rng, 16).hex(), wrap[s["nonce"] % len(wrap)] if rng.random() < .6 else
                                                rb(rng, 16).hex()))
        for q in s["reqs"]:
            L.append("get id=1 n=%d" % scale[q])
    # interleaved generators sharing seeds or nonces, irregular sizes
    for _ in range(ctx.pick(60, 500)):
        L.append("reset")
        s1, n1 = rb(rng, 16).hex(), rng.choice(wrap + [rb(rng, 16).hex()])
        L.append("prng id=1 seed=%s nonce=%s" % (s1, n1))
        L.append("prng id=2 seed=%s nonce=%s" % (s1, rng.choice([n1, rb(rng, 16).hex()])))
        L.append("prng id=3 seed=%s" % rng.choice([s1, "00" * 16, "ff" * 16]))
        for _ in range(12):
            L.append("get id=%d n=%d" % (rng.randint(1, 3), rng.choice([0, 1, 2, 3, 7, 8, 15, 16, 17, 31, 32, 33, 40])))
    # long draws
    L.append("reset")
    L.append("prng id=1 seed=%s nonce=%s" % (rb(rng, 16).hex(), "ff" * 14 + "0000"))
    for n in (1000, 4096, 65521, 300000, 1 << 20) + (() if ctx.quick else (1 << 24, (1 << 24) + 5)):
        L.append("skip id=1 n=%d tail=20" % n)
        L.append("get id=1 n=13")
    # wrong sizes
    L.append("reset")
    for a in (0, 1, 8, 15, 16, 17, 24, 32):
        for b in (None, 0, 1, 8, 12, 15, 16, 17, 32):
            L.append("prng id=9 seed=%s" % rb(rng, a).hex() + ("" if b is None else " nonce=%s" % rb(rng, b).hex()))
    L.append("seeds n=%d" % ctx.pick(200, 400))
    ctx.conform("drv_prim", "PrimsTrace", L)
    ctx.assumptions += ["freshness of generated seeds: distinctness and full linear rank of 200+ seeds (false alarm < 2^-60)"]


def r02(ctx):
    rng, L = ctx.rng, []
    for i in range(ctx.pick(3, 12)):
        L.append("reset")
        for k in (1, 2):
            w = [8] * 200 + [64] * 140 + [128] * 200
            rng.shuffle(w)
            if i == 0 and k == 1:
                w = [8] * 200 + [64] * 140 + [128] * 200
            L.append("rng id=%d seed=%s w=%s" % (k, rb(rng, rng.choice([0, 4, 16])).hex(), ",".join(map(str, w))))
    # two generators together must not repeat each other: one long merged history
    for _ in range(2):
        for w in (8, 64, 128):
            L.append("rngfail w=%d" % w)
    ctx.model("RankMC", "SPECIFICATION Spec\nINVARIANT RankOk\n", "rank")
    ctx.conform("drv_prim", "PrimsTrace", L, reset=("new",), chunk=1)
    ctx.assumptions += ["randomness quality is judged by distinctness and affine rank only"]


CHECKS = {"F01": f01, "H01": h01, "R01": r01, "R02": r02}
