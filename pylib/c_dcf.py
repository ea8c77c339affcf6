"""C01, M01: comparison functions and the interval gate."""
import c_dpf
from c_dpf import (TYPES, UINTS, XORS, MODS, MODTUPS, TUPS, LIGHT, ODDTYPES, BADTYPES, Gen, hexes, leaves, top_mods,
                   value_text, bad_value, BIG, key_muts, tree_levels, epb)


def edge(rng, n, also=()):
    top = (1 << n) - 1
    c = [0, 1, top, top - 1, 1 << (n - 1), (1 << (n - 1)) - 1, rng.getrandbits(n), rng.getrandbits(n), rng.getrandbits(n)]
    for a in also:
        c += [a, a - 1, a + 1, a ^ (1 << rng.randrange(n)), a ^ 1, (a >> rng.randrange(n)) << rng.randrange(n)]
    return max(0, min(top, rng.choice(c) & top if rng.random() < .9 else rng.choice(c)))


def fits(t, n):
    """The security a value type leaves suffices for all levels of an n-bit domain."""
    return top_mods(t) >= 40 + n


def dcf_models(ctx):
    ctx.model("DcfMC", "SPECIFICATION Spec\nCHECK_DEADLOCK FALSE\nCONSTANTS MaxN=%d M=3 MaxG=3 Mode=\"dcf\"\nINVARIANT DcfCorrect\n"
              % ctx.pick(4, 6), "dcf")


def c01(ctx):
    dcf_models(ctx)
    rng, L = ctx.rng, []
    g = Gen(rng)
    did = 0
    kid = 0

    def reset():
        nonlocal did, kid
        L.append("reset")
        did = kid = 0

    def dcf(t, n, sec=""):
        nonlocal did
        did += 1
        L.append("dcf id=%d lv=%d|%s|%s" % (did, n, t, sec))
        return did

    def gen(d, t, alpha, beta, full=False, val=False):
        nonlocal kid
        kid += 1
        L.append("gen id=%d d=%d alpha=%x beta=%s%s%s" % (kid, d, alpha, hexes(beta), " full" if full else "", " val" if val else ""))
        return kid

    # small domains, all points
    for t in TYPES:
        reset()
        for n in rng.sample([1, 2, 3, 4, 5, 6], ctx.pick(2, 6)):
            if not fits(t, n):
                continue
            d = dcf(t, n)
            alphas = list(range(1 << n)) if n <= ctx.pick(2, 5) else rng.sample(range(1 << n), 5) + [0, (1 << n) - 1]
            for i, a in enumerate(alphas):
                k = gen(d, t, a, g.val(t), val=(i > 0 or t in UINTS) and rng.random() < .4)
                if rng.random() < .2:
                    L.append("ser k=%d" % (2 * k))
                L.append("pair id=%d mode=%d xs=%s" % (k, rng.randrange(3), ",".join("%x" % x for x in range(1 << n))))
    # wide domains, points around alpha
    for t in TYPES:
        for _ in range(ctx.pick(2, 10)):
            n = rng.choice([7, 8, 9, 12, 13, 16, 20, 31, 32, 33, 40, 63, 64, 65, 80, 100, 126, 127, 128, 128])
            if not fits(t, n):
                n = max(1, int(top_mods(t) - 40 - rng.randrange(1, 3)))
                if not fits(t, n):
                    continue
            n = min(n, 128)
            reset()
            d = dcf(t, n)
            for _ in range(ctx.pick(2, 4)):
                a = edge(rng, n)
                k = gen(d, t, a, g.val(t))
                xs = [edge(rng, n, (a,)) for _ in range(rng.choice([1, 3, 9, 17]))]
                xs += [max(0, a - 1), a, min((1 << n) - 1, a + 1)]
                L.append("pair id=%d mode=%d xs=%s" % (k, rng.randrange(3), ",".join("%x" % x for x in xs)))
    # many keys and points at once; exact bits
    for t in rng.sample(TYPES, ctx.pick(14, len(TYPES))) + ["u64", "u128", "x128"]:
        reset()
        n = rng.choice([1, 2, 4, 5, 8, 10] + ([16, 24] if rng.random() < .3 else []))
        if not fits(t, n):
            continue
        d = dcf(t, n)
        ks = []
        for i in range(ctx.pick(3, 5)):
            ks.append((gen(d, t, edge(rng, n), g.val(t), full=True),))
        ids = [2 * k[0] + p for k in ks for p in (0, 1)]
        for m in (0, 1, 2, 3, 7, 8, 9):
            kk = [rng.choice(ids) for _ in range(m)]
            L.append("eval d=%d ks=%s xs=%s mode=%d" % (d, ",".join(map(str, kk)), ",".join("%x" % edge(rng, n) for _ in kk), rng.randrange(3)))
    reset()
    d = dcf("u32", 128)
    k = gen(d, "u32", rng.getrandbits(128), [7], full=True)
    L.append("eval d=%d ks=%d,%d xs=%x,%x mode=0" % (d, 2 * k, 2 * k + 1, rng.getrandbits(128), rng.getrandbits(128)))
    # bigger batches, judged by the single evaluations
    for t, n, m in [("u64", 10, 65), ("u128", 64, 33), ("(u32,u64)", 20, 70), ("x64", 5, 128), ("m64:1000003", 12, 40)]:
        reset()
        d = dcf(t, n)
        ids = []
        for _ in range(6):
            k = gen(d, t, edge(rng, n), g.val(t))
            ids += [2 * k, 2 * k + 1]
        kk = [rng.choice(ids) for _ in range(m)]
        L.append("eval d=%d ks=%s xs=%s mode=%d" % (d, ",".join(map(str, kk)), ",".join("%x" % edge(rng, n) for _ in kk), rng.randrange(3)))
    # hundreds of keys at once; values of many blocks
    for t, n, nk, m in [("u64", 12, 40, 300), ("(u8,u16)", 64, 20, 515), ("u32", 5, 300, 1031), ("x128", 128, 3, 130)] + [
            (t, rng.choice([3, 9]), 2, 6) for t in BIG] + [(rng.choice(LIGHT), rng.choice([2, 20, 90]), 30, rng.choice([129, 257, 700]))
                                                           for _ in range(ctx.pick(1, 12))]:
        if not fits(t, n):
            continue
        reset()
        d = dcf(t, n)
        al, ids = {}, []
        for _ in range(nk):
            a = edge(rng, n)
            k = gen(d, t, a, g.val(t))
            al[k] = a
            ids += [2 * k, 2 * k + 1]
        kk = [rng.choice(ids) for _ in range(m)]
        L.append("eval d=%d ks=%s xs=%s mode=%d" % (d, ",".join(map(str, kk)), ",".join("%x" % edge(rng, n, (al[k // 2],)) for k in kk), rng.randrange(3)))
        k = ids[0] // 2
        L.append("pair id=%d mode=%d xs=%s" % (k, rng.randrange(3), ",".join("%x" % edge(rng, n, (al[k],)) for _ in range(m))))
    # threads sharing the object
    for t, n in [("u64", 10), ("u128", 100), ("(u32,u64)", 6)] + [(rng.choice(TYPES), rng.choice([2, 5, 9])) for _ in range(ctx.pick(3, 12))]:
        if not fits(t, n):
            continue
        reset()
        d = dcf(t, n)
        ids = []
        for _ in range(3):
            k = gen(d, t, edge(rng, n), g.val(t))
            ids += [2 * k, 2 * k + 1]
        kk = [rng.choice(ids) for _ in range(9)]
        L.append("mt d=%d ks=%s xs=%s nt=8 reps=%d" % (d, ",".join(map(str, kk)), ",".join("%x" % edge(rng, n) for _ in kk), ctx.pick(40, 300)))
    # parameters
    reset()
    for t in TYPES + ODDTYPES + BADTYPES:
        for n in rng.sample([0, 1, 2, 5, 20, 40, 64, 90, 128, 129, -1, 200, 1000], ctx.pick(4, 9)):
            did += 1
            L.append("dcf id=%d lv=%d|%s|%s" % (did, n, t, rng.choice(["", "", "", "40", "0", "128", "129", "-1", "nan", "60.5", "inf"])))
    for n in (2000000000, -2000000000):
        L.append("dcf id=9000 lv=%d|u8|" % n)
    L.append("dcf id=9001 lv=none")
    # arguments
    for t in ["u8", "u32", "u128", "x16", "(u8,u16)", "m32:4294967291", "(m8:251,m8:251)"] + rng.sample(TYPES, ctx.pick(4, 20)):
        for n in rng.sample([1, 3, 8, 33, 127, 128], 2):
            if not fits(t, n):
                n = 1
                if not fits(t, n):
                    continue
            reset()
            d = dcf(t, n)
            top = (1 << n) - 1
            for _ in range(2):                       # before and after the type is registered
                for a in (0, top, rng.getrandbits(n)):
                    for _ in range(2):
                        kid += 1
                        L.append("gen id=%d d=%d alpha=%x raw=%s" % (kid, d, a, bad_value(rng, t, g.val(t))))
                    kid += 1
                    L.append("gen id=%d d=%d alpha=%x raw=%s" % (kid, d, a, value_text(t, g.val(t))))
                if n < 128:
                    for a in (top + 1, (1 << 127) | 1, 1 << n | 1):
                        gen(d, t, a, g.val(t))
                k = gen(d, t, rng.getrandbits(n), g.val(t))
            ids = [2 * k, 2 * k + 1]
            for m in range(ctx.pick(10, 40)):
                kk = [rng.choice(ids) for _ in range(rng.choice([0, 1, 1, 2, 3, 5]))]
                xs = [edge(rng, n) for _ in kk]
                osz, mode, tt = len(kk), rng.randrange(3), ""
                r = rng.random()
                if r < .25 and n < 128 and xs:
                    xs[rng.randrange(len(xs))] = rng.choice([top + 1, top + 1 + rng.getrandbits(n), (1 << 128) - 1])
                elif r < .45:
                    xs = xs + [0] if rng.random() < .5 or not xs else xs[:-1]
                elif r < .6:
                    mode, osz = 2, max(0, osz + rng.choice([-1, 1, 3]))
                elif r < .75:
                    tt = " t=" + rng.choice([x for x in ["u8", "u16", "u64", "u128", "x8", "x16", "(u8,u8)"] if x != t])
                L.append("eval d=%d ks=%s xs=%s mode=%d osz=%d%s" % (d, ",".join(map(str, kk)), ",".join("%x" % x for x in xs), mode, osz, tt))
            lv = [(i, t) for i in range(n)]
            muts = rng.sample(key_muts(rng, lv, g), ctx.pick(6, 30)) if len(key_muts(rng, lv, g)) > 30 else key_muts(rng, lv, g)
            for m in muts[:ctx.pick(8, 60)] + ["nokey"]:
                L.append("mkey k=500 from=%d mut=%s" % (ids[0], m))
                L.append("eval d=%d ks=500,%d xs=%x,%x mode=%d" % (d, ids[1], edge(rng, n), edge(rng, n), rng.randrange(3)))
                L.append("eval d=%d ks=500 xs=%x mode=0" % (d, edge(rng, n)))
    ctx.conform("drv_dcf", "DcfTrace", L, reset=("new",), consts="CONSTRAINT Exact\n")


def m01(ctx):
    ctx.model("DcfMC", "SPECIFICATION Spec\nCHECK_DEADLOCK FALSE\nCONSTANTS MaxN=1 M=2 MaxG=%d Mode=\"mic\"\nINVARIANT MicCorrect\n"
              % ctx.pick(4, 5), "gate")
    rng, L = ctx.rng, []
    mid = pid = 0

    def reset():
        nonlocal mid, pid
        L.append("reset")
        mid = pid = 0

    def bound(v):
        return "u%x" % v if v < 1 << 64 and rng.random() < .5 else "w%x" % v

    def mic(n, ivs):
        nonlocal mid
        mid += 1
        L.append("mic id=%d n=%d iv=%s" % (mid, n, ";".join("%s:%s" % (bound(p), bound(q)) for p, q in ivs)))
        return mid

    def mgen(m, rin, rout):
        nonlocal pid
        pid += 1
        L.append("mgen id=%d m=%d rin=%x rout=%s" % (pid, m, rin, ",".join("%x" % r for r in rout)))
        return pid

    def interval(n):
        p, q = edge(rng, n), edge(rng, n)
        if rng.random() < .15:
            q = p
        elif rng.random() < .1:
            p, q = 0, (1 << n) - 1
        return (min(p, q), max(p, q))

    for n in (1, 2, 3):                      # every interval, mask and input
        top = (1 << n) - 1
        ivs = [(p, q) for p in range(top + 1) for q in range(p, top + 1)]
        for rin in range(top + 1):
            reset()
            use = ivs if n < 3 or not ctx.quick else rng.sample(ivs, 12)
            m = mic(n, use)
            p = mgen(m, rin, [rng.randint(0, top) for _ in use])
            L.append("mpair m=%d ids=%s xs=%s" % (m, ",".join([str(p)] * (top + 1)), ",".join("%x" % x for x in range(top + 1))))
    for _ in range(ctx.pick(60, 600)):
        reset()
        n = rng.choice([1, 2, 4, 5, 7, 8, 10, 16, 31, 32, 33, 63, 64, 65, 96, 126, 127, 127])
        ivs = [interval(n) for _ in range(rng.choice([1, 1, 2, 3, 5, 9]))]
        m = mic(n, ivs)
        ids = []
        rins = []
        for _ in range(rng.choice([1, 2, 3])):
            rins.append(edge(rng, n))
            ids.append(mgen(m, rins[-1], [edge(rng, n) for _ in ivs]))
            if rng.random() < .3:
                L.append("mser k=%d" % (2 * ids[-1] + rng.randrange(2)))
        pos = []
        for i, r in zip(ids, rins):
            for p, q in ivs:
                for u in (p - 1, p, p + 1, q - 1, q, q + 1, edge(rng, n, (p, q))):
                    pos.append((i, (u + r) % (1 << n)))
            pos += [(i, 0), (i, (1 << n) - 1), (i, r), (i, edge(rng, n))]
        rng.shuffle(pos)
        pos = pos[:ctx.pick(24, 60)]
        L.append("mpair m=%d ids=%s xs=%s" % (m, ",".join(str(i) for i, _ in pos), ",".join("%x" % x for _, x in pos)))
        kk = [2 * i + rng.randrange(2) for i, _ in pos[:rng.choice([0, 1, 3, 6])]]
        L.append("meval m=%d ks=%s xs=%s%s" % (m, ",".join(map(str, kk)), ",".join("%x" % x for _, x in pos[:len(kk)]), rng.choice(["", " copy"])))
    for n, ni, m in [(10, 40, 20), (64, 3, 300), (127, 100, 2), (8, 1, 600)] + [(20, 300, 1)] * ctx.pick(0, 1):    # many intervals, many inputs
        reset()
        ivs = [interval(n) for _ in range(ni)]
        mm = mic(n, ivs)
        r = [edge(rng, n) for _ in range(3)]
        ids = [mgen(mm, x, [edge(rng, n) for _ in ivs]) for x in r]
        pos = []
        for _ in range(m):
            j = rng.randrange(3)
            u = edge(rng, n, rng.choice(ivs))
            pos.append((ids[j], (u + r[j]) % (1 << n)))
        L.append("mpair m=%d ids=%s xs=%s" % (mm, ",".join(str(i) for i, _ in pos), ",".join("%x" % x for _, x in pos)))
        L.append("meval m=%d ks=%s xs=%s" % (mm, ",".join(str(2 * i + rng.randrange(2)) for i, _ in pos), ",".join("%x" % x for _, x in pos)))
    for n in (1, 5, 64, 127):                # threads sharing the gate
        reset()
        m = mic(n, [interval(n) for _ in range(3)])
        ids = [mgen(m, edge(rng, n), [edge(rng, n) for _ in range(3)]) for _ in range(3)]
        kk = [2 * rng.choice(ids) + rng.randrange(2) for _ in range(7)]
        L.append("mmt m=%d ks=%s xs=%s nt=8 reps=%d" % (m, ",".join(map(str, kk)), ",".join("%x" % edge(rng, n) for _ in kk), ctx.pick(20, 200)))
    # what is refused
    reset()
    for _ in range(ctx.pick(80, 600)):
        n = rng.choice([0, -1, 1, 2, 5, 32, 63, 64, 65, 100, 127, 128, 129, 1000])
        nn = max(1, min(n, 127))
        ivs = []
        for _ in range(rng.choice([0, 1, 2, 3])):
            p, q = interval(nn)
            p, q = bound(p), bound(q)
            ivs.append([p, q])
        if ivs and rng.random() < .7:
            i, top = rng.randrange(len(ivs)), (1 << nn) - 1
            p, q = interval(nn)
            ivs[i] = rng.choice([["-", bound(q)], [bound(p), "-"], ["0", bound(q)], [bound(p), "0"], [bound(q), bound(p)],
                                 [bound(p), "w%x" % (top + 1)], ["w%x" % (top + 1), "w%x" % (top + 1)], [bound(p), "w" + "f" * 32],
                                 ["w1" + "0" * 16, "u0"], ["-", "-"], [bound(p), "w%x" % (p | 1 << 127 if nn < 127 else p)]])
        mid += 1
        L.append("mic id=%d n=%d iv=%s" % (mid, n, ";".join(":".join(x) for x in ivs)))
    for n in (1, 8, 64, 127):
        for ni in (0, 1, 3):
            reset()
            m = mic(n, [interval(n) for _ in range(ni)])
            top = (1 << n) - 1
            for _ in range(2):
                rout = [edge(rng, n) for _ in range(ni)]
                mgen(m, edge(rng, n), rout + [0])
                if rout:
                    mgen(m, edge(rng, n), rout[:-1])
                    mgen(m, edge(rng, n), rout[:-1] + [top + 1 + rng.getrandbits(n)])
                    mgen(m, edge(rng, n), [(1 << 128) - 1] + rout[1:])
                for x in (top + 1, (1 << 128) - 1, 1 << 127 | top):
                    mgen(m, x, rout)
                k = mgen(m, edge(rng, n), rout)
            ids = [2 * k, 2 * k + 1]
            for _ in range(ctx.pick(6, 30)):
                kk = [rng.choice(ids) for _ in range(rng.choice([0, 1, 2, 4]))]
                xs = [edge(rng, n) for _ in kk]
                if rng.random() < .4:
                    xs = xs + [0] if rng.random() < .5 or not xs else xs[:-1]
                elif xs and rng.random() < .5:
                    xs[rng.randrange(len(xs))] = rng.choice([top + 1, (1 << 128) - 1, top + 1 + rng.getrandbits(n)])
                L.append("meval m=%d ks=%s xs=%s%s" % (m, ",".join(map(str, kk)), ",".join("%x" % x for x in xs), rng.choice(["", " copy"])))
            muts = ["addz", "noz", "nodcf", "party:2", "noseed", "dropcw", "addcw", "nolast", "droplast", "addlast"] + (
                ["dropz"] + ["z:%d:%s" % (rng.randrange(ni), v) for v in ("0", "u5", "w" + "f" * 32)] if ni else []) + (["novc:0"] if n > 1 else [])
            for mu in muts:
                if n == 1 and mu == "dropcw":       # such keys have no correction words
                    continue
                L.append("mmkey k=500 from=%d mut=%s" % (rng.choice(ids), mu))
                L.append("meval m=%d ks=500 xs=%x" % (m, edge(rng, n)))
                L.append("meval m=%d ks=%d,500 xs=%x,%x copy" % (m, ids[0], edge(rng, n), edge(rng, n)))
    for n, ni in [(64, 1), (127, 3), (16, 2), (3, 3), (1, 2)]:
        reset()
        m = mic(n, [interval(n) for _ in range(ni)])
        L.append("mfresh m=%d rin=%x n=200 rout=%s" % (m, edge(rng, n), ",".join("%x" % edge(rng, n) for _ in range(ni))))
    ctx.conform("drv_dcf", "DcfTrace", L, reset=("new",), consts="CONSTRAINT Exact\n")


def m02(ctx):
    ctx.model("DcfMC", "SPECIFICATION Spec\nCHECK_DEADLOCK FALSE\nCONSTANTS MaxN=1 M=2 MaxG=%d Mode=\"mic\"\nINVARIANT MicCorrect\n"
              % ctx.pick(4, 5), "gate")
    rng, L = ctx.rng, []

    def bound(v):
        return "u%x" % v if v < 1 << 64 and rng.random() < .5 else "w%x" % v

    def interval(n):
        p, q = edge(rng, n), edge(rng, n)
        if rng.random() < .2:
            q = p
        elif rng.random() < .1:
            p, q = 0, (1 << n) - 1
        return (min(p, q), max(p, q))

    def world(n, ni, nk, npos):
        L.append("reset")
        ivs = [interval(n) for _ in range(ni)]
        L.append("mic id=1 n=%d iv=%s" % (n, ";".join("%s:%s" % (bound(p), bound(q)) for p, q in ivs)))
        r = {}
        for k in range(1, nk + 1):
            r[k] = edge(rng, n, [x for iv in ivs for x in iv])
            L.append("mgen id=%d m=1 rin=%x rout=%s full" % (k, r[k], ",".join("%x" % edge(rng, n) for _ in ivs)))
        kk, xs = [], []
        for _ in range(npos):
            k = rng.randint(1, nk)
            u = edge(rng, n, rng.choice(ivs)) if ivs else edge(rng, n)
            for p in (0, 1):
                kk.append(2 * k + p)
                xs.append((u + r[k]) % (1 << n))
        L.append("meval m=1 ks=%s xs=%s%s" % (",".join(map(str, kk)), ",".join("%x" % x for x in xs), rng.choice(["", " copy"])))
        return ni

    for n in (1, 2, 3):                      # every mask of small groups
        for rin in range(1 << n):
            L.append("reset")
            iv = interval(n)
            L.append("mic id=1 n=%d iv=%s" % (n, ";".join("%s:%s" % (bound(p), bound(q)) for p, q in [iv, interval(n)])))
            L.append("mgen id=1 m=1 rin=%x rout=%x,%x full" % (rin, edge(rng, n), edge(rng, n)))
            xs = [x for x in range(1 << n) for _ in (0, 1)]
            L.append("meval m=1 ks=%s xs=%s" % (",".join(["2", "3"] * (1 << n)), ",".join("%x" % x for x in xs)))
    for n in [5, 8, 10, 16, 24, 31, 32, 33] + ([63, 64, 65, 100, 126, 127] * 3 if not ctx.quick else [64, 127]):
        for _ in range(ctx.pick(3, 8)):
            world(n, rng.choice([1, 2, 3, 4]), rng.choice([1, 2]), 2 if n > 30 else 4)
            if n <= 16:
                # any share of an output mask is added as it stands; other parties' keys and changed corrections as well
                muts = ["z:0:%s" % v for v in ("u0", "u5", "w" + "f" * 32, "w%x" % rng.getrandbits(128))] + ["party:0", "party:1"]
                for mu in rng.sample(muts, 3):
                    L.append("mmkey k=500 from=%d mut=%s" % (2 + rng.randrange(2), mu))
                    L.append("meval m=1 ks=500 xs=%x" % edge(rng, n))
    world(6, 33, 2, 3)
    world(12, 2, 30, 40)
    ctx.conform("drv_dcf", "DcfTrace", L, reset=("new",), consts="CONSTRAINT Exact\n", chunk=20)


CHECKS = {"C01": c01, "M01": m01, "M02": m02}
