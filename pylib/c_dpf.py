"""D01-D07: distributed point functions."""
import math, re
import vlib

UINTS = ["u8", "u16", "u32", "u64", "u128"]
XORS = ["x8", "x16", "x32", "x64", "x128"]
MODS = ["m8:251", "m8:2", "m16:65521", "m32:4294967291", "m32:3", "m32:2147483648", "m64:18446744073709551557",
        "m64:1000003", "m128:1208925819614629174706111", "m128:18446744073709551629"]
MODTUPS = ["(m32:4294967291,m32:4294967291,m32:4294967291)", "(m8:251,m8:251)"]
TUPS = ["(u8)", "(u8,u8)", "(u8,u16)", "(u32,u64)", "(u64,u64)", "(u32,u32,u32)", "(u64,u64,u64)", "(u128,u128)",
        "(x8,u8)", "((u8,u16),u32)", "(x64,(u8,x32))"]
MIXED = ["(u32,m32:4294967291)", "(m32:4294967291,u32)", "(m64:18446744073709551557,u8,u128)",
         "(u8,m16:65521,x16,m16:65521)", "(m32:3,(m32:4294967291,u16),u8)", "((m8:251,u8),(m8:2,x8))",
         "(m32:4294967291,m32:4294967291,(u128,u128,u128))", "(m64:1000003,u32,u32,u32,u32)"]
TYPES = UINTS + XORS + MODS + MODTUPS + TUPS + MIXED
BIG = ["(" + ",".join(n * [t]) + ")" for t, n in (("u8", 16), ("u8", 17), ("u128", 18), ("m64:1000003", 36))]
LIGHT = UINTS + XORS + TUPS


def leaves(t):
    """[(kind, bits, modulus)] of a textual type."""
    out = []
    for k, b, _, n in re.findall(r"([uxmw])(\d+)(:(\d+))?", t):
        out.append((k, int(b), int(n) if n else None))
    return out


def direct(t):
    return all(k in "ux" for k, _, _ in leaves(t))


def total(t):
    return sum(b for _, b, _ in leaves(t))


def epb(t):
    return 128 // total(t) if direct(t) and total(t) <= 128 else 1


def logbits(t):
    return 7 if not direct(t) or total(t) > 128 else math.ceil(math.log2(total(t)))


def tree_levels(levels):
    r, least = [], 0
    for ld, t in levels:
        tl = max(least, ld - 7 + logbits(t))
        r.append(tl)
        least = tl + 1
    return r


def top_mods(t):
    """(modulus, count, others) groups: conservative security available, in bits."""
    ls = leaves(t)
    mods = [n for k, _, n in ls if k == "m"]
    if not mods:
        return 200.0
    n, c = max(mods), len(mods)
    return 131 - math.log2(n) - math.log2(c) - math.log2(c + 1) - math.log2(max(1, len(ls)))


def hexes(vs):
    return ",".join("%x" % v for v in vs)


class Gen:
    """Random but structured DPF scenarios."""

    def __init__(self, rng):
        self.rng, self.L, self.nid = rng, [], 0

    def reset(self):
        self.L.append("reset")
        self.nid = 0
        self.dpf = {}

    def leafval(self, k, b, n):
        r = self.rng
        top = n if n else 1 << b
        return r.choice([0, 1 % top, top - 1, (top >> 1) % top, r.randrange(top), r.randrange(top), r.randrange(top)])

    def val(self, t):
        return [self.leafval(*l) for l in leaves(t)]

    def sec(self, ld, t):
        """Security parameter text so that the level is accepted ('' = default)."""
        s = top_mods(t)
        if s >= 40 + ld + 0.01:
            return self.rng.choice(["", "", "%d" % self.rng.randint(0, 40)])
        return "%d" % max(1, min(40, int(s - 1)))

    def new(self, levels, ident=None, inc=False):
        """levels: [(ld, type)]"""
        i = self.nid if ident is None else ident
        self.nid += 1
        self.L.append("dpf id=%d lv=%s%s" % (i, ";".join("%d|%s|%s" % (ld, t, self.sec(ld, t)) for ld, t in levels),
                                            " inc" if inc else ""))
        self.dpf[i] = levels
        return i

    def gen(self, d, ident, alpha=None, betas=None, full=False, mode=0):
        levels = self.dpf[d]
        last = levels[-1][0]
        if alpha is None:
            alpha = self.alpha(last)
        if betas is None:
            betas = [self.val(t) for _, t in levels]
        self.L.append("gen id=%d d=%d alpha=%x betas=%s mode=%d%s" % (
            ident, d, alpha, "/".join(hexes(b) for b in betas), mode, " full" if full else ""))
        return alpha, betas

    def alpha(self, ld):
        r, top = self.rng, (1 << ld) - 1
        return r.choice([0, top, 1 & top, top >> 1, (top >> 1) + 1 if ld else 0, r.getrandbits(ld) if ld else 0,
                         r.getrandbits(ld) if ld else 0, r.getrandbits(ld) if ld else 0,
                         (1 << (ld - 1)) if ld else 0]) & top

    def points(self, levels, h, alpha, n):
        """Points of level h around alpha's prefix."""
        r = self.rng
        ld = levels[h][0]
        a = alpha >> (levels[-1][0] - ld)
        top = (1 << ld) - 1
        tl = tree_levels(levels)[h]
        c = [a, 0, top, a ^ 1, a + 1, a - 1, a ^ (1 << max(0, ld - 1)), a ^ (1 << r.randrange(max(1, ld))),
             a ^ (1 << r.randrange(max(1, ld))), a ^ (1 << max(0, ld - tl)), a ^ (1 << max(0, ld - tl - 1)),
             a ^ (a & -a), a | (1 << min(63, max(0, ld - 1))), a ^ (1 << 64), a ^ (1 << 63),
             r.getrandbits(ld) if ld else 0, a + (1 << max(0, ld - tl)), ~a]
        r.shuffle(c)
        return [x & top for x in [a] + c][:n] if n > 1 else [c[0] & top]

    def lds(self, n, mx, first=None, gaps=(1, 2, 3, 5, 8, 20, 40)):
        r = self.rng
        ld = first if first is not None else r.choice([0, 0, 1, 2, 3, 5, 7])
        out = []
        for _ in range(n):
            if ld > mx:
                break
            out.append(ld)
            ld += r.choice(gaps)
        return out or [min(mx, ld)]

    def levels(self, n, mx=128, types=TYPES, same=False, first=None, gaps=(1, 2, 3, 5, 8, 20, 40)):
        r = self.rng
        t0 = r.choice(types)
        return [(ld, t0 if same else r.choice(types)) for ld in self.lds(n, mx, first, gaps)]

    def extreme(self, types=TYPES):
        """A small first level of packed values, then levels far away, up to the largest domain."""
        r = self.rng
        lv = [(r.choice([0, 1, 1, 2, 3, 4]), r.choice(["u8", "u16", "x8", "x16", "(u8,u8)", "u32", "(u8)"]))]
        if r.random() < .4:
            lv.append((r.choice([64, 65, 90, 120]), r.choice(types)))
        lv.append((r.choice([124, 126, 127, 128, 128, 128]), r.choice(types)))
        return lv

    def topalpha(self, ld):
        r = self.rng
        return r.getrandbits(ld) | (r.choice([1, 3, 2, 7]) << max(0, ld - 3)) & ((1 << ld) - 1)

    def walk(self, levels, alpha, maxout=96, hs=None):
        """Steps lv:prefixes for a whole hierarchy walk with at most maxout outputs per step."""
        r = self.rng
        steps, prev, pre = [], -1, []
        while True:
            rest = [h for h in range(prev + 1, len(levels))]
            if not rest:
                break
            base = 0 if prev < 0 else levels[prev][0]
            ok = [h for h in rest if levels[h][0] - base <= int(math.log2(maxout))]
            if not ok:
                break
            h = r.choice(ok) if r.random() < .4 else ok[0]
            gap = levels[h][0] - base
            if prev < 0:
                steps.append("%d" % h)
                known = None
            else:
                m = max(1, min(len(pre) if False else maxout >> gap, 6))
                ld = levels[prev][0]
                a = alpha >> (levels[-1][0] - ld)
                # candidates: positions produced by the previous step
                cand = self.under(levels, steps_known, prevprev, prev, ld, a)
                pre = []
                for _ in range(r.randint(1, m)):
                    pre.append(r.choice(cand))
                if r.random() < .8 and a in cand:
                    pre[r.randrange(len(pre))] = a
                if r.random() < .3:
                    pre = sorted(pre)
                steps.append("%d:%s" % (h, hexes(pre)))
                known = pre
            steps_known, prevprev, prev = known, prev, h
        return steps

    def under(self, levels, known, frm, to, ld, a):
        r = self.rng
        top = (1 << ld) - 1
        if known is None:
            c = [a, a ^ 1, a + 1, 0, top] + [r.getrandbits(ld) if ld else 0 for _ in range(3)]
            return [x & top for x in c]
        g = ld - levels[frm][0]
        out = []
        for p in known:
            for y in {0, 1, (1 << g) - 1, r.getrandbits(g) if g else 0}:
                if y < (1 << g):
                    out.append((p << g) | y)
            if (a >> g) == p:
                out += [a, a]
        return out


def mode_for(rng, levels):
    ts = {t for _, t in levels}
    if len(ts) == 1:
        m = [0, 1]
        if len(levels) <= 3:
            m.append(2)
        if ts <= set(UINTS) and len(levels) >= 1:
            m.append(0)
        return rng.choice(m)
    return 0


def core_models(ctx):
    for lv in ctx.pick(["LevA", "LevC"], ["LevA", "LevB", "LevC", "LevD"]):
        ctx.model("DpfCoreMC", "SPECIFICATION Spec\nCHECK_DEADLOCK FALSE\nCONSTANTS W=4\nLevels <- %s\nCoefs <- %s\n"
                  "INVARIANTS OnPath OffPath Reconstructs\n" % (lv, ctx.pick("Coef1", "Coef2")), "core-" + lv)


def d01(ctx):
    core_models(ctx)
    rng = ctx.rng
    g = Gen(rng)
    # every value type, one level, every small domain size in full; then points of large domains
    for t in TYPES:
        g.reset()
        k = 0
        for ld in rng.sample(range(0, 9), ctx.pick(3, 9)) + ([10] if not ctx.quick else []):
            d = g.new([(ld, t)])
            a, _ = g.gen(d, k, mode=mode_for(rng, [(ld, t)]))
            g.L.append("pair id=%d steps=0" % k)
            k += 1
        for ld in rng.sample([9, 12, 16, 31, 32, 33, 62, 63, 64, 65, 66, 70, 95, 96, 97, 120, 126, 127, 128], ctx.pick(4, 19)):
            d = g.new([(ld, t)])
            lv = [(ld, t)]
            a, _ = g.gen(d, k)
            g.L.append("pairat id=%d lv=0 pts=%s" % (k, hexes(g.points(lv, 0, a, 12))))
            k += 1
    # hierarchies
    for _ in range(ctx.pick(60, 700)):
        g.reset()
        for k in range(2):
            lv = g.levels(rng.randint(1, 7), types=rng.choice([LIGHT, TYPES, MIXED]), same=rng.random() < .3)
            d = g.new(lv, inc=True)
            a, _ = g.gen(d, k, mode=mode_for(rng, lv))
            if rng.random() < .5:
                g.L.append("ser id=%d" % k)
            for h in range(len(lv)):
                g.L.append("pairat id=%d lv=%d pts=%s" % (k, h, hexes(g.points(lv, h, a, rng.choice([1, 3, 9])))))
            st = g.walk(lv, a)
            if st:
                g.L.append("pair id=%d steps=%s" % (k, ";".join(st)))
    # values of many blocks
    for t in BIG:
        g.reset()
        for k, lv in enumerate(([(3, t)], [(rng.choice([64, 128]), t)], [(2, rng.choice(TYPES)), (9, t)], [(1, t), (8, rng.choice(BIG))])):
            d = g.new(lv, inc=True)
            a, _ = g.gen(d, k, mode=mode_for(rng, lv))
            for h in range(len(lv)):
                g.L.append("pairat id=%d lv=%d pts=%s" % (k, h, hexes(g.points(lv, h, a, 5))))
            if k == 0:
                g.L.append("pair id=0 steps=0")
    # levels as far apart as can be
    for _ in range(ctx.pick(60, 600)):
        g.reset()
        lv = g.extreme()
        d = g.new(lv, inc=True)
        a, _ = g.gen(d, 0, alpha=g.topalpha(lv[-1][0]))
        for h in range(len(lv)):
            g.L.append("pairat id=0 lv=%d pts=%s" % (h, hexes(g.points(lv, h, a, 6))))
    # wide expansions in full
    for lb, t in ctx.pick([(17, "u128"), (17, "u64"), (17, "u8"), (16, "(u32,u64)"), (15, "m64:1000003"), (14, "(u128,u128)")],
                          [(20, "u128"), (18, "u64"), (18, "u8"), (18, "x16"), (18, "(u32,u64)"), (18, "m64:1000003"), (17, "(u128,u128)"), (14, BIG[2])]):
        ld = lb + 7 - logbits(t)
        g.reset()
        for k in range(2):
            d = g.new([(ld, t)])
            b = [[0] * len(leaves(t))] if k and rng.random() < .3 else None
            g.gen(d, k, alpha=g.topalpha(ld) if k else None, betas=b)
            g.L.append("wide id=%d lv=0" % k)
        for n in (3, 64, 1500):     # below many prefixes
            f = rng.choice([11, 12])
            lv = [(f, rng.choice(LIGHT)), (min(f + ld - int(math.log2(n)) - 1, 120), t)]
            if lv[1][0] - f > 20:
                continue
            d = g.new(lv)
            a, _ = g.gen(d, n, alpha=g.topalpha(lv[1][0]))
            pre = [rng.getrandbits(f) for _ in range(n)]
            if rng.random() < .5:
                pre = sorted(set(pre))
            pre[rng.randrange(len(pre))] = a >> (lv[1][0] - f)
            g.L.append("wide id=%d lv=1 via=0 pre=%s" % (n, hexes(pre)))
    # one hierarchy level per bit, the shape comparison functions use
    for n, t in ((128, "u8"), (64, "u128"), (40, "(u8,u16)"), (20, "m32:4294967291")):
        g.reset()
        lv = [(i, t) for i in range(n)]
        d = g.new(lv)
        a, _ = g.gen(d, 0)
        for h in sorted({0, 1, 2, 3, 4, 5, 6, 7, 8, n // 2, n - 2, n - 1}):
            g.L.append("pairat id=0 lv=%d pts=%s" % (h, hexes(g.points(lv, h, a, 6))))
    # same-size groups of all alphas of a small domain
    for t in rng.sample(TYPES, ctx.pick(6, len(TYPES))):
        g.reset()
        lv = [(2, t), (4, rng.choice(TYPES))]
        d = g.new(lv)
        for a in range(16):
            g.gen(d, a, alpha=a)
            g.L.append("pair id=%d steps=0;1:%s" % (a, hexes([0, 1, 2, 3])))
    ctx.conform("drv_dpf", "DpfTrace", g.L, consts="CONSTRAINT Exact\n")
    ctx.assumptions += ["expansions of up to 2^%d positions" % ctx.pick(8, 10), "AES itself is not modelled here (D05 does)"]



# ---------------------------------------------------------------------------
CTX_LEVELS = {
    "LvA": [(1, ["u64", "x64", "((u8,u16),u32)"]), (2, ["u64", "x64", "((u8,u16),u32)"]), (3, ["u64", "x64"])],
    "LvB": [(0, ["u128", "m8:251", "(u64,u64,u64)"]), (2, ["u128", "x128", "m128:18446744073709551629", "(u64,u64)"]), (3, TYPES[:1] + ["u128", "m16:65521"])],
    "LvC": [(2, ["u32", "x32", "(u8,u16)"]), (3, ["u64", "x64"])],
    "LvD": [(1, ["u128", "m32:3"]), (2, ["u128", "(u128,u128)"]), (3, ["u128", "m8:2"]), (4, ["u128", "x128"])],
}


def ctx_models(ctx):
    for lv, pre in ctx.pick([("LvC", 2), ("LvD", 1)], [("LvA", 2), ("LvB", 2), ("LvC", 2), ("LvD", 1)]):
        ctx.model("DpfCtxMC", "SPECIFICATION Spec\nCHECK_DEADLOCK FALSE\nVIEW NoHist\nCONSTANTS Lv <- %s\nMaxCalls=%d\n"
                  "MaxPre=%d\nPrintScripts=FALSE\nINVARIANTS AnswersRight CacheRight CanGoOn\n" % (lv, ctx.pick(3, 4) , pre), "ctx-" + lv)


def ctx_scripts(ctx, lv, n, calls):
    r = ctx.model("DpfCtxMC", "SPECIFICATION Spec\nCHECK_DEADLOCK FALSE\nCONSTANTS Lv <- %s\nMaxCalls=%d\nMaxPre=2\n"
                  "PrintScripts=TRUE\nINVARIANTS AnswersRight CacheRight Script\n" % (lv, calls), "walks-" + lv,
                  args=["-simulate", "num=%d" % n, "-depth", "%d" % (calls + 1), "-seed", str(ctx.seed)], workers=1)
    return vlib.scripts_of(r)


class Hist:
    """A random history over one context; keeps a rough idea of its state to hit the accepted calls."""

    def __init__(self, g, cid, levels, alpha):
        self.g, self.id, self.lv, self.alpha = g, cid, levels, alpha
        self.prev, self.at, self.known = -1, -1, None
        self.tl = tree_levels(levels)
        self.broken = -1       # a level the key has no usable value correction for

    def copy(self, cid):
        h = Hist(self.g, cid, self.lv, self.alpha)
        h.prev, h.at, h.known, h.broken = self.prev, self.at, self.known, self.broken
        return h

    def cands(self, ld):
        """Points of domain 2^ld covered by what is known."""
        r = self.g.rng
        a = self.alpha >> (self.lv[-1][0] - ld)
        top = (1 << ld) - 1
        if self.known is None:
            c = [a, a ^ 1, a + 1, 0, top, a ^ (1 << max(0, ld - 1))] + [r.getrandbits(ld) if ld else 0 for _ in range(3)]
            return [x & top for x in c]
        kl = self.lv[self.at][0]
        if ld < kl:
            return [q >> (kl - ld) for q in self.known]
        g = ld - kl
        out = []
        for p in self.known:
            for y in {0, 1, (1 << g) - 1, r.getrandbits(g) if g else 0, r.getrandbits(g) if g else 0}:
                if y < (1 << g):
                    out.append((p << g) | y)
            if (a >> g) == p:
                out += [a, a ^ 1 if g else a]
        return out

    def some(self, c, n):
        r = self.g.rng
        v = [r.choice(c) for _ in range(r.randint(1, n))]
        if r.random() < .3:
            v = sorted(set(v))
        if r.random() < .2:
            v = v + v[:1]
        return v

    def step(self, maxout=64, bad=.2):
        r, g = self.g.rng, self.g
        n = len(self.lv)
        x = r.random()
        if x < bad:
            return self.bad()
        if x < bad + .08:
            g.L.append("reload id=%d%s" % (self.id, r.choice(["", " fresh"])))
            return
        if x < bad + .35:   # evaluate points
            lo = 0 if r.random() < .15 else max(0, self.at, self.prev)
            h = r.randrange(lo, n) if r.random() < .3 else min(n - 1, lo + r.choice([0, 0, 1, 2]))
            pts = self.some(self.cands(self.lv[h][0]), 5)
            g.L.append("atc id=%d lv=%d pts=%s" % (self.id, h, hexes(pts)))
            if h != self.broken:
                self.prev = self.at = h        # (a lower level than before starts again from the root)
                self.known = pts
            return
        base = 0 if self.prev < 0 else self.lv[self.prev][0]
        if self.prev < 0 and self.at < 0:
            ok = [h for h in range(n) if self.lv[h][0] <= int(math.log2(maxout))]
            if not ok:
                h = r.randrange(n)
                pts = self.some(self.cands(self.lv[h][0]), 4)
                g.L.append("atc id=%d lv=%d pts=%s" % (self.id, h, hexes(pts)))
                if h != self.broken:
                    self.prev = self.at = h
                    self.known = pts
                return
            h = r.choice(ok)
            if h == 0 and r.random() < .5:
                g.L.append("next id=%d pre=" % self.id)
            else:
                g.L.append("until id=%d lv=%d pre=" % (self.id, h))
            if h != self.broken:
                self.prev = h
            return
        ok = [h for h in range(self.prev + 1, n) if self.lv[h][0] - base <= int(math.log2(maxout))]
        if not ok:
            return
        h = r.choice(ok) if r.random() < .4 else ok[0]
        gap = self.lv[h][0] - base
        pre = self.some(self.cands(base), max(1, min(maxout >> gap, 6)))
        if h == self.prev + 1 and r.random() < .4:
            g.L.append("next id=%d pre=%s" % (self.id, hexes(pre)))
        else:
            g.L.append("until id=%d lv=%d pre=%s" % (self.id, h, hexes(pre)))
        if h != self.broken:
            self.at, self.known, self.prev = self.prev, pre, h

    def bad(self):
        """A call that must be refused (or, where packed blocks overlap, may be)."""
        r, g = self.g.rng, self.g
        n = len(self.lv)
        k = r.randrange(8)
        ld = 0 if self.prev < 0 else self.lv[self.prev][0]
        pre = self.some(self.cands(ld), 3) if self.prev >= 0 else []
        nxt = min(n - 1, self.prev + 1)
        if k == 0 and self.prev >= 0:
            lv = r.randint(0, self.prev)
            g.L.append("until id=%d lv=%d pre=%s" % (self.id, lv, hexes(pre)))
        elif k == 1 and self.prev >= 0:
            g.L.append("until id=%d lv=%d pre=" % (self.id, nxt))
        elif k == 2 and self.prev < 0:
            g.L.append("until id=%d lv=%d pre=0" % (self.id, r.randrange(n)))
        elif k == 3 and self.prev >= 0 and ld < 128:
            p = list(pre)
            p[r.randrange(len(p))] = r.choice([1 << ld, (1 << 128) - 1, (1 << ld) + (1 if ld else 0)])
            g.L.append("until id=%d lv=%d pre=%s" % (self.id, nxt, hexes(p)))
        elif k == 4:
            g.L.append("until id=%d lv=%d pre=%s" % (self.id, r.choice([n, n + 1, -1]), hexes(pre)))
        elif k == 5 and self.known is not None and self.prev >= 0 and ld:
            p = list(pre)
            p[r.randrange(len(p))] = r.choice([r.getrandbits(ld), p[0] ^ (1 << (ld - 1)), p[0] ^ 1,
                                               (p[0] + (1 << max(0, ld - self.lv[self.at][0]))) & ((1 << ld) - 1)])
            # only when refused for sure or answered cheaply
            if self.prev + 1 < n and self.lv[self.prev + 1][0] - ld <= 5:
                g.L.append("until id=%d lv=%d pre=%s" % (self.id, nxt, hexes(p)))
                if not set(x >> (ld - self.lv[self.at][0]) for x in p) <= set(self.known):
                    pass
        elif k == 6:
            h = r.randrange(n)
            if self.lv[h][0] < 128:
                g.L.append("atc id=%d lv=%d pts=%s" % (self.id, h, hexes([1 << self.lv[h][0]])))
        elif k == 7 and self.prev >= 0 and self.prev + 1 < n:
            t = r.choice([t for t in TYPES if t != self.lv[nxt][1]])
            g.L.append("until id=%d lv=%d pre=%s t=%s" % (self.id, nxt, hexes(pre), t))


def d02(ctx):
    ctx_models(ctx)
    rng = ctx.rng
    g = Gen(rng)
    for name in ("LvA", "LvB", "LvC", "LvD"):
        seen = set()
        for s in ctx_scripts(ctx, name, ctx.pick(150, 1500), 5):
            key = str(s)
            if key in seen:
                continue
            seen.add(key)
            g.reset()
            d = g.new([(ld, rng.choice(ts)) for ld, ts in CTX_LEVELS[name]])
            g.gen(d, 0)
            p = rng.randrange(2)
            g.L.append("ctx id=0 k=%d" % p)
            for c in s:
                if c["op"] == "until":
                    g.L.append("until id=0 lv=%d pre=%s" % (c["h"] - 1, hexes(c["ps"])))
                else:
                    g.L.append("atc id=0 lv=%d pts=%s" % (c["h"] - 1, hexes(c["ps"])))
    for k in range(ctx.pick(1000, 10000)):
        g.reset()
        n = rng.choice([1, 2, 3, 3, 4, 5, 7, 10])
        far = k % 8 == 0   # levels far apart: what is kept is carried on over many tree levels at once
        lv = g.levels(rng.choice([2, 3, 4]) if far else n, types=rng.choice([LIGHT, LIGHT, TYPES, MIXED]), same=rng.random() < .3,
                      first=rng.choice([0, 1, 2, 3, 5, 8]) if far else None,
                      gaps=rng.choice([(1, 60, 64, 65, 100), (2, 63, 64, 90, 120), (1, 2, 70, 110, 123)]) if far else
                      rng.choice([(1, 2, 3), (1, 2, 3, 4, 5), (1, 2, 3, 5, 20, 40), (1,)]))
        d = g.new(lv, inc=True)
        a, _ = g.gen(d, 0)
        hs = []
        broken = rng.randrange(n - 1) if not far and n > 1 and k % 6 == 1 else -1
        for p in range(2):
            if broken >= 0:   # calls at this level are refused, and nothing must come of them
                g.L.append("mkey k=%d from=%d mut=setvc:%d:%d:()" % (8 + p, p, tree_levels(lv)[broken], rng.randrange(epb(lv[broken][1]))))
            g.L.append("ctx id=%d k=%d" % (p, 8 + p if broken >= 0 else p))
            hs.append(Hist(g, p, lv, a))
            hs[-1].broken = broken
        for _ in range(rng.randint(3, 10)):
            h = rng.choice(hs)
            if len(hs) < 4 and rng.random() < .12:
                c = h.copy(len(hs))
                g.L.append("fork id=%d from=%d" % (c.id, h.id))
                hs.append(c)
            h.step(maxout=rng.choice([16, 64, 128]))
    # long prefix lists: in order, scattered, with repetitions, and below them again
    for n in [1500] * ctx.pick(4, 20) + [300] * ctx.pick(6, 40):
        g.reset()
        f = rng.choice([3, 5, 10, 12])
        lds = [f, f + rng.choice([1, 1, 2]), f + rng.choice([10, 60]), 128]
        lds[2] = max(lds[2], lds[1] + 1)
        lv = [(ld, rng.choice(LIGHT)) for ld in lds]
        d = g.new(lv)
        a, _ = g.gen(d, 0, alpha=g.topalpha(128))
        g.L.append("ctx id=0 k=%d" % rng.randrange(2))
        g.L.append("until id=0 lv=0 pre= nodir")
        pre = [rng.getrandbits(f) for _ in range(n)]
        x = rng.random()
        if x < .3:
            pre.sort()
        elif x < .6:
            pre = sorted(set(pre)) + rng.sample(pre, n // 3)
        g.L.append("until id=0 lv=1 pre=%s" % hexes(pre))
        g.L.append("fork id=1 from=0")
        gap = lds[1] - f
        pre2 = [(p << gap) | rng.getrandbits(gap) for p in rng.choices(pre, k=n)]
        gap = lds[2] - lds[1]
        pts = [(p << gap) | rng.getrandbits(gap) for p in pre2]
        g.L.append("atc id=1 lv=2 pts=%s" % hexes(pts))
        pts2 = [(p << (128 - lds[2])) | rng.getrandbits(128 - lds[2]) for p in rng.choices(pts, k=n)]
        g.L.append("atc id=1 lv=3 pts=%s" % hexes(pts2))
        if gap <= 2:
            g.L.append("until id=0 lv=2 pre=%s" % hexes(pre2))
        g.L.append("reload id=0")
        g.L.append("atc id=0 lv=3 pts=%s" % hexes([(p << (128 - lds[1])) | rng.getrandbits(128 - lds[1]) for p in pre2[:n // 2]]))
    ctx.conform("drv_dpf", "DpfTrace", g.L, consts="CONSTRAINT Exact\n")



# ---------------------------------------------------------------------------
BATCHES = [0, 1, 2, 3, 4, 5, 7, 8, 9, 15, 16, 17, 31, 33]


def d03(ctx):
    core_models(ctx)
    rng = ctx.rng
    g = Gen(rng)
    # many points at once, of one key
    for _ in range(ctx.pick(130, 1200)):
        g.reset()
        lv = g.levels(rng.choice([1, 1, 2, 3, 5]), types=rng.choice([LIGHT, TYPES]), gaps=rng.choice([(1, 2, 3), (1, 5, 20, 40, 64)]))
        d = g.new(lv, inc=True)
        a, _ = g.gen(d, 0)
        for h in rng.sample(range(len(lv)), min(2, len(lv))):
            for n in rng.sample(BATCHES, 2) + ([64, 100] if rng.random() < .1 else []):
                ld = lv[h][0]
                pts = []
                while len(pts) < n:
                    pts += g.points(lv, h, a, 9) + [rng.getrandbits(ld) if ld else 0]
                pts = pts[:n]
                o = rng.random()
                if o < .3:
                    pts.sort()
                elif o < .5:
                    pts.sort(reverse=True)
                else:
                    rng.shuffle(pts)
                g.L.append("at k=%d lv=%d pts=%s" % (rng.randrange(2), h, hexes(pts)))
    # many keys at once, each at its own point, level after level
    for _ in range(ctx.pick(150, 1500)):
        g.reset()
        lv = g.levels(rng.choice([1, 1, 2, 3, 4, 7]), types=rng.choice([LIGHT, TYPES]), same=True,
                      gaps=rng.choice([(1, 2, 3), (1,), (1, 5, 20, 40, 64)]))
        d = g.new(lv, inc=True)
        nk = rng.choice([1, 2, 3, 5])
        al = [g.gen(d, k)[0] for k in range(nk)]
        last = lv[-1][0]
        for _ in range(2):
            n = rng.choice(BATCHES)
            ks = [rng.randrange(2 * nk) for _ in range(n)]
            if rng.random() < .3:
                ks = [2 * (k // 2) + rng.randrange(2) for k in sorted(ks)]
            shift = rng.choice([0, 0, 0, 1, 2, 5, 64]) if last < 128 else 0
            shift = min(shift, 128 - last)
            pts = []
            for k in ks:
                p = rng.choice(g.points(lv, len(lv) - 1, al[k // 2], 6))
                pts.append((p << shift) | (rng.getrandbits(shift) if shift else 0))
            stop = rng.choice(["", "", " stop=%d" % rng.randint(1, len(lv))])
            g.L.append("apply d=%d ks=%s pts=%s shift=%d%s%s" % (d, ",".join(map(str, ks)), hexes(pts), shift, stop,
                                                               rng.choice(["", " deref"])))
            if last + shift < 128 and n and rng.random() < .2:
                pts[rng.randrange(n)] |= 1 << rng.choice([last + shift, 127])
                g.L.append("apply d=%d ks=%s pts=%s shift=%d" % (d, ",".join(map(str, ks)), hexes(pts), shift))
            if n > 1 and rng.random() < .2:
                g.L.append("apply d=%d ks=%s pts=%s shift=%d" % (d, ",".join(map(str, ks[1:])), hexes(pts), shift))
    # long lists: thousands of points of one key, hundreds of keys
    for n in ctx.pick([600, 1025, 3000], [600, 1025, 2050, 4097, 10000]):
        for t in rng.sample(LIGHT + BIG[:2], ctx.pick(2, 5)):
            g.reset()
            lv = [(rng.choice([3, 10]), rng.choice(LIGHT)), (rng.choice([20, 64, 128]), t)]
            d = g.new(lv)
            a, _ = g.gen(d, 0, alpha=g.topalpha(lv[1][0]))
            pts = [rng.choice([rng.getrandbits(lv[1][0]), a ^ rng.getrandbits(3), a ^ (1 << rng.randrange(lv[1][0]))]) for _ in range(n)]
            g.L.append("at k=%d lv=1 pts=%s" % (rng.randrange(2), hexes(pts)))
            g.L.append("at k=%d lv=0 pts=%s" % (rng.randrange(2), hexes([rng.getrandbits(lv[0][0]) for _ in range(n)])))
    for n in ctx.pick([67, 255, 259, 1031], [67, 127, 255, 257, 259, 514, 1031, 2051]):
        g.reset()
        t = rng.choice(LIGHT)
        lv = [(ld, t) for ld in rng.choice([(0, 1, 9), (3, 20, 128), (1, 2, 3, 4)])]
        d = g.new(lv)
        last = lv[-1][0]
        al = [g.gen(d, k, alpha=g.alpha(last))[0] for k in range(n)]
        ks = [2 * k + rng.randrange(2) for k in range(n)]
        rng.shuffle(ks)
        pts = [al[k // 2] ^ rng.choice([0, 0, 1, 1 << rng.randrange(last)]) for k in ks]
        g.L.append("apply d=%d ks=%s pts=%s shift=0%s" % (d, ",".join(map(str, ks)), hexes(pts), rng.choice(["", " deref"])))
    # values of many blocks; levels far apart
    for t in BIG:
        g.reset()
        lv = [(rng.choice([2, 9]), t), (rng.choice([12, 64, 128]), t)]
        d = g.new(lv)
        a, _ = g.gen(d, 0)
        g.L.append("at k=0 lv=0 pts=%s" % hexes(g.points(lv, 0, a, 3)))
        g.L.append("at k=1 lv=1 pts=%s" % hexes(g.points(lv, 1, a, 9)))
        g.L.append("apply d=%d ks=0,1,1 pts=%s shift=0" % (d, hexes((3 * g.points(lv, 1, a, 2))[:3])))
    for _ in range(ctx.pick(15, 150)):
        g.reset()
        lv = [(ld, t) for t in [rng.choice(LIGHT)] for ld, _ in g.extreme()]
        d = g.new(lv, inc=True)
        a, _ = g.gen(d, 0, alpha=g.topalpha(lv[-1][0]), full=True)
        g.gen(d, 1, alpha=g.topalpha(lv[-1][0]))
        g.L.append("at k=0 lv=%d pts=%s" % (len(lv) - 1, hexes(g.points(lv, len(lv) - 1, a, 3))))
        g.L.append("apply d=%d ks=0,2,1 pts=%s shift=0" % (d, hexes(g.points(lv, len(lv) - 1, a, 3))))
    # threads that share the object and its keys
    for _ in range(ctx.pick(8, 80)):
        g.reset()
        lv = g.levels(rng.choice([1, 2, 3]), types=rng.choice([LIGHT, TYPES]), same=True, first=rng.choice([2, 5, 7]), gaps=(1, 5, 40))
        d = g.new(lv, inc=True)
        al = [g.gen(d, k, full=rng.random() < .3)[0] for k in range(2)]
        for kind in ("", " kind=%d" % rng.randrange(3)):
            n = rng.choice([1, 3, 5, 8, 17])
            ks = [rng.randrange(4) for _ in range(n)]
            pts = [rng.choice(g.points(lv, len(lv) - 1, al[k // 2], 6)) for k in ks]
            g.L.append("mt d=%d ks=%s pts=%s lv=%d nt=9 reps=%d%s" % (d, ",".join(map(str, ks)), hexes(pts), rng.randrange(len(lv)),
                                                                   ctx.pick(150, 400), kind))
    ctx.conform("drv_dpf", "DpfTrace", g.L, consts="CONSTRAINT Exact\n")



# ---------------------------------------------------------------------------
BADTYPES = ["-", "N", "()", "u0", "u3", "u7", "u129", "u256", "u-1", "u-8", "x0", "x12", "x256", "x-8", "m8:0", "m8:256", "m8:257",
            "m16:65536", "m32:4294967296", "m64:18446744073709551616", "M32", "M8", "m7:3", "m0:1", "(N)",
            "(u8,())", "(u8,u0)", "(u8,(x8,M32))", "(u8,m8:256)", "m256:5", "m-8:5", "(m8:251,m8:250)",
            "(m32:4294967291,u8,m32:4294967279)"]
ODDTYPES = ["u1", "u2", "u4", "x1", "x2", "m1:1", "m8:1", "m128:340282366920938463463374607431768211455", "m64:18446744073709551615",
            "w32:17", "w64:18446744073709551557", "(u1,u2)", "(m8:251,m8:251,m8:251,m8:251)", "(u8,(m8:250,u8))",
            "(m64:18446744073709551557,m64:18446744073709551557)", "(u128,u128,u128,u128)", "m128:1208925819614629174706111",
            "m128:1267650600228229401496703205653", "m128:2417851639229258349412351", "(m32:4294967291,(m8:5,u8))", "(m16:65521,m8:5)"]


def value_text(t, vals, wide=lambda: False):
    """Text of the message for a value of type t."""
    vals = list(vals)
    out, i = "", 0
    while i < len(t):
        c = t[i]
        if c in "(),":
            out += c
            i += 1
            continue
        m = re.match(r"([uxmw])(\d+)(:(\d+))?", t[i:])
        k = {"u": "i", "x": "x", "m": "m", "w": "m"}[m.group(1)]
        out += (k.upper() if wide() else k) + "%d" % vals.pop(0)
        i += m.end()
    return out


def bad_value(rng, t, vals):
    """A message that is not a value of type t (or possibly still is: the specification judges)."""
    k = rng.randrange(9)
    ls = leaves(t)
    j = rng.randrange(len(ls))
    kind, b, n = ls[j]
    v = list(vals)
    if k <= 2:
        v[j] = rng.choice([n or (1 << b), (1 << b), (1 << b) - 1, (n or (1 << b)) + 1, (n or 1 << b) * 2, 1 << 64, (1 << 64) + v[j],
                           v[j] + (1 << b), v[j] + (n or (1 << b)), (1 << 127) + v[j], (1 << 128) - 1])
        if v[j] >> 128:
            v[j] = (1 << 128) - 1
        return value_text(t, v)
    if k == 3:
        return "N"
    if k == 4:
        return re.sub(r"[ixm]\d+", lambda m, c=[0]: (c.__setitem__(0, c[0] + 1) or (m.group()[0] if c[0] - 1 == j else m.group())),
                      value_text(t, v))
    if k == 5:
        o = rng.choice("ixm")
        return re.sub(r"[ixm](\d+)", lambda m, c=[0]: (c.__setitem__(0, c[0] + 1) or ((o + m.group(1)) if c[0] - 1 == j else m.group())),
                      value_text(t, v))
    if k == 6:
        return "(" + value_text(t, v) + ")"
    if k == 7:
        x = value_text(t, v)
        return x[:-1] + ",i0)" if x.endswith(")") else x.replace("(", "((", 1)[:0] + "(" + x + ",i0)"
    x = value_text(t, v)
    if x.startswith("("):
        return rng.choice(["()", x[:x.rindex(",")] + ")" if "," in x and x.count("(") == 1 else "()", "i0"])
    return "()"


def key_muts(rng, levels, g):
    """Mutations of a generated key for a hierarchy."""
    tl = tree_levels(levels)
    n = tl[-1]
    out = ["noseed", "party:2", "party:-1", "party:1", "party:0", "addcw" if n else "noseed", "nocw", "nolast", "droplast", "addlast"]
    lastt = levels[-1][1]
    out.append("setlast:0:" + bad_value(rng, lastt, g.val(lastt)))
    out.append("setlast:%d:%s" % (rng.randrange(epb(lastt)), bad_value(rng, lastt, g.val(lastt))))
    out.append("setlast:%d:%s" % (epb(lastt) - 1, value_text(lastt, g.val(lastt), lambda: rng.random() < .5)))
    if n:
        out += ["dropcw", "rndcw:%d:%x:%d:%d" % (rng.randrange(n), rng.getrandbits(128), rng.randrange(2), rng.randrange(2))]
    for h in range(len(levels) - 1):
        i, t = tl[h], levels[h][1]
        out += ["novc:%d" % i, "dropvc:%d" % i, "addvc:%d" % i,
                "setvc:%d:%d:%s" % (i, rng.randrange(epb(t)), bad_value(rng, t, g.val(t))),
                "setvc:%d:%d:%s" % (i, rng.randrange(epb(t)), value_text(t, g.val(t), lambda: rng.random() < .5))]
    return out


def ctx_muts(rng, levels):
    n = len(levels)
    i = rng.randrange(n)
    ld, t = levels[i]
    return ["nokey", "droppar", "addpar", "nopar", "ld:%d:%d" % (i, rng.choice([ld + 1, ld - 1, 0, 128])), "sec:%d:%s" % (i, rng.choice(["0.5", "127", "41.5"])),
            "sec:%d:0" % i, "sec:%d:%d" % (i, 40 + ld), "sec:%d:%s" % (i, rng.choice(["40", str(39.5 + ld), str(41 + ld), "-1", "nan"])),
            "+".join("sec:%d:%s" % (j, rng.choice(["0", "0", str(40 + levels[j][0])])) for j in range(n)),
            "ty:%d=%s" % (i, rng.choice([x for x in TYPES if x != t])), "ty:%d=%s" % (i, t), "noty:%d" % i,
            "key:noseed", "key:party:2", "key:nolast", "key:nocw", "key:addlast",
            "prev:%d" % rng.choice([n - 1, n, n + 5])]


def d04(ctx):
    ctx.model("DpfParamsMC", "SPECIFICATION Spec\nCHECK_DEADLOCK FALSE\nCONSTANTS MaxLen=%d\nINVARIANTS TreeFits Monotone\n" % ctx.pick(2, 3),
              "params", timeout=1500)
    rng = ctx.rng
    g = Gen(rng)
    # parameters
    g.reset()
    secs = ["", "", "", "", "0", "1", "39.9", "40", "80", "127", "128", "128.001", "129", "-1", "-0.001", "nan", "inf", "1e300", "-inf"]
    n = 0
    g.L.append("dpf id=0 lv=")
    for t in TYPES + BADTYPES + ODDTYPES:
        for ld in (0, 5, 60, 128):
            g.L.append("dpf id=%d lv=%d|%s|%s" % (n % 4, ld, t, rng.choice(secs) if rng.random() < .3 else ""))
            n += 1
    # modulus sizes around the security limit: sec + log2 N + log2 n(n+1) <= 131
    for _ in range(ctx.pick(250, 2500)):
        cnt = rng.randint(1, 4)
        bits = rng.choice([8, 16, 32, 64, 128])
        N = rng.choice([(1 << bits) - 1, (1 << bits) - rng.randint(1, 200), rng.randint(2, (1 << bits) - 1), 1 << (bits - 1)])
        if N < 1:
            N = 1
        free = 131 - math.log2(N) - math.log2(cnt) - math.log2(cnt + 1)
        oth = rng.randint(0, 2)
        ls = ["m%d:%d" % (bits, N)] * cnt + ["u8"] * oth
        rng.shuffle(ls)
        t = ls[0] if len(ls) == 1 and rng.random() < .5 else "(" + ",".join(ls) + ")"
        if rng.random() < .3:
            o = rng.randint(1, 3)
            t = "(" + ",".join(["u16"] * o + [t]) + ")"
            free = free - math.log2(o + 1)
        s = max(0.002, min(128.5, free + rng.choice([-1, -.2, -.05, .05, .2, 1, -10, 10])))
        if rng.random() < .4:
            ld = int(max(0, min(128, free - 40 + rng.choice([-3, -1, 0, 1, 3]))))
            g.L.append("dpf id=%d lv=%d|%s|" % (n % 4, ld, t))
        else:
            g.L.append("dpf id=%d lv=%d|%s|%.3f" % (n % 4, rng.choice([0, 10, 128]), t, s))
        n += 1
    for s in secs:
        g.L.append("dpf id=%d lv=10|u32|%s;20|u8|" % (n % 4, s))
        g.L.append("dpf id=%d lv=10|m32:3|%s" % (n % 4, s))
        n += 1
    for _ in range(ctx.pick(400, 4000)):
        k = rng.randint(1, 5)
        lds = sorted(rng.choice([0, 1, 2, 3, 5, 7, 8, 30, 62, 63, 64, 65, 100, 126, 127, 128]) for _ in range(k))
        if rng.random() < .7:
            lds = sorted(set(lds))
        if rng.random() < .2:
            lds[rng.randrange(len(lds))] = rng.choice([-1, -5, 129, 1000, 2147483647, -2147483648, 0])
        lv = ["%d|%s|%s" % (l, rng.choice(BADTYPES if rng.random() < .06 else ODDTYPES if rng.random() < .1 else TYPES),
                            rng.choice(secs) if rng.random() < .2 else "") for l in lds]
        g.L.append("dpf id=%d lv=%s%s" % (n % 4, ";".join(lv), " inc" if rng.random() < .3 else ""))
        n += 1
    # long parameter lists
    for k, t in ((33, "u8"), (64, "u128"), (65, "u8"), (100, "(u8,u16)"), (128, "m32:3"), (129, "u64"), (129, "u128")):
        g.L.append("dpf id=%d lv=%s" % (n % 4, ";".join("%d|%s|" % (i, t) for i in range(k))))
        n += 1
        lds = sorted(rng.sample(range(129), k))
        if rng.random() < .7:
            i = rng.randrange(1, k)
            lds[i] = rng.choice([lds[i - 1], lds[i - 1] - 1, 129])
        g.L.append("dpf id=%d lv=%s" % (n % 4, ";".join("%d|%s|%s" % (l, t, "-1" if rng.random() < .003 else "") for l in lds)))
        n += 1
    # alpha and values
    for _ in range(ctx.pick(160, 1600)):
        g.reset()
        lv = g.levels(rng.choice([1, 1, 2, 3, 4]), types=rng.choice([LIGHT, TYPES]), gaps=(1, 2, 3, 5, 30, 60))
        d = g.new(lv, inc=rng.random() < .3)
        last = lv[-1][0]
        for k in range(6):
            a = g.alpha(last)
            vs = [value_text(t, g.val(t), lambda: rng.random() < .3) for _, t in lv]
            x = rng.random()
            if x < .25 and last < 128:
                a = rng.choice([1 << last, (1 << 128) - 1, a | (1 << rng.randint(last, 127))])
            elif x < .75:
                h = rng.randrange(len(lv))
                vs[h] = bad_value(rng, lv[h][1], g.val(lv[h][1]))
            elif x < .85:
                vs = rng.choice([vs + vs[:1], vs[1:], vs[:-1]]) or ["N", "N"]
            if "" in vs:
                continue
            g.L.append("gen id=%d d=%d alpha=%x raw=%s mode=0" % (k, d, a, "/".join(vs)))
        if rng.random() < .15:
            g.L.append("dpf id=9 lv=3|%s| noreg" % rng.choice(TYPES))
            g.dpf[9] = [(3, "u8")]
    # unregistered value types
    for t in TYPES:
        g.reset()
        lv = [(2, t), (5, rng.choice(TYPES))]
        g.L.append("dpf id=0 lv=%s noreg" % ";".join("%d|%s|%s" % (ld, tt, g.sec(ld, tt)) for ld, tt in lv))
        g.dpf[0] = lv
        g.gen(0, 0)
    # keys
    for _ in range(ctx.pick(60, 600)):
        g.reset()
        lv = g.levels(rng.choice([1, 1, 2, 3]), types=rng.choice([LIGHT, TYPES]), gaps=(1, 2, 3, 5, 9), same=rng.random() < .4)
        d = g.new(lv, inc=True)
        a, _ = g.gen(d, 0)
        same = len({t for _, t in lv}) == 1
        lv2 = g.levels(rng.choice([1, 2]), gaps=(1, 2, 3))
        d2 = g.new(lv2, inc=True)
        for m in key_muts(rng, lv, g):
            if rng.random() < .15:
                m += "+" + rng.choice(["party:1", "noseed", "party:0"])
            g.L.append("mkey k=90 from=%d mut=%s" % (rng.randrange(2), m))
            g.L.append("ctx id=5 k=90")
            for h in range(len(lv)):
                if rng.random() < .7:
                    g.L.append("at k=90 lv=%d pts=%s" % (h, hexes(g.points(lv, h, a, rng.choice([1, 3])))))
            if rng.random() < .2:
                g.L.append("at k=90 lv=%d pts=" % rng.randrange(len(lv)))
            if same:
                ks = rng.choice([[90], [0, 90], [90, 1], [0, 1, 90, 0]])
                g.L.append("apply d=%d ks=%s pts=%s shift=0%s" % (
                    d, ",".join(map(str, ks)), hexes([rng.choice(g.points(lv, len(lv) - 1, a, 3)) for _ in ks]),
                    rng.choice(["", "", " stop=1"])))
        g.L.append("ctx id=6 k=0 d=%d" % d2)
        g.L.append("at k=0 d=%d lv=0 pts=0" % d2)
    # levels, points and value types of another kind
    for _ in range(ctx.pick(80, 800)):
        g.reset()
        lv = g.levels(rng.choice([1, 2, 3]), gaps=(1, 2, 3, 5, 40, 60))
        d = g.new(lv, inc=True)
        a, _ = g.gen(d, 0)
        n = len(lv)
        for _ in range(8):
            h = rng.randrange(n)
            pts = g.points(lv, h, a, rng.choice([1, 2, 4]))
            x = rng.random()
            if x < .3:
                h = rng.choice([-1, n, n + 1, -1000000, 2000000000])
                g.L.append("at k=0 lv=%d pts=%s" % (h, hexes(pts if rng.random() < .7 else [])))
            elif x < .6 and lv[h][0] < 128:
                pts[rng.randrange(len(pts))] |= 1 << rng.choice([lv[h][0], 127, rng.randint(lv[h][0], 127)])
                g.L.append("at k=0 lv=%d pts=%s" % (h, hexes(pts)))
            else:
                g.L.append("at k=0 lv=%d pts=%s t=%s" % (h, hexes(pts if rng.random() < .8 else []), rng.choice(TYPES)))
        g.L.append("ctx id=0 k=0")
        for _ in range(3):
            g.L.append("atc id=0 lv=%d pts=%s t=%s" % (rng.randrange(n), "0", rng.choice(TYPES)))
        if lv[0][0] <= 7:
            for _ in range(3):
                g.L.append("until id=0 lv=0 pre= t=%s" % rng.choice(TYPES))
    # contexts
    for _ in range(ctx.pick(80, 800)):
        g.reset()
        lv = g.levels(rng.choice([1, 2, 3, 4]), gaps=(1, 2, 3), first=rng.choice([0, 1, 2, 4]))
        d = g.new(lv, inc=True)
        a, _ = g.gen(d, 0)
        g.L.append("ctx id=0 k=%d" % rng.randrange(2))
        h = Hist(g, 0, lv, a)
        depth = rng.choice([0, 0, 1, 2, 3])
        for _ in range(depth):
            h.step(bad=0)
        ms = ctx_muts(rng, lv)
        if h.at >= 0:
            ms = [m for m in ms if not m.startswith("prev")]
            ms += ["pl:%d" % rng.choice([-1, h.prev + 1, len(lv), len(lv) + 3, h.prev + 1]), "dupbad", "ty:0=%s+droppar" % lv[0][1]]
        for m in ms:
            g.L.append("mctx id=1 from=0 mut=%s" % m)
            k = h.copy(1)
            r = rng.random()
            if m.startswith("prev"):
                k.prev = min(int(m[5:]), len(lv) - 1)
                g.L.append("atc id=1 lv=%d pts=%s" % (rng.randrange(len(lv)), "0"))
            n0 = len(g.L)
            if r < .5 and h.prev + 1 < len(lv):
                base = 0 if h.prev < 0 else lv[h.prev][0]
                pre = h.some(h.cands(base), 3) if h.prev >= 0 else []
                g.L.append("until id=1 lv=%d pre=%s" % (h.prev + 1, hexes(pre)))
            else:
                hh = rng.randrange(max(0, h.at), len(lv))
                g.L.append("atc id=1 lv=%d pts=%s" % (hh, hexes(h.some(h.cands(lv[hh][0]), 3))))
            if r < .2:
                g.L.append("atc id=1 lv=%d pts=" % rng.randrange(len(lv)))
    # expansions of 2^63 positions and more
    for gap, ns in [(62, (2, 3, 4, 7)), (61, (4, 5, 9)), (60, (8, 10)), (59, (16, 17)), (63, (1, 2)), (64, (1, 3)), (90, (1, 2)), (124, (1,))]:
        for t in rng.sample(["u8", "u32", "u128", "x16", "(u8,u16)", "m64:1000003"], 2):
            if gap + 4 > 60 and "m" in t:
                t = "u64"
            lv = [(4, t), (4 + gap, t)]
            g.reset()
            d = g.new(lv)
            g.gen(d, 0)
            g.L += ["ctx id=1 k=%d" % rng.randrange(2), "until id=1 lv=0 pre="]
            for n in ns:
                g.L.append("until id=1 lv=1 pre=%s" % hexes([rng.randrange(16) for _ in range(n)] if n > 16 or rng.random() < .3 else rng.sample(range(16), n)))
            g.L.append("atc id=1 lv=1 pts=0,%x" % ((1 << (4 + gap)) - 1))
    for ld in (63, 64, 65, 100, 127, 128):
        g.reset()
        d = g.new([(ld, "u16")])
        g.gen(d, 0)
        g.L += ["ctx id=1 k=0", "until id=1 lv=0 pre=", "atc id=1 lv=0 pts=0,1"]
    ctx.conform("drv_dpf", "DpfTrace", g.L, consts="CONSTRAINT Exact\n")



# ---------------------------------------------------------------------------
def d05(ctx):
    core_models(ctx)
    rng = ctx.rng
    g = Gen(rng)
    def small(types=TYPES, big=False):
        lv = g.levels(rng.choice([1, 2, 3]), types=types, gaps=(1, 2, 3, 5, 20), same=rng.random() < .4)
        if big:
            lv = lv[:-1] + [(rng.choice([64, 65, 100, 127, 128]), lv[-1][1])]
        return lv
    for t in BIG:
        g.reset()
        lv = rng.choice([[(3, t)], [(2, rng.choice(TYPES)), (9, t)]])
        d = g.new(lv)
        a, _ = g.gen(d, 0, full=True)
        g.L.append("at k=%d lv=%d pts=%s" % (rng.randrange(2), len(lv) - 1, hexes(g.points(lv, len(lv) - 1, a, 3))))
    for _ in range(ctx.pick(15, 150)):    # levels as far apart as can be
        g.reset()
        lv = g.extreme(LIGHT)
        d = g.new(lv)
        a, _ = g.gen(d, 0, alpha=g.topalpha(lv[-1][0]), full=True)
        for h in range(len(lv)):
            g.L.append("at k=%d lv=%d pts=%s" % (rng.randrange(2), h, hexes(g.points(lv, h, a, 3))))
    for t in TYPES:                       # every type: correction words and a few shares
        for _ in range(ctx.pick(2, 8)):
            g.reset()
            lv = rng.choice([[(rng.choice([0, 1, 2, 5, 7, 8, 12]), t)], [(2, rng.choice(TYPES)), (9, t)], [(1, t), (8, rng.choice(TYPES))]])
            d = g.new(lv)
            a, _ = g.gen(d, 0, full=True, mode=mode_for(rng, lv))
            for h in range(len(lv)):
                g.L.append("at k=%d lv=%d pts=%s" % (rng.randrange(2), h, hexes(g.points(lv, h, a, 4))))
    for _ in range(ctx.pick(150, 1500)):
        g.reset()
        lv = small(big=rng.random() < .25)
        d = g.new(lv, inc=True)
        a, _ = g.gen(d, 0, full=True, mode=mode_for(rng, lv))
        k = rng.randrange(2)
        n = tree_levels(lv)[-1]
        if n and rng.random() < .3:       # any correction word is a function of seeds: evaluation must follow it
            g.L.append("mkey k=50 from=%d full=1 mut=%s" % (k, "+".join(
                "rndcw:%d:%x:%d:%d" % (rng.randrange(n), rng.getrandbits(128), rng.randrange(2), rng.randrange(2)) for _ in range(2))))
            k = 50
        if rng.random() < .3 and k != 50:
            g.L.append("ser id=0")
        g.L.append("ctx id=0 k=%d" % k)
        h = Hist(g, 0, lv, a)
        for _ in range(rng.randint(1, 4)):
            h.step(maxout=16, bad=0)
        hh = rng.randrange(len(lv))
        g.L.append("at k=%d lv=%d pts=%s" % (k, hh, hexes(g.points(lv, hh, a, 5))))
        if len({t for _, t in lv}) == 1:
            g.gen(d, 1, full=True)
            ks = [rng.choice([0, 1, 2, 3, k]) for _ in range(rng.randint(1, 5))]
            g.L.append("apply d=%d ks=%s pts=%s shift=0" % (d, ",".join(map(str, ks)),
                                                        hexes([rng.choice(g.points(lv, len(lv) - 1, a, 4)) for _ in ks])))
    ctx.conform("drv_dpf", "DpfTrace", g.L, consts="CONSTRAINT Exact\n", chunk=120)


def d07(ctx):
    rng = ctx.rng
    ctx.model("DpfSecrecyMC", "SPECIFICATION Spec\nCHECK_DEADLOCK FALSE\nCONSTANTS W=%d M=%d Epb=%d\nINVARIANTS StepHides ValueHides\n"
              % ctx.pick((3, 3, 2), (4, 4, 3)), "secrecy")
    g = Gen(rng)
    for t in TYPES + BIG:                 # layout over alphas and values of the same parameters
        g.reset()
        lv = rng.choice([[(4, t)], [(3, t), (6, rng.choice(TYPES))], [(1, t), (4, t), (40, rng.choice(TYPES))]])
        d = g.new(lv)
        last = lv[-1][0]
        for k, a in enumerate([0, (1 << last) - 1, g.alpha(last), g.alpha(last)]):
            bs = [[0] * len(leaves(tt)) for _, tt in lv] if k == 0 else [[(n or 1 << b) - 1 for _, b, n in leaves(tt)] for _, tt in lv] if k == 1 else None
            g.gen(d, k, alpha=a, betas=bs, mode=mode_for(rng, lv))
            if k < 2:
                g.gen(d, k + 10, alpha=a, betas=bs, mode=mode_for(rng, lv))
    for _ in range(ctx.pick(120, 1500)):
        g.reset()
        lv = g.levels(rng.randint(1, 6), types=TYPES, gaps=(1, 2, 3, 5, 20, 40))
        d = g.new(lv, inc=True)
        for k in range(3):
            g.gen(d, k, mode=mode_for(rng, lv))
    for n, lv in ctx.pick([(300, [(10, "u32")]), (3000, [(2, "u32")]), (200, [(3, "u64"), (20, "(u8,u16)")]), (150, [(0, "x128")])],
                          [(300, [(10, "u32")]), (400, [(3, "u64"), (20, "(u8,u16)")]), (300, [(0, "x128")]), (400, [(128, "m32:3")]),
                           (400, [(i, "u8") for i in range(20)])]):
        g.reset()
        d = g.new(lv, inc=True)
        g.L.append("fresh d=%d alpha=%x betas=%s n=%d" % (d, g.alpha(lv[-1][0]), "/".join(hexes(g.val(t)) for _, t in lv), n))
        g.L.append("fresh d=%d alpha=%x betas=%s n=%d nt=8" % (d, g.alpha(lv[-1][0]), "/".join(hexes(g.val(t)) for _, t in lv), min(n, 400)))
    ctx.conform("drv_dpf", "DpfTrace", g.L, consts="CONSTRAINT Exact\n")
    ctx.assumptions += ["the hashes of unknown seeds are taken as uniform and independent (pseudorandomness of AES is not decided)"]



def rbytes(rng, n):
    k = rng.random()
    if k < .1:
        return "00" * n
    if k < .2:
        return "ff" * n
    return "".join("%02x" % (rng.choice([0, 255, 1, 128, 127, rng.randrange(256)]) if k < .45 else rng.randrange(256)) for _ in range(n))


def d06(ctx):
    ctx.model("GroupsMC", "SPECIFICATION Spec\nCHECK_DEADLOCK FALSE\nINVARIANTS Laws\n", "groups")
    rng = ctx.rng
    g = Gen(rng)
    L = []
    for t in TYPES + BIG:
        n = ctx.pick(30, 300) if t not in BIG else ctx.pick(12, 120)
        for _ in range(n):
            a, b = g.val(t), g.val(t)
            if rng.random() < .15:
                b = list(a)
            elif rng.random() < .2:      # differing in one component only
                b = list(a)
                j = rng.randrange(len(a))
                b[j] = g.leafval(*leaves(t)[j])
            elif rng.random() < .2:      # sums to the modulus, or one beside
                b = [((-x) % (m or 1 << w) + rng.choice([0, 0, 1])) % (m or 1 << w) for x, (_, w, m) in zip(a, leaves(t))]
            L.append("g t=%s a=%s b=%s" % (t, hexes(a), hexes(b)))
        for _ in range(n // 3):
            L.append("val t=%s a=%s" % (t, hexes(g.val(t))))
        for _ in range(n):
            v = g.val(t)
            L.append("from t=%s v=%s" % (t, bad_value(rng, t, v) if rng.random() < .8 else value_text(t, v, lambda: rng.random() < .5)))
        sb = 16 if direct(t) and total(t) <= 128 else total(t) // 8 if direct(t) else 16 + sum(b // 8 for _, b, _ in leaves(t)[:-1])
        blocks = (sb + 15) // 16
        for _ in range(n // 2 if direct(t) else n // 5):
            L.append("bytes t=%s b=%s" % (t, rbytes(rng, 16 * blocks)))
        for _ in range(n // 6 + 1):
            one = total(t) // 8 if direct(t) else sb
            L.append("bytes t=%s b=%s one=1" % (t, rbytes(rng, one)))
    alltypes = TYPES + BIG + ODDTYPES + BADTYPES[1:]
    for a in alltypes:
        L.append("teq a=%s b=%s" % (a, a))
        for b in rng.sample(alltypes, ctx.pick(6, 40)):
            L.append("teq a=%s b=%s" % (a, b))
    for a, b in [("m32:17", "w32:17"), ("(u8,m8:5)", "(u8,w8:5)"), ("(u8,u16)", "(u16,u8)"), ("(u8,u8)", "(u8)"), ("u8", "x8"), ("(u8)", "u8"),
                 ("m32:17", "m64:17"), ("m32:17", "m32:18"), ("m128:18446744073709551617", "m128:1"), ("M32", "m32:1"), ("M32", "M32"),
                 ("((u8),u8)", "(u8,(u8))"), ("(u8,(x8,x8))", "(u8,(x8,u8))"), ("m128:18446744073709551629", "m128:13"), ("N", "N"), ("u8", "N")]:
        L.append("teq a=%s b=%s" % (a, b))
    for t in TYPES + [x for x in ODDTYPES if not x.startswith("w")]:
        for _ in range(ctx.pick(3, 20)):
            L.append("bits t=%s sec=%.3f" % (t, rng.choice([0.5, 20, 40, 64, 100, max(1, top_mods(t) + rng.choice([-1, -.1, .1, 1]))])))
    for t in MODS + ["m128:3"]:
        _, b, N = leaves(t)[0]
        for n in [0, 1, 1, 2, 2, 3, 4, 5, 8, 12]:
            for _ in range(ctx.pick(1, 5)):
                room = 131 - math.log2(N) - (math.log2(n) + math.log2(n + 1) if n else 0)
                sec = rng.choice([40, 1, max(1, room - 1), max(1, room - .05), max(1, room + .05), room + 3])
                need = 16 + max(0, n - 1) * (b // 8)
                L.append("samp t=%s n=%d sec=%.3f b=%s" % (t, n, sec, rbytes(rng, max(16, need + rng.choice([0, 0, 0, 0, 1, 16]) if rng.random() < .85 else max(1, need - rng.choice([1, b // 8])))) if n else "")) if n else L.append(
                    "samp t=%s n=0 sec=40 b=%s" % (t, rbytes(rng, 16)))
        for _ in range(ctx.pick(10, 60)):
            top = (1 << b) - 1
            v = rng.choice([N, N - 1, N + 1, 0, top, 2 * N, 2 * N - 1, rng.getrandbits(b), rng.getrandbits(b)]) & top
            L.append("wrap t=%s v=%x%s" % (t, v, rng.choice(["", " assign=1"])))
    for b in [8, 16, 32, 64, 128, 1, 7, 9, 65, 127, 0, -1, 129, 1000]:
        for _ in range(ctx.pick(8, 60)):
            bb = min(128, max(1, b))
            N = rng.choice([(1 << bb) - 1, 1 << min(bb, 127), (1 << min(bb, 127)) + 1, 1, 2, rng.randint(1, (1 << bb) - 1)])
            n = rng.choice([1, 1, 2, 3, 5, 12, 0, -1])
            room = 131 - math.log2(N) - (math.log2(n) + math.log2(n + 1) if n > 0 else 0)
            L.append("chk b=%d mod=%x n=%d sec=%.3f" % (b, N, n, rng.choice([40, 1, max(1, room - 1), max(1, room - .05), max(1, room + .05), room + 3])))
    rng.shuffle(L)
    ctx.conform("drv_types", "GroupsTrace", L, reset=None, consts="CONSTRAINT Exact\n")


def h02(ctx):
    ctx.model("SeedsMC", "SPECIFICATION Spec\nCHECK_DEADLOCK FALSE\nCONSTANTS MaxN=%d Levels=%d Widths={1,2,4}\nINVARIANTS Correct Bounded\n"
              % (ctx.pick(36, 80), ctx.pick(2, 3)), "lanes")
    rng, L = ctx.rng, ["targets"]
    docl, docr = "5be037ccf6a03de5935f08d0a5b6a2fd", "ef94b6aedebb026ce2ea1fe0f66f4d0b"
    nseed = 0

    def call(n, lv, per, sh, tg=None, **kw):
        ncw = kw.pop("ncw", lv * n if per else lv)
        kl, kr = (docl, docr) if rng.random() < .8 else ("%032x" % rng.getrandbits(128), "%032x" % rng.getrandbits(128))
        d = dict(n=n, lv=lv, ncw=ncw, sh=sh, kl=kl, kr=kr, rs=rng.randrange(1, 1 << 30),
                 al="0,0,0,0" if rng.random() < .75 else ",".join(str(rng.randrange(4)) for _ in range(4)))
        if tg is None:
            d["nohwy"] = 1
        else:
            d["tg"] = tg
        for k, vs in (("t", "0 1 r r r"), ("cl", "0 1 r r r r"), ("cr", "0 1 r r r r"), ("pp", "0 1 hi r r r r r"), ("pat", "same r r r r r")):
            v = rng.choice(vs.split())
            if v != "r":
                d[k] = v
        d.update(kw)
        L.append("ev " + " ".join("%s=%s" % kv for kv in d.items()))

    tgs = list(range(8))         # the driver takes the number modulo the instruction sets there are
    for tg in tgs:
        for n in range(0, ctx.pick(18, 40)):
            for per in (0, 1):
                call(n, rng.choice([1, 2, 3]), per, rng.choice([0, 0, 1, 2, 7, 64, 100]), tg, al="0,0,0,0")
        for n in ctx.pick([19, 23, 31, 32, 33, 47], [48, 63, 64, 65, 100, 127, 128, 129, 200]):
            call(n, rng.choice([1, 2]), rng.random() < .5, rng.randrange(0, 20), tg, al="0,0,0,0")
        for lv, sh in [(128, 0), (127, 1), (20, 120), (1, 127), (1, 128), (5, 126), (64, 64), (130, 0), (3, 200)]:
            call(rng.choice([1, 2, 3, 5, 9]) if lv < 60 else rng.choice([1, 2, 3, 5]), lv, rng.random() < .5, sh, tg)
        for _ in range(ctx.pick(12, 150)):
            call(rng.randint(1, 20), rng.randint(1, 8), rng.random() < .5, rng.choice([0, rng.randrange(0, 128)]), tg)
        call(5, 0, 0, 0, tg)
        call(0, 4, 0, 0, tg)
        for n, lv, ncw in [(3, 4, 5), (3, 4, 11), (3, 4, 13), (3, 4, 3), (3, 4, 0), (4, 3, 4), (3, 0, 1), (2, 2, 3), (8, 2, 15), (1, 2, 1), (8, 2, 24)]:
            call(n, lv, 0, 0, tg, ncw=ncw)
    for n in [1, 2, 63, 64, 65, 130]:
        for per in (0, 1):
            call(n, 2, per, rng.choice([0, 3]))
    for _ in range(ctx.pick(20, 200)):
        call(rng.randint(1, 20), rng.randint(1, 8), rng.random() < .5, rng.choice([0, rng.randrange(0, 128)]))
    ctx.conform("drv_seeds", "SeedsTrace", L, reset=None, consts="CONSTRAINT Exact\n", chunk=60)
    ctx.assumptions += ["instruction sets tried are those of the machine the check runs on"]


def d08(ctx):
    ctx_models(ctx)
    rng = ctx.rng
    g = Gen(rng)

    def show(i):
        g.L.append("ctxw id=%d" % i)
    for k in range(ctx.pick(260, 2500)):
        g.reset()
        far = k % 8 == 0
        lv = g.levels(rng.choice([2, 3, 4, 6]), types=rng.choice([LIGHT, LIGHT, TYPES, MIXED]), same=rng.random() < .3,
                      first=rng.choice([0, 1, 2, 3, 5, 8]) if far else None,
                      gaps=rng.choice([(1, 30, 40), (1, 2, 50), (2, 20)]) if far else rng.choice([(1, 2, 3), (1, 2, 3, 4, 5), (1, 2, 3, 5, 20), (1,)]))
        d = g.new(lv, inc=True)
        a, _ = g.gen(d, 0, full=True)
        who = rng.randrange(2)
        g.L.append("ctx id=0 k=%d" % who)
        show(0)
        h = Hist(g, 0, lv, a)
        for _ in range(rng.randint(2, 6)):
            h.step(maxout=rng.choice([8, 16, 32]), bad=.08)
            show(h.id)
            if rng.random() < .15:
                g.L.append("mctx id=%d from=%d mut=%s" % (h.id + 1, h.id, rng.choice(["rev", "dup", "rev+dup", "dup+rev"])))
                h = h.copy(h.id + 1)
                show(h.id)
    # many prefixes, deep below the first
    for n in [60] * ctx.pick(4, 30):
        g.reset()
        f = rng.choice([3, 6, 7])
        lds = [f, f + rng.choice([1, 2]), f + rng.choice([8, 20]), 128]
        lv = [(ld, rng.choice(LIGHT)) for ld in lds]
        d = g.new(lv)
        a, _ = g.gen(d, 0, alpha=g.topalpha(128), full=True)
        g.L.append("ctx id=0 k=%d" % rng.randrange(2))
        g.L.append("until id=0 lv=0 pre=")
        show(0)
        pre = [rng.getrandbits(f) for _ in range(n)]
        g.L.append("until id=0 lv=1 pre=%s" % hexes(pre))
        show(0)
        gap = lds[2] - lds[0]
        pts = [(p << gap) | rng.getrandbits(gap) for p in pre[:n // 2]]
        g.L.append("atc id=0 lv=2 pts=%s" % hexes(pts))
        show(0)
        g.L.append("atc id=0 lv=3 pts=%s" % hexes([(p << (128 - lds[2])) | rng.getrandbits(128 - lds[2]) for p in pts[:5]]))
        show(0)
    ctx.conform("drv_dpf", "DpfTrace", g.L, consts="CONSTRAINT Exact\n", chunk=ctx.pick(250, 400))


CHECKS = {"D08": d08, "H02": h02, "D01": d01, "D02": d02, "D03": d03, "D04": d04, "D05": d05, "D06": d06, "D07": d07}
