"""Checks of the retrieval layer: I01, B01, P01, P02, P03, L01, V01."""
import vlib

EXACT = "CONSTRAINT Exact\n"


def csv(xs):
    return ",".join(str(x) for x in xs)


def i01(ctx):
    rng, L = ctx.rng, ["targets"]
    for n, sz in ctx.pick([(4, 5)], [(4, 6), (8, 9), (2, 5)]):
        ctx.model("InnerMC", "SPECIFICATION Spec\nCHECK_DEADLOCK FALSE\nCONSTANTS N=%d MaxSize=%d NumValues=2 NumSels=%d\n"
                  "INVARIANTS Right InBounds\n" % (n, sz, 1 if ctx.quick else 2), "lanes%d" % n)
    modes = ["tg=%d" % k for k in range(8)] + ["nohwy"]

    def ip(n, lens, als, ns, sel="rnd", nb=None, **kw):
        if nb is None:
            nb = [(n + 127) // 128 + rng.choice([0, 0, 1])]
        if "mode" in kw:
            ms = kw.pop("mode")
        else:
            ms = [rng.choice(modes)]
        rs = rng.randrange(1, 1 << 30)
        longest = max([lens[i % len(lens)] for i in range(n)], default=0)
        if ns == 0 or longest == 0 or "max" in kw or min(nb) * 128 < n or len(set(nb)) > 1:
            ms = [m for m in ms if m != "nohwy"] or modes[:1]      # the fallback relies on its caller's checks
        for m in ms:
            L.append("ip n=%d len=%s al=%s ns=%d sel=%s nb=%s rs=%d %s %s" % (
                n, csv(lens), csv(als), ns, sel, csv(nb), rs, m, " ".join("%s=%s" % x for x in kw.items())))

    # every length around every vector width, aligned, on every instruction set, next to longer and shorter records
    for ln in list(range(0, 36)) + list(range(47, 50)) + list(range(60, 70)) + list(range(95, 98)) + list(range(125, 132)) + [191, 193]:
        for m in modes if not ctx.quick else rng.sample(modes, 4):
            ip(5, [ln, 70, ln, 3, ln], [0], 3, mode=[m])
        ip(3, [ln], [0], 1, "1")
        ip(3, [ln], [0], 2, more=rng.randint(0, 20))
    # alignments
    for a in (0, 1, 2, 3, 4, 7, 8, 15, 16, 17, 24, 31, 32, 33, 40, 48, 56, 63):
        for ln in (1, 15, 16, 17, 33, 64, 80):
            ip(4, [ln], [a], 2, mode=rng.sample(modes, ctx.pick(2, 9)))
        ip(6, [16, 40, 17, 5], [a, 0, rng.randrange(64)], 3)
    # numbers of records around the block size, selections of every kind and number
    for n in (0, 1, 2, 63, 64, 65, 127, 128, 129, 130, 191, 255, 256, 257, 300) + (() if ctx.quick else (1000, 2049)):
        for sel in ("rnd", "1", "0", "one", "beyond"):
            for ns in (1, 2, 5):
                ip(n, [rng.choice([1, 4, 16]), 3, 16, 20], [0, 16] if rng.random() < .6 else [rng.randrange(64)], ns, sel)
        ip(n, [8], [0], rng.choice([3, 9, 17, 33]))
        ip(n, [8], [0], 2, nb=[(n + 127) // 128 + 3])
    # refusals
    for n in (0, 1, 127, 128, 129, 257):
        b = (n + 127) // 128
        for nb in ([b - 1], [b, b - 1], [b, b + 1], [b + 1, b], [b, b, b + 2], [0], [0, b], [b]):
            if min(nb) >= 0:
                ip(n, [4], [0], 3, nb=nb)
                ip(n, [4], [0], 3, nb=nb, max=rng.choice([0, -1]))
        ip(n, [0], [0], 2)
        ip(n, [0], [0], 0)
        ip(n, [4], [0], 0)
    # no room for the longest record
    for ln in (2, 16, 17, 33, 64, 65):
        for mx in {1, ln // 2, ln - 1, ln, ln + 1}:
            for at in (0, 3, 6):
                ip(7, [ln if k == at else rng.randrange(mx + 1) for k in range(7)], [0], rng.choice([0, 1, 3]), max=mx)
        ip(130, [1] * 129 + [ln], [0], 2, max=ln - 1)
    # all-zero and all-ones records, long records
    for pat in ("0", "1"):
        ip(140, [24, 9], [0], 3, pat=pat)
    for ln in ctx.pick((500, 1023, 2000), (500, 1023, 1024, 4097, 8191)):
        ip(7, [ln, 16, ln - 1], [0], 4, mode=rng.sample(modes, ctx.pick(3, 9)))
    # many selections, many records, long records
    for ns in ctx.pick((130, 300), (127, 128, 129, 300, 1000)):
        ip(rng.choice([20, 140]), [3, 9, 5], [0], ns)
    for n in ctx.pick((5000, 66000), (5000, 40000, 66000, 132000)):
        for sel in ("rnd", "one", "1"):
            ip(n, [rng.choice([1, 2]), 1, 2], [0], 2, sel, mode=rng.sample(modes, 1))
    for ln in ctx.pick((40000, 140001), (32768, 65535, 65537, 131079, 300000)):
        for sel in ("1", "rnd"):
            ip(4, [ln, 16, ln - 1, ln], [0], 2, sel, mode=rng.sample(modes, ctx.pick(2, 4)))
    # anything
    for _ in range(ctx.pick(150, 3000)):
        n = rng.choice([rng.randint(1, 10), rng.randint(1, 150), rng.randint(120, 140), rng.randint(250, 270)])
        ip(n, [rng.randint(0, 40) for _ in range(rng.randint(1, 7))], [rng.choice([0, 0, 0, 16, 32, rng.randrange(64)])
                                                                      for _ in range(rng.randint(1, 3))],
           rng.randint(1, 6), rng.choice(["rnd", "rnd", "1", "one"]))
    head, rest = L[:1], L[1:]
    rng.shuffle(rest)
    ctx.conform("drv_inner", "InnerTrace", head + rest, reset=None, consts=EXACT)
    ctx.assumptions += ["instruction sets are those of the machine the check runs on"]


# --- databases, servers and clients --------------------------------------------
def hx(b):
    return b.hex() if b else "-"


def hxs(bs):
    return ",".join(hx(b) for b in bs)


class Pir:
    """Writes one script; every trace starts with `new`."""

    def __init__(self, ctx):
        self.ctx, self.rng, self.L = ctx, ctx.rng, []
        self.reset()

    def __call__(self, line):
        self.L.append(line)

    def reset(self):
        self.L.append("new")
        self.n = 0

    def id(self):
        self.n += 1
        return self.n

    def seed(self):
        return bytes(self.rng.randrange(256) for _ in range(self.rng.choice([1, 3, 16, 16, 16, 40]))).hex()

    def bytes(self, n):
        r = self.rng
        k = r.random()
        if k < .08:
            return bytes(n)
        if k < .13:
            return b"\xff" * n
        return bytes(r.randrange(256) for _ in range(n))

    def values(self, n, lens=None):
        r = self.rng
        lens = lens or [r.choice([0, 1, 2, 3, 5, 8, 15, 16, 17, 24]) for _ in range(r.randint(1, 4))]
        if max(lens) == 0:
            lens = lens + [4]
        v = [self.bytes(r.choice(lens)) for _ in range(n)]
        if n and not any(v):
            v[r.randrange(n)] = b"\x05\x06"
        return v

    def keys(self, n, prefixy=False):
        """Distinct non-empty keys that do not end in a zero byte."""
        r, ks = self.rng, []
        while len(ks) < n:
            m = r.random()
            if ks and m < (.6 if prefixy else .25):
                b = r.choice(ks)
                k = r.choice([b + bytes([r.choice([0, 0, 1, 97])]) + b"x", b + b"\x01", b[:-1], b + b, b + b"\x00\x01", b[:1],
                              bytes([b[0] ^ 1]) + b[1:], b[:-1] + bytes([b[-1] ^ 128]), b"\x00" + b])
            elif m < .8:
                k = bytes(r.choice(b"abcd") for _ in range(r.randint(1, 4)))
            else:
                k = bytes(r.randrange(256) for _ in range(r.choice([1, 2, 7, 8, 15, 16, 17, 33])))
            if k and k[-1] != 0 and k not in ks:
                ks.append(k)
        return ks

    def dense(self, vals):
        b, d = self.id(), self.id()
        self("b id=%d kind=dense" % b)
        if vals:
            self("ins id=%d v=%s" % (b, hxs(vals)))
        self("build id=%d d=%d" % (b, d))
        return d

    def hashed(self, kind, recs, nb, h, seed):
        b, d = self.id(), self.id()
        self("b id=%d kind=%s" % (b, kind))
        self("par id=%d nb=%d h=%d seed=%s" % (b, nb, h, seed))
        if recs:
            self("ins id=%d k=%s v=%s" % (b, hxs([k for k, _ in recs]), hxs([v for _, v in recs])))
        self("build id=%d d=%d" % (b, d))
        return d

    def servers(self, kind, d, par, extra="", roles=("plain", "leader", "helper"), names=("db", "ldb", "hdb")):
        out = []
        for ro, nm in zip(roles, names):
            s = self.id()
            self("srv id=%d kind=%s role=%s d=%d nm=%s %s %s" % (s, kind, ro, d, nm, par, extra))
            out.append(s)
        return out

    def client(self, kind, par="", frm=None, ctx=None):
        c = self.id()
        self("cli id=%d kind=%s %s %s%s" % (c, kind, par if frm is None else "", "" if frm is None else "from=%d" % frm,
                                            "" if ctx is None else " ctx=" + ctx))
        return c

    def req(self, c, q, *more):
        r = self.id()
        self("req id=%d c=%d q=%s %s" % (r, c, csv(q) if q and isinstance(q[0], int) else hxs(q) if q else "", " ".join(more)))
        return r

    def run(self, l, h, r, *more):
        p = self.id()
        self("run id=%d l=%d h=%d r=%d %s" % (p, l, h, r, " ".join(more)))
        return p

    def sel(self, words):
        """A selection of some number of blocks."""
        r = self.rng
        m = r.random()
        if words == 0:
            return "-"
        w = [r.getrandbits(128) for _ in range(words)]
        if m < .4:
            w = [0] * words
            w[r.randrange(words)] = 1 << r.randrange(128)
        elif m < .5:
            w = [(1 << 128) - 1] * words
        elif m < .6:
            w = [0] * words
        return ",".join("%x" % x for x in w)


def go(ctx, p, **kw):
    ts = []
    for x in p.L:
        if x == "new":
            ts.append([])
        ts[-1].append(x)
    ctx.rng.shuffle(ts)
    ctx.conform("drv_pir", "PirTrace", [x for t in ts for x in t], consts=EXACT, **kw)


DBCFG = ("SPECIFICATION Spec\nCHECK_DEADLOCK FALSE\nCONSTANTS Kind=\"%s\" Builders={%s} Keys={%s} NBk=%d NF=%d MaxOps=%d MaxDbs=%d "
         "PrintScripts=%s\nINVARIANTS Holds Moving Script\nPROPERTY Once\nVIEW View\n")


def histories(ctx, kind, nops, num):
    r = ctx.model("PirDbMC", DBCFG % (kind, "1,2,3", "1,2,3", 3, 1 if kind != "cuckoo" else 2, nops, 4, "TRUE"), kind + "sim", workers=1,
                  args=["-simulate", "num=%d" % num, "-depth", str(4 * nops), "-seed", str(ctx.seed)])
    return vlib.scripts_of(r)


def replay_history(p, kind, hist, full):
    """One history of builder operations, with its databases asked in between and at the end."""
    r = p.rng
    p.reset()
    p("b id=1 kind=%s" % kind)
    keys = p.keys(3, True)
    seed = p.seed()
    nb = r.choice([1, 2, 3, 4, 7]) if kind == "simple" else r.choice([2, 3, 4, 5, 7])
    dbs, live = [], {1: 0}

    def ask():
        for d in dbs if full else r.sample(dbs, min(2, len(dbs))):
            p("ip d=%d sel=%s" % (d, ";".join(p.sel(r.choice([1, 1, 1, 2])) for _ in range(r.randint(1, 3)))))
    for op in hist:
        b = op["b"]
        if op["op"] == "ins":
            n = r.choice([1, 1, 1, 2])
            vs = p.values(n)
            ks = [keys[op["k"] - 1]] + p.keys(n - 1)
            p("ins id=%d %sv=%s" % (b, "" if kind == "dense" else "k=%s " % hxs(ks), hxs(vs)))
        elif op["op"] == "clone":
            p("clone id=%d to=%d" % (b, op["k"]))
        elif op["op"] == "clear":
            p("clear id=%d" % b)
        elif op["op"] == "par":
            p("par id=%d nb=%d h=%d seed=%s" % (b, nb, r.choice([2, 3, 3]), seed))
        else:
            d = 100 + op["k"]
            p("build id=%d d=%d" % (b, d))
            dbs.append(d)
            if r.random() < .3:
                ask()
    if r.random() < .3:
        p("b id=1 kind=%s" % kind)      # the builders go, the databases stay
    ask()


def b01(ctx):
    for kind, nf, ops in (("dense", 1, ctx.pick(6, 7)), ("simple", 1, ctx.pick(5, 6)), ("cuckoo", 2, ctx.pick(4, 5))):
        ctx.model("PirDbMC", DBCFG % (kind, "1,2", "1,2", 2, nf, ops, 2, "FALSE"), kind)
    p = Pir(ctx)
    r = ctx.rng
    for kind in ("dense", "simple", "cuckoo"):
        for h in histories(ctx, kind, 9, ctx.pick(40, 400)) + histories(ctx, kind, 16, ctx.pick(15, 200)):
            replay_history(p, kind, h, not ctx.quick)
    # dense: numbers and lengths of records
    for n in [0, 1, 2, 3, 64, 127, 128, 129] + ctx.pick([r.choice([255, 256, 257])], [255, 256, 257, 383, 384, 385, 700]):
        for lens in ([4], [0, 1, 16, 17], [0]):
            p.reset()
            vals = p.values(n, lens) if lens != [0] else [b""] * n
            d = p.dense(vals)
            nb = (n + 127) // 128
            p("ip d=%d sel=%s" % (d, ";".join(p.sel(nb) for _ in range(3))))
            p("ip d=%d sel=%s" % (d, p.sel(nb + 1)))
            p("ip d=%d sel=%s;%s" % (d, p.sel(max(nb, 1)), p.sel(max(nb - 1, 0))))
            p("ip d=%d sel=" % d)
    # hashed: any records in any tables
    for _ in range(ctx.pick(110, 2000)):
        p.reset()
        kind = r.choice(["cuckoo", "cuckoo", "simple"])
        n = r.choice([0, 1, 2, 2, 3, 4, 5, 6, 8, 12])
        nb = r.choice([max(1, n - 1), max(1, n), n + 1, (3 * n + 1) // 2, 2 * n + 1, 1, 2])
        ks = p.keys(n, r.random() < .5)
        vs = p.values(n) if r.random() < .9 else [b""] * n
        recs = list(zip(ks, vs))
        if recs and r.random() < .3:
            recs += [(r.choice(ks), p.bytes(r.randint(0, 20))) for _ in range(r.randint(1, 3))]   # repeated keys
        if recs and r.random() < .07:
            recs.insert(r.randrange(len(recs)), (b"", b"x"))
        if recs and r.random() < .15:
            recs[r.randrange(len(recs))] = (ks[0] + b"\x00", b"zero")
        b = p.id()
        p("b id=%d kind=%s" % (b, kind))
        if r.random() < .3:
            for w in ("key", "val"):
                if r.random() < .7:
                    p("sub id=%d which=%s fill=%d %s" % (b, w, r.randrange(3), r.choice(["", "", "built", "null"])))
        h = r.choice([2, 3, 3, 3, 4, 7])
        for j in range(r.choice([1, 1, 1, 2])):
            if j == 0 and r.random() < .8 or j > 0:
                p("par id=%d nb=%d h=%d seed=%s" % (b, nb, h, p.seed()))
            else:
                p("par id=%d nb=%s" % (b, r.choice(["0 seed=01", "-1 seed=01", "4", "4 fam=0 seed=01", "4 h=1 seed=0a", "4 h=0 seed=0a",
                                                   "4294967296 seed=01", "3000000000 seed=01", "4 fam=7 seed=02"])))
            cut = r.randint(0, len(recs))
            for part in (recs[:cut], recs[cut:]):
                if part:
                    p("ins id=%d k=%s v=%s" % (b, hxs([k for k, _ in part]), hxs([v for _, v in part])))
            d = p.id()
            p("build id=%d d=%d" % (b, d))
            p("ip d=%d sel=%s;%s" % (d, p.sel((nb + 127) // 128), p.sel((nb + 127) // 128)))
            if r.random() < .3:
                p("build id=%d d=%d" % (b, p.id()))
            if r.random() < .5:
                p("clear id=%d" % b)
    # many records, long records
    for n, lens in [(ctx.pick(4000, 20000), [1, 2]), (ctx.pick(2100, 9000), [5, 0, 16]), (5, [70000, 3, 66000]), (3, [40000])]:
        p.reset()
        longest = [p.bytes(max(lens) + 1)]                   # the longest one last, then the longest one first
        d = p.dense(p.values(n - 1, lens) + longest if len(lens) == 2 else longest + p.values(n - 1, lens))
        nb = (n + 127) // 128
        p("ip d=%d sel=%s;%s" % (d, p.sel(nb), p.sel(nb)))
    for kind, n, nb in [("simple", ctx.pick(250, 2000), ctx.pick(1700, 9000)), ("simple", 90, 2), ("cuckoo", ctx.pick(250, 1500), ctx.pick(1500, 4000))]:
        p.reset()
        ks = p.keys(n)
        d = p.hashed(kind, list(zip(ks, p.values(n, [1, 2, 6]))), nb, 3, p.seed())
        p("ip d=%d sel=%s" % (d, p.sel((nb + 127) // 128)))
    p.reset()
    d = p.hashed("cuckoo", list(zip(p.keys(4), p.values(4, [66000, 30000, 1]))), 9, 3, p.seed())
    p("ip d=%d sel=%s" % (d, p.sel(1)))
    # exactly as full as the parameters promise to bear, and beyond
    for n in ctx.pick([20, 40, 60, 90], [20, 30, 40, 50, 59, 60, 61, 90, 200, 400]):
        p.reset()
        ks = p.keys(n)
        p.hashed("cuckoo", list(zip(ks, p.values(n))), (3 * n + 1) // 2, 3, p.seed())
        p.hashed("simple", list(zip(ks, p.values(n))), r.choice([1, n // 4, n]), 3, p.seed())
        p.hashed("cuckoo", list(zip(ks[:30], p.values(30))), r.choice([30, 33, 36]), r.choice([2, 3, 5]), p.seed())
    for n in (1, 2, 3, 4, 5, 9, 1000, 999983, 2 ** 31 - 1, 2 ** 31, 2 ** 40, 2 ** 61, 2 ** 62, 0, -1, -2 ** 63):
        for kind in ("cuckoo", "simple"):
            p("gen kind=%s n=%d" % (kind, n))
            if n < 10:
                p("gen kind=%s n=%d fam=%d" % (kind, n, r.choice([0, 1])))
                p("gen kind=%s n=%d wk=%s" % (kind, n, r.choice(["dense", "simple", "cuckoo", "none"])))
    go(ctx, p)


# --- retrieval ------------------------------------------------------------------
def dense_world(p, vals, extra=""):
    d = p.dense(vals)
    par = "n=%d" % len(vals)
    s = p.servers("dense", d, par, extra)
    return s, p.client("dense", par)


def indices(r, n, k):
    c = [0, n - 1, n // 2, min(n - 1, 127), min(n - 1, 128), min(n - 1, 255), min(n - 1, 256)]
    q = [r.choice(c) if r.random() < .5 else r.randrange(n) for _ in range(k)]
    if k > 1 and r.random() < .3:
        q[-1] = q[0]
    return q


def p01(ctx):
    p = Pir(ctx)
    r = ctx.rng
    mc(ctx, N=ctx.pick(2, 3))
    # every record of small databases
    for n in [1, 2, 3, 4, 5, 6, 7, 9] + ctx.pick([], [8, 16, 31]):
        p.reset()
        (s, l, h), c = dense_world(p, p.values(n))
        for i in range(n):
            q = p.req(c, [i], "plain")
            for side in (0, 1):
                p("plain s=%d r=%d side=%d" % (s, q, side))
        q = p.req(c, list(range(n)))
        p("take c=%d r=%d p=%d" % (c, q, p.run(l, h, q)))
        q = p.req(c, [])
        p.run(l, h, q)
    # around the blocks of 128
    for n in [1, 2, 63, 64, 65, 127, 128, 129, 255, 256, 257] + [r.randint(10, 400)] + ctx.pick([], [383, 384, 385, 511, 512, 513, 640, 1025]):
        for _ in range(ctx.pick(4, 12)):
            p.reset()
            (s, l, h), c = dense_world(p, p.values(n))
            for k in r.sample([1, 2, 3, 4, 6], 2):
                q = p.req(c, indices(r, n, k), "plain")
                full = 1 if n <= 257 and k <= 2 else 0
                for side in (0, 1):
                    p("plain s=%d r=%d side=%d full=%d" % (s, q, side, full))
                q = p.req(c, indices(r, n, k))
                p("take c=%d r=%d p=%d" % (c, q, p.run(l, h, q, "full=%d" % (n <= 129 and k == 1), "cb=" + r.choice(["before", "after", "twice"]))))
            for bad in ([n], [-1], [0, n], [n + 127], [n, 0, -1]):
                p.req(c, bad, r.choice(["", "plain"]))
    # larger ones, answers only
    for n in ctx.pick([r.choice([640, 900])], [1000, 2047, 2048, 2049, 3000]):
        p.reset()
        (s, l, h), c = dense_world(p, p.values(n, [3, 2]))
        for k in (1, 3, 9):
            q = p.req(c, indices(r, n, k))
            p("take c=%d r=%d p=%d" % (c, q, p.run(l, h, q, "full=0")))
    small, big = p, Pir(ctx)
    for n in ctx.pick([25000], [25000, 70000]):
        p = small if n <= 25000 else big
        p.reset()
        (s, l, h), c = dense_world(p, p.values(n - 1, [1, 2]) + [p.bytes(3)])
        q = p.req(c, [n - 1, n - 127, r.randrange(n), r.randrange(n), 20001])
        p("take c=%d r=%d p=%d" % (c, q, p.run(l, h, q, "full=0")))
        q = p.req(c, [n - 2, 16384, r.randrange(n)], "plain")
        for side in (0, 1):
            p("plain s=%d r=%d side=%d full=0" % (s, q, side))
    p = small
    # long records; hundreds of queries
    for n, ln, k in ctx.pick([(3, 66001, 1), (9, 5000, 3)], [(3, 66001, 2), (9, 5000, 3), (2, 132000, 1), (130, 20000, 2)]):
        p.reset()
        (s, l, h), c = dense_world(p, p.values(n - 1, [ln, 3, ln - 1]) + [p.bytes(ln)])
        q = p.req(c, [n - 1] + indices(r, n, k - 1))
        p("take c=%d r=%d p=%d" % (c, q, p.run(l, h, q, "full=0")))
    for k in ctx.pick([300], [130, 260, 520, 1100]):
        p.reset()
        n = r.choice([300, 700])
        (s, l, h), c = dense_world(p, p.values(n, [3, 9]))
        q = p.req(c, indices(r, n, k))
        p("take c=%d r=%d p=%d" % (c, q, p.run(l, h, q, "full=0")))
        q = p.req(c, indices(r, n, k), "plain")
        for side in (0, 1):
            p("plain s=%d r=%d side=%d full=0" % (s, q, side))
    # many queries at once
    for _ in range(ctx.pick(2, 10)):
        p.reset()
        n = r.choice([3, 50, 130])
        (s, l, h), c = dense_world(p, p.values(n))
        q = p.req(c, indices(r, n, r.choice([12, 17, 33])))
        p("take c=%d r=%d p=%d" % (c, q, p.run(l, h, q, "full=0")))
    # clients for databases too big to build
    for n in (2 ** 20, 2 ** 20 + 1, 2 ** 31 - 1, 2 ** 31, 2 ** 31 + 1, 2 ** 32, 2 ** 32 + 1, 2 ** 40 + 5, 2 ** 62, 2 ** 63 - 1):
        p.reset()
        c = p.client("dense", "n=%d" % n)
        for i in (0, 1, 127, 128, 2 ** 20 - 1, 2 ** 31 - 1, r.randrange(2 ** 31)):
            if i < n:
                p.req(c, [i], r.choice(["", "plain"]))
        p.req(c, [-1])
        p.req(c, [-2 ** 31, 0])
    p.reset()
    p("cli id=1 kind=dense n=4")
    p("fresh c=1 n=%d" % ctx.pick(220, 600))
    go(ctx, p)
    if big.L:     # too slow with memory checking: the answers to all single selections are recorded
        go(ctx, big, name="large", flags="", tag="plain", timeout=900)


MCCFG = ("SPECIFICATION Spec\nCHECK_DEADLOCK FALSE\nCONSTANTS N=%d B=1 Reqs={%s} Cbs={%s} Faults={%s} Decs={%s} PrintScripts=FALSE\n"
         "INVARIANTS RightOrError NoFaultNoError FaultIsError Blind\nPROPERTY Terminates\n")


def q(*xs):
    return ",".join('"%s"' % x for x in xs)


def mc(ctx, N=2, reqs="1", cbs=("before", "after"), faults=("none",), decs=("ok",), name="protocol"):
    ctx.model("PirMC", MCCFG % (N, reqs, q(*cbs), q(*faults), q(*decs)), name)


def hashed_world(p, kind, recs, nb, h, extra="", cfrom=True, ctx=None, seed=None):
    seed = seed or p.seed()
    d = p.hashed(kind, recs, nb, h, seed)
    par = "nb=%d h=%d seed=%s" % (nb, h, seed)
    s = p.servers(kind, d, par, extra)
    return s, p.client(kind, par, s[1] if cfrom else None, ctx)


def queries(p, recs, k):
    r = p.rng
    ks = [x for x, _ in recs] or [b"q"]
    out = []
    for _ in range(k):
        b = r.choice(ks)
        m = r.random()
        if m < .5:
            out.append(b)
        elif m < .8:
            c = r.choice([b + b"x", b[:-1], b + b"\x01", b[:1], b + b, b"\x00" + b, b + b"\x00\x02", bytes([b[0] ^ 1]) + b[1:],
                          b[:-1] + bytes([b[-1] ^ 1])])
            out.append(c.rstrip(b"\x00") or b"z")
        else:
            out.append(p.keys(1)[0])
    if r.random() < .06:
        out[r.randrange(k)] = b""
    return out


def hashed_check(ctx, kind):
    p = Pir(ctx)
    r = ctx.rng
    h = 1 if kind == "simple" else 3

    def retrieve(n, nb, hh, rounds, k=3, prefixy=None, vals=None, full=True, also=(), cfrom=True):
        p.reset()
        ks = p.keys(n, r.random() < .5 if prefixy is None else prefixy)
        recs = list(zip(ks, vals(n) if vals else p.values(n))) + list(also)
        (s, l, hp), c = hashed_world(p, kind, recs, nb, hh, cfrom=cfrom)
        for i in range(rounds):
            qs = queries(p, recs, r.randint(1, k))
            if i == 0 and r.random() < .7:
                rq = p.req(c, qs[:2], "plain")
                for side in (0, 1):
                    p("plain s=%d r=%d side=%d full=%d" % (s, rq, side, full and nb <= 130))
            rq = p.req(c, qs)
            p("take c=%d r=%d p=%d" % (c, rq, p.run(l, hp, rq, "full=%d" % (full and len(qs) <= 1 and i == 0 and nb <= 130),
                                                   "cb=" + r.choice(["before", "after"]))))
        return recs, s, l, hp, c

    # every stored key, then keys near them
    for n in [1, 2, 3, 4, 6, 9] * ctx.pick(1, 6) + ctx.pick([14], [14, 20, 40]):
        nb = (3 * n + 1) // 2 if kind == "cuckoo" else r.choice([1, 2, n, 2 * n])
        recs, s, l, hp, c = retrieve(n, max(nb, 2 if kind == "cuckoo" else 1), 3, 1, prefixy=True)
        for i in range(0, n, 3):
            rq = p.req(c, [k for k, _ in recs[i:i + 3]])
            p("take c=%d r=%d p=%d" % (c, rq, p.run(l, hp, rq, "full=0")))
    # odd tables, prefix keys, odd values
    for _ in range(ctx.pick(28, 500)):
        n = r.choice([1, 1, 2, 3, 4, 5, 8, 12])
        if kind == "cuckoo":
            nb, hh = r.choice([(3 * n + 1) // 2, 2 * n, 3 * n + 1, 4 * n, 130]), r.choice([3, 3, 3, 4, 5])
        else:
            nb, hh = r.choice([1, 2, 3, n, 2 * n, 129]), 1
        vals = r.choice([None, None, lambda m: [p.bytes(r.choice([1, 5])) for _ in range(m)], lambda m: p.values(m, [0, 1]),
                         lambda m: [r.choice([b"\x0a\x01a", b"\x12\x00", b"\x00\x00", b"", b"\x0a", b"\x12\x02ab"]) for _ in range(m - 1)] + [b"x"]])
        retrieve(n, max(2, nb) if kind == "cuckoo" else max(1, nb), hh, 3, vals=vals, full=r.random() < .5, cfrom=r.random() < .7)
    # long keys and values: two-byte lengths in the buckets
    for ln in (126, 127, 128, 129, 200) if not ctx.quick else r.sample([126, 127, 128, 129, 200], 2):
        p.reset()
        k1 = bytes(r.randrange(1, 256) for _ in range(ln))
        recs = [(k1, p.bytes(3)), (k1[:-1] + bytes([k1[-1] ^ 1 or 2]), p.bytes(ln)), (b"a", b"bb"), (k1[:ln // 2], p.bytes(130))]
        (s, l, hp), c = hashed_world(p, kind, recs, 6, 3)
        rq = p.req(c, [k1, b"a", k1[:ln // 2], k1 + b"x"])
        p("take c=%d r=%d p=%d" % (c, rq, p.run(l, hp, rq, "full=0")))
    # keys that agree in a long prefix; long values; many queries; full buckets
    for ln in ctx.pick([90], [33, 65, 90, 130, 300]):
        p.reset()
        k1 = bytes(r.randrange(1, 255) for _ in range(ln))
        ks = [k1] + [k1[:i] + bytes([k1[i] + 1]) + k1[i + 1:] for i in (ln - 1, ln // 2, ln - 2)]
        recs = list(zip(ks[:2], p.values(2, [3])))
        (s, l, hp), c = hashed_world(p, kind, recs, 5, 3)
        rq = p.req(c, ks + [k1[:-1], k1 + b"a"])
        p("take c=%d r=%d p=%d" % (c, rq, p.run(l, hp, rq, "full=0")))
    for ln in ctx.pick([45000 if kind == "simple" else 20000], [20000, 45000, 70000]):
        p.reset()
        recs = [(b"ab", p.bytes(ln)), (b"a", p.bytes(ln - 1)), (b"b", b"x")]
        (s, l, hp), c = hashed_world(p, kind, recs, 4, 3)
        for k, v in recs[:ctx.pick(1, 3)]:
            rq = p.req(c, [k])
            p("take c=%d r=%d p=%d" % (c, rq, p.run(l, hp, rq, "full=0")))
    for k in ctx.pick([120], [60, 120, 260]):
        p.reset()
        recs = list(zip(p.keys(7), p.values(7, [2, 3])))
        (s, l, hp), c = hashed_world(p, kind, recs, 12, 3)
        rq = p.req(c, [r.choice(recs)[0] for _ in range(k)])
        p("take c=%d r=%d p=%d" % (c, rq, p.run(l, hp, rq, "full=0")))
    if kind == "cuckoo":                                 # many hash functions
        for hh in ctx.pick([9], [2, 6, 9, 16]):
            p.reset()
            recs = list(zip(p.keys(8), p.values(8, [2, 0, 5])))
            (s, l, hp), c = hashed_world(p, kind, recs, 24, hh)
            rq = p.req(c, [k for k, _ in recs])
            p("take c=%d r=%d p=%d" % (c, rq, p.run(l, hp, rq, "full=0")))
    if kind == "simple":
        for n in ctx.pick([60], [60, 300, 700]):
            p.reset()
            recs = list(zip(p.keys(n), p.values(n, [2, 0, 5])))
            (s, l, hp), c = hashed_world(p, kind, recs, 2, 1)
            for i in range(0, n, (n + 2) // 3):
                rq = p.req(c, [k for k, _ in recs[i:i + 20]])
                p("take c=%d r=%d p=%d" % (c, rq, p.run(l, hp, rq, "full=0")))
    # repeated keys; keys that end in zero bytes; several databases under different seeds
    for _ in range(ctx.pick(8, 100)):
        n = r.choice([2, 3, 5])
        k0 = p.keys(1)[0]
        also = [(k0, p.bytes(4)), (k0, p.bytes(6))] if r.random() < .5 else [(k0, p.bytes(2)), (k0 + b"\x00", p.bytes(4))]
        recs, s, l, hp, c = retrieve(n, 3 * n + 6, 3, 1, also=also)
        rq = p.req(c, [k0, k0 + b"\x00", k0 + b"x"])
        p("take c=%d r=%d p=%d" % (c, rq, p.run(l, hp, rq, "full=0")))
        (s2, l2, h2), c2 = hashed_world(p, kind, recs[:n], 3 * n + 5, 3)
        rq = p.req(c2, [recs[0][0], recs[1][0]])
        p("take c=%d r=%d p=%d" % (c2, rq, p.run(l2, h2, rq, "full=0")))
        p.run(l, hp, rq)                                    # another database's request
    # larger
    for n in ctx.pick([60], [60, 90, 150]):
        nb = (3 * n + 1) // 2 if kind == "cuckoo" else r.choice([n // 4, n])
        retrieve(n, nb, 3, 4, k=4, full=False)
    # several queries, more than fit in one block of hash functions
    for _ in range(ctx.pick(2, 20)):
        retrieve(5, 9, 3, 2, k=9, full=False)
    # clients alone, of any size
    for nb in (1, 2, 127, 128, 129, 2 ** 20 + 1, 2 ** 31 - 1):
        for hh in (2, 3, 4, 9) if kind == "cuckoo" else (1,):
            p.reset()
            c = p.client(kind, "nb=%d h=%d seed=%s" % (nb, hh, p.seed()))
            p.req(c, p.keys(r.randint(1, 3)), r.choice(["", "plain"]))
    p.reset()
    p("cli id=1 kind=%s nb=4 h=3 seed=0011" % kind)
    p("fresh c=1 n=%d" % ctx.pick(220, 600))
    # parameters as the servers generate them
    go(ctx, p)


def p02(ctx):
    mode = "SPECIFICATION Spec\nCHECK_DEADLOCK FALSE\nCONSTANTS Mode=\"cuckoo\" MaxRecs=%d NBk=%d NF=%d\nINVARIANTS Right RoundTrip\n"
    ctx.model("PirClientMC", mode % ctx.pick((1, 2, 2), (2, 2, 2)), "client")
    hashed_check(ctx, "cuckoo")


def p03(ctx):
    mode = "SPECIFICATION Spec\nCHECK_DEADLOCK FALSE\nCONSTANTS Mode=\"simple\" MaxRecs=%d NBk=%d NF=1\nINVARIANTS Right RoundTrip\n"
    ctx.model("PirClientMC", mode % ctx.pick((2, 2), (3, 2)), "client")
    hashed_check(ctx, "simple")


# --- leader and helper ----------------------------------------------------------
def worlds(p):
    """One database of each kind with servers and a client: [(kind, servers, client, query maker)]."""
    r, out = p.rng, []
    n = r.choice([1, 3, 9, 130])
    s, c = dense_world(p, p.values(n))
    out.append(("dense", s, c, lambda k, n=n: indices(r, n, k)))
    for kind in ("cuckoo", "simple"):
        n = r.choice([1, 3, 6])
        recs = list(zip(p.keys(n), p.values(n)))
        s, c = hashed_world(p, kind, recs, 2 * n + 1, 3, ctx=r.choice([None, None, None, "6162"]))
        out.append((kind, s, c, lambda k, recs=recs: queries(p, recs, k)))
    return out


def l01(ctx):
    cbs = ("before", "after", "none", "twice")
    faults = ("none", "unreached", "drop", "flip", "long")
    mc(ctx, 2, "1", cbs, faults, ("ok", "fails"), "faults")
    mc(ctx, 1, "1,2", ("before", "after"), ("none", "unreached", "drop"), ("ok",), "two")
    if not ctx.quick:
        mc(ctx, 1, "1,2", cbs[:3], ("none", "unreached", "drop", "flip"), ("ok", "fails"), "two faults")
        mc(ctx, 3, "1", cbs, faults, ("ok", "fails"), "wide")
    p = Pir(ctx)
    r = ctx.rng
    flist = ["", "err:2", "err:13", "err:14", "err:5", "drop", "add", "short:0", "short:1", "long:0", "long:2", "cut:0:0", "cut:0:1", "cut:1:2", "swap",
             "flip:0:0:0", "flip:1:1:7", "empty", "none"]
    dlist = ["", "err:7", "err:3", "raw:", "raw:ffff", "raw:0a", "raw:1203616263"]
    dms = ["", "otp:", "otp:0011", "otp:%s" % ("aa" * 15), "otp:%s" % ("aa" * 17), "otp:%s" % ("ab" * 16), "noplain", "nokeys", "drop", "dup:0",
           "fp:1", "fpadd:1", "key:0:party:1", "key:0:party:0", "key:0:dropcw", "key:0:nolast", "key:0:noseed", "blank"]
    combos = [(c, f, d, m) for c in cbs for f in flist for d in dlist for m in dms if (f == "") + (d == "") + (m == "") >= 2]
    for rep in range(ctx.pick(3, 12)):
        todo = list(combos)
        r.shuffle(todo)
        if ctx.quick:
            todo = todo[:60]
        todo += [(r.choice(cbs), r.choice(flist), r.choice(dlist), r.choice(dms)) for _ in range(ctx.pick(15, 200))]
        while todo:
            p.reset()
            ws = worlds(p)
            for kind, (s, l, h), c, mk in ws:
                rq = [p.req(c, mk(r.randint(1, 3))) for _ in range(2)]
                for cb, f, d, m in todo[:6]:
                    q_ = r.choice(rq)
                    x = p.run(l, h, q_, "cb=" + cb, f and "fault=" + f, d and "dec=" + d, m and "dm=" + m,
                              "full=%d" % (r.random() < .15), "nest=%d" % r.choice(rq) if r.random() < .12 else "")
                    if r.random() < .4:
                        p("take c=%d r=%d p=%d" % (c, r.choice(rq), x))
                todo = todo[6:]
                x = p.run(l, h, rq[0], "cb=" + r.choice(cbs[:2]), "full=0")      # and still works
                p("take c=%d r=%d p=%d" % (c, rq[0], x))
                p("multi l=%d h=%d rs=%s rep=%d th=%d" % (l, h, csv(rq), r.choice([2, 6]), r.choice([2, 4, 8])))
    # hundreds of answers; long answers; altered or lost in the later part
    for kind, n, ln, k in [("dense", 9, 5, 300), ("dense", 3, 66100, 1), ("dense", 4, 3000, 7), ("cuckoo", 5, 3, 90), ("simple", 5, 3, 150)]:
        p.reset()
        if kind == "dense":
            (s, l, h), c = dense_world(p, p.values(n - 1, [ln, 2]) + [p.bytes(ln)])
            mk = lambda k: indices(r, n, k)
        else:
            recs = list(zip(p.keys(n), p.values(n, [ln])))
            (s, l, h), c = hashed_world(p, kind, recs, 2 * n + 1, 3)
            mk = lambda k: [r.choice(recs)[0] for _ in range(k)]
        q_ = p.req(c, mk(k))
        items = k * (6 if kind == "cuckoo" else 1)
        for f in ["", "fault=drop", "fault=flip:%d:%d:%d" % (items - 1, ln - 1 if kind == "dense" else 0, r.randrange(8)), "fault=long:%d" % (items - 1), "fault=short:%d" % (items // 2)][:5 if ln < 9999 else 3]:
            x = p.run(l, h, q_, "full=0", f, "cb=" + r.choice(["before", "after"]))
            p("take c=%d r=%d p=%d" % (c, q_, x))
    # databases that fail, servers in the wrong place
    for _ in range(ctx.pick(6, 60)):
        p.reset()
        n = r.choice([2, 5])
        d = p.dense(p.values(n))
        par = "n=%d" % n
        good, bad = p.servers("dense", d, par), p.servers("dense", d, par, "dbfail=%d" % r.choice([2, 8, 13]))
        c = p.client("dense", par)
        q_ = p.req(c, indices(r, n, 2))
        for l, h in ((good[1], bad[2]), (bad[1], good[2]), (bad[1], bad[2]), (good[0], good[2]), (good[2], good[2]), (good[1], good[1]), (good[1], good[0])):
            x = p.run(l, h, q_, "cb=" + r.choice(["before", "after"]))
        p.run(good[1], good[2], q_)
    go(ctx, p)
    ctx.assumptions += ["the sender and decrypter are the driver's: they deliver, lose, alter or refuse as the script says"]


# --- refusals -------------------------------------------------------------------
KEYMUTS = ["noseed", "party:0", "party:1", "party:2", "party:-1", "dropcw", "addcw", "nocw", "nolast", "droplast", "addlast",
           "setlast:0:u5", "setlast:0:x1", "rndcw:0:1234567890abcdef1234567890abcdef:1:0"]


def v01(ctx):
    mc(ctx)
    p = Pir(ctx)
    r = ctx.rng
    muts = (["none", "nokind", "toplain", "toleader", "tohelper", "noplain", "noenc", "emptyenc", "nokeys", "drop", "dup:0", "blank",
             "fp:0", "fp:1", "fp:ffffffff", "fpadd:1", "fpadd:-1"])
    # requests
    for _ in range(ctx.pick(7, 60)):
        p.reset()
        ws = worlds(p)
        reqs = [(p.req(c, mk(r.randint(1, 2))), s, c) for _, s, c, mk in ws]
        for rq, (s, l, h), c in reqs:
            for m in muts + ["key:0:" + k for k in KEYMUTS if "cw:" not in k]:
                if r.random() < ctx.pick(.5, .9):
                    p("plain s=%d r=%d side=%d m=%s full=0" % (s, rq, r.randrange(2), m))
                if r.random() < ctx.pick(.4, .9):
                    p.run(l, h, rq, "m=" + m, "full=0", "cb=" + r.choice(["before", "after"]))
                if r.random() < ctx.pick(.25, .7) and not m.startswith(("noplain", "noenc", "emptyenc", "tohelper")) and m not in ("none", "nokind", "toleader", "toplain"):
                    p("help s=%d r=%d dm=%s full=0" % (h, rq, m))
            for m in ("none", "nokind", "toplain", "toleader"):
                p("help s=%d r=%d m=%s" % (h, rq, m))
            for d in ("raw:", "raw:ff", "err:3", "err:16"):
                p("help s=%d r=%d dec=%s" % (h, rq, d))
            for m in ("otp:", "otp:00", "otp:" + "ab" * 16, "noplain", "otp:;nokeys"):
                p("help s=%d r=%d dm=%s full=1" % (h, rq, m))
            for x in (s, l, h):              # roles
                p("plain s=%d r=%d full=0" % (x, rq))
                p("help s=%d r=%d full=0" % (x, rq))
                p.run(x, h, rq, "full=0")
                p.run(l, x, rq, "full=0")
        for rq, s, c in reqs:                # one kind's request to another's servers
            for rq2, s2, c2 in reqs:
                if rq != rq2:
                    p("plain s=%d r=%d full=0" % (s2[0], rq))
                    p.run(s2[1], s2[2], rq, "full=0")
                    p("help s=%d r=%d full=0" % (s2[2], rq))
    # hashing seeds and fingerprints that nearly agree
    for _ in range(ctx.pick(2, 12)):
        p.reset()
        for kind in ("cuckoo", "simple"):
            base = bytes(r.randrange(1, 256) for _ in range(16))
            flips = [bytes(x ^ (1 << r.randrange(8)) if i == at else x for i, x in enumerate(base)) for at in r.sample(range(16), ctx.pick(4, 16))]
            seeds = [base] + flips + [base[:15], base[1:], base + b"\0", base[:8], base[8:], base[::-1], base[8:] + base[:8], b"\0" + base]
            recs = list(zip(p.keys(2), p.values(2)))
            ws = [hashed_world(p, kind, recs, 6, 3, seed=x.hex()) for x in (base, flips[0])]
            for x in seeds:
                c = p.client(kind, "nb=6 h=3 seed=%s" % x.hex())
                rq = p.req(c, queries(p, recs, 1))
                for s, cc in ws:
                    p("plain s=%d r=%d side=%d full=0" % (s[0], rq, r.randrange(2)))
                    if r.random() < .4:
                        p.run(s[1], s[2], rq, "full=0")
            (s, l, h), c = ws[0]
            rq = p.req(c, queries(p, recs, 1))
            for k in range(32):
                m = "fpadd:%d" % (r.choice([1, -1]) << k)
                p("plain s=%d r=%d side=%d m=%s full=0" % (s, rq, r.randrange(2), m))
                if r.random() < .3:
                    p.run(l, h, rq, "m=" + m, "full=0")
                if r.random() < .3:
                    p("help s=%d r=%d dm=%s full=0" % (h, rq, m))
    # responses and states
    for _ in range(ctx.pick(4, 40)):
        p.reset()
        for kind, (s, l, h), c, mk in worlds(p):
            for k in (1, 2):
                rq = p.req(c, mk(k))
                x = p.run(l, h, rq, "full=0")
                for m in ("none", "empty", "drop", "drop;drop", "add", "short:0", "long:0", "long:1", "cut:0:0", "cut:1:1", "flip:0:0:0", "flip:0:1:3", "swap",
                          "cut:0:0;cut:1:0"):
                    if r.random() < .8:
                        p("take c=%d r=%d p=%d m=%s" % (c, rq, x, m))
                for m in ("none", "dense", "cuckoo", "simple", "otp:", "otp:00", "otp:" + "12" * 15, "otp:" + "12" * 17, "otp:" + "12" * 16, "dropq", "addq",
                          "addq;addq"):
                    p("take c=%d r=%d p=%d sm=%s" % (c, rq, x, m))
            # made-up items
            rq = p.req(c, mk(1))
            h3 = 6 if kind == "cuckoo" else 1
            for _ in range(ctx.pick(8, 40)):
                items = []
                for _ in range(h3):
                    items.append(r.choice([b"", b"\x00", b"a", b"\x00\x00\x00", b"\x0a\x01a\x12\x01b", b"\x0a\x01a", b"\x12\x01a", b"\x0a\x05a", b"\x0a",
                                           b"\x0a\x01a\x12\x01b\x00\x00", b"\x0a\x01a\x0a\x01a\x12\x01b\x12\x01c", b"\x0a\xff\xff\xff\xff\x0f", b"\x08\x01",
                                           b"\x0a\x01a\x12\x01b\x00\x01", b"\x1a\x01a", b"\xff", b"\x0a\x00\x12\x01b", bytes(r.randrange(256) for _ in range(6))]))
                p("take c=%d r=%d raw=%s" % (c, rq, hxs(items)))
            p("take c=%d r=%d raw=" % (c, rq))
            if kind == "cuckoo":
                for key in (b"ab", b"a"):
                    rq = p.req(c, [key])
                    for items in ([b"ab", b"1", b"ab", b"2", b"ab", b"3"], [b"abx", b"1", b"ab\x00", b"2", b"a", b"3"], [b"", b"", b"a", b"9", b"a\x00\x00", b"8"],
                                  [b"\x00\x00", b"1", b"b", b"2", b"ab\x00\x01", b"3"]):
                        p("take c=%d r=%d raw=%s" % (c, rq, hxs(items)))
            # the encrypter fails
            for e in (2, 13, 16):
                p.req(c, mk(1), "encfail=%d" % e)
            p.req(c, mk(2), "encfail=13 plain")
    # configurations
    for _ in range(ctx.pick(1, 5)):
        p.reset()
        n = r.choice([1, 3, 8, 200])
        d0 = p.dense(p.values(n, [2]))
        seed = p.seed()
        ks = p.keys(3)
        dc = p.hashed("cuckoo", list(zip(ks, p.values(3))), 5, 3, seed)
        ds = p.hashed("simple", list(zip(ks, p.values(3))), 5, 1, seed)
        empty = p.dense([])
        for role in ("plain", "leader", "helper"):
            for par in ("n=%d" % n, "n=%d" % (n + 1), "n=%d" % (n - 1), "n=0", "n=-1", "n=%d wk=cuckoo" % n, "n=%d wk=simple" % n, "n=%d wk=none" % n,
                        "n=%d" % (n + 2 ** 32), "n=%d" % (2 ** 63 - 1), "n=%d" % (n - 2 ** 32)):
                for d in ("d=%d" % d0, "", "d=%d" % empty):
                    p("srv id=900 kind=dense role=%s %s %s cb=%d" % (role, d, par, r.choice([1, 1, 1, 0])))
                p("srv id=900 kind=dense role=%s d=%d %s cb=0" % (role, d0, par))
            for kind, d in (("cuckoo", dc), ("simple", ds)):
                for par in ("nb=5 h=3 seed=%s" % seed, "nb=6 h=3 seed=%s" % seed, "nb=4 h=3 seed=%s" % seed, "nb=0 h=3 seed=01", "nb=-1 h=3 seed=01", "nb=-5 h=3 seed=01",
                            "nb=5 h=0 seed=01", "nb=5 h=-1 seed=01", "nb=5 h=1 seed=01", "nb=5 h=2 seed=01", "nb=5 h=3 fam=0 seed=01", "nb=5 h=3 fam=9 seed=01", "nb=5 h=3",
                            "nb=%d h=3 seed=01" % (5 + 2 ** 32), "nb=%d h=3 seed=01" % 2 ** 40, "nb=%d h=3 seed=01" % (2 ** 63 - 1)):
                    for dd in ("d=%d" % d, ""):
                        p("srv id=901 kind=%s role=%s %s %s cb=%d" % (kind, role, dd, par, r.choice([1, 1, 0])))
        for enc in (1, 0):
            for par in ("n=1", "n=0", "n=-1", "n=%d" % -2 ** 63, "n=%d" % (2 ** 63 - 1), "n=5 wk=cuckoo", "n=5 wk=simple", "n=5 wk=none", "n=%d" % 2 ** 32):
                p("cli id=910 kind=dense enc=%d %s" % (enc, par))
            for kind in ("cuckoo", "simple"):
                for par in ("nb=5 h=3 seed=01", "nb=1 h=3 seed=01", "nb=0 h=3 seed=01", "nb=-1 h=3 seed=01", "nb=%d h=3 seed=01" % 2 ** 31, "nb=%d h=3 seed=01" % (2 ** 31 - 1),
                            "nb=%d h=3 seed=01" % (2 ** 32 + 5), "nb=5 h=0 seed=01", "nb=5 h=-1 seed=01", "nb=5 h=1 seed=01", "nb=5 h=2 seed=01", "nb=5 h=3", "nb=5 h=3 fam=0 seed=01",
                            "nb=5 h=3 fam=9 seed=01", "nb=5 h=3 seed=01 wk=simple", "nb=5 h=3 seed=01 wk=cuckoo", "nb=5 wk=none"):
                    p("cli id=911 kind=%s enc=%d %s %s" % (kind, enc, par, r.choice(["", "ctx=01"])))
        for kind in ("cuckoo", "simple"):
            for n in (0, -1, 1, 2 ** 31, 2 ** 62):
                for fam in (0, 1):
                    p("gen kind=%s n=%d fam=%d" % (kind, n, fam))
            for wk in ("dense", "simple", "cuckoo", "none"):
                p("gen kind=%s n=4 wk=%s" % (kind, wk))
    # indices and lists of queries
    for n in (1, 2, 127, 128, 129, 2 ** 31 - 1, 2 ** 40):
        p.reset()
        c = p.client("dense", "n=%d" % n)
        for qs in ([0], [n - 1], [n], [n + 1], [-1], [0, n], [-2 ** 31], [2 ** 31 - 1], [0, 0, -1], []):
            if all(-2 ** 31 <= x < 2 ** 31 for x in qs):
                p.req(c, qs, r.choice(["", "plain"]))
    go(ctx, p)


# --- what a server learns, what is sent -------------------------------------------
def s01(ctx):
    for n, f, k, nk in ctx.pick([(2, 1, 2, 2), (2, 2, 1, 2)], [(2, 1, 2, 2), (2, 2, 1, 2), (3, 1, 2, 2), (3, 2, 1, 2), (3, 1, 1, 3)]):
        ctx.model("RequestMC", "SPECIFICATION Spec\nCHECK_DEADLOCK FALSE\nCONSTANTS N=%d F=%d MaxK=%d NumKeys=%d\nINVARIANTS Right Secret%s\n"
                  % (n, f, k, nk, " Told" if n == 2 else ""), "views%d%d%d" % (n, f, k))
    p = Pir(ctx)
    r = ctx.rng
    reps = ctx.pick(150, 170)

    def views(c, a, b):
        fmt = csv if isinstance(a[0], int) else hxs
        p("views c=%d n=%d q=%s q2=%s" % (c, reps, fmt(a), fmt(b)))
    # dense: pairs of lists of queries, and requests followed to the last bit
    for n in [1, 2, 5, 128, 129, 300, 70000] + ctx.pick([], [3, 64, 127, 256, 257, 1000, 2 ** 31]):
        p.reset()
        big = n > 1000
        if big:
            c = p.client("dense", "n=%d" % n)
        else:
            (s, l, h), c = dense_world(p, p.values(n))
        top = min(n - 1, 2 ** 31 - 1)
        far = r.choice([x for x in (1, 127, 128, top) if x <= top])
        pairs = [([0], [top]), ([0, 0], [0, far]), ([top, 0, 1 % n], [top, top, top])]
        for a, b in pairs if not ctx.quick else r.sample(pairs, 2):
            views(c, a, b)
        for qs in ([0, 0], [top, 0, top, top], [far] * 6, list(range(min(n, 5)))):
            q = p.req(c, qs, "all=1", r.choice(["", "plain"]))
        if not big:
            q = p.req(c, [top, 0, top][:r.choice([2, 3])], "all=1")
            p("take c=%d r=%d p=%d" % (c, q, p.run(l, h, q, "full=%d" % (n < 200))))
    # keywords: stored or not, falling on the same positions or not
    for kind in ("cuckoo", "simple"):
        for nb, hh in [(1, 3), (2, 3), (7, 3), (300, 3), (9, 5)] + ctx.pick([], [(3, 2), (128, 3), (129, 4), (20000, 3)]):
            if kind == "cuckoo" and nb < 2:
                continue
            p.reset()
            n = max(1, min(6, nb // 2))
            recs = list(zip(p.keys(n), p.values(n)))
            if kind == "simple":
                hh = 1
            (s, l, h), c = hashed_world(p, kind, recs, nb, hh)
            ks, other = [k for k, _ in recs], [k for k in p.keys(3) if k not in dict(recs)] or [b"zz"]
            a, b = r.choice(ks), r.choice(other)
            pairs = [([a], [b]), ([a, a], [a, b]), ([b, b], [r.choice(ks), r.choice(ks)])]
            for x, y in pairs if not ctx.quick else r.sample(pairs, 1 if hh * nb > 100 else 2):
                views(c, x, y)
            for qs in ([a, a], [a, b, a], [b], ks[:4]):
                q = p.req(c, qs, "all=1", r.choice(["", "plain"]))
            q = p.req(c, [a, b][:1 if hh > 3 else 2], "all=1")
            p("take c=%d r=%d p=%d" % (c, q, p.run(l, h, q, "full=%d" % (nb < 200))))
    # many queries in one request
    for kind, k in [("dense", ctx.pick(60, 300)), ("simple", ctx.pick(30, 100)), ("cuckoo", ctx.pick(12, 60))]:
        p.reset()
        if kind == "dense":
            c = p.client(kind, "n=200")
            p.req(c, [r.choice([3, 3, 130, r.randrange(200)]) for _ in range(k)], "all=1")
        else:
            c = p.client(kind, "nb=40 h=3 seed=%s" % p.seed())
            ks = p.keys(4)
            p.req(c, [r.choice(ks) for _ in range(k)], "all=1")
    go(ctx, p, chunk=40)
    ctx.assumptions += ["the encryption of the helper's part is the caller's; key pairs are as secret as D07 and M02's model of them says"]


def w01(ctx):
    mc(ctx)
    p = Pir(ctx)
    r = ctx.rng
    for _ in range(ctx.pick(14, 120)):
        p.reset()
        for kind, (s, l, h), c, mk in worlds(p):
            for k in r.sample([0, 1, 2, 3, 5], 3):
                qs = mk(k) if k else []
                if kind != "dense" and k > 1 and r.random() < .3:
                    qs[r.randrange(k)] = r.choice([b"", b"\x00", bytes(r.randrange(256) for _ in range(r.choice([127, 128, 200, 300]))).rstrip(b"\0") + b"x"])
                q = p.req(c, qs, "wire=1")
                x = p.run(l, h, q, "full=0", "wire=1", "cb=" + r.choice(["before", "after"]))
                p("take c=%d r=%d p=%d" % (c, q, x))
                for side in (0, 1):
                    p("plain s=%d r=%d side=%d full=0 wire=1" % (s, q, side))
                if r.random() < .2:
                    p.req(c, qs, "wire=1", "plain encfail=3")
    # sizes around the varint boundaries
    for n, ln, k in [(3, 127, 1), (3, 128, 2), (2, 130, 1), (2, 16383, 1), (3, 16384, 1), (2, 33000, 1), (200, 1, 140), (5, 9, ctx.pick(150, 400))]:
        p.reset()
        (s, l, h), c = dense_world(p, p.values(n - 1, [ln]) + [p.bytes(ln)])
        q = p.req(c, indices(r, n, k), "wire=1")
        p("take c=%d r=%d p=%d" % (c, q, p.run(l, h, q, "full=0", "wire=1")))
        p("plain s=%d r=%d side=%d full=0 wire=1" % (s, q, r.randrange(2)))
    # clients of databases of any size
    for n in (1, 127, 128, 129, 2 ** 14, 2 ** 20 + 1, 2 ** 31, 2 ** 40 + 5, 2 ** 62, 2 ** 63 - 1):
        p.reset()
        c = p.client("dense", "n=%d" % n, ctx=r.choice([None, "00ff"]))
        p.req(c, [min(n - 1, 2 ** 31 - 1), 0], "wire=1")
    for kind in ("cuckoo", "simple"):
        for nb in (2, 127, 128, 16384, 2 ** 21 + 7, 2 ** 28, 2 ** 31 - 1):
            p.reset()
            c = p.client(kind, "nb=%d h=%d seed=%s" % (nb, 3 if kind == "cuckoo" else 1, p.seed()))
            p.req(c, p.keys(r.randint(1, 3)), "wire=1")
        # parameters of every size, from servers to clients as bytes
        for nb in (1, 2, 127, 128, 300) + ctx.pick((), (16383, 16384)):
            p.reset()
            n = min(nb, 3) if kind == "simple" else 1
            recs = list(zip(p.keys(n), p.values(n)))
            for seed in ("00", "", "ab" * r.choice([1, 127, 128, 200]), p.seed()):
                if seed and (nb > 1 or kind == "simple"):
                    (s, l, h), c = hashed_world(p, kind, recs, nb, r.choice([2, 3, 3, 6]) if kind == "cuckoo" else 1, seed=seed)
                    q = p.req(c, queries(p, recs, 1), "wire=1")
                    p("take c=%d r=%d p=%d" % (c, q, p.run(l, h, q, "full=0", "wire=1")))
    go(ctx, p)
    ctx.assumptions += ["the driver's encrypter and decrypter stand for the caller's"]


CHECKS = {"S01": s01, "W01": w01, "I01": i01, "B01": b01, "P01": p01, "P02": p02, "P03": p03, "L01": l01, "V01": v01}
