"""T01, T02: hash tables."""
import vlib

NAMES = ["61", "6162", "-", "00", "6100", "ff" * 40, "6263", "64", "65", "66", "67", "68", "69", "6a",
         "6b", "6c", "6d", "6e", "6f", "70"]


def mc_cfg(kind, nb, nf, ne, mi, mr, limits, scripts):
    inv = ["Safe", "WalkSafe"] + (["LongAgrees"] if kind == "cuckoo" else []) + (["Script"] if scripts else [])
    return ("SPECIFICATION Spec\nCHECK_DEADLOCK FALSE\nCONSTANTS Kind=\"%s\" NB=%d NF=%d NE=%d MaxIns=%d MaxReloc=%d "
            "Limits={%s} PrintScripts=%s\nINVARIANTS %s\n" % (
                kind, nb, nf, ne, mi, mr, ",".join("99" if x < 0 else str(x) for x in limits),
                "TRUE" if scripts else "FALSE", " ".join(inv)))


def script_lines(s):
    c = s["cfg"]
    h = ",".join(".".join(str(x) for x in f) for f in c["h"])
    ne = len(c["h"][0])
    yield "new kind=%s nb=%d mr=%d ms=%d h=%s names=%s" % (c["kind"], c["nb"], c["mr"], c["ms"], h,
                                                          ",".join(NAMES[:ne]))
    for k in s["ins"]:
        yield "ins k=%d" % k


def family_lines(rng, kind, n):
    for _ in range(n):
        nf = rng.choice([1, 2, 2, 3, 3, 4]) if kind == "simple" else rng.choice([2, 2, 3, 3, 4])
        nb = rng.choice([1, 2, 3, 5, 7, 11, 13, 20])
        ne = rng.randint(1, 16)
        mr = rng.choice([0, 1, 2, 3, 5, 10, 16, 30, 100])
        if kind == "cuckoo":
            ms = rng.choice([-1, -1, 0, 1, 2, 3])
        else:
            ms = rng.choice([-1, -1, 1, 2, 3, 4])
        seed = "" if rng.random() < 0.3 else " seed=%s" % bytes(rng.randrange(256) for _ in range(rng.randint(1, 20))).hex()
        names = list(NAMES[:ne])
        rng.shuffle(names)
        yield "new kind=%s nb=%d nf=%d mr=%d ms=%d%s names=%s" % (kind, nb, nf, mr, ms, seed, ",".join(names))
        for _ in range(rng.randint(1, 24)):
            yield "ins k=%d" % rng.randint(1, ne)


def explicit_lines(rng, kind, n):
    for _ in range(n):
        nf = rng.choice([1, 2, 3, 4]) if kind == "simple" else rng.choice([2, 2, 3, 4])
        nb = rng.randint(1, 6)
        ne = rng.randint(1, 8)
        mr = rng.choice([0, 1, 2, 3, 4, 5, 6, 12, 25])
        ms = rng.choice([-1, 0, 1, 2, 3]) if kind == "cuckoo" else rng.choice([-1, 1, 2, 3])
        h = ",".join(".".join(str(rng.randint(1, nb)) for _ in range(ne)) for _ in range(nf))
        yield "new kind=%s nb=%d mr=%d ms=%d h=%s names=%s" % (kind, nb, mr, ms, h, ",".join(NAMES[:ne]))
        for _ in range(rng.randint(1, 14)):
            yield "ins k=%d" % rng.randint(1, ne)


def large_lines(ctx, kind):
    """Many buckets, elements, functions; deep buckets; long stashes; walks that cannot fail to find room."""
    rng = ctx.rng
    def hist(nb, nf, ne, n, mr, ms, order=None, h=None):
        L = ["new kind=%s nb=%d nf=%d mr=%d ms=%d sparse=1 gen=%d%s" % (kind, nb, nf, mr, ms, ne, " h=" + h if h else "")]
        ks = order or [i % ne + 1 for i in range(n)]
        return L + ["ins k=%d" % k for k in ks]
    big = ctx.pick(1, 4)
    if kind == "cuckoo":
        for _ in range(big):
            yield from hist(rng.choice([500, 1000, 1024]), rng.choice([2, 3, 4]), 300, rng.randint(250, 300), 200, rng.choice([-1, 0, 5]))
            yield from hist(rng.choice([65537, 70000, 1 << 17]), 3, 40, 40, 30, 0)
            yield from hist(64, rng.choice([8, 11, 12, 16]), 60, 60, rng.choice([300, 1000]), rng.choice([-1, 0]))
            yield from hist(200, 2, 250, 250, 50, rng.choice([-1, 20, 40]))
            yield from hist(3, 2, 290, 290, rng.choice([9, 20]), rng.choice([-1, 260, 255, 256]))
        for mr in (300, 1000, 40000):        # one empty bucket that every element may go to
            n = rng.randint(3, 12)
            perm = list(range(2, n + 2))
            rng.shuffle(perm)
            for _ in range(ctx.pick(3, 10)):
                ne = n + 1
                f = [[1] * ne, [rng.randint(2, n) for _ in range(ne)]]
                rng.shuffle(f)
                yield from hist(n, 2, ne, 0, mr, rng.choice([-1, 0, 1]), order=[rng.randint(1, ne) for _ in range(6)],
                                h=",".join(".".join(map(str, x)) for x in f))
    else:
        for _ in range(big):
            for ms in (-1, 129, 256, 300, 127):
                yield from hist(rng.choice([1, 1, 2] if kind == "simple" else [1, 2, 2, 3]), rng.choice([1, 2] if kind == "simple" else [2, 3]),
                                290, 290 if kind == "simple" else 400, 0, ms)
            yield from hist(rng.choice([65537, 70000, 1 << 17]), 3, 30, 30, 0, rng.choice([-1, 1, 2]))
            yield from hist(rng.choice([200, 257]), rng.choice([2, 3]), 300, 300, 0, rng.choice([-1, 2, 3, 4]))
            yield from hist(40, rng.choice([11, 12, 16]), 60, 60, 0, rng.choice([-1, 20]))


def create_lines(kind):
    """Every combination of creation parameters around the boundaries."""
    for nb in (-1, 0, 1, 2):
        for nf in (-1, 0, 1, 2, 3):
            for mr in ((-1, 0, 1) if kind == "cuckoo" else (0,)):
                for ms in (-1, -2, 0, 1, 2):
                    yield "new kind=%s nb=%d nf=%d mr=%d ms=%d names=61,62" % (kind, nb, nf, mr, ms)
                    yield "ins k=1"
                    yield "ins k=2"


def run(ctx, kinds):
    lines = []
    for kind in kinds:
        if kind == "cuckoo":
            ctx.model("HashTablesMC", mc_cfg(kind, 2, 2, 3, 3, ctx.pick(2, 3), [-1, 0, 1], False), kind)
            if not ctx.quick:
                ctx.model("HashTablesMC", mc_cfg(kind, 3, 2, 3, 4, 3, [-1, 0, 1], False), kind + "3", timeout=1500)
            gen = mc_cfg(kind, 2, 2, 3, 4, 3, [-1, 0, 1, 2], True)
        else:
            ctx.model("HashTablesMC", mc_cfg(kind, 2, 2, 3, ctx.pick(3, 4), 0, [-1, 1, 2, 3], False), kind)
            gen = mc_cfg(kind, 2, ctx.pick(2, 3), 2, 4, 0, [-1, 1, 2, 3], True)
        # behaviours of the model, one script per maximal history
        r = ctx.model("HashTablesMC", gen, kind + "gen", args=("-simulate", "num=%d" % ctx.pick(1500, 20000),
                      "-depth", "40", "-seed", str(ctx.seed)), workers=1) if kind == "cuckoo" else \
            ctx.model("HashTablesMC", gen, kind + "gen")
        seen, sc = set(), []
        for s in vlib.scripts_of(r):
            key = str(s)
            if key not in seen:
                seen.add(key)
                sc.append(s)
        if len(sc) > ctx.pick(2500, 20000):
            sc = ctx.rng.sample(sc, ctx.pick(2500, 20000))
        for s in sc:
            lines += script_lines(s)
        lines += explicit_lines(ctx.rng, kind, ctx.pick(500, 6000))
        lines += family_lines(ctx.rng, kind, ctx.pick(300, 4000))
        lines += create_lines(kind)
        lines += large_lines(ctx, kind)
    ctx.conform("drv_hash", "HashTablesTrace", lines)
    ctx.assumptions += ["bounded model: 2-3 buckets, 2-3 functions, 3-4 insertions; traces: up to 131072 buckets, 400 insertions, 16 functions",
                        "hash functions are taken as given (their definition is property F01)"]


CHECKS = {"T01": lambda ctx: run(ctx, ["cuckoo"]), "T02": lambda ctx: run(ctx, ["simple", "multi"])}
