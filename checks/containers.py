"""Sequence containers: which model runs bind to which driver."""
import concurrent.futures as cf
import os
import time
import vf


# drivers that also count the memory blocks left at the end of a history
BLOCKS = ("vector", "array", "staticarray", "list", "circular", "hybrid", "holder", "owner", "chain", "str", "tuple", "softmutex")


class Part:
    """One (model configuration, driver build) pair."""

    def __init__(self, name, driver, defs, walks, areas=(), **build):
        self.name = name
        self.driver = driver
        self.defs = list(defs) + (["-DBLOCKS"] if driver in BLOCKS else [])
        self.walks = walks
        self.areas = tuple(areas)
        self.build = build

    def key(self):
        return (self.driver, tuple(self.defs), self.areas, tuple(sorted(self.build.items())))


def run_parts(ctx, parts, life=False):
    """Model and build concurrently, then replay part by part."""
    keys = []
    for p in parts:
        if p.key() not in keys:
            keys.append(p.key())
    with cf.ThreadPoolExecutor(4) as ex:
        walks = [ex.submit(p.walks, ctx) for p in parts]
        built = {k: ex.submit(vf.compile_cxx, ctx, "%s-%d" % (k[0], n),
                              [os.path.join(vf.DRIVERS, k[0] + ".cpp")], flags=list(k[1]), areas=k[2], **dict(k[3]))
                 for n, k in enumerate(keys)}
        for p, w in zip(parts, walks):
            w = w.result()
            exe = built[p.key()].result()
            ctx.log("%s: replaying %d histories, %d steps" % (p.name, len(w), sum(map(len, w))))
            vf.run_walks(ctx, exe, w, label=p.name, life=life)
            if ctx.violations and time.time() - ctx.t0 > 100:
                ctx.log("stopping after the violations found")
                return


def runs(ctx, kind, cap=None):
    """Large sequences of plain elements: sizes beyond 8 and 16 bits."""
    ops = ["append", "clean", "new", "copyCtor", "copyAssign", "moveCtor", "moveAssign"]
    if kind != "circular":
        ops += ["pop", "insert", "insertOther", "erase"]
    if kind in ("vector", "string"):
        ops += ["reserve"]
    if kind in ("list", "circular"):
        ops += ["popFront"]
    if kind == "list":
        ops += ["prepend"]
    m = 250 if kind == "string" else 1000003
    consts = {"Sizes": "{1, 100, 255, 256, 257, 300}" if cap and cap < 1000 else "{1, 200, 256, 300, 4000, 33000, 66000}",
              "Starts": "{0, 40, 249}", "MaxLen": cap if cap and kind != "hybrid" else 140000, "M": m,
              "Ops": "{%s}" % ", ".join('"%s"' % o for o in ops)}

    def walks(c):
        vf.tlc_ok(c, "Runs", "Runs.cfg")
        return vf.simulate(c, "Runs", consts, 60 if c.quick else 600, 25 if c.quick else 60, live=False,
                           invariants=("TypeOK", "Canonical"))

    return [Part("%s%s: large sizes" % (kind, " of %d" % cap if cap else ""), "runs",
                 ["-D" + kind.upper(), "-DM=%d" % m] + (["-DCAP=%d" % cap] if cap else []), walks)]


def vector(ctx):
    t = ctx.tier
    d = {"quick": 1, "thorough": 2}[t]
    sim = {"MaxLen": 24, "MaxCap": 30, "DefCap": 8, "NV": 60, "Pair": "FALSE"}
    return [
        Part("vector: one object, every transition", "vector", ["-DVECTOR_DEFAULT_SIZE=1"],
             lambda c: vf.model_walks(c, "Vector", "Vector.one.%s.cfg" % t, rand=200)),
        Part("vector: two objects, every transition", "vector",
             ["-DVECTOR_DEFAULT_SIZE=%d" % d],
             lambda c: vf.model_walks(c, "Vector", "Vector.pair.%s.cfg" % t, rand=200)),
        Part("vector: elements moved one by one", "vector", ["-DMOVING", "-DVECTOR_DEFAULT_SIZE=%d" % d],
             lambda c: vf.model_walks(c, "Vector", "Vector.pair.%s.cfg" % t, rand=200)),
        Part("vector: long histories, elements moved one by one", "vector", ["-DMOVING"],
             lambda c: vf.simulate(c, "Vector", sim, 40 if c.quick else 400, 60 if c.quick else 150)),
        Part("vector: long histories", "vector", [],
             lambda c: vf.simulate(c, "Vector", sim, 80 if c.quick else 800, 60 if c.quick else 150)),
    ]


def array(ctx):
    t = ctx.tier
    c1, c2 = (3, 2) if ctx.quick else (4, 3)
    sim = {"Cap": 10, "NV": 30, "Pair": "FALSE"}
    return [
        Part("array: one object, every transition", "array", ["-DCAP=%d" % c1],
             lambda c: vf.model_walks(c, "Array", "Array.one.%s.cfg" % t, rand=200)),
        Part("array: two objects, every transition", "array", ["-DCAP=%d" % c2],
             lambda c: vf.model_walks(c, "Array", "Array.pair.%s.cfg" % t, rand=200)),
        Part("array: long histories", "array", ["-DCAP=10"],
             lambda c: vf.simulate(c, "Array", sim, 80 if c.quick else 800, 60 if c.quick else 150)),
        Part("static array: every transition", "staticarray", ["-DN=3"],
             lambda c: vf.model_walks(c, "StaticArray", "StaticArray.%s.cfg" % t, rand=200)),
    ]


def linked(ctx):
    t = ctx.tier
    sim = {"MaxLen": 20, "NV": 50, "Pair": "FALSE"}
    return [
        Part("list: one object, every transition", "list", [],
             lambda c: vf.model_walks(c, "List", "List.one.%s.cfg" % t, rand=200)),
        Part("list: two objects, every transition", "list", [],
             lambda c: vf.model_walks(c, "List", "List.pair.%s.cfg" % t, rand=200)),
        Part("list: long histories", "list", [],
             lambda c: vf.simulate(c, "List", sim, 80 if c.quick else 800, 60 if c.quick else 150)),
    ]


def circular(ctx):
    t = ctx.tier
    c1, c2 = (3, 2) if ctx.quick else (4, 3)
    sim = {"Cap": 9, "NV": 40, "Pair": "FALSE"}
    return [
        Part("circular: one object, every transition", "circular", ["-DCAP=%d" % c1],
             lambda c: vf.model_walks(c, "Circular", "Circular.one.%s.cfg" % t, rand=200)),
        Part("circular: two objects, every transition", "circular", ["-DCAP=%d" % c2],
             lambda c: vf.model_walks(c, "Circular", "Circular.pair.%s.cfg" % t, rand=200)),
        Part("circular: long histories", "circular", ["-DCAP=9"],
             lambda c: vf.simulate(c, "Circular", sim, 80 if c.quick else 800, 60 if c.quick else 150)),
    ]


def holders(ctx):
    rand = 300 if ctx.quick else 5000
    return [Part("%s: two objects, every transition" % k, "holder", ["-D" + k.upper()],
                 lambda c, k=k: vf.model_walks(c, "Holder", "Holder.%s.cfg" % k, rand=rand))
            for k in ("optional", "variant", "object")]


def hybrid(ctx):
    t = ctx.tier
    c1, c2 = (2, 2) if ctx.quick else (3, 2)
    sim = {"Cap": 5, "MaxLen": 16, "NV": 40, "Pair": "FALSE"}
    return [
        Part("hybrid: one object, every transition", "hybrid", ["-DCAP=%d" % c1],
             lambda c: vf.model_walks(c, "Hybrid", "Hybrid.one.%s.cfg" % t, rand=200)),
        Part("hybrid: two objects, every transition", "hybrid", ["-DCAP=%d" % c2],
             lambda c: vf.model_walks(c, "Hybrid", "Hybrid.pair.%s.cfg" % t, rand=200)),
        Part("hybrid: long histories", "hybrid", ["-DCAP=5"],
             lambda c: vf.simulate(c, "Hybrid", sim, 80 if c.quick else 800, 60 if c.quick else 150)),
    ]


def expected(ctx):
    rand = 300 if ctx.quick else 5000
    return [Part("%s expected: two values, every transition" % k, "expected", ["-D" + k.upper()],
                 lambda c, k=k: vf.model_walks(c, "Expected", "Expected.%s.cfg" % k, rand=rand))
            for k in ("common", "templates")]


def owners(ctx):
    rand = 300 if ctx.quick else 3000
    n = 3 if ctx.quick else 4
    def long(c, k):
        return vf.simulate(c, "Chain", {"N": 5, "NO": 12, "Shared": "TRUE" if k == "shared" else "FALSE"},
                           60 if c.quick else 600, 60, invariants=("NoCycle", "OnlyAlive", "Exclusive"))

    return [Part("%s pointer: every transition" % k, "owner", ["-D" + k.upper(), "-DN=%d" % n],
                 lambda c, k=k: vf.model_walks(c, "Owner", "Owner.%s.%s.cfg" % (k, ctx.tier), rand=rand))
            for k in ("shared", "unique")] + \
           [Part("%s pointers in chains: every transition" % k, "chain", ["-D" + k.upper(), "-DN=%d" % (n - 1)],
                 lambda c, k=k: vf.model_walks(c, "Chain", "Chain.%s.%s.cfg" % (k, ctx.tier), rand=rand))
            for k in ("shared", "unique")] + \
           [Part("%s pointers in chains: long histories" % k, "chain", ["-D" + k.upper(), "-DN=5"],
                 lambda c, k=k: long(c, k)) for k in ("shared", "unique")]


def strings(ctx):
    t = ctx.tier
    sim = {"MaxLen": 40, "MaxCap": 60, "NV": 26, "Pair": "FALSE"}
    return [
        Part("string: one object, every transition", "str", ["-DCHAR=char"],
             lambda c: vf.model_walks(c, "Str", "Str.one.%s.cfg" % t, rand=200)),
        Part("string: two objects, every transition", "str", ["-DCHAR=char"],
             lambda c: vf.model_walks(c, "Str", "Str.pair.%s.cfg" % t, rand=200)),
        Part("string: long histories", "str", ["-DCHAR=char"],
             lambda c: vf.simulate(c, "Str", sim, 80 if c.quick else 800, 60 if c.quick else 150, live=False)),
        Part("string of 32-bit characters: long histories", "str", ["-DCHAR=unsigned"],
             lambda c: vf.simulate(c, "Str", sim, 80 if c.quick else 800, 60 if c.quick else 150, live=False)),
    ]


def memory(ctx):
    wrap = vf.MEMORY

    def long(c):
        return vf.simulate(c, "Memory", {"MaxN": 12, "NV": 30}, 60 if c.quick else 1000, 60, nxt="Next")

    return [
        Part("allocators: every transition", "memory", wrap,
             lambda c: vf.model_walks(c, "Memory", "Memory.%s.cfg" % ctx.tier, rand=300)),
        Part("allocators: long histories", "memory", wrap, long),
    ]


def tuples(ctx):
    return [Part("tuple: every transition", "tuple", [],
                 lambda c: vf.model_walks(c, "Tuple", "Tuple.%s.cfg" % c.tier, rand=300 if c.quick else 3000))]


def references(ctx):
    return [Part("references and scopes: every transition", "refs", ["-DNC=%d" % (2 if ctx.quick else 3)],
                 lambda c: vf.model_walks(c, "Refs", "Refs.%s.cfg" % c.tier, rand=300 if c.quick else 2000))]
