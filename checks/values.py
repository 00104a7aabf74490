"""Value-like components: specifications whose states are single cases."""
import concurrent.futures as cf
import os
import random
import threading
import vf
from containers import Part


def tla(v):
    """A Python value as a TLA+ expression."""
    if isinstance(v, bool):
        return "TRUE" if v else "FALSE"
    if isinstance(v, int):
        return str(v)
    if isinstance(v, str):
        return '"%s"' % v
    if isinstance(v, (list, tuple)):
        return "<<" + ", ".join(map(tla, v)) + ">>"
    if isinstance(v, dict):
        return "[" + ", ".join("%s |-> %s" % (k, tla(x)) for k, x in v.items()) + "]"
    if isinstance(v, (set, frozenset)):
        return "{" + ", ".join(sorted(map(tla, v))) + "}"
    raise TypeError(v)


def interesting(bits):
    """Bit patterns around every boundary of a number of this width."""
    top = 1 << bits
    vals = set()
    marks = [0, top, top // 2]
    k = 1
    while k < top:
        marks += [k, 2 * k, 5 * k, 9 * k]
        k *= 10
    marks += [1 << i for i in range(bits)]
    marks += [int(str(d) * n) for d in range(1, 10) for n in range(1, len(str(top)) + 1)]
    for m in marks:
        for d in (-2, -1, 0, 1, 2):
            vals.add((m + d) % top)
            vals.add((-(m + d)) % top)
    return vals


def decimals(ctx):
    def walks(c):
        rng = random.Random(c.seed)
        nums = set()
        for bits in (32, 64):
            vals = interesting(bits)
            for _ in range(1500 if c.quick else 40000):
                vals.add(rng.getrandbits(bits) >> rng.randrange(bits))
            for v in vals:
                for s in (True, False):
                    nums.add((s, v, bits // 8))
        defs = "MoreNumbers == {%s}" % ",\n".join(
            "[s |-> %s, b |-> %s]" % (tla(s), tla(list(v.to_bytes(n, "big")))) for s, v, n in sorted(nums))
        return vf.cases(c, "Decimal", "Decimal.cfg", defs=defs)
    return [Part("decimal notation", "decimal", ["-fsanitize=undefined", "-fno-sanitize-recover=undefined"], walks)]


def serial(ctx):
    t = ctx.tier

    def long(c):
        return vf.simulate(c, "Serial", {"N": 40, "Widths": "{1, 2, 4, 8}", "Pats": patterns(c.seed, 60)},
                           400 if c.quick else 4000, 80, live=False,
                           invariants=("TypeOK",))

    n = 3 if ctx.quick else 4
    return [
        Part("serialization: every transition", "serial", ["-DN=%d" % n],
             lambda c: vf.model_walks(c, "Serial", "Serial.%s.cfg" % t, rand=200)),
        Part("serialization: long histories", "serial", ["-DN=40"], long),
        Part("serialization into volatile memory: long histories", "serial", ["-DN=40", "-DVOLATILE=true"], long),
    ]


def patterns(seed, count):
    """Values of eight bytes: the borders and random ones."""
    rng = random.Random(seed)
    pats = {tuple(p) for p in ([0] * 8, [255] * 8, [1, 2, 3, 4, 5, 6, 7, 8], [128] + [0] * 7, [0] * 7 + [1],
                               [127, 254] * 4, [0, 255] * 4, [240 + i for i in range(8)], [0, 128] * 4,
                               [255] * 7 + [127], [127] + [255] * 7)}
    while len(pats) < count:
        pats.add(tuple(rng.choice([0, 1, 127, 128, 255, rng.randrange(256)]) for _ in range(8)))
    return tla(pats)


def wideint(ctx):
    parts = []
    for b in (3,) if ctx.quick else (3, 5):
        for s in ("TRUE", "FALSE"):
            parts.append(Part("wide integer of %d bytes, signed %s: every transition" % (b, s), "wideint",
                              ["-DB=%d" % b, "-DSIGN=" + s.lower()],
                              lambda c, b=b, s=s: vf.model_walks(c, "WideInt", "WideInt.%d.%s.cfg" % (b, s),
                                                                 rand=100)))
    for b, less in ((3, 7), (9, 1)):
        parts.append(Part("wide integer of %d bits: long histories" % (8 * b - less), "wideint",
                          ["-DB=%d" % b, "-DLESS=%d" % less, "-DSIGN=true"],
                          lambda c, b=b: vf.simulate(c, "WideInt", {"B": b, "Signed": "TRUE", "Widths": "{1, 2, 4, 8}",
                                                                    "Pats": patterns(c.seed, 80)},
                                                     8 if c.quick else 100, 100, live=False)))
    for b in (1, 2, 4, 7, 8, 10, 16, 32, 128):
        for s in ("TRUE", "FALSE") if not ctx.quick or b < 32 else ("TRUE",):
            parts.append(Part("wide integer of %d bytes, signed %s: long histories" % (b, s), "wideint",
                              ["-DB=%d" % b, "-DSIGN=" + s.lower()],
                              lambda c, b=b, s=s: vf.simulate(
                                  c, "WideInt", {"B": b, "Signed": s, "Widths": "{1, 2, 4, 8}",
                                                 "Pats": patterns(c.seed, 80)},
                                  16 if c.quick else 200, 100, live=False)))
    return parts


ITERATORS = {
    "forward": ["Iterator<int*>", "ConstIterator<const int*>", "Iterator<Iterator<int*>>"],
    "reverse": ["ReverseIterator<int*>", "ConstReverseIterator<const int*>", "ReverseIterator<Iterator<int*>>"],
    "circular": ["CircularIterator<Iterator<int*>>", "ConstCircularIterator<ConstIterator<const int*>>",
                 "CircularIterator<int*>"],
    "integer": ["IcharIterator", "ShortIterator", "IntIterator", "LongIterator", "UicharIterator",
                "UshortIterator", "UintIterator", "UlongIterator"],
}

# categories that can do less than offsetting; output iterators give no access when constant
STEPPING = {
    ("forward", "both"): ["Iterator<int*,BI>", "ConstIterator<const int*,BI>", "Iterator<Iterator<int*>,BI>"],
    ("reverse", "both"): ["ReverseIterator<int*,BI>", "ConstReverseIterator<const int*,BI>"],
    ("circular", "both"): ["CircularIterator<Iterator<int*>,BI>", "ConstCircularIterator<ConstIterator<const int*>,BI>",
                           "CircularIterator<int*,BI>", "ConstCircularIterator<const int*,BI>"],
    ("forward", "ahead"): ["Iterator<int*,FW>", "ConstIterator<const int*,FW>", "Iterator<int*,IN>",
                           "ConstIterator<const int*,IN>", "Iterator<int*,OUT>"],
    ("circular", "ahead"): ["CircularIterator<int*,FW>", "ConstCircularIterator<const int*,FW>"],
}
CATEGORIES = ["-D%s=IteratorCategory::%s" % x
              for x in (("BI", "BIDIRECTIONAL"), ("FW", "FORWARD"), ("IN", "INPUT"), ("OUT", "OUTPUT"))]


def iterators(ctx):
    size = {"quick": 4, "thorough": {"circular": 7}}[ctx.tier]
    parts = []
    for kind, types in ITERATORS.items():
        n = size if ctx.quick else size.get(kind, 9)
        cfg = "Cursor.%s.%s.cfg" % (kind, ctx.tier)
        cache = {}

        def walks(c, cfg=cfg, cache=cache):
            with vf.LOCK:
                lock = cache.setdefault("lock", threading.Lock())
            with lock:
                if "w" not in cache:
                    cache["w"] = vf.model_walks(c, "Cursor", cfg, rand=300)
                return cache["w"]
        for t in types:
            parts.append(Part("%s iterator %s" % (kind, t), "cursor",
                              ["-DN=%d" % n, "-DKIND_" + kind.upper(), "-DWITH_OFFSETS", "-DIT=" + t], walks))
    for (kind, level), types in STEPPING.items():
        for t in types:
            parts.append(Part("%s iterator %s" % (kind, t), "cursor", CATEGORIES + [
                "-DN=5", "-DKIND_" + kind.upper(), "-DIT=" + t] + (["-DONLY_AHEAD"] if level == "ahead" else [])
                + (["-DONLY_OUTPUT"] if "OUT" in t else []),
                lambda c, f="Cursor.%s.%s.cfg" % (kind, level): vf.model_walks(c, "Cursor", f, rand=100)))
    n = 3 if ctx.quick else 4
    parts.append(Part("ranges and sequence algorithms", "ranges", ["-DN=%d" % n],
                      lambda c: vf.cases(c, "Ranges", "Ranges.%s.cfg" % c.tier)))
    return parts


def addresses(ctx):
    def codes(text):
        return tla([ord(ch) for ch in text])

    rng = random.Random(ctx.seed)
    octets = [0, 1, 9, 10, 11, 19, 90, 99, 100, 101, 105, 109, 110, 190, 199, 200, 205, 209, 249, 250, 254, 255]
    texts = ["0.0.0.0", "255.255.255.255", "1.20.105.200", "10.0.0.1", "1.2.3", "1.2.3.4.5", "1..2.3.4", "256.1.1.1",
             "1.1.1.1x", ".1.2.3.4", "1.2.3.4.", "100.200.100.99999", "", "localhost", "1.2.3.", "...........",
             "65537.2.3.4", "192.168.100.1000000", "255.255.255.255.255.255", "1.2.3.4.5.6.7.8",
             "1.2.3.4.5.6.7", "1.2.3.4.5.6."]
    texts += [".".join(str(rng.choice(octets)) for _ in range(4)) for _ in range(10)]
    numbers = [[0, 0, 0, 0], [255, 255, 255, 255], [256, 0, 0, 0], [0, 0, 0, -1], [1, 2, 300, 4]]
    numbers += [[rng.choice(octets) for _ in range(4)] for _ in range(8)]
    graph = "SomeTexts == {%s}\nSomeNumbers == {%s}" % (", ".join(map(codes, texts)), ", ".join(map(tla, numbers)))
    fields = ["", "0", "9", "10", "108", "255", "256", "999", "1000", "65537", "1a", "-1"]
    if not ctx.quick:
        fields += ["5", "99", "100", "200", "260", "32768", "a", "+1", "1 "]
    cases = "SomeFields == {%s}" % ", ".join(map(codes, fields))

    return [
        Part("addresses: every transition", "ipv4", [],
             lambda c: vf.model_walks(c, "Ipv4", "Ipv4.graph.cfg", rand=100, defs=graph), areas=("Os",)),
        Part("addresses: texts and numbers", "ipv4", ["-DCASES"],
             lambda c: vf.cases(c, "Ipv4", "Ipv4.cases.%s.cfg" % c.tier, defs=cases), areas=("Os",)),
    ]


def numbers(ctx):
    def walks(c):
        rng = random.Random(c.seed)
        few = 1 if c.quick else 8
        defs = []
        for w in (1, 2, 4, 8):
            top = 1 << 8 * w
            vals = {0, 1, top - 1, top // 2, top // 2 - 1, 10, top - 7}
            while len(vals) < 7 + few:
                vals.add(rng.getrandbits(8 * w) >> rng.randrange(8 * w))
            defs.append("[] w = %d -> {%s}" % (w, ", ".join(tla(list(v.to_bytes(w, "big"))) for v in sorted(vals))))
        text = "SomeValues(w) == CASE " + "\n  ".join(defs)[3:]
        some = {0, 1, 2, 15, 16, 85, 127, 128, 170, 240, 254, 255}
        text += "\nSomeBytes == %s" % (tla(some) if c.quick else "0..255")
        return vf.cases(c, "Numeric", "Numeric.cfg", defs=text)
    return [Part("integer arithmetic", "numeric", ["-fsanitize=undefined", "-fno-sanitize-recover=undefined"], walks)]


def question(s):
    """The C++ expression that answers one case of Types.tla."""
    def cxx(t):
        return t.replace(".", " ")

    a = s.args
    traits = {"move": "Moved", "forward": "Forwarded", "declareValue": "Declared"}
    truths = {"isConst": "ConstFunction"}
    number = lambda x: x if len(x) == 1 else "Numbers::" + x
    if s.op == "number":
        return "NumberAnswer<Numbers::%s>" % a[0]
    if s.op == "kind":
        return "KindAnswer<%s, %s%s>" % (number(a[0]), number(a[0]), cxx(a[1]))
    if s.op == "sign":
        return "SignAnswer<%s%s>" % (number(a[0]), cxx(a[1]))
    if s.op in ("index", "among"):
        return "%sAnswer<%s>" % (s.op.capitalize(), ", ".join([a[0]] + a[1]))
    if s.op == "at":
        return "AtAnswer<%d, %s>" % (a[0], ", ".join(a[1]))
    if s.op == "copy":
        return "CopyAnswer<%d, %d>" % tuple(a)
    if s.op == "unique":
        return "UniqueAnswer<%s>" % ", ".join(a[0])
    if s.op in ("choose", "enable"):
        return "%sAnswer<%s>" % (s.op.capitalize(), "true" if a[0] else "false")
    if s.op == "same":
        return "SameAnswer<%s, %s>" % (cxx(a[0]), cxx(a[1]))
    if s.op == "result":
        kind = a[1].split(".")
        where = "A::*" if kind[0] == "member" else "*"
        return "ResultAnswer<%s (%s)(%s) %s>" % (cxx(a[0]), where, ", ".join(["int", "B &"][:a[2]]), " ".join(kind[1:]))
    if s.op == "castable":
        return "CastAnswer<%s, %s>" % (a[0], a[1])
    if s.op.lower().startswith("is"):
        return "BoolAnswer<%s, %s>" % (truths.get(s.op, "fi::" + s.op), cxx(a[0]))
    if s.op.startswith(("Add", "Remove")):
        return "BothAnswer<%s, %sShort, %s>" % (s.op, s.op, cxx(a[0]))
    return "TypeAnswer<%s, %s>" % (traits.get(s.op, s.op), cxx(a[0]))


def types(ctx):
    """Compile-time functions on types: each case becomes one expression."""
    walks = vf.cases(ctx, "Types", "Types.%s.cfg" % ctx.tier)
    groups = {}
    for s in (s for w in walks for s in w):
        kind = "lists" if s.op in ("index", "among", "at", "unique", "copy") else "numbers" if s.op in ("number", "kind", "sign") \
            else "functions" if s.op in ("choose", "enable", "same", "result", "castable") \
            else "questions" if s.op.lower().startswith("is") else "types"
        groups.setdefault(kind, []).append(s)

    def build(kind):
        out = os.path.join(ctx.work, "inc-" + kind)
        os.makedirs(out, exist_ok=True)
        with open(os.path.join(out, "types.inc"), "w") as f:
            for s in groups[kind]:
                f.write('{ "%s", %s::get },\n' % (s.line(), question(s)))
        try:
            return vf.compile_cxx(ctx, "types-" + kind, [os.path.join(vf.DRIVERS, "types.cpp")], incs=(out,))
        except vf.CheckError as e:
            return e

    with cf.ThreadPoolExecutor(5) as ex:
        built = dict(zip(groups, ex.map(build, groups)))
    if all(isinstance(exe, vf.CheckError) for exe in built.values()):
        raise built["types"]
    for kind, exe in built.items():
        steps = groups[kind]
        if isinstance(exe, vf.CheckError):
            # the others do compile: some of these questions has lost its answer
            ctx.report("%s: some of these questions cannot be compiled" % kind, str(exe)[:6000])
            continue
        ctx.log("%s: %d cases" % (kind, len(steps)))
        vf.run_walks(ctx, exe, [steps[k:k + 50] for k in range(0, len(steps), 50)], label=kind)
