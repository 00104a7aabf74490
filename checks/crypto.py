"""PKCS#11 client wrapper, initialisation arguments and software module: which model runs bind to which driver."""
import os
import re

import vf
import vs
from containers import Part

LOADER = ["-Wl,--wrap=dlopen,--wrap=dlsym,--wrap=dlclose"]
# steps of the client's initialisation that fail, some with an answer that could be taken for an excuse
FAILS = ('"none", "nofl", "fl", "fl84", "ilcount", "ilcount84", "il", "il84", "init", "init84", '
         '"info", "info84", "info400"')


def client(ctx):
    """The client wrapper in front of a module whose every function may fail."""
    ifaces = "{-1, 0, 1, 2, 21}"
    return [
        Part("client wrapper: every transition", "client", LOADER,
             lambda c: vf.model_walks(c, "ClientModule", "ClientModule.%s.cfg" % c.tier, rand=200 if c.quick else 2000,
                                      defs="AllIfaces == " + ifaces), areas=("Crypto/Pkcs11", "Os")),
        Part("client wrapper: long histories", "client", LOADER,
             lambda c: vf.simulate(c, "ClientModule", {"Counts": "{0, 1, 2, 5, 9, 70, 300}", "Ifaces": ifaces,
                                                       "Fails": '{' + FAILS + '}',
                                                       "Ops": '{"life", "init", "query", "slots"}'},
                                   200 if c.quick else 2000, 100, nxt="Next", invariants=("TypeOK", "Agree", "OpenOnly", "Held")),
             areas=("Crypto/Pkcs11", "Os")),
    ]


def arguments(ctx):
    """Initialisation arguments and the default mutex callbacks, used by one thread."""
    wrap = vf.MEMORY_OPERATORS
    few = "{<<0, 0, 0, 0, 0, 0>>, <<2, 2, 2, 2, 3, 2>>}"
    many = "{<<0, 0, 0, 0, 0, 0>>, <<2, 2, 2, 2, 3, 2>>, <<3, 3, 3, 3, 1, 1>>, <<1, 2, 3, 0, 2, 3>>, <<2, 0, 1, 3, 0, 1>>}"
    one = "{<<2, 2, 2, 2, 3, 2>>}"
    areas = ("Crypto/Pkcs11", "Os")

    def graph(cfg, given):
        return lambda c: vf.model_walks(c, "InitArgs", cfg, rand=100 if c.quick else 1000, defs="AllGiven == " + given)
    return [
        Part("arguments: every transition", "initargs", ["-DPLACES=2", "-DMUTEXES=0"] + wrap,
             graph("InitArgs.args.cfg", one if ctx.quick else few), areas=areas),
        Part("callbacks: every transition", "initargs", ["-DPLACES=1", "-DMUTEXES=3"] + wrap,
             graph("InitArgs.mutex.cfg", "{}"), areas=areas),
        Part("arguments and callbacks: long histories", "initargs", ["-DPLACES=5", "-DMUTEXES=3"] + wrap,
             lambda c: vf.simulate(c, "InitArgs", {"N": 5, "K": 3, "Given": many}, 300 if c.quick else 3000, 100, nxt="Next",
                                   invariants=("TypeOK",)), areas=areas),
    ]


def callbacks(ctx):
    """The default mutex callbacks used by several threads, under controlled schedules."""
    progs = vs.programs(ctx, "Locks", "Locks.callbacks.cfg") + vs.programs(ctx, "Locks", "Locks.callbacks3.cfg")
    progs = [p for p in progs if not any(o[0] in ("try", "unlock?") for t in p["prog"] for o in t)]
    exe = vs.build(ctx, "callbacks", "callbacks", areas=("Crypto/Pkcs11", "Os"))
    traces = vs.run(ctx, exe, progs, "mutex callbacks", executions=60 if ctx.quick else 2000, interrupts=1)
    vs.validate(ctx, "LockSteps", traces, "mutex callbacks")


def soft(ctx):
    """The software module's lists and its mutex objects."""
    areas = ("Crypto/SoftPkcs11", "Crypto/Pkcs11", "Os")
    return [
        Part("exported lists", "softmodule", [], lambda c: vf.cases(c, "SoftModule", "SoftModule.cfg"), areas=areas),
        Part("mutex objects: every transition", "softmutex", ["-DPLACES=%d" % (2 if ctx.quick else 3)],
             lambda c: vf.model_walks(c, "SoftMutex", "SoftMutex.%s.cfg" % c.tier, rand=200 if c.quick else 2000), areas=areas),
        Part("mutex objects: long histories", "softmutex", ["-DPLACES=5"],
             lambda c: vf.simulate(c, "SoftMutex", {"N": 5, "C": 2}, 200 if c.quick else 2000, 100, nxt="Next",
                                   invariants=("TypeOK",)), areas=areas),
    ]


def mechanisms(ctx):
    """The software module's mechanisms and the parameters they are given."""
    areas = ("Crypto/SoftPkcs11", "Crypto/Pkcs11", "Os")
    kinds = "{%s}" % ", ".join(map(str, range(65)))
    return [
        Part("mechanisms: every transition", "mechanism", ["-DPLACES=2"],
             lambda c: vf.model_walks(c, "Mechanism", "Mechanism.%s.cfg" % c.tier, rand=200), areas=areas),
        Part("mechanisms: all kinds of parameters", "mechanism", ["-DPLACES=4"],
             lambda c: vf.simulate(c, "Mechanism", {"N": 4, "Kinds": kinds, "V": 2}, 300 if c.quick else 3000, 100, nxt="Next",
                                   invariants=("TypeOK",)), areas=areas),
    ]


def structures(ctx):
    """The library's structures and the fields their constructors take, from its headers."""
    root = os.path.join(vf.REPO, "include", "FlameIDE", "Crypto", "Pkcs11", "Types", "Structs")
    heads, uses = [], []
    for f in sorted(os.listdir(root)):
        if not f.endswith(".hpp"):
            continue
        with open(os.path.join(root, f), encoding="utf-8-sig") as src:
            text = re.sub(r"//[^\n]*|/\*.*?\*/", "", src.read(), flags=re.S)
        heads.append("#include <FlameIDE/Crypto/Pkcs11/Types/Structs/%s>" % f)
        for name in re.findall(r"struct\s+(\w+)\s*(?:final)?\s*:\s*(?:public\s+)?WithParent\s*<", text):
            lists = re.findall(r"\b%s\s*\(([^;{]*?decltype[^;{]*)\)\s*(?:noexcept\s*)?[;{]" % name, text)
            fields = [re.findall(r"decltype\s*\(\s*Parent::(\w+)\s*\)\s*(?:const\s*)?&?\s*\w+", x) for x in lists]
            args = ", ".join("p." + x for x in fields[0]) if len(fields) == 1 and fields[0] else "p"
            # fields the constructor does not take are set afterwards
            late = [x for x in re.findall(r"using\s+Parent::(\w+)\s*;", text) if args != "p" and x not in fields[0]]
            uses.append('kinds.push_back(kindOf<st::%s>("%s", [](void *at, const st::%s::Parent &p) { auto s = new (at) '
                        'st::%s(%s); %s }));' % (name, name, name, name, args, " ".join("s->%s = p.%s;" % (x, x) for x in late)))
    if len(uses) < 2:
        raise vf.CheckError("no structures found in " + root)
    out = os.path.join(ctx.work, "structs")
    os.makedirs(out, exist_ok=True)
    for name, lines in (("structs-headers.inc", heads), ("structs.inc", uses)):
        with open(os.path.join(out, name), "w") as f:
            f.write("\n".join(lines) + "\n")
    ctx.log("%d structures" % len(uses))
    return out


def records(ctx):
    """Copies of every PKCS#11 structure."""
    incs = (structures(ctx),)
    areas = ("Crypto/Pkcs11", "Os")
    return [
        Part("records: every transition", "records", ["-DPLACES=3"],
             lambda c: vf.model_walks(c, "Records", "Records.cfg", rand=100), areas=areas, incs=incs),
        Part("records: long histories", "records", ["-DPLACES=6"],
             lambda c: vf.simulate(c, "Records", {"N": 6, "V": 4}, 50 if c.quick else 1000, 100, nxt="Next",
                                   invariants=("TypeOK",)), areas=areas, incs=incs),
    ]


def constants(ctx):
    """Named values of the PKCS#11 standard."""
    with open(os.path.join(vf.SPECS, "Constants.tla")) as f:
        text = f.read()
    flags = re.findall(r'"(\w+)"', re.search(r"Flags == \{(.*?)\}", text, re.S).group(1))
    lines = []
    for e, body in re.findall(r"(\w+) \|-> \{(.*?)\}", text[text.index("Table =="):text.index("Flags ==")], re.S):
        for n in re.findall(r'<<"(\w+)"', body):
            lines.append('m["%s"].values["%s"] = en::value(en::%s::%s);' % (e, n, e, n))
        lines.append('m["%s"].converted = [](Number x) { return converted<en::%s>(x, en::to%s); };' % (e, e, e))
        if e in flags:
            lines.append('m["%s"].combined = combined<en::%s>;' % (e, e))
    out = os.path.join(ctx.work, "constants")
    os.makedirs(out, exist_ok=True)
    with open(os.path.join(out, "constants.inc"), "w") as f:
        f.write("\n".join(lines) + "\n")
    numbers = ["<<0, 0, 0, 0>>", "<<65535, 65535, 65535, 65535>>", "<<32768, 0, 0, 1>>", "<<0, 1, 32768, 255>>"]
    numbers += ["<<%s>>" % ", ".join(str(ctx.rng.randrange(65536)) for _ in range(4)) for _ in range(4)]
    return [Part("named values", "constants", [], lambda c: vf.cases(c, "Constants", "Constants.cfg",
                                                                     defs="SomeNumbers == {%s}" % ", ".join(numbers)),
                 incs=(out,))]
