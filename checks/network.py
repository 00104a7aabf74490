"""Network objects, event registration and shared libraries: which model runs bind to which driver."""
import vf
from containers import Part

SYSTEM = ("socket", "setsockopt", "getsockopt", "bind", "listen", "accept", "accept4", "connect", "close", "shutdown", "send",
          "sendto", "sendmsg", "recv", "recvfrom", "recvmsg", "ioctl", "fcntl", "fcntl64")


def ownership(ctx):
    """Who owns which descriptor; system calls are replaced and may fail."""
    wrap = ["-Wl," + ",".join("--wrap=" + s for s in SYSTEM)]
    places = ["1, 1, 1", "2, 2, 2", "4, 4", "3, 3, 5", "3, 5, 5", "1, 2, 4"]
    if not ctx.quick:
        places += ["4, 4, 4", "3, 3, 5, 5", "5, 4, 3, 1", "1, 1, 2, 2"]

    def graph(kinds, rand):
        return lambda c: vf.model_walks(c, "Descriptors", "Descriptors.cfg", rand=rand, defs="Kinds == <<%s>>" % kinds)
    parts = []
    for n, k in enumerate(places):
        for first in ((3, 0) if n % 2 == 0 or not ctx.quick else (3,)):
            parts.append(Part("descriptors of kinds %s from %d" % (k, first), "netown",
                              ["-DKINDS=%s" % k.replace(" ", ""), "-DFIRST=%d" % first] + wrap,
                              graph(k, 100 if ctx.quick else 1000), areas=("Os",)))
    kinds = "<<1, 2, 4, 3, 5, 4, 5, 1>>"
    # numbers around the limits of bytes, of FD_SETSIZE and of short integers
    for first in (0, 124, 252, 1020, 32764, 65532):
        parts.append(Part("descriptors from %d: long histories" % first, "netown",
                          ["-DKINDS=%s" % kinds[2:-2].replace(" ", ""), "-DFIRST=%d" % first] + wrap,
                          lambda c: vf.simulate(c, "Descriptors", {"Kind": kinds}, 100 if c.quick else 1000, 100, nxt="Next",
                                                invariants=("TypeOK", "Exclusive")), areas=("Os",)))
    return parts


def libraries(ctx):
    """Shared library objects on a replaced dynamic loader."""
    wrap = vf.MEMORY_OPERATORS + ["-Wl,--wrap=dlopen,--wrap=dlsym,--wrap=dlclose"]
    dirs = "{0, 1, 40}"
    long = "{0, 5, %s}" % ", ".join(str(n) for n in list(range(2033, 2042)) + [100, 2100, 5000])
    names = "{0, 3, %s}" % ", ".join(str(n) for n in list(range(2032, 2042)) + [1000, 5000])
    return [
        Part("libraries: every transition", "library", ["-DPLACES=3"] + wrap,
             lambda c: vf.model_walks(c, "Libraries", "Libraries.cfg", rand=200, defs="AllDirs == " + dirs), areas=("Os",)),
        Part("libraries: long directories", "library", ["-DPLACES=2"] + wrap,
             lambda c: vf.simulate(c, "Libraries", {"N": 2, "NL": 2, "Dirs": long, "Names": "{0}"}, 60, 60, nxt="Next",
                                   invariants=("TypeOK", "Balanced")), areas=("Os",)),
        Part("libraries: long names", "library", ["-DPLACES=2"] + wrap,
             lambda c: vf.simulate(c, "Libraries", {"N": 2, "NL": 2, "Dirs": "{0}", "Names": names}, 60, 60, nxt="Next",
                                   invariants=("TypeOK", "Balanced")), areas=("Os",)),
        Part("libraries: long histories and names", "library", ["-DPLACES=6"] + wrap,
             lambda c: vf.simulate(c, "Libraries", {"N": 6, "NL": 2, "Dirs": long, "Names": names}, 100 if c.quick else 1000, 100, nxt="Next",
                                   invariants=("TypeOK", "Balanced")), areas=("Os",)),
    ]


def transfers(ctx):
    """Datagrams and streams over the loopback device."""
    t = ctx.tier
    few, many = (30, 60) if ctx.quick else (300, 100)
    parts = []
    lens = "{0, 1, 2, 7, 100, 1471, 1473, 8000}"
    for raw in ([], ["-DRAW"]):
        how = "functions" if raw else "objects"
        parts += [
            Part("datagrams by %s: every transition" % how, "transfer", ["-DUDP", "-DCLIENTS=2", "-DCONTENTS=3"] + raw,
                 lambda c: vf.model_walks(c, "Datagrams", "Datagrams.%s.cfg" % t, rand=100), areas=("Os",)),
            Part("datagrams by %s: long histories" % how, "transfer", ["-DUDP", "-DCLIENTS=4", "-DCONTENTS=10"] + raw,
                 lambda c: vf.simulate(c, "Datagrams", {"Clients": 4, "Lens": lens, "Sizes": "{0, 1, 7, 1472, 9000}",
                                                        "MaxAll": 10}, few, many, nxt="Next"), areas=("Os",)),
            Part("datagrams by %s: largest" % how, "transfer", ["-DUDP", "-DCLIENTS=1", "-DCONTENTS=1"] + raw,
                 lambda c: vf.simulate(c, "Datagrams", {"Clients": 1, "Lens": "{65506, 65507, 65508, 70000}",
                                                        "Sizes": "{65506, 65507, 70000}", "MaxAll": 1},
                                       8, 40, nxt="Next"), areas=("Os",)),
            Part("one connection by %s: every transition" % how, "transfer", ["-DCONNS=1"] + raw,
                 lambda c: vf.model_walks(c, "Connections", "Connections.quick.cfg", rand=20), areas=("Os",)),
            Part("connections by %s: long histories" % how, "transfer", ["-DCONNS=3"] + raw,
                 lambda c: vf.simulate(c, "Connections", {"Conns": 3, "Chunks": "{1, 2, 100, 1448, 4097, 20000}",
                                                          "Sizes": "{1, 3, 1024, 8192, 60000}", "MaxHave": 40000},
                                       few, many, nxt="Next"), areas=("Os",)),
        ]
        # more than sixteen bits can count, where the system allows that much room
        if vf.number("/proc/sys/net/core/rmem_max") >= 1 << 20 and vf.number("/proc/sys/net/core/wmem_max") >= 1 << 20:
            parts.append(Part("connections by %s: many bytes" % how, "transfer", ["-DCONNS=2", "-DROOM=1048576"] + raw,
                              lambda c: vf.simulate(c, "Connections", {"Conns": 2, "Chunks": "{5, 30000, 65536, 80000}",
                                                                       "Sizes": "{7, 50000, 65536, 200000}", "MaxHave": 240000},
                                                    few // 2, many, nxt="Next"), areas=("Os",)))
    # descriptors beyond FD_SETSIZE
    parts += [
        Part("datagrams with large descriptors", "transfer", ["-DUDP", "-DCLIENTS=3", "-DCONTENTS=5", "-DFIRST=1022"],
             lambda c: vf.simulate(c, "Datagrams", {"Clients": 3, "Lens": lens, "Sizes": "{0, 1, 7, 1472, 9000}",
                                                    "MaxAll": 5}, few // 2, many, nxt="Next"), areas=("Os",)),
        Part("connections with large descriptors", "transfer", ["-DCONNS=2", "-DFIRST=1022"],
             lambda c: vf.simulate(c, "Connections", {"Conns": 2, "Chunks": "{1, 100, 4097}", "Sizes": "{1, 1024, 8192}",
                                                      "MaxHave": 9000}, few // 2, many, nxt="Next"), areas=("Os",)),
    ]
    if not ctx.quick:
        parts.append(Part("two connections: every transition", "transfer", ["-DCONNS=2"],
                          lambda c: vf.model_walks(c, "Connections", "Connections.two.cfg"), areas=("Os",)))
    return parts


def registrar(ctx):
    """Events of registered sockets, with real signals; the event queues."""
    wrap = ["-Wl,--wrap=sigaction"]
    few, many = (40, 60) if ctx.quick else (400, 120)
    places = ["1, 2, 3", "4, 5, 1", "1, 1, 2, 2", "3, 4, 5"]
    if not ctx.quick:
        places += ["3, 3, 1", "4, 4, 5, 5", "1, 2, 3, 5"]
    parts = [Part("registered sockets of kinds %s" % k, "registrar", ["-DKINDS=%s" % k.replace(" ", "")] + wrap,
                  (lambda k: lambda c: vf.model_walks(c, "Registrar", "Registrar.cfg", rand=50, defs="KindsOf == <<%s>>" % k))(k),
                  areas=("Os",)) for k in places]
    parts.append(Part("sockets at once", "registrar", ["-DKINDS=1,2"] + wrap,
                      lambda c: vf.model_walks(c, "Registrar", "Registrar.bursts.cfg", defs="KindsOf == <<1, 2>>"), areas=("Os",)))
    kinds = "<<1, 2, 3, 4, 5, 1, 2, 3, 4, 5>>"
    parts.append(Part("registered sockets: long histories", "registrar", ["-DKINDS=%s" % kinds[2:-2].replace(" ", "")] + wrap,
                      lambda c: vf.simulate(c, "Registrar", {"Kinds": kinds, "MaxConns": 6, "Slow": "TRUE", "Bursts": "FALSE"}, few, many, nxt="Next",
                                            invariants=("TypeOK",)), areas=("Os",)))
    few_kinds = "<<1, 2, 3, 4, 5>>"
    parts.append(Part("registered sockets with large descriptors", "registrar",
                      ["-DKINDS=%s" % few_kinds[2:-2].replace(" ", ""), "-DFIRST=1020"] + wrap,
                      lambda c: vf.simulate(c, "Registrar", {"Kinds": few_kinds, "MaxConns": 6, "Slow": "TRUE", "Bursts": "FALSE"},
                                            few, many, nxt="Next", invariants=("TypeOK",)), areas=("Os",)))
    # capacities as configured by the build: queue of descriptors per kind
    parts.append(Part("event queues of the registrar", "registrar", ["-DKINDS=1"] + wrap,
                      lambda c: vf.simulate(c, "RegQueues", {"Caps": "<<32, 64, 512, 4096, 64>>",
                                                             "Steps": "{1, 2, 31, 40, 300, 3000}"}, few, many,
                                            invariants=("TypeOK",)), areas=("Os",)))
    return parts
