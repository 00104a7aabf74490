"""Common machinery of the checks.

A check runs TLC on an explicit TLA+ specification, turns the behaviours the
specification allows into operation sequences ("walks"), replays them on the
real code through a small C++ driver built from /repo, and compares what the
code shows after every step with what the specification says it must show.
"""
import collections
import concurrent.futures as cf
import json
import os
import random
import re
import shutil
import signal
import subprocess
import sys
import tempfile
import threading
import time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
SPECS = os.path.join(VERIF, "specs")
DRIVERS = os.path.join(VERIF, "drivers")
JAR = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
LOCK = threading.Lock()
# link options for drivers/blocks.hpp, without and with the operators
MEMORY = ["-Wl," + ",".join("--wrap=" + f for f in ("malloc", "calloc", "realloc", "aligned_alloc", "posix_memalign", "free"))]
MEMORY_OPERATORS = MEMORY + ["-DOPERATORS", "-Wl," + ",".join("--wrap=_Z" + f for f in (
    "nwm", "nam", "nwmRKSt9nothrow_t", "namRKSt9nothrow_t", "dlPv", "daPv", "dlPvm", "daPvm"))]
NPROC = max(1, min(8, os.cpu_count() or 1))


class CheckError(Exception):
    """The check itself could not give an answer."""


class Violation(Exception):
    def __init__(self, what, replay_text):
        Exception.__init__(self, what)
        self.what = what
        self.replay_text = replay_text


class Ctx:
    """State of one run of one check."""

    def __init__(self, prop, tier, seed, level="model_checking"):
        self.prop = prop
        self.tier = tier
        self.seed = seed
        self.level = level
        self.t0 = time.time()
        self.work = tempfile.mkdtemp(prefix="vf-%s-" % prop)
        self.states = 0
        self.transitions = 0
        self.traces = 0
        self.steps = 0
        self.samples = []
        self.extra = {}
        self.assumptions = []
        self.violations = []
        self.rng = random.Random(seed)
        self.known = load_known(prop)
        self.known_hit = []

    @property
    def quick(self):
        return self.tier == "quick"

    def log(self, msg):
        print("[%s %6.1fs] %s" % (self.prop, time.time() - self.t0, msg))
        sys.stdout.flush()

    def close(self):
        shutil.rmtree(self.work, ignore_errors=True)

    def write_evidence(self):
        d = os.path.join(VERIF, "evidence")
        os.makedirs(d, exist_ok=True)
        cov = {
            "states": self.states,
            "transitions": self.transitions,
            "traces_validated_against_impl": self.traces,
            "steps_compared_with_impl": self.steps,
            "samples": self.samples[:6],
        }
        cov.update(self.extra)
        ev = {
            "property": self.prop,
            "tier": self.tier,
            "seed": self.seed,
            "level": self.level,
            "coverage": cov,
            "assumptions": self.assumptions,
            "wall_s": round(time.time() - self.t0, 2),
            "violations": len(self.violations),
        }
        with open(os.path.join(d, self.prop + ".json"), "w") as f:
            json.dump(ev, f, indent=1)

    def report(self, what, replay_text):
        """Record a violation; returns False when it is a listed finding."""
        for k in self.known:
            if re.search(k["match"], what + "\n" + replay_text):
                line = "KNOWN-FINDING: property=%s %s" % (self.prop, k["what"])
                if line not in self.known_hit:
                    self.known_hit.append(line)
                    print(line)
                return False
        d = os.path.join(VERIF, "evidence", "replay")
        os.makedirs(d, exist_ok=True)
        path = os.path.join(d, "%s-%d.txt" % (self.prop, len(self.violations) + 1))
        with open(path, "w") as f:
            f.write("property %s\n%s\n\n%s\n" % (self.prop, what, replay_text))
        self.violations.append(what)
        print(what)
        print("VIOLATION property=%s replay=%s" % (self.prop, path))
        sys.stdout.flush()
        return True


def load_known(prop):
    path = os.path.join(VERIF, "known_findings.json")
    if not os.path.exists(path):
        return []
    with open(path) as f:
        data = json.load(f)
    return [k for k in data.get("known", []) if k["property"] == prop]


# --------------------------------------------------------------------- TLC

def sh(cmd, timeout=None, cwd=None, env=None, stdin=None):
    """Run a command in its own process group; kill the group on timeout."""
    p = subprocess.Popen(cmd, cwd=cwd, env=env, stdin=stdin, stdout=subprocess.PIPE,
                         stderr=subprocess.PIPE, start_new_session=True)
    try:
        out, err = p.communicate(timeout=timeout)
        rc = p.returncode
    except subprocess.TimeoutExpired:
        os.killpg(p.pid, signal.SIGKILL)
        out, err = p.communicate()
        rc = "timeout"
    return rc, out.decode("utf-8", "replace"), err.decode("utf-8", "replace")


_STATS = re.compile(r"(\d+) states generated, (\d+) distinct states found, (\d+) states left")
_SIMST = re.compile(r"The number of states generated: (\d+)")


def tlc(ctx, module, cfg, extra=(), timeout=600, heap="3g", files=(), workers=1, count=True):
    """Run TLC on specs/<module>.tla with specs/<cfg>; returns its output.

    `files` maps extra file names to texts put beside the modules."""
    wd = tempfile.mkdtemp(prefix="tlc-", dir=ctx.work)
    for n in os.listdir(SPECS):
        if n.endswith((".tla", ".cfg")):
            os.symlink(os.path.join(SPECS, n), os.path.join(wd, n))
    for name, text in dict(files).items():
        if os.path.islink(os.path.join(wd, name)):
            os.unlink(os.path.join(wd, name))
        with open(os.path.join(wd, name), "w") as f:
            f.write(text)
    cmd = ["java", "-XX:+UseParallelGC", "-Xmx" + heap, "-Xss64m", "-cp", JAR,
           "-Djava.io.tmpdir=" + wd, "tlc2.TLC",
           "-workers", str(workers), "-noGenerateSpecTE", "-metadir", os.path.join(wd, "meta"),
           "-config", cfg] + list(extra) + [module + ".tla"]
    rc, out, err = sh(cmd, timeout=timeout, cwd=wd)
    shutil.rmtree(wd, ignore_errors=True)
    if count:
        with LOCK:
            count_states(ctx, out)
    return rc, out, err


def count_states(ctx, out):
    m = None
    for m in _STATS.finditer(out):
        pass
    if m:
        ctx.transitions += int(m.group(1))
        ctx.states += int(m.group(2))
    else:
        m = _SIMST.search(out)
        if m:
            ctx.transitions += int(m.group(1))


def tlc_ok(ctx, module, cfg, **kw):
    rc, out, err = tlc(ctx, module, cfg, **kw)
    if rc != 0:
        plain = "\n".join(l for l in out.splitlines() if not l.startswith('"@'))
        raise CheckError("TLC on %s/%s ended with %s\n%s\n%s" % (module, cfg, rc, plain[-6000:], err[-2000:]))
    return out


def printed(out, tag):
    """Values printed by PrintT("@<tag>" \\o ToJson(..))."""
    pre = '"@' + tag
    for line in out.splitlines():
        if line.startswith(pre):
            body = line[len(pre):-1]
            yield json.loads(body.replace('\\"', '"').replace("\\\\", "\\"))


def canon(v):
    return json.dumps(v, separators=(",", ":"), sort_keys=True)


class Step:
    """One operation with what must be observed afterwards."""
    __slots__ = ("op", "args", "expect", "life")

    def __init__(self, op, args, expect, life=None):
        self.op = op
        self.args = args
        self.expect = expect
        self.life = life

    def line(self):
        return " ".join([self.op] + [enc(a) for a in self.args])


def enc(a):
    if isinstance(a, bool):
        return "1" if a else "0"
    if isinstance(a, list):
        return str(len(a)) + "".join(" " + enc(x) for x in a)
    s = str(a)
    return s if s else "_"


class Graph:
    """The labelled transition graph TLC explored."""

    def __init__(self):
        self.out = []          # node -> list of (target, Step)
        self.index = {}
        self.init = None
        self.edges = 0

    def node(self, key):
        i = self.index.get(key)
        if i is None:
            i = self.index[key] = len(self.out)
            self.out.append([])
        return i


def graph_from(out, rename=None):
    g = Graph()
    seen = set()
    for e in printed(out, "E"):
        s = g.node(canon(e["s"]))
        t = g.node(canon(e["t"]))
        if g.init is None:
            g.init = s
        o = e["o"]
        exp = canon([o["r"], e["b"]])
        k = (s, t, o["op"], canon(o["a"]), exp)
        if k in seen:
            continue
        seen.add(k)
        g.out[s].append((t, Step(o["op"], o["a"], exp, canon(e["l"]) if "l" in e else None)))
        g.edges += 1
    if g.init is None:
        raise CheckError("the model produced no transitions")
    return g


def cover_walks(g, maxlen, rng, cap=None):
    """Walks from the initial state that together take every transition."""
    n = len(g.out)
    todo = [list(range(len(o))) for o in g.out]
    for l in todo:
        rng.shuffle(l)
    left = sum(len(l) for l in todo)
    # BFS tree from init, to reach any node quickly
    parent = [None] * n
    parent[g.init] = (-1, None)
    order = collections.deque([g.init])
    while order:
        u = order.popleft()
        for t, st in g.out[u]:
            if parent[t] is None:
                parent[t] = (u, st)
                order.append(t)
    depth = {}

    def path_to(u):
        p = []
        while parent[u][0] != -1:
            pu, st = parent[u]
            p.append(st)
            u = pu
        p.reverse()
        return p

    pending = [u for u in range(n) if todo[u]]
    pending.reverse()
    walks = []
    while left:
        while pending and not todo[pending[-1]]:
            pending.pop()
        if not pending:
            break
        u = pending[-1]
        if cap and len(walks) >= cap:
            u = rng.choice(pending)
        walk = path_to(u)
        idle = 0
        while len(walk) < maxlen:
            if todo[u]:
                # prefer a transition that leads to more uncovered work
                l = todo[u]
                best = len(l) - 1
                for k in range(len(l) - 1, max(len(l) - 9, -1), -1):
                    if todo[g.out[u][l[k]][0]]:
                        best = k
                        break
                l[best], l[-1] = l[-1], l[best]
                t, st = g.out[u][l.pop()]
                left -= 1
            else:
                # one free step if it reaches uncovered work
                for t, st in g.out[u][:40]:
                    if todo[t]:
                        break
                else:
                    if idle == 4 or not g.out[u]:
                        break
                    idle += 1
                    t, st = g.out[u][int(rng.random() * len(g.out[u]))]
                    walk.append(st)
                    u = t
                    continue
            idle = 0
            walk.append(st)
            u = t
        walks.append(walk)
        if cap and len(walks) >= cap:
            break
    return walks, left


SIM = """---- MODULE Sim%(m)s ----
EXTENDS %(m)s
VARIABLE hist
CONSTANT SimDepth
SimInit == Init /\\ hist = <<>>
SimNext == IF Len(hist) < SimDepth
           THEN /\\ %(next)s
                /\\ hist' = Append(hist, [op |-> last'.op, a |-> last'.a, r |-> last'.r, b |-> Obs'%(l)s])
           ELSE PrintT("@H" \\o ToJson(hist)) /\\ UNCHANGED <<vars, hist>>
SimSpec == SimInit /\\ [][SimNext]_<<vars, hist>>
====
"""


def simulate(ctx, module, consts, num, depth, nxt="LongNext", live=True, invariants=(), timeout=600):
    """Random long behaviours of the specification, generated by TLC."""
    mod = SIM % {"m": module, "next": nxt, "l": ", l |-> Live'" if live else ""}
    # constants a configuration file cannot express become definitions
    big = {k: v for k, v in consts.items() if isinstance(v, str) and ("<<" in v or "-" in v)}
    mod = mod.replace("VARIABLE hist", "".join("Sim_%s == %s\n" % kv for kv in big.items()) + "VARIABLE hist")
    cfg = "CONSTANTS\n" + "".join("  %s <- Sim_%s\n" % (k, k) if k in big else "  %s = %s\n" % (k, v)
                                  for k, v in consts.items()) \
        + "  SimDepth = %d\nSPECIFICATION SimSpec\nCHECK_DEADLOCK FALSE\n" % depth
    if invariants:
        cfg += "INVARIANTS " + " ".join(invariants) + "\n"

    procs = max(1, min(NPROC, num // 10))

    def one(k):
        n = (num + procs - 1) // procs
        return tlc_ok(ctx, "Sim" + module, "Sim.cfg", files={"Sim%s.tla" % module: mod, "Sim.cfg": cfg},
                      extra=["-simulate", "num=%d" % n, "-depth", str(depth + 2),
                             "-seed", str(ctx.seed * 1000 + k)], timeout=timeout, heap="1500m")

    walks = []
    seen = set()
    with cf.ThreadPoolExecutor(procs) as ex:
        for out in ex.map(one, range(procs)):
            for h in printed(out, "H"):
                key = canon(h)
                if key in seen:
                    continue
                seen.add(key)
                walks.append([Step(x["op"], x["a"], canon([x["r"], x["b"]]),
                                   canon(x["l"]) if "l" in x else None) for x in h])
    if not walks:
        raise CheckError("simulation of %s produced no behaviours" % module)
    return walks


def with_defs(module, defs):
    """A module that adds definitions, and the files to run TLC on it."""
    if not defs:
        return module, {}
    name = "With" + module
    return name, {name + ".tla": "---- MODULE %s ----\nEXTENDS %s\n%s\n====\n" % (name, module, defs)}


def model_walks(ctx, module, cfg, maxlen=40, rand=0, randlen=60, heap="3g", timeout=600, defs=""):
    """Exhaustively check specs/<cfg> and return walks taking every transition.

    `defs` is TLA+ text (definitions the configuration substitutes for constants)."""
    name, files = with_defs(module, defs)
    out = tlc_ok(ctx, name, cfg, files=files, timeout=timeout, heap=heap)
    g = graph_from(out)
    rng = random.Random("%d:%s" % (ctx.seed, cfg))
    walks, left = cover_walks(g, maxlen, rng)
    if left:
        raise CheckError("%d transitions of %s cannot be covered" % (left, cfg))
    if rand:
        walks += random_walks(g, rand, randlen, rng)
    ctx.log("%s: %d states, %d transitions, %d walks" % (cfg, len(g.out), g.edges, len(walks)))
    return walks


def cases(ctx, module, cfg, defs="", heap="3g", timeout=600, per=100):
    """Check specs/<cfg>, whose states are single cases printed with @C; group them into walks.

    `defs` is TLA+ text (definitions the configuration substitutes for constants)."""
    name, files = with_defs(module, defs)
    out = tlc_ok(ctx, name, cfg, files=files, timeout=timeout, heap=heap)
    steps = [Step(x["op"], x["a"], canon([x["r"], 0])) for x in printed(out, "C")]
    if not steps:
        raise CheckError("%s produced no cases" % cfg)
    ctx.log("%s: %d cases" % (cfg, len(steps)))
    return [steps[i:i + per] for i in range(0, len(steps), per)]


def random_walks(g, count, length, rng):
    walks = []
    for _ in range(count):
        u = g.init
        w = []
        for _ in range(length):
            if not g.out[u]:
                break
            t, st = rng.choice(g.out[u])
            w.append(st)
            u = t
        walks.append(w)
    return walks


def sim_walks(out):
    """Behaviours printed by a simulation run: @H [[op,args,ret,obs],...]."""
    walks = []
    for h in printed(out, "H"):
        walks.append([Step(x["op"], x["a"], canon([x["r"], x["b"]]),
                           canon(x["l"]) if "l" in x else None) for x in h])
    return walks


# ------------------------------------------------------------------ drivers

INC = ["-I" + os.path.join(REPO, "include"), "-I" + REPO]


def compile_cxx(ctx, name, sources, flags=(), san="address", opt="-O1", std="c++14", cc="g++",
                libs=("-lpthread", "-ldl"), incs=(), areas=(), areaflags=()):
    """Build a driver from /verif/drivers and /repo sources (`areas` are directories of /repo/src)."""
    archives = [area_archive(ctx, a, tuple(areaflags), san, opt, std, cc) for a in areas]
    exe = os.path.join(ctx.work, name)
    gen = gen_headers(ctx)
    base = [cc, "-std=" + std, opt, "-g1", "-w", "-fPIC", "-ftrivial-auto-var-init=pattern"]
    if san:
        base += ["-fsanitize=" + san, "-fno-omit-frame-pointer"]
    base += ["-I" + DRIVERS] + ["-I" + i for i in incs] + INC + ["-I" + gen] + list(flags)
    jobs = []
    objs = []
    for i, s in enumerate(sources):
        o = os.path.join(ctx.work, "%s-%d.o" % (name, i))
        objs.append(o)
        jobs.append(base + ["-c", s, "-o", o])
    with cf.ThreadPoolExecutor(NPROC) as ex:
        for (rc, out, err), cmd in zip(ex.map(lambda c: sh(c, timeout=600), jobs), jobs):
            if rc != 0:
                raise CheckError("compiling failed: %s\n%s" % (" ".join(cmd), err[-6000:]))
    cmd = [cc, "-g1"] + (["-fsanitize=" + san] if san else []) + objs + archives + ["-o", exe] \
        + [f for f in flags if f.startswith(("-Wl,", "-fsanitize", "-fno-sanitize"))] + list(libs)
    rc, out, err = sh(cmd, timeout=600)
    if rc != 0:
        raise CheckError("linking failed: %s\n%s" % (" ".join(cmd), err[-6000:]))
    return exe


def area_archive(ctx, area, flags, san, opt, std, cc):
    """Static library of everything below /repo/src/<area> that is built for this system."""
    key = (area, flags, san, opt, std, cc)
    with LOCK:
        lock, done = ctx.__dict__.setdefault("archives", {}).setdefault(key, (threading.Lock(), {}))
    with lock:
        if done:
            return done["path"]
        root = os.path.join(REPO, "src", area)
        sources = []
        for d, dirs, files in os.walk(root):
            dirs[:] = sorted(x for x in dirs if x not in ("Tests", "tests", "Windows"))
            sources += [os.path.join(d, f) for f in sorted(files) if f.endswith(".cpp")]
        skip = SKIPPED.get(area.split("/")[0], ())
        sources = [f for f in sources if not any(x in f for x in skip)]
        if not sources:
            raise CheckError("no sources below " + root)
        out = os.path.join(ctx.work, "area-%s-%d" % (area.replace("/", "_"), len(ctx.archives)))
        os.makedirs(out)
        base = [cc, "-std=" + std, opt, "-g1", "-w", "-fPIC", "-ftrivial-auto-var-init=pattern"]
        if san:
            base += ["-fsanitize=" + san, "-fno-omit-frame-pointer"]
        base += INC + ["-I" + gen_headers(ctx)] + list(flags)
        objs = [os.path.join(out, "%d.o" % i) for i in range(len(sources))]
        jobs = [base + ["-c", s, "-o", o] for s, o in zip(sources, objs)]
        with cf.ThreadPoolExecutor(NPROC) as ex:
            for (rc, _, err), cmd in zip(ex.map(lambda c: sh(c, timeout=600), jobs), jobs):
                if rc != 0:
                    raise CheckError("compiling failed: %s\n%s" % (" ".join(cmd), err[-6000:]))
        path = os.path.join(out, "lib.a")
        rc, _, err = sh(["ar", "rcs", path] + objs, timeout=120)
        if rc != 0:
            raise CheckError("ar failed: " + err)
        done["path"] = path
        return path


SKIPPED = {"Crypto": ("/MutexStub/",)}  # alternatives the project's build does not take


def gen_headers(ctx):
    """Headers the project's build generates (same content as its CMake step)."""
    d = os.path.join(ctx.work, "gen")
    out = os.path.join(d, "Generated", "Network", "Config.hpp")
    with LOCK:
        if os.path.exists(out):
            return d
        src = os.path.join(REPO, "src", "Os", "Async", "Network")
        try:
            text = open(os.path.join(src, "Config.hpp.in")).read()
            for k, v in re.findall(r'"(LIB_\w+)"\s+"([^"]*)"', open(os.path.join(src, "Config.cmake")).read()):
                text = text.replace("@%s@" % k, v)
        except OSError:
            return d
        os.makedirs(os.path.dirname(out), exist_ok=True)
        with open(out, "w") as f:
            f.write(text)
    return d


def run_env(extra=None):
    env = dict(os.environ)
    env["ASAN_OPTIONS"] = ("detect_leaks=0:abort_on_error=0:exitcode=99:allocator_may_return_null=1:"
                           "detect_stack_use_after_return=0:handle_abort=1:max_allocation_size_mb=512")
    env["UBSAN_OPTIONS"] = "halt_on_error=1:exitcode=98:print_stacktrace=1"
    if extra:
        env.update(extra)
    return env


def run_walks(ctx, exe, walks, args=(), timeout=150, per_walk_timeout=20, env=None, label="",
              life=False):
    """Replay walks; report the first divergences. Returns True when all agree.

    With `life` the live-object column is compared instead of the contents,
    with life="both" the two together."""
    if not walks:
        return True
    walks = [w for w in walks if w]
    chunks = [[] for _ in range(NPROC)]
    for i, w in enumerate(walks):
        chunks[i % NPROC].append(w)
    chunks = [c for c in chunks if c]
    env = run_env(env)

    def run_chunk(c):
        return replay(ctx, exe, c, args, timeout, env)

    bad = []
    with cf.ThreadPoolExecutor(len(chunks)) as ex:
        for c, res in zip(chunks, ex.map(run_chunk, chunks)):
            bad += judge(ctx, c, res, life)
    good = True
    if bad:
        # smallest first; every alarm must repeat when the walk is run alone
        bad.sort(key=lambda b: (b[1], len(b[0])))
        reported = 0
        seen = set()
        for w, at, why in bad[:60]:
            if reported >= 3:
                break
            sig = (w[min(at, len(w) - 1)].op, why[:40])
            if sig in seen:
                continue
            again = None
            for flush in ("1", "1"):
                e2 = dict(env)
                e2["VF_FLUSH"] = flush
                res = replay(ctx, exe, [w], args, per_walk_timeout, e2)
                b = judge(ctx, [w], res, life)
                if not b:
                    again = None
                    break
                again = (b[0], res)
            if again is None:
                ctx.log("divergence did not repeat, ignored: " + why[:200])
                continue
            (w1, at1, why1), res = again
            seen.add(sig)
            text = render(w1, at1, why1, res)
            if ctx.report("%s%s" % (label and label + ": ", why1), text):
                good = False
                reported += 1
    ctx.traces += len(walks)
    ctx.steps += sum(len(w) for w in walks)
    if len(ctx.samples) < 6:
        w = walks[ctx.rng.randrange(len(walks))]
        ctx.samples.append({"part": label, "walk": ["%s -> %s" % (s.line(), s.expect) for s in w[:12]]})
    return good


def render(w, at, why, res):
    rc, lines, err = res
    out = [why, "", "operations (driver input) and what the specification expects:"]
    for i, s in enumerate(w[:at + 1]):
        out.append("  %3d  %-40s expect %s%s" % (i + 1, s.line(), s.expect,
                                                 "  alive " + s.life if s.life else ""))
    out.append("driver exit: %s" % (rc,))
    if lines:
        out.append("observed: " + (lines[0][min(at, len(lines[0]) - 1)] if lines[0] else "(none)"))
    if err:
        out.append("driver stderr:\n" + err[:4000])
    return "\n".join(out)


def replay(ctx, exe, walks, args, timeout, env):
    fd, path = tempfile.mkstemp(dir=ctx.work)
    with os.fdopen(fd, "w") as f:
        for w in walks:
            f.write("@reset\n")
            for s in w:
                f.write(s.line())
                f.write("\n")
        f.write("quit\n")
    with open(path) as f:
        rc, out, err = sh([exe] + list(args), timeout=timeout, env=env, stdin=f)
    os.unlink(path)
    groups = []
    cur = None
    for line in out.splitlines():
        if line == "#reset":
            cur = []
            groups.append(cur)
        elif cur is not None:
            cur.append(line)
    return rc, groups, err


def judge(ctx, walks, res, life=False):
    """Compare observed groups with expectations: list of (walk, step, why)."""
    rc, groups, err = res
    bad = []
    for i, w in enumerate(walks):
        g = groups[i] if i < len(groups) else None
        last = i >= len(groups) - 1
        if g is None:
            if i >= len(groups):
                if rc != 0 and i == len(groups):
                    bad.append((w, len(w) - 1, end_reason(rc, err, w, None)))
                break
        for k, s in enumerate(w):
            if k >= len(g) or g[k].startswith("!"):
                if rc == 0 and not last:
                    bad.append((w, k, "driver stopped answering at: " + s.line()))
                else:
                    bad.append((w, k if len(g) else len(w) - 1, end_reason(rc, err, w, k if len(g) else None)))
                return bad
            shown, _, lived = g[k].partition("\t")
            e, o = (s.life or lived, lived) if life else (s.expect, shown)
            if life == "both" and s.life is not None:
                e, o = s.expect + " alive " + s.life, shown + " alive " + lived
            elif life == "both":
                e, o = s.expect, shown
            if e != o:
                bad.append((w, k, "after `%s` the code shows %s but the specification requires %s"
                            % (s.line(), o, e)))
                break
        else:
            if len(g) > len(w) and (life or not g[len(w)].startswith("!life")):
                bad.append((w, len(w) - 1, "at the end of the history: " + g[len(w)]))
            elif i == len(walks) - 1 and rc != 0:
                bad.append((w, len(w) - 1, end_reason(rc, err, w, len(w) - 1)))
    return bad


def end_reason(rc, err, w, k):
    what = "driver ended with %s" % (rc,)
    if rc == "timeout":
        what = "the code does not return (hang)"
    m = re.search(r"ERROR: AddressSanitizer: (\S+)", err)
    if m:
        what = "memory error: " + m.group(1)
    m = re.search(r"runtime error: (.*)", err)
    if m:
        what = "undefined behaviour: " + m.group(1)
    where = "`%s`" % w[k].line() if k is not None else "the history"
    return "%s during %s" % (what, where)


# --------------------------------------------------------------------- main

def main(prop, fn, level="model_checking"):
    tier = os.environ.get("VERIF_TIER", "quick")
    for a in sys.argv[1:]:
        if a in ("quick", "thorough"):
            tier = a
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    ctx = Ctx(prop, tier, seed, level)
    rc = 2
    try:
        fn(ctx)
        rc = 1 if ctx.violations else 0
    except CheckError as e:
        print("CHECK-ERROR property=%s %s" % (prop, e))
        rc = 1 if ctx.violations else 2
    finally:
        try:
            if rc != 2:
                ctx.write_evidence()
        finally:
            ctx.close()
    ctx.log("done: exit %d" % rc)
    sys.exit(rc)


def number(path):
    """The number in a file of the system, 0 if there is none."""
    try:
        with open(path) as f:
            return int(f.read().split()[0])
    except (OSError, ValueError, IndexError):
        return 0
