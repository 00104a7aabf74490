"""Concurrent checks: controlled schedules of the real code, traces validated by TLC.

The specification (a module with Start and Step) is checked by TLC over all
small programs; the programs it prints are run on the real code under the
schedules of drivers/vsched.cpp, and the distinct executions are given back to
TLC, which searches for an explanation of each one (specs/LinTrace.tla)."""
import concurrent.futures as cf
import json
import os
import re
import subprocess

import vf

RUNTIME = os.path.join(vf.DRIVERS, "vsched.cpp")


def build(ctx, name, driver, defs=(), areas=("Os",), opt="-O1"):
    """Driver and /repo sources instrumented, their thread and memory calls redirected to the runtime."""
    with vf.LOCK:
        lock = ctx.__dict__.setdefault("vs_lock", vf.threading.Lock())
    with lock:
        rt = os.path.join(ctx.work, "vsched.o")
        syms = os.path.join(ctx.work, "vsched.syms")
        if not os.path.exists(rt):
            must(["g++", "-std=c++17", "-O2", "-g1", "-w", "-c", RUNTIME, "-o", rt])
            out = subprocess.check_output(["nm", rt], text=True)
            names = re.findall(r" T vs_(\S+)$", out, re.M)
            with open(syms, "w") as f:
                f.write("".join("%s vs_%s\n" % (n, n) for n in names))
        archives = []
        for a in areas:
            src = vf.area_archive(ctx, a, ("-fsanitize=thread",), None, opt, "c++14", "g++")
            dst = src + ".vs.a"
            if not os.path.exists(dst):
                must(["objcopy", "--redefine-syms=" + syms, src, dst])
            archives.append(dst)
    obj = os.path.join(ctx.work, name + ".o")
    must(["g++", "-std=c++14", opt, "-g1", "-w", "-fPIC", "-fsanitize=thread", "-I" + vf.DRIVERS] + vf.INC
         + ["-I" + vf.gen_headers(ctx)] + list(defs) + ["-c", os.path.join(vf.DRIVERS, driver + ".cpp"), "-o", obj])
    must(["objcopy", "--redefine-syms=" + syms, obj])
    exe = os.path.join(ctx.work, name)
    must(["g++", "-g1", obj] + archives + [rt, "-o", exe, "-lpthread", "-ldl"])
    return exe


def must(cmd):
    rc, _, err = vf.sh(cmd, timeout=600)
    if rc != 0:
        raise vf.CheckError("failed: %s\n%s" % (" ".join(cmd), err[-6000:]))


def programs(ctx, module, cfg, defs=""):
    """Check the specification over all programs of a configuration; the programs."""
    name, files = vf.with_defs(module, defs)
    out = vf.tlc_ok(ctx, name, cfg, files=files, timeout=900)
    ps = {}
    for c in vf.printed(out, "C"):
        key = vf.canon([c["init"], sorted(c["prog"], key=vf.canon)])  # threads are interchangeable
        ps[key] = c
    ctx.log("%s: %d programs" % (cfg, len(ps)))
    return [ps[k] for k in sorted(ps)]


def text(p, executions, preemptions, seed, interrupts, failures=0):
    lines = ["@p %s %d" % (p["init"], len(p["prog"]))]
    for t in p["prog"]:
        lines.append(" ".join([str(len(t))] + [vf.enc(x) for o in t for x in o]))
    lines.append("go %d %d %d %d %d" % (executions, preemptions, seed, interrupts, failures))
    return "\n".join(lines) + "\n"


def histories(walks):
    """Programs of a single thread from walks over a transition graph."""
    ps = {}
    for w in walks:
        p = {"init": 0, "prog": [[[s.op, s.args] for s in w]]}
        ps[vf.canon(p)] = p
    return [ps[k] for k in sorted(ps)]


def run(ctx, exe, progs, label, executions=200, preemptions=2, interrupts=0, failures=0, timeout=400):
    """Run every program; (program, trace) for each distinct execution."""
    def chunk(ps):
        path = os.path.join(ctx.work, "in-%d" % id(ps))
        with open(path, "w") as f:
            for p in ps:
                f.write(text(p, executions, preemptions, ctx.seed, interrupts, failures))
            f.write("quit\n")
        with open(path) as f:
            rc, out, err = vf.sh([exe], timeout=timeout, env=vf.run_env(), stdin=f)
        os.unlink(path)
        res = []
        n = -1
        ended = True
        lines = out.splitlines()
        if rc != 0 and not out.endswith("\n"):
            lines.pop()  # cut off in the middle
        for line in lines:
            if line == "#p":
                n += 1
                ended = False
            elif line == "#end":
                ended = True
            elif line.startswith("T "):
                res.append((ps[n], json.loads(line[2:])))
        if rc != 0 or n + 1 != len(ps) or not ended:
            bad = ps[max(n, 0)]
            why = "the code does not return" if rc == "timeout" else "the driver ended with %s" % rc
            with vf.LOCK:
                if len(ctx.violations) < 3:
                    ctx.report("%s: %s while running a program" % (label, why),
                               text(bad, executions, preemptions, ctx.seed, interrupts, failures) + err[-2000:])
        return res

    chunks = [progs[i::vf.NPROC * 4] for i in range(vf.NPROC * 4)]
    out = []
    with cf.ThreadPoolExecutor(vf.NPROC) as ex:
        for r in ex.map(chunk, [c for c in chunks if c]):
            out += r
    return out


def validate(ctx, module, traces, label, per=4000, template="LinTrace.tla"):
    """Let TLC explain every recorded execution; report those it cannot."""
    uniq = {}
    for p, t in traces:
        for f in t["faults"]:
            if not any(f in v for v in ctx.violations):
                ctx.report("%s: %s" % (label, f), show(p, t))
        key = vf.canon([t["start"], t["threads"], t["events"]])
        uniq.setdefault(key, (p, t))
    items = [uniq[k] for k in sorted(uniq)]
    with open(os.path.join(vf.SPECS, template)) as f:
        mod = f.read().replace("@OBJECT@", module)
    name = template[:-4]
    cfg = "SPECIFICATION TSpec\nCHECK_DEADLOCK FALSE\n"

    def batch(part):
        data = json.dumps([{"start": t["start"], "threads": t["threads"], "events": t["events"]} for _, t in part])
        out = vf.tlc_ok(ctx, name, "T.cfg", files={name + ".tla": mod, "T.cfg": cfg, "traces.json": data}, timeout=900)
        ok = {int(x) for x in re.findall(r'^"@A(\d+)"', out, re.M)}
        return [part[i] for i in range(len(part)) if i + 1 not in ok]

    bad = []
    parts = [items[i:i + per] for i in range(0, len(items), per)]
    with cf.ThreadPoolExecutor(4) as ex:
        for b in ex.map(batch, parts):
            bad += b
    bad.sort(key=lambda x: len(x[1]["events"]))
    for p, t in bad[:3]:
        ctx.report("%s: an execution the specification does not allow%s" % (
            label, " (a thread runs for ever)" if t["endless"] else " (threads are stuck)"
            if t["events"][-1].get("how") == "stuck" else ""), show(p, t))
    ctx.traces += len(items)
    ctx.steps += sum(len(t["events"]) for _, t in items)
    if items and len(ctx.samples) < 6:
        ctx.samples.append({"part": label, "trace": brief(items[ctx.rng.randrange(len(items))][1])[:14]})
    ctx.log("%s: %d distinct executions, %d not explained" % (label, len(items), len(bad)))


def brief(t):
    out = []
    for e in t["events"]:
        if e["e"] == "call":
            out.append("thread %d calls %s %s" % (e["t"], e["op"], " ".join(map(str, e["a"]))))
        elif e["e"] == "ret":
            out.append("thread %d returns %s" % (e["t"], e["r"]))
        else:
            out.append(" ".join(str(v) for v in e.values()))
    return out


def show(p, t):
    return "program (start %s):\n%s\nexecution:\n%s\n" % (
        p["init"], "\n".join("  thread %d: %s" % (i + 1, x) for i, x in enumerate(p["prog"])),
        "\n".join("  " + x for x in brief(t)))
