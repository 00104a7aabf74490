"""Threads and locks: which model runs bind to which driver."""
import vf
import vs
from containers import Part, run_parts


def guards(ctx):
    units = "U3 == <<1, 1, 2>>"

    def long(c):
        return vf.simulate(c, "Guards", {"G": 6, "S": 3, "Units": "<<1, 1, 2>>"}, 100 if c.quick else 1000, 100,
                           nxt="Next", live=False, invariants=("Accounted", "HeldOnlyOnSomething"))
    return [
        Part("guards: every transition", "guards", [],
             lambda c: vf.model_walks(c, "Guards", "Guards.%s.cfg" % c.tier, rand=200, defs=units), areas=("Os",)),
        Part("guards: long histories", "guards", [], long, areas=("Os",)),
    ]


def locks(ctx):
    """Every small program over the lock primitives, under controlled schedules."""
    progs = vs.programs(ctx, "Locks", "Locks.%s.cfg" % ctx.tier)
    for name in ("three", "mixed", "many"):
        progs += vs.programs(ctx, "Locks", "Locks.%s.cfg" % name)
    n = 60 if ctx.quick else 300
    traces = []
    for made in (0, 1, 2):
        exe = vs.build(ctx, "locks-%d" % made, "locks", ["-DMADE=%d" % made])
        some = progs if made == 0 else progs[ctx.seed % 7::7]
        traces += vs.run(ctx, exe, some, "locks", executions=n, interrupts=1)
    ctx.log("locks: %d executions recorded" % len(traces))
    vs.validate(ctx, "LockSteps", traces, "locks")


def guard_programs(ctx):
    """Guards used by several threads, under controlled schedules."""
    progs = vs.programs(ctx, "GuardPrograms", "GuardPrograms.%s.cfg" % ctx.tier)
    progs += vs.programs(ctx, "GuardPrograms", "GuardPrograms.three.cfg")
    exe = vs.build(ctx, "guardthreads", "guardthreads")
    traces = vs.run(ctx, exe, progs, "guards of several threads", executions=60 if ctx.quick else 1000)
    vs.validate(ctx, "GuardSteps", traces, "guards of several threads")


def condition(ctx):
    """Every small program over a condition variable, under controlled schedules."""
    names = ["two", "long", "three", "cond", "cond3"] + ([] if ctx.quick else ["four"])
    progs = []
    for n in names:
        progs += vs.programs(ctx, "CondPrograms", "CondPrograms.%s.cfg" % n)
    exe = vs.build(ctx, "condvar", "condvar")
    traces = vs.run(ctx, exe, progs, "condition variable", executions=80 if ctx.quick else 2000)
    vs.validate(ctx, "CondSteps", traces, "condition variable")


def thread_objects(ctx):
    """Histories of thread objects, under controlled schedules of the bodies."""
    walks = vf.model_walks(ctx, "Thread", "Thread.%s.cfg" % ctx.tier, maxlen=10, rand=300 if ctx.quick else 2000, randlen=14)
    exe = vs.build(ctx, "threads", "threads")
    progs = vs.histories(walks)
    traces = vs.run(ctx, exe, progs, "thread objects", executions=60 if ctx.quick else 600, failures=1)
    vs.validate(ctx, "ThreadSteps", traces, "thread objects")


def event_queue(ctx):
    """Threads and interrupting arrivals on the queue of asynchronous events, under controlled schedules."""
    plain = ["two", "start", "three"] + ([] if ctx.quick else ["long", "three2"])
    broken = ["interrupted", "both"]
    traces = []
    for kind in (0, 1):
        exe = vs.build(ctx, "queues-%d" % kind, "queues", ["-DKIND=%d" % kind])
        for names, n in ((plain, 60 if ctx.quick else 600), (broken, 500 if ctx.quick else 2000)):
            for name in names:
                progs = vs.programs(ctx, "QueuePrograms", "QueuePrograms.%s.cfg" % name)
                traces += vs.run(ctx, exe, progs if kind == 0 else progs[ctx.seed % 3::3], "event queue", executions=n)
    vs.validate(ctx, "QueueSteps", traces, "event queue")
    small, large = "1, 2, 3", "1, 7, 256, 257, 300, 4096, 66000"
    run_parts(ctx, [
        Part("event queues: every transition", "bigqueue", ["-DCAPS=%s" % small.replace(" ", "")],
             lambda x: vf.model_walks(x, "QueueRuns", "QueueRuns.cfg", rand=100, defs="SmallCaps == <<%s>>" % small), areas=("Os",)),
        Part("event queues: large capacities", "bigqueue", ["-DCAPS=%s" % large.replace(" ", "")],
             lambda x: vf.simulate(x, "QueueRuns", {"Caps": "<<%s>>" % large, "Steps": "{1, 2, 100, 255, 256, 3000, 40000}"},
                                   60 if x.quick else 600, 60, invariants=("TypeOK",)), areas=("Os",)),
    ])


def counters(ctx):
    """Threads on shared counters, under controlled schedules."""
    exe = vs.build(ctx, "counters", "counters")
    traces = []
    for name in ["alone", "two", "both", "three"] + ([] if ctx.quick else ["long", "more"]):
        progs = vs.programs(ctx, "CounterPrograms", "CounterPrograms.%s.cfg" % name)
        traces += vs.run(ctx, exe, progs, "counters", executions=60 if ctx.quick else 200)
    ctx.log("counters: %d executions recorded" % len(traces))
    vs.validate(ctx, "CounterSteps", traces, "counters")
