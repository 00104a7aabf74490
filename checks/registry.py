"""Property -> check function, and what each check is."""
import containers as c
import values as v
import threads as th
import network as n
import crypto as y

SEQ = ("TLA+ specification checked with TLC; every transition of the explored state graph and long random "
       "TLC behaviours replayed on the real code")
SEQ_NOTE = ("Exhaustive over the bounded model (all histories up to the bounds in the .cfg files collapse into "
            "its states; every transition is executed on the real code under AddressSanitizer), sampled beyond "
            "it by long TLC simulation traces. ")
CASE = ("TLA+ specification of the function checked with TLC over a set of inputs; every input TLC enumerates is "
        "given to the real code and the answer compared with the specification's")
CASE_NOTE = ("The specification's answer is itself checked by TLC against independent laws (round trip, uniqueness). ")

SCHED = ("TLA+ specification of the object as atomic steps, checked with TLC over all small concurrent programs; the same "
         "programs run on the real code under controlled schedules and TLC validates every recorded execution")
SCHED_NOTE = ("Exhaustive on the specification; on the code, schedules with at most two preemptions are enumerated up to a "
              "budget and random ones added. Every shared memory access and thread primitive is a scheduling point "
              "(sequentially consistent memory). ")

CHECKS = {
    "P01": lambda ctx: c.run_parts(ctx, c.vector(ctx) + c.runs(ctx, "vector")),
    "P02": lambda ctx: c.run_parts(ctx, c.array(ctx) + c.runs(ctx, "array", 300) + c.runs(ctx, "array", 70000)),
    "P03": lambda ctx: c.run_parts(ctx, c.linked(ctx) + c.runs(ctx, "list")),
    "P04": lambda ctx: c.run_parts(ctx, c.hybrid(ctx) + c.runs(ctx, "hybrid", 300)),
    "P05": lambda ctx: c.run_parts(ctx, c.circular(ctx) + c.runs(ctx, "circular", 300) + c.runs(ctx, "circular", 70000)),
    "P06": lambda ctx: c.run_parts(ctx, c.vector(ctx) + c.array(ctx) + c.linked(ctx) + c.circular(ctx)
                                     + c.hybrid(ctx) + c.holders(ctx) + c.strings(ctx)[:1], life=True),
    "P07": lambda ctx: c.run_parts(ctx, c.strings(ctx) + c.runs(ctx, "string")),
    "P08": lambda ctx: c.run_parts(ctx, v.decimals(ctx)),
    "P09": lambda ctx: c.run_parts(ctx, c.holders(ctx), life="both"),
    "P10": lambda ctx: c.run_parts(ctx, c.expected(ctx), life="both"),
    "P11": lambda ctx: c.run_parts(ctx, c.owners(ctx), life="both"),
    "P12": lambda ctx: c.run_parts(ctx, v.serial(ctx)),
    "P13": lambda ctx: c.run_parts(ctx, v.wideint(ctx)),
    "P14": lambda ctx: c.run_parts(ctx, v.iterators(ctx)),
    "P15": lambda ctx: c.run_parts(ctx, v.addresses(ctx)),
    "P16": lambda ctx: th.locks(ctx),
    "P17": lambda ctx: (c.run_parts(ctx, th.guards(ctx)), th.guard_programs(ctx)),
    "P18": lambda ctx: th.condition(ctx),
    "P19": lambda ctx: th.thread_objects(ctx),
    "P20": lambda ctx: th.event_queue(ctx),
    "P21": lambda ctx: c.run_parts(ctx, n.registrar(ctx)),
    "P22": lambda ctx: c.run_parts(ctx, n.ownership(ctx)),
    "P23": lambda ctx: c.run_parts(ctx, n.transfers(ctx)),
    "P24": lambda ctx: c.run_parts(ctx, n.libraries(ctx)),
    "P25": lambda ctx: c.run_parts(ctx, y.client(ctx)),
    "P26": lambda ctx: (c.run_parts(ctx, y.arguments(ctx), life="both"), y.callbacks(ctx)),
    "P27": lambda ctx: c.run_parts(ctx, y.soft(ctx)),
    "P28": lambda ctx: c.run_parts(ctx, y.records(ctx)),
    "P29": lambda ctx: c.run_parts(ctx, v.numbers(ctx)),
    "P30": lambda ctx: c.run_parts(ctx, c.memory(ctx), life="both"),
    "P31": lambda ctx: (c.run_parts(ctx, c.tuples(ctx), life="both"), c.run_parts(ctx, c.references(ctx))),
    "P32": lambda ctx: c.run_parts(ctx, y.constants(ctx)),
    "P33": v.types,
    "P34": th.counters,
    "P35": lambda ctx: c.run_parts(ctx, y.mechanisms(ctx)),
}

ABOUT = {
    "P01": (SEQ, "model_checking", SEQ_NOTE + "Elements are distinct tagged objects; allocation never fails."),
    "P02": (SEQ, "model_checking", SEQ_NOTE + "Capacities 2, 3, 4 and 10."),
    "P03": (SEQ, "model_checking", SEQ_NOTE + "Erasing the end position is outside the specification."),
    "P04": (SEQ, "model_checking", SEQ_NOTE + "Inline capacities 2, 3 and 5; erasing the end position is outside."),
    "P05": (SEQ, "model_checking", SEQ_NOTE + "Capacities 2, 3, 4 and 9."),
    "P06": (SEQ + "; live-object accounting", "model_checking",
            SEQ_NOTE + "Elements may be relocated byte-wise; identity is carried by the object, not its address."),
    "P07": (SEQ, "model_checking", SEQ_NOTE + "Narrow and wide characters; adding an integer to a string is a stub "
            "and outside."),
    "P08": (CASE, "model_checking", CASE_NOTE + "All 8- and 16-bit numbers, boundary and random 32- and 64-bit ones."),
    "P09": (SEQ, "model_checking", SEQ_NOTE + "The three holders have finite state graphs, explored completely."),
    "P10": (SEQ, "model_checking", SEQ_NOTE + "Both result-or-error classes; two values of each."),
    "P11": (SEQ, "model_checking", SEQ_NOTE + "Three or four pointers; single-threaded use."),
    "P12": (SEQ, "model_checking", SEQ_NOTE + "Integers of 1, 2, 4 and 8 bytes on a little-endian host; a field's "
            "offset counts from the most significant byte."),
    "P13": (SEQ, "model_checking", SEQ_NOTE + "Whole-byte widths from 1 to 128 bytes. Shifts, arithmetic and text "
            "conversion are empty stubs in the code and outside."),
    "P14": (SEQ + "; sequence algorithms by enumerated cases", "model_checking", SEQ_NOTE + "Ranges of 4 (thorough: "
            "7 and 9) positions, offsets of six integer types, in both directions; algorithms on all sequences over "
            "three values up to the length bound."),
    "P15": (SEQ + "; texts by enumerated cases", "model_checking", SEQ_NOTE + "All texts over a four-letter alphabet up "
            "to the length bound and all combinations of valid and malformed fields. Numbers written with leading "
            "zeros are outside."),
    "P16": (SCHED, "model_checking", SCHED_NOTE + "Two threads with two blocks of operations, three with one; semaphore "
            "waits may be interrupted by a signal."),
    "P17": (SEQ + "; " + SCHED, "model_checking", SEQ_NOTE + "Two (thorough: three) movable guards and a scoped one over a mutex, a "
            "spin lock and a semaphore of two units; six and three in the long histories. " + SCHED_NOTE),
    "P18": (SCHED, "model_checking", SCHED_NOTE + "Two to three (thorough: four) threads with up to three operations. "
            "unwait() and destruction with threads inside are outside."),
    "P19": (SCHED, "model_checking", SCHED_NOTE + "Histories of two (thorough: three) thread objects; creation of a thread may fail. "
            "Destroying an object whose body has not started is outside."),
    "P20": (SCHED, "model_checking", SCHED_NOTE + "Queues of two to three events, up to three threads; an arrival may interrupt a "
            "thread at every point where the signal is not blocked; queues of up to 66000 events used by one thread."),
    "P21": (SEQ, "model_checking", SEQ_NOTE + "Up to four sockets of any kinds, ten in the long histories, on the loopback device with real "
            "signals; the queues with the capacities the build configures."),
    "P22": (SEQ, "model_checking", SEQ_NOTE + "Servers, clients and accepted connections in up to eight places; system calls are "
            "replaced by a recorded stand-in in which every call may fail."),
    "P23": (SEQ, "model_checking", SEQ_NOTE + "Two clients with three datagrams on their way, one connection with four bytes each way "
            "(thorough: two connections); up to four clients, three connections and 3 MB in the long histories. Loopback device only, so "
            "datagrams are not lost by the network."),
    "P24": (SEQ, "model_checking", SEQ_NOTE + "Up to six library objects on a stand-in for the dynamic loader; path lengths around "
            "the size of the internal buffer."),
    "P25": (SEQ, "model_checking", SEQ_NOTE + "A stand-in module behind a stand-in loader, each of its functions failing with one code; up to two "
            "slots (thorough: four), nine in the long histories. Slots that appear while an empty list is fetched are outside."),
    "P26": (SEQ + "; " + SCHED, "model_checking", SEQ_NOTE + "What an object that was moved from holds is outside. " + SCHED_NOTE),
    "P27": (SEQ + "; " + CASE, "model_checking", SEQ_NOTE + "Operations that the module does not implement yet and locking an object "
            "without mutex are outside."),
    "P28": (SEQ, "model_checking", SEQ_NOTE + "All structures found in the headers; values differ in every byte. What a "
            "default-constructed structure holds is outside."),
    "P29": (CASE, "model_checking", CASE_NOTE + "All pairs of 8-bit numbers, boundary numbers of 16, 32 and 64 bits. Division by "
            "zero, shifts by the width or more and results outside a signed type are outside, as in the language."),
    "P30": (SEQ, "model_checking", SEQ_NOTE + "Up to twelve elements in the long histories; any allocation may fail."),
    "P31": (SEQ, "model_checking", SEQ_NOTE + "Tuples of three components of different types; two reference wrappers, two to three objects, nested scopes."),
    "P32": (CASE, "model_checking", CASE_NOTE + "Every named value of the library's headers at the pinned commit, all pairs of flags."),
    "P33": (CASE, "model_checking", CASE_NOTE + "Types of one (thorough: two) pointers over two base types with every "
            "qualifier and reference; lists of up to three (thorough: five) types. Whether a const or volatile pointer "
            "counts as a pointer is outside."),
    "P34": (SCHED, "model_checking", SCHED_NOTE + "Two counters under a mutex and a spin lock, counting integers, bytes "
            "and a two-word value; two to three threads with up to two operations, one thread with four."),
    "P35": (SEQ, "model_checking", SEQ_NOTE + "Two places of parameters of four (thorough: eight) kinds, four places of all "
            "65 kinds in the long histories; four mechanisms. Encryptors, signers and their like are stubs and outside."),
}

NOT_APPLICABLE = {}
