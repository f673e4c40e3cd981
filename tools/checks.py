VARIANTS = {
    # assertions on, address and bounds errors are fatal
    "dbg": ["-O1", "-g1", "-fsanitize=address", "-fno-omit-frame-pointer", "-D_GLIBCXX_ASSERTIONS",
            "-ftrivial-auto-var-init=pattern"],
    # what a release build uses
    "rel": ["-O2", "-DNDEBUG"],
    # assertions on, for runs under the scheduler
    "sched": ["-O1", "-g1"],
    "tsan": ["-O1", "-g1", "-fsanitize=thread"],
}
CHECKS = {}


def check(prop, harness, builds=("dbg", "rel"), bounds="", assumptions=(), budget=None):
    b = {}
    for x in builds:
        if isinstance(x, str):
            b[x] = {"variant": x}
        else:
            b[x[0]] = x[1]
    CHECKS[prop] = {"harness": harness, "builds": b, "bounds": bounds or BOUNDS[prop], "assumptions": list(assumptions or ASSUMPTIONS)}
    if budget:
        CHECKS[prop]["budget"] = budget


ASSUMPTIONS = [
    "the compilers used (g++ 13, ASan/TSan run times) and Eigen behave as specified",
    "behaviour beyond the stated bounds follows the same pattern (bounded exploration)",
    "the reference model in harness/ref.hpp states the property correctly; it shares no code with the library",
]
BOUNDS = {
    'C01': 'all wirings of 2 blocks over every block kind and of 3 blocks over 4 kinds (thorough: 4 blocks), all creation orders of an 8-block mixed model, all placements of 4 (thorough 5) blocks in up to 2 nested submodels with all orders, up to 4 inputs of one block chosen freely (the same signal repeatedly included), models of 12 to 400 blocks in 4 shapes and 4 orders; three engines',
    'C02': 'all ordered pairs of block kinds with a state, all triples of stateless ones, scalar and array (thorough: all triples with a state), 3 steppers, with and without nesting, 60-step runs, all sequences of three engines on one model, all patterns of inputs missing at 3 evaluations',
    'C03': 'all wirings of 2 blocks over 6 kinds (placed in or outside a submodel) and of 3 blocks over 3 kinds (thorough: 3 over 5 kinds nested, 4 over 3), with and without a signal nobody writes; rings of 1 to 60 blocks cut by nothing, memory, integrator or delay, with tails; all patterns of 3 inputs missing over 3 (thorough 4) evaluations',
    'C04': 'all sequences of 5 (thorough 6; arrays 4, 5) operations out of assign, read, clear, re-point, copy and bus access on two signals and several handles, per value type; boundary values of every type; two producers of one signal in 6 model shapes on 3 engines',
    'C05': 'all wirings of up to 3 scalar integrators fed by any state, source or function of states; all mixes of up to 3 (thorough 4) states of lengths scalar, 1, 2, 3 with shared or separate derivatives; all creation orders; 5 to 120 states; 3 steppers, 3 engines, adaptive RKF45 runs',
    'C06': 'all sequences of 4 (thorough 5) answers out of a menu relative to the attempted step, and of 2 (thorough 4) absolute answers, periodic answers over up to 60 (thorough 400) attempts, all sequences of 3 (thorough 4) run lengths, 4 pairs of limits, dyadic and non-dyadic times',
    'C07': 'all linear systems of 1 and 2 (thorough 3) states with coefficients from a table, 11 nonlinear right-hand sides in 1 to 17 dimensions, error estimates swept across both thresholds of the step size, all sequences of 3 (thorough 4) uses of one stepper with differing sizes, arguments that are results of the step before, derivative functions that throw at the k-th evaluation',
    'C08': 'all input sequences of 4 (thorough 5) steps over 3 values for chains of 1 to 4 memories of every type, all sequences of 3 (thorough 4) step decisions with 5 kinds of extra evaluations, all feedback wirings of up to 3 (thorough 4) memories, runs of 400 steps',
    'C09': 'all sequences of 4 (thorough 5) step lengths and delays for 2 (thorough 4) lifespans, 5 delay laws over 300 steps, delayed feedback with 4 steppers, chains of up to 4 delays',
    'C10': 'all sequences of 4 (thorough 5) step lengths (repeats included) and input values, integrated equations with 3 steppers, all sequences of 3 (thorough 4) step decisions with extra evaluations, runs of 300 steps, arrays up to 64 elements',
    'C11': 'all trigger sequences over 6 (thorough 8) accepted steps, the first included, in 5 stepping modes with the trigger inverted at every other evaluation, all mixes of up to 3 (thorough 4) plain and triggered integrators in 3 orders, self-triggered models, all sequences of step decisions',
    'C12': 'all pairs of 16 special values per binary block, up to 33 inputs with special values anywhere, array lengths up to 1000, integers with overflow excluded, functions with up to 3 inputs and 4 outputs, sources at extreme times',
    'C13': 'all buses of up to 4 (thorough 5) entries over 10 labels, all trees of up to 4 (thorough 6) entries over 3 labels, every queried path up to 4 segments, automatic labels for 0 to 33 signals in 5 namings, all 256 characters at 3 positions, shared sub-buses',
    'C14': '18 nested bus shapes x 4 label rotations x 4 orders of the output bus x 3 engines, all pairs of excluded labels, paths and bus prefixes of each shape, initial values for unused labels, feedback',
    'C15': 'all sequences of 3 (thorough 5) operations over 6 growth steps and 4 sets of tracked signals, all sequences of 4 (thorough 6) tracking operations, lengths at and around the growth steps up to 2003 rows in 5 orders, histories of simulations',
    'C16': 'all signal type vectors of up to 3 inputs and 2 outputs (thorough 4 and 3) for each of about 40 block kinds, all label faults, 5 kinds of second connections for every block kind, all sequences of 4 (thorough 5) operations on the block tree',
    'C17': 'all sequences of 4 (thorough 6) operations out of 8 (forward, repeated, backward, initialisation, ...) on 4 models and 3 engines; all 32 (thorough 128) ways to split a run; all first calls; all hand-overs to a second simulator',
    'C18': 'all 256 bytes at 4 positions and all strings of up to 2 (thorough 4) characters of a table through every way of naming, all block trees of 5 (thorough 6) blocks with all sequences of 2 renamings or adoptions, depth up to 100',
    'C19': 'all ordered pairs out of about 70 calls, 200 repetitions of each, user functions that throw at each of 7 places, 4 times and 3 nesting depths, threads',
    'C20': 'all interleavings of the calls of two simulations (3 models x 3 engines x 3 steppers), one run inside a callback of the other at each of 14 places in 3 modes, two threads with every placement of one switch at any function entry of the library and of two (thorough four) switches at the callbacks; the same schedules under ThreadSanitizer',
    'C21': '7 families of programs, each enumerated and executed in both builds loaded side by side, every observable value compared bit by bit',
    'C22': 'all block trees of up to 6 (thorough 7) blocks with all kinds of leaves in 4 ways of building, every starting block, level limit, level offset and stopping point; histories of 3 (thorough 5) changes of the tree; trees of 70 blocks',
    'C23': '10 kinds of input, 6 types and lengths, all orders, all input sequences of 4 (thorough 5) evaluations, all sequences of 3 (thorough 4) step decisions, all 9 hand-overs between engines, up to 40 blocks',
    'C24': '12 models x all plans of 2 (thorough 3) sets of additional evaluations out of 12 kinds before and after each step, all sequences of 3 (thorough 4) step decisions, library steppers wrapped in up to 15 (thorough 63) patterns of noise',
    'C26': 'every place at which user code runs inside a run or init call, as the place that throws, on 5 models, 3 engines and 3 steppers, 1 to 3 failures in a row, 7 ways to go on after a run and 4 after an initialisation; all sequences of 3 calls on a model that cannot be evaluated at first',
    'C27': 'all orders of giving up 6 (thorough 7) holders of the same signals (handles, buses, history, model with simulator) per value type and engine; every block kind x 3 steppers x 3 engines with all handles given up at 3 moments; all sequences of 4 (thorough 6) operations on 3 handles per type; nests of up to 8 buses',
    'C25': 'all placements of the blocks of 4 models in up to 3 (thorough 4) submodels nested in every way, all creation orders, positions of the submodels among their siblings, depth up to 30, up to 40 empty submodels',
}
check("C01", "c01.cpp")
check("C02", "c02.cpp")
check("C03", "c03.cpp")
check("C04", "c04.cpp")
check("C05", "c05.cpp")
check("C06", "c06.cpp")
check("C07", "c07.cpp")
check("C08", "c08.cpp")
check("C09", "c09.cpp")
check("C10", "c10.cpp")
check("C11", "c11.cpp")
check("C12", "c12.cpp")
check("C13", "c13.cpp")
check("C14", "c14.cpp")
check("C15", "c15.cpp")
check("C16", "c16.cpp")
check("C17", "c17.cpp")
check("C18", "c18.cpp")
check("C19", "c19.cpp", builds=("dbg",))
check("C22", "c22.cpp")
check("C23", "c23.cpp")
check("C24", "c24.cpp")
check("C25", "c25.cpp")
check("C26", "c26.cpp")
check("C27", "c27.cpp")
check("C21", "c21.cpp", builds=(("both", {"variant": "rel", "shared_harness": "c21_lib.cpp", "shared": {
    "dbg": ["-O0", "-g1", "-ftrivial-auto-var-init=pattern"], "rel": ["-O2", "-DNDEBUG"]}}),))
INSTR = ["-DPOINTS", "-finstrument-functions", "-finstrument-functions-exclude-file-list=/usr/,/harness/,c20.cpp"]
check("C20", "c20.cpp", builds=("dbg", "rel", ("sched", {"variant": "sched", "hflags": INSTR, "lflags": INSTR}),
                                ("tsan", {"variant": "tsan", "hflags": INSTR, "lflags": INSTR})))
