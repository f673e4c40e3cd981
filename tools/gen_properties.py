#!/usr/bin/env python3
"""writes /verif/properties.jsonl"""
import json, os

P = []


def prop(id, title, statement, over, text, why, files, mechanism, state=(), observe=()):
    assert len(title) <= 80, (id, len(title))
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mechanism]}
    if state:
        a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    a["observe_at"] = list(observe) or ["public API"]
    a["hook_needed"] = None
    P.append({"id": id, "title": title, "statement": statement, "quantifier": {"over": over, "text": text},
              "why_tests_cant": why, "anchors": a})


prop("C01", "Signals hold the values of the diagram's equations, in any block order",
     "In a model without algebraic loops, after initialisation and after every completed run call every signal holds the value that the equation of the block producing it gives for the values which that block's inputs hold at the same instant; nothing is computed from a value left over from an earlier instant. "
     "The result does not depend on the order in which blocks were created, connected or added, on how many blocks there are, or on whether inputs come from the input callback or the model's own input hook.",
     ["programs", "inputs", "histories"],
     "All block diagrams (any wiring of any blocks without algebraic loop), all orders of building them, all input values and times.",
     "The tests run single blocks or one fixed small model built in evaluation order; wiring and order are universally quantified.",
     ["src/block/leaf.cpp", "src/block/block.cpp", "src/block/submodel.cpp", "src/solver/simulator.cpp", "src/solver/simulator_base.cpp", "src/solver/fast_simulator.cpp"],
     [("readiness: a leaf runs once all its required inputs are assigned", "src/block/leaf.cpp"),
      ("repeated passes over the model until nothing changes", "src/solver/simulator.cpp"),
      ("all linked signals are cleared before every evaluation", "src/solver/simulator_base.cpp")],
     [("assigned flag", "has the signal a value in the current evaluation", "src/signal/value_signal.hpp"),
      ("processed flag", "has the block run in the current evaluation", "src/block/block.hpp")],
     ["signal values after init/run"])

prop("C02", "The three simulation engines produce the same values",
     "For every model without algebraic loops, the plain simulator, the simulator that reuses its processing order and the fast simulator, given the same inputs, stepper, start time and sequence of run calls, leave the same values (up to rounding) in every signal after every call. "
     "This holds for every block of the library, for scalar, integer, boolean and array signals, for every stepper, and for a model that another engine has simulated before.",
     ["programs", "inputs", "histories", "configurations"],
     "All models x engines x steppers x sequences of run calls and step limits.",
     "The tests use one engine each; equality across engines is a relation over whole programs and histories.",
     ["src/solver/simulator.cpp", "src/solver/fast_simulator.cpp", "src/solver/simulator_base.cpp", "src/block/leaf.cpp"],
     [("processing order recorded at init and replayed", "src/solver/fast_simulator.cpp"),
      ("processing order updated at every evaluation", "src/solver/simulator.cpp"),
      ("shared stepping loop", "src/solver/simulator_base.cpp")],
     observe=["signal values after each init/run"])

prop("C03", "Algebraic loops and missing inputs never produce invented values",
     "When the value of some block cannot be determined (it is part of or depends on a loop without memory or integrator, or on an input that nobody provides), the fast simulator refuses to initialise the model by throwing, and the plain simulator leaves exactly the outputs of the undeterminable blocks unassigned, gives all other signals their correct values, and in debug builds prints a report naming exactly the undeterminable blocks and the submodels around them; it throws instead when a block has to remember an undeterminable value at the end of a step. "
     "A loop that passes through a memory or an integrator is not algebraic and evaluates completely.",
     ["programs", "inputs"],
     "All wirings, including those with loops, all choices of missing inputs, all creation orders.",
     "No test contains an algebraic loop or a missing input.",
     ["src/block/leaf.cpp", "src/solver/simulator.cpp", "src/solver/fast_simulator.cpp", "src/block/extra/memory.hpp", "src/block/integrator_base.hpp", "src/block/submodel.cpp"],
     [("unprocessed block report", "src/solver/simulator.cpp"), ("count of ordered blocks against all blocks", "src/solver/fast_simulator.cpp"),
      ("memory and integrator inputs are not required", "src/block/extra/memory.hpp, src/block/integrator_base.hpp")],
     observe=["assigned() of each signal", "std::cout", "exceptions"])

prop("C04", "A signal is assigned at most once per evaluation and never read unassigned",
     "In a debug build, a value signal of any type throws when it is read while it has no value, when it is assigned while it already has one, and, for arrays, when the assigned value has the wrong length; a rejected operation changes nothing. "
     "In every build, reading an assigned signal gives exactly the value last assigned, clearing makes it unassigned and assignable again, and all handles, buses and blocks referring to a signal see the same state.",
     ["inputs", "histories"],
     "All sequences of assign, read, clear, copy, rebind on signals of all four types, all values.",
     "One test checks one sequence on a scalar signal only.",
     ["src/signal/value_signal.hpp", "src/signal/scalar_signal.hpp", "src/signal/int_signal.hpp", "src/signal/bool_signal.hpp", "src/signal/array_signal.hpp", "src/signal/signal.hpp"],
     [("assigned flag checked by get and set", "src/signal/*_signal.hpp"), ("handles share the implementation object", "src/signal/signal.hpp")],
     observe=["get/set/clear/assigned results"])

prop("C05", "States advance exactly as the integration method prescribes",
     "For every model with integrators, the state values after each accepted step are those the chosen stepper (Euler, RK4, RKF45) gives for the model seen as one system of ordinary differential equations, with every state paired with its own derivative and started at its own initial value. "
     "This holds for any number and mix of scalar and array integrators (lengths included), for chained and mutually coupled integrators, integrators sharing one derivative signal, any creation order and any start time.",
     ["programs", "inputs", "configurations", "histories"],
     "All sets of scalar/array integrators and couplings, all steppers, step sizes, start times, creation orders.",
     "No test contains an integrator.",
     ["src/solver/simulator_base.cpp", "src/block/integrator_base.hpp", "src/signal/float_signal.hpp", "src/solver/euler.cpp", "src/solver/rk4.cpp", "src/solver/rkf45.cpp"],
     [("scatter/gather of states and derivatives", "src/solver/simulator_base.cpp"), ("pairing of a state with its derivative", "src/signal/float_signal.hpp")],
     [("state vectors", "all scalar states, then all array states", "src/solver/simulator_base.hpp")],
     ["state and derivative signals after run"])

prop("C06", "Step control covers the requested interval exactly, within its limits",
     "With any stepper, a run call to a later time makes accepted steps that follow each other without gap or overlap from the previous time and end exactly at the requested time; no attempted step is longer than the maximum (or, where that is shorter, than to the next representable time) or reaches beyond the requested time, and a rejected step is retried, shorter, from the same time and the same states. "
     "A step is accepted if the stepper recommends at least its length, if it is not longer than the minimum, or if the rejection before it recommended the minimum or less, and rejected otherwise; the step after an accepted or rejected one is the recommended one limited to the minimum and maximum. "
     "Every block is told exactly once about every accepted step, at its end time, and never about a rejected one.",
     ["fault_sequences", "inputs", "configurations", "histories"],
     "All sequences of answers (recommended steps) a stepper may give, all minima, maxima, intervals and sequences of run calls.",
     "No test uses an adaptive stepper or a step limit.",
     ["src/solver/simulator_base.cpp", "src/block/submodel.hpp"],
     [("accept/redo loop", "src/solver/simulator_base.cpp")],
     [("t1, t2, force_accept", "ends of the attempted step, forced acceptance", "src/solver/simulator_base.cpp")],
     ["calls of the stepper", "post_step calls of blocks"])

prop("C07", "Each stepper computes its Runge-Kutta method's step and recommended step size",
     "For every derivative function, state, start time and step length, one step of the Euler, classical RK4 and RKF45 steppers returns the state of that method (RKF45: the fourth-order result of Fehlberg's pair, up to rounding), evaluating the derivative at the method's own times. "
     "Euler and RK4 recommend the step just taken; RKF45 recommends half, the same or double the step as its error estimate compares with the tolerance of 0.001 per unit time. A step depends on nothing but its arguments, so a stepper object may be shared or reused.",
     ["inputs", "histories"],
     "All derivative functions (bounded: polynomial and linear systems with small coefficients), dimensions, times, step lengths, sequences of steps on one stepper.",
     "No test calls a stepper.",
     ["src/solver/euler.cpp", "src/solver/rk4.cpp", "src/solver/rkf45.cpp"],
     [("tableau", "src/solver/rkf45.cpp, src/solver/rk4.cpp"), ("error estimate and step choice", "src/solver/rkf45.cpp")],
     observe=["v1, new_h and the derivative calls"])

prop("C08", "Memory outputs its input's value at the last accepted step",
     "A memory block of any signal type outputs its initial value until the first accepted step (initialisation counts) and from then on the value its input had at the end of the last accepted step, also when it feeds itself, other memories or arithmetic through a loop. "
     "Trial evaluations and rejected steps inside a run call never change what it outputs.",
     ["programs", "inputs", "histories"],
     "All input sequences, types, chains and feedback arrangements, engines and sequences of steps.",
     "Two tests run a scalar and an array memory on a few steps, without states, feedback or rejected steps.",
     ["src/block/extra/memory.hpp"],
     [("post_step stores the input", "src/block/extra/memory.hpp")], [("stored value", "input at the last accepted step", "src/block/extra/memory.hpp")],
     ["output signal"])

prop("C09", "Delay reproduces its input's past by linear interpolation",
     "A delay block outputs its input as it was `delay` ago: the linear interpolation between the values its input had at the accepted steps around that time, the newest of them when that time is not before the last accepted step, and the initial signal's current value when it is not after the first accepted step or none exists. "
     "Delays may change from step to step and be zero or negative; as long as they do not exceed the lifespan, the discarding of old samples is unobservable, also at intermediate solver evaluations, irregular steps, repeated steps and negative times.",
     ["inputs", "histories"],
     "All sequences of times, inputs, delays and initial values, all lifespans not smaller than the delays, scalar and array.",
     "Two tests sample constant delays on a uniform grid with a large lifespan.",
     ["src/block/extra/delay.hpp"],
     [("recording and pruning in post_step", "src/block/extra/delay.hpp"), ("interpolation in activation_function", "src/block/extra/delay.hpp")],
     [("sample lists", "times and values of accepted steps", "src/block/extra/delay.hpp")],
     ["output signal"])

prop("C10", "Derivative outputs the difference quotient since the last accepted step",
     "A derivative block outputs its initial value until the first accepted step (initialisation counts); afterwards, at any time later than the last accepted step, it outputs the change of its input since that step divided by the elapsed time, and at the very time of the last accepted step the value it output there. "
     "This holds for scalars and arrays, for irregular steps, at the solver's intermediate evaluations and for repeated steps.",
     ["inputs", "histories"],
     "All input and time sequences, engines, steppers, scalar and array.",
     "No test uses the block.",
     ["src/block/extra/derivative.hpp"],
     [("post_step stores time, input and output", "src/block/extra/derivative.hpp")],
     [("last time, input, output", "of the last accepted step", "src/block/extra/derivative.hpp")], ["output signal"])

prop("C11", "A triggered integrator restarts from zero after each triggering step, only then",
     "A triggered integrator integrates its first input from its initial value like an ordinary integrator, and when its trigger is true at the end of an accepted step (initialisation counts) it continues from zero at the beginning of the next step. "
     "A trigger that is true at rejected steps or at intermediate solver evaluations only has no effect; every integrator reacts to its own trigger alone; scalars and arrays of any length behave alike.",
     ["inputs", "histories", "fault_sequences"],
     "All trigger and input sequences, steppers (with rejections), engines, mixes of integrators.",
     "No test uses the block.",
     ["src/block/extra/triggered_integrator.hpp", "src/block/integrator_base.hpp"],
     [("trigger sampled in post_step, applied in pre_step", "src/block/extra/triggered_integrator.hpp")],
     [("triggered flag", "the last accepted step ended with the trigger on", "src/block/extra/triggered_integrator.hpp")], ["output signal"])

prop("C12", "Arithmetic, source and function blocks compute their formula",
     "For all input values, types, array lengths and numbers of inputs: Add and Multiply give their initial value plus/times all inputs, Subtract and Divide the first input minus/over the second, Gain its factor times the input, Pipe the input, Const its value, the source blocks their function of the time, and the function blocks their function of the time and the inputs, arrays element by element. "
     "The result depends on the current inputs and time only, never on earlier evaluations, and IEEE special values (infinities, NaN, signed zero, very large or small numbers) pass through as the formula says.",
     ["inputs", "configurations", "histories"],
     "All values, types, arities, repeated inputs, array lengths and evaluation sequences.",
     "Tests cover Gain on a few values; no other block of this group.",
     ["src/block/extra/add.hpp", "src/block/extra/subtract.hpp", "src/block/extra/multiply.hpp", "src/block/extra/divide.hpp", "src/block/extra/gain.hpp", "src/block/extra/pipe.hpp", "src/block/extra/const.hpp", "src/block/extra/source.hpp", "src/block/extra/sources.hpp", "src/block/extra/function.hpp", "src/block/extra/siso_function.hpp", "src/block/extra/so_function.hpp"],
     [("activation_function of each block", "src/block/extra/*.hpp")], observe=["output signals"])

prop("C13", "Bus lookup by index, label and path finds exactly the signal put there",
     "A bus keeps its signals in the given order: looking one up by position, by label or by dotted path through nested buses, and iterating, give exactly the signal (same identity) stored there under that valid-name form of the label; unlabelled signals are called sig0, sig1, ... in order, and an unnamed signal takes the label under which it is first stored while a named one keeps its name. "
     "Looking up a label, path or position that does not exist, or a path through a signal that is not a bus, throws, or gives an empty result for the non-throwing lookup; it never gives another signal (the bracket operator checks positions in debug builds only).",
     ["inputs", "programs"],
     "All bus trees, label sets (including prefixes of each other), sizes and queries.",
     "One test looks up a few labels in one bus.",
     ["src/signal/bus.hpp", "src/shared/named_object.cpp"],
     [("label search and recursion on the dot", "src/signal/bus.hpp"), ("automatic labels", "src/signal/bus.hpp")],
     observe=["at, operator[], try_at, iteration, names"])

prop("C14", "Bus memory and bus pipe act on every signal of the bus, by label path",
     "A bus memory (bus pipe) connected between two buses behaves exactly as one memory (pipe) per value signal of the input bus, nested buses included, from each input signal to the output signal with the same label path, whatever the order of signals in either bus, their types or the nesting depth; signals whose label path, or the path of a bus around them followed by a dot, is excluded are left alone. "
     "Each memory starts at the initial value given for its label path, or zero/false if none is given; in debug builds an initial value for a path that does not exist is rejected.",
     ["programs", "inputs", "histories"],
     "All bus trees, signal types, output orders, exclusion sets and initial value maps.",
     "No test uses these blocks.",
     ["src/block/extra/bus_block_builder.cpp", "src/block/extra/bus_memory.cpp", "src/block/extra/bus_pipe.cpp"],
     [("recursive visit of the bus, one block per leaf", "src/block/extra/bus_block_builder.cpp")], observe=["output signals step by step"])

prop("C15", "A history returns exactly what was recorded, row by row",
     "For every tracked signal and every recorded row, the history's matrix holds at that row the value (all elements of an array) the signal had when the row was last recorded, or zero if it had none, and the time column holds the time given; this is so for any growth step, any number of rows, rows recorded out of order or more than once, and after shrinking to fit. "
     "The number of rows is the highest recorded row plus one, only tracked signals are recorded and each once, and the CSV export has one header line and exactly one line per row with the recorded numbers under the names of their signals.",
     ["histories", "inputs", "configurations"],
     "All sequences of track, untrack, update, shrink and export, all growth steps, signal types and values.",
     "The tests use a history as a recorder with the default growth step; no export, shrink, growth or gap is checked.",
     ["src/solver/history.cpp", "src/solver/history.hpp"],
     [("resizing in update", "src/solver/history.cpp"), ("export_csv", "src/solver/history.cpp")],
     [("bottom row", "highest recorded row", "src/solver/history.hpp")], ["operator[], time(), nrows(), the CSV file"])

prop("C16", "Blocks accept exactly the connections their ports and types allow",
     "In a debug build, connecting a block succeeds if it is not connected yet and the numbers and types of its signals are those its kind requires, and throws otherwise (argument types and counts the block cannot serve are rejected at connection, not at run time); a second connection is always rejected and leaves the first one working, while a connection refused for the number of its signals leaves the block unconnected and free for the right one. "
     "A block belongs to the one parent that created or first adopted it: another parent cannot adopt it, adopting it again changes nothing, and it is evaluated once per evaluation however often it was linked.",
     ["programs", "inputs", "histories"],
     "All block kinds x numbers and types of signals x sequences of connect, set_parent, add_block and link_block.",
     "Tests only make valid connections.",
     ["src/block/block.cpp", "src/block/submodel.cpp", "src/block/singlei.hpp", "src/block/singleo.hpp", "src/signal/signal.hpp", "src/signal/float_signal.hpp"],
     [("port count and reconnection checks", "src/block/block.cpp"), ("type check when a handle is bound", "src/signal/signal.hpp"), ("parent check", "src/block/submodel.cpp")],
     observe=["exceptions and return values", "later evaluation"])

prop("C17", "Simulation time only moves forward and is tracked across run calls",
     "The first run call on a simulator initialises it at that time exactly as an explicit initialisation would; later calls continue from the time reached, so that with a fixed-step stepper covering an interval in several calls that end on step boundaries gives the same result as one call. "
     "With integrators, running to an earlier time throws and changes nothing that a later valid call could observe, and running to the current time again repeats the step without advancing any integrator; initialising again, at any time not before the samples a delay holds, restarts the clock there and continues from the values the blocks hold.",
     ["histories", "inputs"],
     "All sequences of init and run calls with increasing, equal and decreasing times, all engines and steppers.",
     "The tests only step forward.",
     ["src/solver/simulator_base.cpp", "src/solver/simulator.cpp", "src/solver/fast_simulator.cpp"],
     [("time comparison with the previous time", "src/solver/simulator_base.cpp"), ("first run initialises", "src/solver/simulator_base.cpp")],
     [("previous time", "end of the last completed run", "src/solver/simulator_base.hpp")], ["signal values and exceptions per call"])

prop("C18", "Names and full names are valid and reflect the block tree",
     "Every name given to a signal, block or bus label is turned into a valid one by replacing each character outside letters, digits and underscore by an underscore, keeping length and all other characters; this happens for every way of naming or renaming. "
     "A block's full name is the slash-separated path of the names from the outermost submodel to the block, at any nesting depth, and follows renaming of any of its ancestors and adoption by a parent.",
     ["inputs", "histories"],
     "All strings over all byte values, all trees and rename/adopt sequences.",
     "No test checks names.",
     ["src/shared/named_object.cpp", "src/shared/named_object.hpp", "src/block/block.cpp"],
     [("emend", "src/shared/named_object.cpp"), ("full_name recursion", "src/block/block.cpp")], observe=["name(), full_name()"])

prop("C19", "The diagnostic trace is balanced after every call, failed ones included",
     "In a debug build, whatever library call a program makes and whether it returns or throws, the diagnostic trace is as deep afterwards as before, so the traceback printed with an exception lists only the operations in progress when it was raised. "
     "This also holds for exceptions thrown by user functions inside the library and for repeated failures.",
     ["fault_sequences", "histories", "programs"],
     "All library operations, all places where an exception may start, all sequences of failing and succeeding calls.",
     "No test looks at the trace or at the state after an exception.",
     ["src/helper/trace.hpp", "src/helper/trace.cpp", "src/helper/util.cpp"],
     [("scope guard", "src/helper/trace.hpp")], [("trace stack", "operations in progress", "src/helper/trace.cpp")], ["traceback text of exceptions"])

prop("C20", "Independent simulations do not influence each other",
     "Two simulations that share no signal, block or stepper give the same results whether they run alone, alternately, one inside a callback of the other, or on different threads in any interleaving. "
     "In particular no block, stepper, simulator or diagnostic facility keeps data that is common to several of them.",
     ["schedules", "programs"],
     "All interleavings of two simulations (preemptions at every library function, bounded in number), all block kinds and steppers.",
     "No test runs two simulations.",
     ["src/solver/rk4.hpp", "src/solver/rkf45.hpp", "src/solver/simulator_base.hpp", "src/helper/trace.cpp", "src/block/extra/add.hpp"],
     [("all working storage is in the objects", "src/solver/rk4.hpp, src/solver/rkf45.hpp"), ("trace per thread", "src/helper/trace.cpp")],
     observe=["signal values of both simulations"])

prop("C21", "Debug and release builds compute the same values",
     "A program that raises no error in a debug build computes in a release build the same values for every signal after every call, the same recorded histories, names and lookups. "
     "Checks that are compiled into debug builds only never have an effect on results.",
     ["programs", "inputs", "configurations"],
     "All models and histories accepted by the debug build, both builds.",
     "The tests are run in one build only.",
     ["src/helper/defs.hpp", "src/helper/verify.hpp", "src/helper/trace.hpp", "src/solver/simulator.cpp", "src/solver/simulator_base.cpp"],
     [("debug-only macros", "src/helper/verify.hpp")], observe=["signal values, compared between two separately built copies"])

prop("C22", "Visiting a model reaches every block once, parents first, within the level limit",
     "Visiting a block tree calls the visitor exactly once for each block whose level does not exceed the given maximum, parents before children and siblings in the order they were added, with the correct level; when the visitor asks to stop, no further block is visited and the visit reports that it was stopped. "
     "The constant visit behaves identically.",
     ["programs", "inputs"],
     "All block trees, start levels, maximum levels and stopping points.",
     "No test visits a model.",
     ["src/block/submodel.cpp", "src/block/block.hpp"],
     [("recursive visit", "src/block/submodel.cpp")], observe=["visitor calls and return value"])

prop("C23", "An initial-value block keeps its input's first value forever",
     "An initial-value block outputs the value its input had at the first evaluation of the model and outputs it unchanged at every later evaluation, whatever the input does, with every engine and stepper, for scalars and arrays. "
     "Each block keeps its own value.",
     ["inputs", "histories", "programs"],
     "All input sequences, engines, steppers, start times and positions in the diagram.",
     "No test uses the block.",
     ["src/block/extra/initial_value.hpp"],
     [("value latched by the first activation", "src/block/extra/initial_value.hpp")], [("latched value", "the first input", "src/block/extra/initial_value.hpp")], ["output signal"])

prop("C24", "Solver trial evaluations leave no trace in the model",
     "The derivative a model presents to the stepper is a function of the trial time and trial state only, with all inputs, sources and blocks evaluated at that trial time; it does not depend on how many trial evaluations were made before it, where, or in which order. "
     "A stepper that makes additional evaluations or has steps rejected therefore leads to the same values and block memories as one that does not, if both take the same accepted steps.",
     ["fault_sequences", "programs", "histories"],
     "All sequences of extra trial evaluations (times, states) and rejections, all blocks with memory, all engines.",
     "No test has trial evaluations.",
     ["src/solver/simulator_base.cpp", "src/block/integrator_base.hpp", "src/block/extra/triggered_integrator.hpp", "src/block/extra/delay.hpp", "src/block/extra/derivative.hpp"],
     [("states are scattered and all signals cleared before every trial", "src/solver/simulator_base.cpp"), ("blocks change their memory in post_step only", "src/block/extra/*.hpp")],
     observe=["derivatives returned to the stepper", "signal values"])

prop("C25", "Grouping blocks into submodels does not change the results",
     "Any model computes the same values when its blocks are distributed over nested submodels in any way, whatever the nesting depth, the position of the submodels among their siblings, empty submodels, and the order in which submodels are linked to their parents. "
     "States, memories, start and end of steps reach the blocks at every depth.",
     ["programs", "configurations"],
     "All partitions of all small models into submodel trees, all engines.",
     "Tests use at most one submodel.",
     ["src/block/submodel.cpp", "src/block/submodel.hpp", "src/solver/simulator_base.cpp"],
     [("recursive process, pre_step, post_step, visit", "src/block/submodel.cpp, src/block/submodel.hpp")], observe=["signal values"])

prop("C26", "A call that throws leaves a simulation that can be continued",
     "When a run call ends with an exception of the program's own code (input callback, source, function block, stepper), the blocks remember what they remembered at the last step they were told about, and the simulation has reached the time of that step: "
     "running to the same or a later time takes only the steps that were missing and gives the values that the same accepted steps give without the failure, initialising again (by this or another simulator) continues from there, and running back beyond it is rejected. "
     "An initialisation that ends with an exception, or because the fast simulator refuses the model, does not count: the next call, a run call as well, initialises, or is refused again.",
     ["crash_points", "fault_sequences", "histories"],
     "Every place at which user code runs inside the library as the place that fails, repeated failures, all ways to go on, all engines and steppers.",
     "No test lets a call fail and goes on.",
     ["src/solver/simulator_base.cpp", "src/solver/simulator.cpp", "src/solver/fast_simulator.cpp", "src/block/integrator_base.hpp", "src/block/extra/*.hpp"],
     [("run keeps the time reached, init marks the simulator initialised", "src/solver/simulator_base.cpp"), ("blocks change their memory in post_step only", "src/block/extra/*.hpp")],
     [("_t_prev, _initialized", "time reached; whether there is something to continue", "src/solver/simulator_base.hpp")], ["post_step calls of blocks", "signal values"])

prop("C27", "Signals live as long as anything refers to them",
     "A signal stays usable, with its name, its value and its links to other signals (the derivative of a state), for at least as long as a handle, bus, connected block, initialised simulator or history refers to it, in whatever order these are copied, re-pointed and destroyed. "
     "Re-pointing, clearing or destroying one of them never changes what the others refer to; two handles of the same signal always see the same value.",
     ["histories", "programs"],
     "All orders in which the holders of a model's signals are given up, all sequences of handle operations, all blocks as the only holder.",
     "Tests keep every handle until the end.",
     ["src/signal/signal.hpp", "src/signal/value_signal.hpp", "src/signal/float_signal.hpp", "src/signal/bus.hpp", "src/block/block.cpp", "src/solver/history.cpp", "src/solver/simulator_base.cpp"],
     [("handles share the signal they refer to", "src/signal/signal.hpp"), ("a state refers to its derivative", "src/signal/float_signal.hpp"), ("simulators and histories refer to signals", "src/solver/simulator_base.hpp, src/solver/history.hpp")],
     [("_ptr and _typed_ptr", "refer to the same signal", "src/signal/signal.hpp")], ["signal values", "signal names"])

with open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl"), "w") as f:
    for p in P:
        f.write(json.dumps(p) + "\n")
print(len(P), "properties")
