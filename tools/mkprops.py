#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so the file stays one well-formed object per line)."""
import json, os
P = []
def prop(id, title, statement, over, qtext, why, files, mech, observe=None, hook=None, state=None):
    assert len(title) <= 80, (id, len(title))
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    if observe: a["observe_at"] = observe
    if hook: a["hook_needed"] = hook
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why, "anchors": a})

prop("C01", "Reverse-mode adjoints equal the true gradient of whatever program was recorded",
 "For any program built from active adjoint-mode variables - temporaries, overwriting, aliasing (a variable on both sides), copies, compound assignment, increments, scopes, loops, branches on values, function calls - seeding any outputs and rolling back yields, for every registered input, the seed-weighted sum of the mathematical partial derivatives of the outputs. Variables that do not depend on an input contribute exactly nothing. This holds in single and double precision.",
 ["programs", "inputs"], "all programs over the active type (statement sequences, expression shapes, variable lifetimes) and all inputs in the functions' domains",
 "Unit tests record a few fixed straight-line formulas; aliasing, lifetimes, expression shapes and recording order combine without bound.",
 ["src/XAD/Literals.hpp", "src/XAD/Tape.hpp", "src/Tape.cpp", "src/XAD/BinaryExpr.hpp", "src/XAD/UnaryExpr.hpp", "src/XAD/Expression.hpp", "src/XAD/BinaryDerivativeImpl.hpp"],
 [("expression templates push multipliers and operand slots, then the result slot", "src/XAD/Literals.hpp AReal::operator=, AReal(Expression)"),
  ("reverse sweep over statements", "src/Tape.cpp computeAdjointsToImpl")],
 ["derivative(x) of each input after computeAdjoints()"])

prop("C02", "Forward-mode derivatives equal the directional derivative of any program",
 "For any program over forward-mode active variables and any seeding of input tangents, the derivative carried by every variable at every point equals the directional derivative of its value with respect to the inputs. Variables holding constants carry exactly zero. This holds in single and double precision.",
 ["programs", "inputs"], "all programs over the forward active type, all seed directions, all inputs in the functions' domains",
 "Tests check individual operators at single points, not compositions with overwriting, aliasing, copies and branches.",
 ["src/XAD/Literals.hpp", "src/XAD/BinaryExpr.hpp", "src/XAD/UnaryExpr.hpp"],
 [("value and derivative are evaluated together on assignment", "src/XAD/Literals.hpp FReal")],
 ["derivative(v) of every live variable after every statement"])

prop("C03", "Active types compute the same values as plain floating-point arithmetic",
 "Replacing a floating-point type by an active type does not change the numbers a program computes: every arithmetic operator, maths function, rounding, classification, comparison and conversion returns the value the underlying type gives for the same operands, for ordinary, huge, tiny, zero, signed-zero, infinite and NaN operands, whether operands are variables, expressions or plain numbers. First-order values agree up to rounding of the underlying functions, and comparisons, classification, rounding and selection agree exactly, so control flow is unchanged. (Which operand max/min return when one is NaN is not constrained.)",
 ["inputs", "programs"], "all operand values including special values, all operand forms (variable, expression, number of each arithmetic type), both precisions and modes",
 "Tests compare each function at one or two benign points and rarely with special values or mixed operand kinds.",
 ["src/XAD/BinaryOperators.hpp", "src/XAD/UnaryOperators.hpp", "src/XAD/BinaryMathFunctors.hpp", "src/XAD/UnaryMathFunctors.hpp", "src/XAD/BinaryFunctors.hpp", "src/XAD/UnaryFunctors.hpp", "src/XAD/MathFunctions.hpp", "src/XAD/Literals.hpp"],
 [("functors evaluate the scalar function", "src/XAD/UnaryMathFunctors.hpp, src/XAD/BinaryMathFunctors.hpp operator()"),
  ("comparison overloads compare the values", "src/XAD/BinaryOperators.hpp")],
 ["value(result)", "bool/int results of comparisons, classification and rounding"])

prop("C04", "Operators and maths functions have correct derivatives in all operand forms",
 "Each supported operator and maths function (including smooth_abs/smooth_max/smooth_min and the documented values at kinks and ties) propagates the mathematically correct partial derivative with respect to each operand, over its whole domain of differentiability, barring overflow or underflow of squares of the operands. The result is the same for every way of writing the operands - variable, sub-expression, or plain number of any arithmetic type on either side - in forward and adjoint mode and both precisions.",
 ["inputs", "programs"], "all functions x operand forms x scalar types x modes, all operand values where the function is differentiable, plus documented kink values",
 "Tests evaluate each derivative at one or two hand-picked positive points; sign combinations, large quotients, negative exponents and mixed scalar types are hardly reached.",
 ["src/XAD/BinaryMathFunctors.hpp", "src/XAD/UnaryMathFunctors.hpp", "src/XAD/BinaryFunctors.hpp", "src/XAD/UnaryFunctors.hpp", "src/XAD/BinaryOperators.hpp", "src/XAD/UnaryOperators.hpp", "src/XAD/BinaryOperatorMacros.hpp", "src/XAD/UnaryOperatorMacros.hpp", "docs/ref/math.md", "docs/ref/smooth-math.md"],
 [("derivative functors", "src/XAD/UnaryMathFunctors.hpp, src/XAD/BinaryMathFunctors.hpp"),
  ("overload sets for scalar/expression operands", "src/XAD/UnaryOperatorMacros.hpp, src/XAD/BinaryOperatorMacros.hpp")],
 ["derivative(result) / derivative(input)"])

prop("C05", "Higher-order modes deliver exact second and third derivatives of any program",
 "Nesting the modes (forward over adjoint, forward over forward, adjoint over forward, adjoint over adjoint, and third-order nestings) yields for any program the value, all lower-order derivatives and the exact higher-order directional derivatives selected by the seeds. This includes points where lower-order derivatives or adjoints happen to be zero. All nestings agree with one another.",
 ["programs", "inputs"], "all programs, inputs and seed directions, for each documented nesting of modes in single and double precision",
 "Tests check one or two functions per nesting at one point; zero intermediate adjoints, aliasing and compound programs are not reached.",
 ["src/XAD/Interface.hpp", "src/XAD/Literals.hpp", "src/Tape.cpp", "src/XAD/BinaryDerivativeImpl.hpp", "src/XAD/UnaryExpr.hpp"],
 [("functors are generic in the scalar, which may itself be active", "src/XAD/UnaryMathFunctors.hpp"),
  ("adjoint sweep in active arithmetic", "src/Tape.cpp computeAdjointsToImpl")],
 ["derivative(derivative(x)), derivative(value(x)), value(derivative(x))"])

prop("C06", "Adjoint seeding and propagation is linear, accumulating and repeatable",
 "For a fixed recording, the input adjoints after a rollback are a linear function of the seeds placed on any variables (outputs, intermediates or inputs), and rolling back again with new seeds adds to the input adjoints already present while intermediates start from zero. Clearing derivatives followed by re-seeding reproduces the same result bit for bit, any number of times. Reading, setting and incrementing derivatives through the variable or through the tape are equivalent.",
 ["histories", "programs"], "all recordings and all sequences of seed, rollback, clear and read operations",
 "Tests roll back once or twice with a unit seed on one output.",
 ["src/Tape.cpp", "src/XAD/Tape.hpp", "src/XAD/Literals.hpp"],
 [("statement adjoint is consumed (zeroed) as it is propagated", "src/Tape.cpp computeAdjointsToImpl"),
  ("derivative vector initialisation and clearing", "src/Tape.cpp initDerivatives, clearDerivatives")],
 ["derivative(x) after each operation of the sequence"])

prop("C07", "A used tape behaves exactly like a fresh one for the next recording",
 "After any history of recordings, rollbacks, resets, checkpoints, abandoned recordings and variable lifetimes, starting a new recording (or clearing the tape) gives derivatives identical to those of the same program recorded on a fresh tape. Nothing of an earlier recording - statements, adjoints, seeds, checkpoints - leaks into a later one, also when inputs stay registered across recordings.",
 ["histories", "programs"], "all histories of tape operations followed by any recorded program",
 "Tests reuse a tape at most two or three times with the same small formula.",
 ["src/Tape.cpp", "src/XAD/Tape.hpp"],
 [("newRecording / clearAll reset statements, operations, checkpoints and derivative state", "src/Tape.cpp")],
 ["derivative(x) after the last recording compared with a fresh tape"])

prop("C08", "Partial rollback and tape reset respect recorded positions",
 "Rolling back to a recorded position leaves the variables live at that position with exactly the adjoints of the part of the computation after it, and, after resetting to the position, continuing to earlier positions ends with the same result as one full rollback. Resetting to a position discards exactly what was recorded after it, so the computation can be continued or repeated from there any number of times with correct derivatives for each continuation. Clearing derivatives after a position affects only variables created after it.",
 ["histories", "programs"], "all programs, all sequences of positions taken, rollbacks to them, resets, re-recordings and clears",
 "The existing partial-rollback tests use one fixed three-statement program with one position.",
 ["src/Tape.cpp", "src/XAD/Tape.hpp", "docs/ref/tape.md"],
 [("getPosition / computeAdjointsTo / resetTo / clearDerivativesAfter", "src/Tape.cpp")],
 ["derivative(v) of variables live at the position"])

prop("C09", "Checkpointed and externally differentiated code gives the plain gradient",
 "Splitting any computation into checkpointed segments - any number and placement, recursive checkpoints inside replayed segments, or hand-differentiated external functions - yields the same input adjoints as recording everything plainly. It holds for any number of segment inputs and outputs, including state overwritten by later segments, and when the tape is used again afterwards.",
 ["programs", "histories"], "all computations, all partitions of them into callbacks (flat or recursive), all seeds",
 "Tests use two fixed segmentations of one scalar loop and one external function.",
 ["src/Tape.cpp", "src/XAD/Tape.hpp", "src/XAD/CheckpointCallback.hpp", "docs/ref/chkpt_cb.md", "samples/checkpointing", "samples/external_function"],
 [("checkpoint list is replayed in reverse during rollback", "src/Tape.cpp computeAdjointsTo"),
  ("nested recording", "src/Tape.cpp newNestedRecording, foldSubrecording")],
 ["derivative(x) after computeAdjoints()"])

prop("C10", "Live registered variables never share or lose their derivative",
 "Under any interleaving of creating, registering, copying, moving and destroying variables, in main and nested recordings and in every build configuration, two live registered variables never refer to the same derivative: setting the derivative of one changes no other and reading it back returns what was set. The reported number of registered variables always equals the number actually alive, and slots of destroyed variables may only be reused once no live variable owns them.",
 ["histories", "configurations"], "all sequences of register/unregister events in any order, main and nested recordings, with and without slot reuse",
 "Tests exercise a dozen hand-written register/unregister orders; the interval bookkeeping of freed slots has unboundedly many states.",
 ["src/Tape.cpp", "src/XAD/Tape.hpp", "src/XAD/ReusableRange.hpp", "src/XAD/TapeGapList.hpp"],
 [("free-slot ranges with expand/merge/close", "src/Tape.cpp registerVariableReuseSlots, unregisterVariableReuseSlots"),
  ("per-recording counters", "src/XAD/Tape.hpp SubRecording")],
 ["getSlot(), getNumVariables(), getNumReusableSlots(), derivative(x)"])

prop("C11", "Results do not depend on build options, compiler or storage layout",
 "The same program gives the same values and derivatives in every supported build: with and without slot reuse, assertions, strong inlining, thread-local tapes, integer conversion support, any storage segment size, language standard from C++11 up, optimisation level, GCC or Clang. Differences are limited to floating-point rounding.",
 ["configurations", "programs"], "all programs in all supported configuration combinations",
 "Each test run covers one configuration at a time and compares with constants, in two configurations with one compiler.",
 ["src/XAD/Config.hpp.in", "src/XAD/Macros.hpp", "src/XAD/TapeContainer.hpp", "src/Tape.cpp", "CMakeLists.txt"],
 [("preprocessor options", "src/XAD/Config.hpp.in"), ("slot reuse code path", "src/Tape.cpp")],
 ["values and derivatives of the same generated programs in every build"], "storage segment size is made configurable by a guarded define")

prop("C12", "Threads record and differentiate independently",
 "Each thread's tape activation, recordings and derivatives are unaffected by whatever other threads do at the same time: any set of programs run concurrently gives bit-identical results to running them alone. A tape active in one thread is not visible as active in any other.",
 ["schedules", "programs"], "all sets of programs run on concurrent threads, all interleavings reached",
 "No existing test uses more than one thread.",
 ["src/Tape.cpp", "src/XAD/Tape.hpp", "src/XAD/Macros.hpp", "src/XAD/Literals.hpp"],
 [("thread-local active tape pointer", "src/Tape.cpp active_tape_, src/XAD/Macros.hpp XAD_THREAD_LOCAL")],
 ["derivatives per thread; data-race detector reports"])

prop("C13", "Tape activation, moves and destruction keep the active tape consistent",
 "At most one tape per type is active in a thread; activating, deactivating, destroying and moving tapes in any order leaves the active tape exactly as documented, and a move transfers the recording, its registered variables, callbacks and active status to the destination, which continues to work while the source can be safely destroyed or assigned to. Operations on one tape never disturb the content of another, and different tape types are independent.",
 ["histories"], "all sequences of tape construction, activation, deactivation, move construction, move assignment, swap and destruction interleaved with recording",
 "Tests cover a handful of two-step sequences and move only inactive tapes.",
 ["src/XAD/Tape.hpp", "src/Tape.cpp"],
 [("setActive / deactivate / isActive", "src/XAD/Tape.hpp"), ("move constructor and assignment", "src/Tape.cpp")],
 ["getActive(), isActive(), derivatives computed after the move"])

prop("C14", "Misuse is reported by the documented exceptions and leaves the state usable",
 "Activating a second tape, computing adjoints before any derivative was set, touching derivatives without a tape, addressing slots that do not exist and popping from an empty callback stack raise the documented exception type, in every reachable tape state. The failed call changes nothing: recording, rollback and derivatives afterwards are the same as if it had not been made, and valid calls never throw.",
 ["histories", "fault_sequences"], "all tape histories with misuse calls injected at any point",
 "Tests trigger each exception once from one state and do not check the state afterwards.",
 ["src/XAD/Exceptions.hpp", "src/Tape.cpp", "src/XAD/Tape.hpp", "src/XAD/Literals.hpp", "docs/ref/exceptions.md"],
 [("explicit checks that throw", "src/Tape.cpp computeAdjoints, derivative, getAndResetOutputAdjoint, popCallback; src/XAD/Tape.hpp setActive")],
 ["exception type thrown; results of the rest of the history"])

prop("C15", "Jacobian drivers return the Jacobian of the function, in both modes",
 "For any vector function of any number of inputs and outputs the Jacobian driver returns (or fills through the given iterators) the matrix whose entry in row i and column j is the derivative of output i with respect to input j, identically in adjoint and forward mode, for every overload and iterator type. Mismatched dimensions are rejected with an exception, and the caller's inputs keep their values.",
 ["inputs", "programs"], "all functions, dimensions (including 1 and rectangular), overloads, iterator types and modes",
 "Tests use four fixed functions of fixed dimensions.",
 ["src/XAD/Jacobian.hpp", "docs/ref/jacobian.md"],
 [("one rollback per output / one forward pass per input", "src/XAD/Jacobian.hpp")],
 ["returned matrix"])

prop("C16", "Hessian drivers return the Hessian of the function, in both modes",
 "For any scalar function of any number of inputs the Hessian driver returns (or fills through the given iterators) the symmetric matrix of second derivatives, identically for the forward-over-adjoint and forward-over-forward modes and for every overload. Mismatched dimensions are rejected with an exception, and the caller's inputs keep their values.",
 ["inputs", "programs"], "all functions, dimensions, overloads, iterator types and modes",
 "Tests use a few fixed functions of fixed dimensions.",
 ["src/XAD/Hessian.hpp", "docs/ref/hessian.md"],
 [("one seeded pass per input", "src/XAD/Hessian.hpp")],
 ["returned matrix"])

prop("C17", "Complex numbers over active types compute the values std::complex gives",
 "Every constructor, assignment, operator, accessor and function of complex numbers over active types returns the same value (within rounding) as the same operation on std::complex of the underlying type, for every operand combination (complex, real active, plain number, on either side, and aliased operands) and in every quadrant and branch, for infinite and NaN parts too (except in products, quotients and powers). Comparisons and stream input/output agree as well.",
 ["inputs", "programs"], "all operations x operand combinations x complex operand values, both modes and precisions",
 "Tests check each function at one or two points in the first quadrant.",
 ["src/XAD/Complex.hpp", "docs/ref/complex.md"],
 [("specialisations and overloads of std::complex for active types", "src/XAD/Complex.hpp")],
 ["value(real(z)), value(imag(z))"])

prop("C18", "Derivatives through complex arithmetic are correct",
 "For any computation through complex active numbers the derivatives of real and imaginary parts (or of modulus, argument, norm) with respect to real inputs are the mathematical ones; in particular holomorphic functions obey the Cauchy-Riemann relations and match the complex derivative. This holds in adjoint and forward mode for every operand combination.",
 ["inputs", "programs"], "all complex operations and compositions, operands away from poles and branch cuts, both modes",
 "Tests check derivatives for single points and few operand combinations.",
 ["src/XAD/Complex.hpp", "docs/ref/complex.md"],
 [("complex functions written in terms of active real operations", "src/XAD/Complex.hpp")],
 ["derivative of real/imag parts"])

prop("C19", "Recordings of any length give correct derivatives",
 "The correctness of rollback, partial rollback, reset and checkpoint replay does not depend on how long the recording is: recordings that fill, exactly reach or span many internal storage segments give the same derivatives as short ones, also after rewinding across segments and recording again.",
 ["programs", "histories", "configurations"], "all recording lengths relative to segment boundaries, all rewinds across them, all operation counts per statement",
 "The default segment holds eight million entries, so tests practically never cross a boundary.",
 ["src/XAD/ChunkContainer.hpp", "src/XAD/TapeContainer.hpp", "src/Tape.cpp"],
 [("segment arithmetic in the reverse sweep", "src/Tape.cpp computeAdjointsToImpl"), ("segmented append/resize", "src/XAD/ChunkContainer.hpp")],
 ["derivative(x), getNumOperations(), getNumStatements()"], "storage segment size is made configurable by a guarded define")

prop("C20", "The segmented tape storage is a faithful sequence container",
 "The storage container behaves as an in-memory sequence under any series of append, bulk append, construct-in-place, resize, assign, clear, reserve, indexing, iteration and move, for any segment size and element type. Every stored element is constructed once and destroyed once, and storage is neither leaked nor touched outside its bounds.",
 ["histories", "configurations"], "all operation sequences, segment sizes and element types (trivial and non-trivial)",
 "Tests use one fixed sequence per operation.",
 ["src/XAD/ChunkContainer.hpp"],
 [("segment list plus index arithmetic", "src/XAD/ChunkContainer.hpp")],
 ["contents, size, element construction/destruction counts"])

prop("C21", "Active types plug into the standard library like floating-point types",
 "Standard maths functions called as std::f, limits, hashing, type traits, text conversion, stream input and output, and standard containers and algorithms used with active types give the results of the underlying floating-point type, and equal values hash equally. Stream input assigns a plain value; output prints the value with the stream's formatting.",
 ["inputs", "programs"], "all values, stream formats, standard function names and containers",
 "Tests check single values with default formatting.",
 ["src/XAD/StdCompatibility.hpp", "src/XAD/Traits.hpp", "src/XAD/TypeTraits.hpp", "src/XAD/Expression.hpp", "src/XAD/Literals.hpp"],
 [("std specialisations and using declarations", "src/XAD/StdCompatibility.hpp")],
 ["results of std functions; printed text"])

prop("C22", "Passive computations leave no trace and need no tape",
 "Active variables that do not depend on a registered input behave as plain numbers: they can be created, combined, copied, moved, stored and destroyed with or without a tape, record nothing, consume no tape storage and never change the derivatives of anything else. Mixing passive and registered variables records only the dependence on the registered ones.",
 ["programs", "histories"], "all programs over unregistered variables, with no tape, an inactive tape or an active tape, alone or mixed with a recording",
 "Tests check a few single operations without registration.",
 ["src/XAD/Literals.hpp", "src/XAD/BinaryExpr.hpp", "src/XAD/UnaryExpr.hpp", "src/XAD/Tape.hpp"],
 [("recording is skipped unless an operand is registered", "src/XAD/Literals.hpp shouldRecord")],
 ["getNumOperations(), getNumStatements(), getNumVariables(), values, derivatives"])

prop("C23", "Repeating a recording does not grow memory, and counters tell the truth",
 "Running the same recording again and again on one tape - with new recordings, resets to a position, checkpoints or variables created and destroyed - reaches a constant memory footprint and constant counts of statements, operations and variables (without slot reuse, for variables destroyed in the reverse order of their registration). The counters for statements, operations, variables and memory always describe the current recording: they grow with recording, shrink with reset and return to their empty values when cleared.",
 ["histories"], "all programs repeated any number of times under any repetition scheme",
 "Tests never repeat a recording enough to notice growth and read the counters only in trivial states.",
 ["src/Tape.cpp", "src/XAD/Tape.hpp"],
 [("getMemory, getNumVariables, getNumOperations, getNumStatements, getPosition", "src/Tape.cpp")],
 ["the counters; process heap usage"])

prop("C24", "Callbacks are owned, invoked and released exactly once",
 "A checkpoint callback inserted at a point is invoked exactly once per rollback over that point, in reverse order of insertion relative to the surrounding statements, and not at all when the rollback stops before it, the tape is reset past it or a new recording starts. Callbacks handed to the tape for ownership are destroyed exactly once, when the tape is destroyed, and popped ones are left to the caller; nested recordings leave the outer recording untouched.",
 ["histories", "fault_sequences"], "all sequences of inserting, pushing, popping callbacks, rollbacks, partial rollbacks, resets, new recordings, moves and destruction",
 "Tests insert callbacks in one or two fixed patterns and do not observe destruction.",
 ["src/Tape.cpp", "src/XAD/Tape.hpp", "src/XAD/CheckpointCallback.hpp"],
 [("checkpoint list keyed by statement position", "src/Tape.cpp insertCallback, computeAdjointsTo, resetTo"), ("ownership stack", "src/Tape.cpp pushCallback, ~Tape")],
 ["order and number of invocations; destruction counts"])

prop("C25", "Moving, swapping, sorting and relocating variables keeps their derivatives",
 "A variable's derivative follows its value through moves, swaps, container growth, insertion, erasure, sorting, rotation, returning from functions and storing in standard containers: after any such rearrangement each variable holds the same value and derivative as before in its new place, inputs included, and the recorded gradient is that of the program. Self-assignment, self-move and reuse of a moved-from variable by assignment are harmless.",
 ["programs", "histories"], "all sequences of rearrangements of variables in standard containers, before, during and after recording, and after rollback",
 "Tests move or copy one or two variables in isolation.",
 ["src/XAD/Literals.hpp", "src/XAD/Tape.hpp"],
 [("slot ownership transfer in move operations", "src/XAD/Literals.hpp AReal(AReal&&), operator=(AReal&&)")],
 ["value(v), derivative(v) for every element after the rearrangement"])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for p in P: f.write(json.dumps(p) + "\n")
print(len(P))
