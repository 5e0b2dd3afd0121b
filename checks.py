"""Which programs decide which property, in which build configurations, with how many cases."""
SAN = ["-fsanitize=address,undefined", "-fno-sanitize-recover=all", "-fno-omit-frame-pointer", "-gline-tables-only"]
def C64(*x):
    return ["XAD_VERIF_CHUNK_SIZE=64"] + list(x)
CONFIGS = {
    # name: cxx, std, opt, flags, defs, xad = options switched on in XAD/Config.hpp
    "dflt":   {"defs": C64()},
    "reuse":  {"defs": C64("NDEBUG"), "xad": ["XAD_TAPE_REUSE_SLOTS"]},
    "san":    {"defs": C64("_GLIBCXX_ASSERTIONS"), "opt": "-O0", "flags": SAN},
    "sanreuse": {"defs": C64("_GLIBCXX_ASSERTIONS"), "opt": "-O0", "flags": SAN, "xad": ["XAD_TAPE_REUSE_SLOTS"]},
}
FINDINGS = []
CHECKS = {}
CHECKS["C01"] = {
    "rule": "random programs of 1..30 statements (31 statement kinds, 113 expression shapes) over 1..4 inputs and a growing/shrinking pool of variables; "
            "non-trivial: at least 3 statements and a non-zero reference gradient of the seeded outputs",
    "jobs": [
        {"src": "c01.cpp", "cfg": "dflt", "cases": 400000, "workers": 3},
        {"src": "c01.cpp", "cfg": "reuse", "cases": 400000, "workers": 3, "name": "C01-float-reuse", "defs": ["BASE_T=float"]},
        {"src": "c01.cpp", "cfg": "san", "cases": 20000, "workers": 2},
    ]}
CHECKS["C02"] = {
    "rule": "random programs of 1..30 statements (31 statement kinds, 113 expression shapes) over 1..4 seeded inputs, tangents compared after every statement, variables re-seeded at random; "
            "non-trivial: at least 3 statements and a non-zero reference tangent in a computed variable",
    "jobs": [
        {"src": "c02.cpp", "cfg": "dflt", "cases": 400000, "workers": 3, "tape": False},
        {"src": "c02.cpp", "cfg": "reuse", "cases": 400000, "workers": 3, "name": "C02-float-reuse", "defs": ["BASE_T=float"], "tape": False},
        {"src": "c02.cpp", "cfg": "san", "cases": 20000, "workers": 2, "tape": False},
    ]}
CONFIGS["intconv"] = {"defs": C64(), "xad": ["XAD_ALLOW_INT_CONVERSION"]}
CHECKS["C03"] = {
    "rule": "one function/operator of the catalogue (70 functions, up to 30 operand forms each) or one comparison/classification/conversion group, on operands drawn from special values, "
            "small numbers, random magnitudes over the whole exponent range and random bit patterns; every operand form that can express the operands is evaluated recorded and passively, with first-order types and with nested types of second and third order; "
            "non-trivial: at least two operand forms were compared with plain arithmetic",
    "jobs": [
        {"src": "c03.cpp", "cfg": "intconv", "cases": 400000, "workers": 2, "name": "C03-adj-d", "defs": ["MODE=adj", "BASE_T=double"]},
        {"src": "c03.cpp", "cfg": "dflt", "cases": 400000, "workers": 2, "name": "C03-adj-f", "defs": ["MODE=adj", "BASE_T=float"]},
        {"src": "c03.cpp", "cfg": "dflt", "cases": 400000, "workers": 2, "name": "C03-fwd-d", "defs": ["MODE=fwd", "BASE_T=double"]},
        {"src": "c03.cpp", "cfg": "intconv", "cases": 400000, "workers": 2, "name": "C03-fwd-f", "defs": ["MODE=fwd", "BASE_T=float"]},
    ]}
def nested(x, base, part, tier=None):
    t = x.replace("A", "xad::AReal<").replace("F", "xad::FReal<") + "T" + ">" * len(x)
    j = {"src": "c03.cpp", "cfg": "intconv", "cases": 150000, "workers": 1, "name": "C03-%s-%s%s" % (x, base[0], part or ""), "defs": ["ADTYPE=" + t, "BASE_T=" + base]}
    if part:
        j["defs"].append("FN_PART=%d" % part)
    if tier:
        j["tier"] = tier
    return j
CHECKS["C03"]["jobs"] += [nested("AF", "double", 0), nested("FF", "float", 0), nested("FA", "double", 1), nested("AA", "double", 2)] + \
    [nested(x, b, p, "thorough") for x, b, p in [("FA", "double", 2), ("AA", "double", 1), ("FF", "double", 0), ("AF", "float", 0), ("AAF", "double", 2), ("FFF", "double", 1)]]
CHECKS["C04"] = {
    "rule": "one function/operator of the catalogue (70 functions, up to 30 operand forms each) at operands drawn inside its domain (all sign combinations, wide magnitudes, integers, kinks and ties with documented values); "
            "every operand form is differentiated and compared with the closed form in long double; non-trivial: at least one form tested and a non-zero partial derivative",
    "jobs": [
        {"src": "c04.cpp", "cfg": "dflt", "cases": 400000, "workers": 2, "name": "C04-adj-d", "defs": ["MODE=adj", "BASE_T=double"]},
        {"src": "c04.cpp", "cfg": "dflt", "cases": 400000, "workers": 2, "name": "C04-adj-f", "defs": ["MODE=adj", "BASE_T=float"]},
        {"src": "c04.cpp", "cfg": "intconv", "cases": 400000, "workers": 2, "name": "C04-fwd-d", "defs": ["MODE=fwd", "BASE_T=double"]},
        {"src": "c04.cpp", "cfg": "dflt", "cases": 400000, "workers": 2, "name": "C04-fwd-f", "defs": ["MODE=fwd", "BASE_T=float"]},
    ]}
def tower(x, base="double", mod=None, rem=0, cases=60000, tier=None, cfg="dflt"):
    t = x.replace("A", "xad::AReal<").replace("F", "xad::FReal<") + "T" + ">" * len(x)
    j = {"src": "c05.cpp", "cfg": cfg, "cases": cases, "workers": 1, "name": "C05-%s-%s%s" % (x, base, "" if cfg == "dflt" else "-" + cfg), "defs": ["X_TYPE=" + t, "BASE_T=" + base]}
    if mod:
        j["defs"] += ["SHAPE_MOD=%d" % mod, "SHAPE_REM=%d" % rem]
    if tier:
        j["tier"] = tier
    return j
CHECKS["C05"] = {
    "rule": "random programs of 1..14 statements over 1..3 inputs run on a tower of 2 or 3 differentiation levels, with random values, directions, mixed directions and seeds that carry derivatives themselves "
            "(small integers in a third of the cases, so that intermediate derivatives and adjoints vanish); non-trivial: at least 2 statements and a non-zero derivative of the full order",
    "jobs": [tower("AF"), tower("FF"), tower("FA"), tower("AA"), tower("AF", "float", 3, 1), tower("FF", "float", 3, 2), tower("FA", "float", 3, 0), tower("AA", "float", 3, 1)] +
            [tower(t, "double", 6, i % 6, 12000) for i, t in enumerate(["AFF", "FFF", "FAF", "FFA", "AAF", "AFA", "FAA", "AAA"])] +
            [tower(t, "float", 6, (i + 3) % 6, 12000, "thorough") for i, t in enumerate(["AFF", "FFF", "FAF", "FFA", "AAF", "AFA", "FAA", "AAA"])] +
            [tower(t, "double", 4, 3, 12000, "thorough", "reuse") for t in ["AA", "FA", "AF", "AAA"]],
    "assumptions": ["compound assignment with plain numbers and ++/-- are not part of the nested types (they do not compile); written as x = x + k"]}
def stateful(cid, rule, cases, san, src=None, more=(), **kw):
    """the usual three builds of a stateful harness: default, slot reuse without assertions in float, and sanitizers"""
    src = src or cid.lower() + ".cpp"
    d = {"rule": rule, "jobs": [
        {"src": src, "cfg": "dflt", "cases": cases, "workers": 3},
        {"src": src, "cfg": "reuse", "cases": cases, "workers": 3, "name": cid + "-reuse-float", "defs": ["BASE_T=float"]},
        {"src": src, "cfg": "sanreuse", "cases": san, "workers": 2}] + list(more)}
    d.update(kw)
    CHECKS[cid] = d
stateful("C06", "random recordings of up to 40 operations on a pool of up to 24 variables (14 operation kinds), then up to 14 random actions: seeding any variable by any of ten ways (set or add), rolling back, "
    "clearing, reading all; compared with a reference tape after every read; plus runs of seed vectors repeated, scaled, added and accumulated on one recording; "
    "non-trivial: at least two seeds and two rollbacks (or a non-zero gradient for repetition) over at least three recorded statements", 200000, 12000)
stateful("C08", "random histories of up to 26 actions: recording, external functions, saving positions, partial rollbacks to any saved position, resets, clearing derivatives (also only behind a position), full rollback; "
    "the derivatives of all variables living at the position are compared with a reference tape; plus one full rollback against rolling back piece by piece; "
    "non-trivial: at least two partial rollbacks/resets and three derivatives compared (or a non-zero gradient and at least two pieces)", 300000, 12000)
stateful("C07", "random histories on one tape (recordings, external functions, seeds, full and partial rollbacks, resets, new recordings, variables of any lifetime; ending normally, with seeds left behind, right after a rollback, "
    "or by an exception thrown from a callback), then newRecording (variables staying registered, or all destroyed) or clearAll, then a random recording with rollbacks that is also played on a fresh tape and compared bit for bit; "
    "non-trivial: the history holds at least two statements and one rollback, and at least four results were compared", 250000, 12000)
stateful("C10", "random histories of up to 150 actions that create, register, copy, move, swap and destroy up to 60 variables, with recordings inside callbacks up to three levels deep, rollbacks, resets and new recordings; "
    "after every action the places of all live variables are pairwise different and the number of variables is the number alive; derivatives set to unique values are read back; plus register/unregister sequences of up to 300 steps; "
    "non-trivial: unique derivatives set twice over at least six registrations (or at least four variables alive at a time and four destroyed)", 400000, 12000)
stateful("C09", "random computations on a state of 1..4 variables cut into blocks of statements, checkpointed segments (nested up to three levels, replayed with checkpoints inside) and hand-differentiated external functions, "
    "with outputs assigned or set in place, callback objects per segment or shared, owned by the tape or not, rolled back at once or piece by piece, several recordings on one tape; compared with the plain recording and the reference gradient; "
    "non-trivial: at least one segment and a non-zero reference gradient", 300000, 8000)
CONFIGS["chunk16"] = {"defs": ["XAD_VERIF_CHUNK_SIZE=16"]}
CONFIGS["chunk16san"] = {"defs": ["XAD_VERIF_CHUNK_SIZE=16", "_GLIBCXX_ASSERTIONS"], "opt": "-O0", "flags": SAN}
CONFIGS["chunk3reuse"] = {"defs": ["XAD_VERIF_CHUNK_SIZE=4", "NDEBUG"], "xad": ["XAD_TAPE_REUSE_SLOTS"]}
CONFIGS["real"] = {"defs": []}
CHECKS["C19"] = {
    "rule": "random histories of up to 18 actions as in C08, with recordings padded to 0..4 entries before the end of a storage segment (statements or operations) and blocks repeated over several segments, "
            "for segments of 4, 16, 64 and the library's own 8388608 entries; rolled back, partially rolled back and reset across segments and compared with the reference tape; "
            "non-trivial: the recording spans at least one whole segment and at least three derivatives were compared",
    "jobs": [
        {"src": "c08.cpp", "cfg": "chunk16", "cases": 150000, "workers": 2, "defs": ["LONG"]},
        {"src": "c08.cpp", "cfg": "reuse", "cases": 60000, "workers": 2, "name": "C19-reuse-float", "defs": ["LONG", "BASE_T=float"]},
        {"src": "c08.cpp", "cfg": "chunk3reuse", "cases": 150000, "workers": 2, "defs": ["LONG"]},
        {"src": "c08.cpp", "cfg": "chunk16san", "cases": 5000, "workers": 2, "defs": ["LONG"]},
        {"src": "c08.cpp", "cfg": "real", "cases": 60, "workers": 2, "defs": ["LONG"]},
    ]}
CHECKS["C20"] = {
    "rule": "random sequences of up to 80 operations (16 kinds, also without memory for another segment) on two containers moved into each other, for elements of five types (double, pair, 3 bytes, string, instrumented), segments of 1, 2, 3, 7, 8 and 64 elements, sizes around segment boundaries; "
            "contents, size, capacity, iteration, number of existing elements and of allocated segments compared with std::vector after every operation; non-trivial: at least four operations and more elements than one segment holds",
    "assumptions": ["a moved-from container is only assigned to or destroyed", "append takes at most one segment of elements, as asserted"],
    "jobs": [
        {"src": "c20.cpp", "cfg": "dflt", "cases": 400000, "workers": 3, "tape": False},
        {"src": "c20.cpp", "cfg": "san", "cases": 40000, "workers": 3, "tape": False},
    ]}
stateful("C13", "random sequences of up to 30 actions on up to 5 tapes: creation, activation (also while another is active), deactivation, move construction, move assignment, swap, self move, destruction, callbacks handed over, "
    "recordings, partial and full rollbacks with external functions in between, next to a tape of another type; activity, counts, callback objects and all derivatives compared with the model; "
    "non-trivial: at least one move and two recordings", 150000, 6000, assumptions=["a moved-from tape is only assigned to, deactivated, asked whether it is active, or destroyed"])
CHECKS["C15"] = {
    "rule": "random functions of 0..6 inputs and 0..6 outputs given by programs of 1..12 statements (and sums of products for up to 24 x 24), called through every overload with nine kinds of matrices, "
            "with no tape, a tape found or passed, previous recordings and seeds on it, inputs on the tape, repeated; wrong dimensions and throwing functions in between; "
            "non-trivial: at least 2 x 2 with a non-zero entry in the reference Jacobian",
    "jobs": [
        {"src": "c15.cpp", "cfg": "dflt", "cases": 100000, "workers": 2, "name": "C15-adj-d", "defs": ["MODE=adj"]},
        {"src": "c15.cpp", "cfg": "dflt", "cases": 100000, "workers": 2, "name": "C15-fwd-d", "defs": ["MODE=fwd"]},
        {"src": "c15.cpp", "cfg": "reuse", "cases": 100000, "workers": 2, "name": "C15-adj-f", "defs": ["MODE=adj", "BASE_T=float", "SHAPE_MOD=3", "SHAPE_REM=1"]},
        {"src": "c15.cpp", "cfg": "san", "cases": 6000, "workers": 1, "name": "C15-adj-san", "defs": ["MODE=adj", "SHAPE_MOD=4", "SHAPE_REM=1"]},
        {"src": "c15.cpp", "cfg": "san", "cases": 6000, "workers": 1, "name": "C15-fwd-san", "defs": ["MODE=fwd", "SHAPE_MOD=4", "SHAPE_REM=2", "BASE_T=float"]},
    ]}
CHECKS["C16"] = {
    "rule": "random scalar functions of 0..6 inputs given by programs of 1..12 statements (and sums of products and sines of up to 16 inputs), called through every overload with nine kinds of matrices, "
            "with no tape, a tape found or passed, previous recordings and seeds on it, inputs on the tape or carrying derivatives, repeated; wrong dimensions and throwing functions in between; "
            "non-trivial: at least two inputs with a non-zero mixed second derivative",
    "jobs": [
        {"src": "c16.cpp", "cfg": "dflt", "cases": 60000, "workers": 3, "name": "C16-fwdadj-d", "defs": ["MODE=AReal"]},
        {"src": "c16.cpp", "cfg": "dflt", "cases": 60000, "workers": 3, "name": "C16-fwdfwd-d", "defs": ["MODE=FReal"]},
        {"src": "c16.cpp", "cfg": "reuse", "cases": 60000, "workers": 2, "name": "C16-fwdadj-f", "defs": ["MODE=AReal", "BASE_T=float", "SHAPE_MOD=4", "SHAPE_REM=1"]},
        {"src": "c16.cpp", "cfg": "san", "cases": 3000, "workers": 1, "name": "C16-fwdadj-san", "defs": ["MODE=AReal", "SHAPE_MOD=6", "SHAPE_REM=1"]},
        {"src": "c16.cpp", "cfg": "san", "cases": 3000, "workers": 1, "name": "C16-fwdfwd-san", "defs": ["MODE=FReal", "SHAPE_MOD=6", "SHAPE_REM=2", "BASE_T=float"]},
    ]}
stateful("C14", "random histories of up to 60 actions (recording, seeding, rollbacks, resets, clearing, new recordings, external functions and recordings inside callbacks) with random misuse between any two actions: second tapes, adjoints before any derivative, "
    "slots that do not exist (far away, or probed one by one behind the last one), empty callback stacks, derivatives without a tape; type of the exception, all counts, memory and the active tape are checked, and every result is compared bit for bit with the same history without misuse; "
    "non-trivial: at least three failed calls, one rollback and three results", 150000, 8000)
stateful("C24", "random chains of up to 40 statements and callbacks on one tape (same object inserted repeatedly, nested recordings with callbacks of their own up to three levels, recording without a nested recording, creating variables, throwing, "
    "handing callbacks over), full and partial rollbacks, resets, new recordings, moves of the tape; every invocation is checked against the list expected, together with the derivative accumulated at that point; constructions and destructions are counted; "
    "non-trivial: at least two callbacks invoked and one skipped (or four invoked)", 300000, 12000)
stateful("C25", "random sequences of up to 50 actions on up to 24 variables in eleven containers (vectors, deque, lists, map, pointers, structs, tuples, array): 26 algorithms and container operations, moves between containers, erasure, copies, self assignment, "
    "reuse after a move, statements; every variable is recognised by its unique value, derivatives are set, followed through rearrangements and found again, and the gradient of the whole recording is compared with a reference tape; "
    "non-trivial: at least three rearrangements and two statements with a non-zero gradient or derivatives followed", 200000, 8000,
    more=[{"src": "c25.cpp", "cfg": "dflt", "cases": 100000, "workers": 2, "name": "C25-fwd", "defs": ["FWD"]}])
stateful("C22", "random programs of up to 24 statements (31 statement kinds, 113 expression shapes) on unregistered variables, while tapes are created, activated, destroyed; the same inside random recordings and rollbacks (also in callbacks), compared bit for bit with the "
    "recording without them; programs on registered and passive variables mixed, with the reference gradient; operations recorded with passive variables and with plain numbers in their place; all counts and memory of the tape before and after; "
    "non-trivial: at least three passive statements (and one rollback with three results, or a non-zero gradient)", 150000, 4000,
    more=[{"src": "c22.cpp", "cfg": "dflt", "cases": 100000, "workers": 2, "name": "C22-fwd", "defs": ["FWD"]}])
for j in CHECKS["C22"]["jobs"][2:3]:
    j["defs"] = ["SHAPE_MOD=4", "SHAPE_REM=1"]
stateful("C23", "random histories of up to 25 actions (recordings, external functions with recordings inside, partial rollbacks, resets) repeated 4 to 40 times on one tape in four ways: new recordings with the inputs staying or all variables new, clearAll, reset to a position behind a prefix; "
    "statements, operations, variables, callbacks, memory at every step, blocks on the heap and all results compared from round to round; counters checked against what was executed at every step of histories of up to 90 actions; the number of slots against the most variables alive at a time; "
    "non-trivial: at least four rounds, eight rollbacks and four results (or five recording steps and one that shrinks the recording, or ten variables)", 400000, 15000,
    more=[{"src": "c23.cpp", "cfg": "chunk16", "cases": 100000, "workers": 2}],
    assumptions=["without slot reuse the memory stays constant only for variables destroyed in the reverse order of their registration; for others counts and results are compared"])
CONFIGS["tsan"] = {"defs": C64(), "flags": ["-fsanitize=thread", "-gline-tables-only"]}
CHECKS["C12"] = {
    "rule": "2 to 4 tasks (random histories of recordings and rollbacks, forward mode, second order, passive computations, Jacobians, Hessians, tapes coming and going) run alone and then on threads of their own, next to an active tape of the main thread or with the main thread taking part: "
            "taking turns between any two actions in a drawn order, and free running under a data race detector; recordings handed from thread to thread; all results compared bit for bit, the active tape checked around every pause; "
            "non-trivial: at least two tasks with results and three changes of turn",
    "jobs": [
        {"src": "c12.cpp", "cfg": "dflt", "cases": 40000, "workers": 2, "defs": ["SHAPE_MOD=6", "SHAPE_REM=1"]},
        {"src": "c12.cpp", "cfg": "reuse", "cases": 40000, "workers": 2, "name": "C12-reuse-float", "defs": ["SHAPE_MOD=6", "SHAPE_REM=2", "BASE_T=float"]},
        {"src": "c12.cpp", "cfg": "tsan", "cases": 10000, "workers": 2, "defs": ["SHAPE_MOD=6", "SHAPE_REM=3"]},
    ],
    "assumptions": ["threads do not share variables or tapes, except that a tape may be handed over while it is inactive"]}
CONFIGS["sanint"] = {"defs": C64("_GLIBCXX_ASSERTIONS"), "opt": "-O0", "flags": SAN, "xad": ["XAD_ALLOW_INT_CONVERSION"]}
CHECKS["C18"] = {
    "rule": "random programs of 1 to 12 statements on two complex and two real inputs (operators with 13 operand combinations, compound assignment with 8 kinds of operands including aliases, 20 ways of setting, 20 complex functions, modulus, argument, norm, "
            "real and imaginary parts, polar with 9 and powers with 11 operand combinations, functions of real numbers); all derivatives of all parts of all variables compared with the holomorphic reference; "
            "second derivatives of programs of 1 to 4 complex operations (46 kinds) in all four nestings against differences of first derivatives in long double; "
            "non-trivial: at least two statements and two non-zero derivatives of computed complex numbers, or a non-zero second derivative",
    "jobs": [
        {"src": "c18.cpp", "cfg": "dflt", "cases": 300000, "workers": 3, "name": "C18-adj-d", "defs": []},
        {"src": "c18.cpp", "cfg": "dflt", "cases": 300000, "workers": 2, "name": "C18-fwd-d", "defs": ["FWD"], "tape": False},
        {"src": "c18.cpp", "cfg": "reuse", "cases": 300000, "workers": 2, "name": "C18-adj-f", "defs": ["BASE_T=float"]},
        {"src": "c18.cpp", "cfg": "dflt", "cases": 300000, "workers": 1, "name": "C18-fwd-f", "defs": ["FWD", "BASE_T=float"], "tape": False},
        {"src": "c18.cpp", "cfg": "san", "cases": 8000, "workers": 1, "name": "C18-adj-san", "defs": []},
        {"src": "c18n.cpp", "cfg": "dflt", "cases": 60000, "workers": 1, "name": "C18-second-ff", "defs": ["MODE=0"], "tape": False},
        {"src": "c18n.cpp", "cfg": "dflt", "cases": 60000, "workers": 1, "name": "C18-second-af", "defs": ["MODE=1"]},
        {"src": "c18n.cpp", "cfg": "reuse", "cases": 60000, "workers": 1, "name": "C18-second-fa", "defs": ["MODE=2"]},
        {"src": "c18n.cpp", "cfg": "dflt", "cases": 60000, "workers": 1, "name": "C18-second-aa", "defs": ["MODE=3"]},
    ],
    "assumptions": ["operands away from poles, branch points and branch cuts", "two expressions of the same type in polar, and polar of one expression, do not compile and are left out"]}
CHECKS["C17"] = {
    "rule": "random programs on complex and real active numbers as in C18, every value compared after every statement; single operations on numbers of any magnitude, sign of zero and on the branch cuts; "
            "15 comparisons, 24 ways of construction, assignment and access, setting and reading derivatives in all ways, writing with 5 kinds of formats, reading well- and ill-formed input twice; compared with std::complex in long double or of the same type; "
            "non-trivial: at least two statements executed, or the operation is defined at the operands",
    "jobs": [
        {"src": "c17.cpp", "cfg": "dflt", "cases": 400000, "workers": 2, "name": "C17-adj-d"},
        {"src": "c17.cpp", "cfg": "dflt", "cases": 400000, "workers": 2, "name": "C17-fwd-d", "defs": ["FWD"], "tape": False},
        {"src": "c17.cpp", "cfg": "dflt", "cases": 400000, "workers": 2, "name": "C17-adj-f", "defs": ["BASE_T=float"]},
        {"src": "c17.cpp", "cfg": "dflt", "cases": 400000, "workers": 2, "name": "C17-fwd-f", "defs": ["FWD", "BASE_T=float"], "tape": False},
    ],
    "assumptions": ["magnitudes 1e-70..1e70 (1e-8..1e8 in float), no infinities and NaN", "off the axes, functions other than log, sqrt, arg, pow are compared away from their branch cuts"]}

CHECKS["C21"] = {
    "rule": "std::f for every function of StdCompatibility.hpp in all operand forms (values against the underlying type, derivatives against closed forms), hashes and to_string, limits, traits, writing with random formats (narrow and wide), "
            "reading well- and ill-formed text into passive, registered and computed variables, 30 groups of algorithms, containers, distributions and function objects against the same on the underlying type, derivatives through algorithms; "
            "non-trivial: the operations were defined at the operands and compared (reading: at least one number read)",
    "jobs": [
        {"src": "c21.cpp", "cfg": "dflt", "cases": 400000, "workers": 2, "name": "C21-adj-d", "defs": ["MODE=adj"]},
        {"src": "c21.cpp", "cfg": "dflt", "cases": 400000, "workers": 1, "name": "C21-fwd-d", "defs": ["MODE=fwd"], "tape": False},
        {"src": "c21.cpp", "cfg": "reuse", "cases": 400000, "workers": 2, "name": "C21-adj-f", "defs": ["MODE=adj", "BASE_T=float"]},
        {"src": "c21.cpp", "cfg": "dflt", "cases": 400000, "workers": 1, "name": "C21-fwd-f", "defs": ["MODE=fwd", "BASE_T=float"], "tape": False},
        {"src": "c21.cpp", "cfg": "san", "cases": 20000, "workers": 1, "name": "C21-adj-san", "defs": ["MODE=adj"]},
        {"src": "c03.cpp", "cfg": "dflt", "cases": 300000, "workers": 1, "name": "C21-std-values-adj-d", "defs": ["MODE=adj", "FN_NS=std"]},
        {"src": "c03.cpp", "cfg": "dflt", "cases": 300000, "workers": 1, "name": "C21-std-values-fwd-f", "defs": ["MODE=fwd", "FN_NS=std", "BASE_T=float"], "tape": False},
        {"src": "c04.cpp", "cfg": "dflt", "cases": 300000, "workers": 1, "name": "C21-std-derivs-adj-f", "defs": ["MODE=adj", "FN_NS=std", "BASE_T=float"]},
        {"src": "c04.cpp", "cfg": "dflt", "cases": 300000, "workers": 1, "name": "C21-std-derivs-fwd-d", "defs": ["MODE=fwd", "FN_NS=std"], "tape": False},
    ],
    "assumptions": ["random distributions other than the uniform one are compared up to rounding"]}

# C11: the same programs in many builds of the library
def B(name, cxx, std, opt, xad=(), defs=(), flags=()):
    fl = ["-fPIC", "-fvisibility=hidden"] + (["-fno-gnu-unique"] if cxx.startswith("g++") else []) + list(flags)
    CONFIGS[name] = {"cxx": cxx, "std": std, "opt": opt, "xad": list(xad), "defs": list(defs), "flags": fl}
    return name
RE, SI, NT, IC = "XAD_TAPE_REUSE_SLOTS", "XAD_USE_STRONG_INLINE", "XAD_NO_THREADLOCAL", "XAD_ALLOW_INT_CONVERSION"
BUILDS = [
    B("b-g17-O0", "g++", "c++17", "-O0"),
    B("b-g11-O2-ndebug", "g++", "c++11", "-O2", (), ["NDEBUG"]),
    B("b-g14-O3-reuse-inline", "g++", "c++14", "-O3", [RE, SI], C64("NDEBUG")),
    B("b-g20-O1-reuse-int-chunk3", "g++", "c++20", "-O1", [RE, IC], ["XAD_VERIF_CHUNK_SIZE=3"]),
    B("b-g17-O2-nothread-chunk1", "g++", "c++17", "-O2", [NT], ["XAD_VERIF_CHUNK_SIZE=1", "NDEBUG"]),
    B("b-c11-O1-nothread-reuse", "clang++-18", "c++11", "-O1", [NT, RE], ["XAD_VERIF_CHUNK_SIZE=2"]),
    B("b-c20-O2-all", "clang++-18", "c++20", "-O2", [RE, SI, NT, IC], ["NDEBUG"]),
    B("b-c17-O0-inline-chunk5", "clang++-18", "c++17", "-O0", [SI], ["XAD_VERIF_CHUNK_SIZE=5", "_GLIBCXX_ASSERTIONS"]),
    B("b-c14-O3-int", "clang++-18", "c++14", "-O3", [IC], C64("NDEBUG")),
    B("b-c11-O0-int-inline-reuse", "clang++-18", "c++11", "-O0", [IC, SI, RE], ["XAD_VERIF_CHUNK_SIZE=1000"]),
]
CHECKS["C11"] = {
    "rule": "one random task (history of recordings and partial rollbacks with external functions and checkpoints, forward mode, second order, passive, Jacobian, Hessian, tapes coming and going, all 92 functions of the library) executed by ten builds: "
            "GCC and Clang, C++11 to C++20, -O0 to -O3, slot reuse, strong inlining, no thread-local tapes, integer conversion, NDEBUG and assertions, segments of 1 to 8388608 entries; all values, derivatives and counts compared; "
            "non-trivial: at least four results, one of them not zero",
    "jobs": [
        {"src": "c11.cpp", "cfg": "dflt", "cases": 60000, "workers": 8, "name": "C11-builds", "tape": False, "libs": BUILDS, "libsrc": "c11x.cpp", "libdefs": ["SHAPE_MOD=6", "SHAPE_REM=4"]},
    ],
    "assumptions": ["MSVC builds are not available", "counts of variables and memory, which depend on the configuration by design, are not compared"]}
