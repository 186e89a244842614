#!/usr/bin/env python3
"""Writes properties.jsonl (one place to edit the statements)."""
import json
P = []
def p(id, title, statement, over, text, why, files, mechanism, observe, state=None, hook=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mechanism],
         "observe_at": observe, "hook_needed": hook}
    if state:
        a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    assert len(title) <= 80, (id, len(title))
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text},
              "why_tests_cant": why, "anchors": a})
I = "include/ieme/"

p("C01", "Concurrent callers get the exact result of their own operands",
  "Any number of threads may, with no synchronisation, evaluate anything the library offers (arithmetic, comparison, queries, reduction, rounding, powers, hashing, number and text conversion, formatting, time conversion, clock reading) on shared values nobody modifies and on values of their own. Under every interleaving each evaluation yields exactly what it yields alone: the exact rational answer for its own operands, under every arithmetic policy and integer type, whenever the terms the policy forms (over the least common denominator for the safe policies, over the product of the denominators for the fast ones, after reduction where the policy reduces its inputs) fit the type. No evaluation modifies a shared value or takes part in a data race.",
  ["schedules", "inputs", "configurations", "histories"],
  "every interleaving of 2-4 caller threads at the granularity of one memory access, every operation mix, all eight arithmetic policies, int/long/unsigned representations, values up to the limits of the type, any sign of the denominator",
  "The unit tests run one thread, one or two operands per operation and mostly one integer type; they cannot see a shared cache, an in-place normalisation of a const value, or an operand-dependent error outside the samples.",
  [I+"ops.hpp", I+"fraction.hpp", I+"fraction_math.hpp", I+"raw_fraction_math.hpp", I+"raw_fraction_queries.hpp", I+"mixed_number.hpp", I+"math_utilities.hpp", I+"floating_point.hpp", I+"hash.hpp", I+"chrono.hpp", I+"parse_utilities.hpp"],
  [("all operations are functions of their arguments; no mutable namespace-scope, static or mutable-member state", "all headers"),
   ("least-common-denominator arithmetic and comparison", I+"ops.hpp safe::plus/minus/modulus/less..."),
   ("input/output reducing policy adaptors", I+"ops.hpp reduced_input, reduced_output")],
  ["return values and the bits of the operands after the call"])

p("C02", "Exact accumulation: replicas converge in any delivery order",
  "Replicas that apply the same set of rational contributions (additions, subtractions, retractions, rescalings), in any delivery order, grouping, duplication-then-suppression or crash-and-rebuild order, finish with totals that compare equal to each other and to the exact mathematical total; retracting everything gives exactly zero. Under a policy that reduces its results every total is in lowest terms with a positive denominator, so the replicas' representations are identical too. The same holds when a replica accumulates in mixed numbers, whose whole and fractional parts always agree in sign with a proper fractional part.",
  ["fault_sequences", "histories", "schedules", "configurations"],
  "every sequence of loss, duplication, reordering, delay, partition, crash and rebuild of the contribution messages, all policies, int and long contributions mixed, within the range of the type",
  "Unit tests evaluate isolated expressions in one order; associativity, commutativity, inverse and canonical-form guarantees over histories are universally quantified over orders and groupings.",
  [I+"ops.hpp", I+"fraction.hpp", I+"raw_fraction_math.hpp", I+"mixed_number.hpp"],
  [("exact cross-denominator arithmetic", I+"ops.hpp plus/minus/multiplies/divides"),
   ("results reduced and sign-normalised", I+"ops.hpp reduced_output, "+I+"raw_fraction_math.hpp reduce"),
   ("compound assignment evaluates fully before storing", I+"fraction.hpp IEME_DEFINE_FRACTION_COMPOUND_ASSIGNMENT_OPS"),
   ("mixed numbers repair their parts on construction", I+"mixed_number.hpp fix")],
  ["totals of each replica after every delivered message and after the last fault"])

p("C03", "Equal values are one key: redelivery is deduplicated exactly once",
  "Fractions that compare equal have equal hashes, however they were represented, computed or re-read, and the relational operators (between fractions and against integers) form one strict total order on defined values, the order of the exact values, whatever the signs of the denominators. Hence a hashed or ordered container keyed by fractions, fed the same events redelivered, reordered and re-represented, contains each distinct value exactly once, always finds it, and iterates in exact order.",
  ["histories", "fault_sequences", "inputs", "configurations"],
  "every history of duplicated, reordered and re-represented (unreduced, negative denominator, recomputed, re-read from text) deliveries, all policies",
  "Tests hash a value against itself and compare a few pairs; the hash/equality contract and transitivity quantify over pairs and triples of representations and over container histories.",
  [I+"hash.hpp", I+"ops.hpp", I+"fraction.hpp", I+"raw_fraction_math.hpp"],
  [("hash of numerator and denominator of the value", I+"hash.hpp hash(fraction)"),
   ("cross-denominator comparison", I+"ops.hpp equal_to/less/less_equal/greater...")],
  ["std::hash, std::unordered_set/map, std::set/map, std::sort over fractions"])

p("C04", "Values survive a write/read trip through any stream",
  "Writing fractions with the stream insertion operator and reading them with the extraction operator restores exactly the same numerator and denominator, in order, however the device chops, delays or interleaves the bytes, whatever the buffer sizes, separators, other values between them, shared locale or shared number-format flags. Each read consumes its own text and not one character more. Plain output of a fraction is its numerator, a slash, its denominator.",
  ["fault_sequences", "schedules", "inputs", "configurations"],
  "every chunking, delay and short-transfer sequence on both sides, including a live bounded pipe between a writer and a reader thread; integer types wider than char; locales with digit grouping; hex/octal (non-negative values), showpos, showbase, blank-padded width",
  "Two tests write one value and read one value through an in-memory string, with no partial transfers, no neighbours and default formatting.",
  [I+"raw_fraction.hpp", I+"fraction.hpp"],
  [("insertion writes numerator '/' denominator with the stream's own integer formatting", I+"raw_fraction.hpp operator<<"),
   ("extraction reads integer, separator, integer", I+"raw_fraction.hpp operator>>")],
  ["bytes on the simulated device; values read; next unread byte"])

p("C05", "Failed writes are reported and leave only a prefix",
  "When the device refuses, truncates or throws on any byte while fractions are being inserted, the bytes that reached it are exactly a prefix of the text of the values in order, the stream is left in a failed state from then on unless every byte was accepted, and nothing later is written until the caller clears the state. While the stream is good, every value inserted so far has been accepted completely.",
  ["fault_sequences", "crash_points"],
  "every byte position and kind of output failure (full disk, short write, I/O error, throwing device, allocation failure in the buffer), every buffer size, transient or permanent",
  "No test writes to a failing stream.",
  [I+"raw_fraction.hpp", I+"fraction.hpp"],
  [("insertion chains through the stream, so the first failure disables the rest", I+"raw_fraction.hpp operator<<")],
  ["bytes on the simulated device; rdstate after each insertion"])

p("C06", "Damaged text is refused: no fabricated value, target untouched",
  "Extraction succeeds only if the characters it consumed are an integer, a slash and an integer (blanks allowed before each), each in the range of the type, and then the target is exactly that pair. Whatever else the medium delivers (truncation, lost, flipped, duplicated or spliced bytes, end of file or device error at any byte) the stream reports failure and the target keeps both of its previous parts; the parts of two different records are never combined across foreign text.",
  ["fault_sequences", "crash_points", "inputs"],
  "every truncation point, byte corruption, lost or duplicated block and device error over streams of several records, including reads that continue after clearing the error",
  "The only input test reads one well-formed record.",
  [I+"raw_fraction.hpp", I+"fraction.hpp"],
  [("extraction checks the separator and stores only after both parts were read", I+"raw_fraction.hpp operator>>")],
  ["stream state, target value and stream position after each extraction"])

p("C07", "Stream errors surface the way the caller configured",
  "Inserting or extracting a fraction reports a device or format error exactly as inserting or extracting its numerator, slash and denominator would: as state bits on a stream with no exception mask, and as the configured exception on a stream whose mask asks for it, after which the program goes on; whether the parts after a failed device are attempted, which only adds failbit to badbit, is left open. A prompt waiting on a stream tied to it is out before the device is touched. No stream fault terminates the process.",
  ["fault_sequences", "configurations"],
  "every fault position and kind on input and output crossed with every exception mask",
  "No test sets an exception mask or injects a fault.",
  [I+"raw_fraction.hpp", I+"fraction.hpp"],
  [("operators let the stream's own error reporting through", I+"raw_fraction.hpp operator<<, operator>>; "+I+"fraction.hpp operator<<, operator>>")],
  ["exceptions escaping << and >>, rdstate"])

p("C08", "Undefined values are contagious, contained and never trap",
  "A zero divisor (or any other source of an undefined fraction) at any step of a computation makes that step's result undefined, and every later result that depends on it through +, -, *, /, %, negation, reciprocal, reduction, absolute value, compound assignment or a hand-over through text is undefined as well; an undefined fraction compares unequal to everything, is ordered with nothing, answers no to every sign query and converts to a floating-point NaN. Values that do not depend on the fault stay exact, a register overwritten with a defined value is defined again, and no such operation traps.",
  ["fault_sequences", "histories", "inputs", "configurations"],
  "every position of zero divisors, undefined inputs and NaN samples in computation histories over several registers, all policies",
  "Tests compare one undefined constant; none computes with an undefined operand, and the outcome depends on where in a history the fault lands.",
  [I+"ops.hpp", I+"raw_fraction_math.hpp", I+"raw_fraction_queries.hpp", I+"fraction_math.hpp", I+"floating_point.hpp", I+"limits.hpp"],
  [("a zero denominator is the undefined value", I+"raw_fraction_queries.hpp is_undefined"),
   ("operations keep a zero denominator zero", I+"ops.hpp safe/fast"),
   ("comparisons require both sides defined", I+"ops.hpp equal_to/less/...")],
  ["is_undefined, comparisons, to_double after every step"])

p("C09", "Value operations need no heap; streams survive its exhaustion",
  "Arithmetic, comparison, queries, reduction, rounding, powers, hashing, float and text conversion, mixed numbers and time conversion never allocate memory, and so give their normal, exact results when every allocation fails. Inserting and extracting fractions while allocations fail at arbitrary points either works completely or leaves the stream in a failed state with a correct prefix written; it never crashes the program.",
  ["fault_sequences", "inputs"],
  "every allocation failure point (first, n-th, all, intermittent) over random histories of value and stream operations",
  "Tests run with a working heap; allocation is invisible to value assertions.",
  [I+"ops.hpp", I+"fraction_math.hpp", I+"floating_point.hpp", I+"parse_utilities.hpp", I+"mixed_number.hpp", I+"hash.hpp", I+"chrono.hpp", I+"raw_fraction.hpp"],
  [("all state is held by value; parsing works on string views", "all headers")],
  ["intercepted operator new/malloc during library calls; results; stream state"])

p("C10", "A wrapped clock reports each underlying reading exactly and once",
  "Every reading of a wrapped clock takes exactly one reading of the clock beneath it and equals it exactly in the chosen unit, coarser or finer, before or after the epoch, also when that clock jumps forwards or backwards, stalls, or is skewed between nodes. Readings therefore compare (with each other and with the underlying clock's own time points) exactly as the underlying readings do, their differences are the exact differences, and the wrapper is steady exactly when the underlying clock is.",
  ["histories", "fault_sequences", "configurations", "schedules"],
  "every sequence of clock advances, stalls, skews and jumps in both directions on several nodes; several clock periods, target units, policies; readings within the range of the type",
  "One test calls now() once on the real system clock and inspects only types.",
  [I+"chrono.hpp", I+"fraction.hpp", I+"ops.hpp"],
  [("now() forwards to the clock and converts its time point", I+"chrono.hpp clock_wrapper::now"),
   ("fractional representations convert between units without truncation", I+"chrono.hpp treat_as_floating_point specialisation, duration_like, time_point_like")],
  ["count of a simulated clock's reads; returned time points"])

p("C11", "Elapsed time is conserved exactly across units and clock faults",
  "Intervals measured in fractional units never lose or gain time: the laps between successive readings add up exactly to last minus first, whatever units each lap is expressed in and however the clock jumped; converting an interval or time point to any other fractional unit and back is the identity; scaling, dividing, ratio, remainder and comparison of intervals in mixed units (fractional and integer) agree with the exact values in seconds.",
  ["histories", "fault_sequences", "configurations"],
  "every history of laps, jumps, unit changes, scalings and splits over ten units from nanoseconds to days including non-decimal ones, within the range of the type",
  "Three tests convert one constant each; conservation quantifies over sequences of readings and unit pairs.",
  [I+"chrono.hpp", I+"fraction.hpp", I+"ops.hpp", I+"limits.hpp"],
  [("durations with fraction representation", I+"chrono.hpp duration, to_fractional"),
   ("exact scaling by unit ratios", I+"ops.hpp multiplies/divides with reduction")],
  ["counts of durations and time points"])

p("C12", "Fractional-period deadlines never drift, slip or fire early",
  "A periodic task whose deadline is advanced by repeatedly adding a fractional period has its k-th deadline at exactly start plus k periods, for any period (1/3 s, 1001/30000 s, ...), however long it runs and even if deadlines are rebuilt from their text after a crash. Compared against readings of a jittery, stalling or jumping clock, a deadline is found reached exactly when the exact reading is at or past the exact deadline, so after the clock has advanced past n deadlines a catch-up loop fires exactly n times and then stops.",
  ["histories", "fault_sequences", "schedules"],
  "every period, jitter, stall, forward/backward clock jump and crash/rebuild sequence, several units; bounded number of steps after the faults stop",
  "No test compares a deadline with a clock reading or accumulates a duration.",
  [I+"chrono.hpp", I+"ops.hpp", I+"fraction.hpp"],
  [("compound addition of durations in a reducing policy", I+"ops.hpp plus, "+I+"fraction.hpp operator+="),
   ("exact comparison", I+"ops.hpp less_equal/greater_equal")],
  ["fire times and counts recorded by the simulated timer loop"])

p("C13", "Quantising readings is exact, monotone and within one step",
  "Rounding any defined value to an integer or to a grid of a given denominator returns the largest grid point not above it (floor), the smallest not below it (ceil), the one towards zero (trunc) or the nearest one, ties upwards for whole numbers (round), for every sign including values between -1 and 1. Over a history of readings from a jumping clock the quantised readings are therefore ordered as the readings, never more than a step (half a step for nearest) away, and a reading already on the grid is unchanged.",
  ["inputs", "histories", "fault_sequences", "configurations"],
  "every sequence of exact readings before and after the epoch produced by jumps, stalls and skews, grids of either sign of denominator, all rounding modes, all policies, within the range of the type",
  "Tests round a dozen constants, none strictly between -1 and 0; order preservation quantifies over pairs of readings.",
  [I+"fraction_math.hpp", I+"raw_fraction_queries.hpp", I+"ops.hpp"],
  [("floor/ceil/round built on truncation plus correction", I+"fraction_math.hpp trunc/ceil/floor/round/to_whole"),
   ("grid rounding", I+"fraction_math.hpp redenominate and *_redenominate")],
  ["returned integers and fractions"])

p("C14", "A computation resumed from its checkpoint ends identically",
  "A computation over fractions and mixed numbers that is killed at any point and resumed from the text of its last durable checkpoint, any number of times and on different nodes, ends with exactly the values of an uninterrupted run, which are the exact rational results. Checkpoints torn or lost by the crash are recognised by their missing or unreadable text; acknowledged ones are always restored exactly.",
  ["crash_points", "fault_sequences", "histories"],
  "every crash point (between steps, inside a checkpoint write, between write and sync), lost and torn unsynced writes, repeated crashes; random programs over several registers",
  "Tests never carry a value across a serialisation boundary inside a computation, nor lose part of what was written.",
  [I+"raw_fraction.hpp", I+"fraction.hpp", I+"mixed_number.hpp", I+"ops.hpp"],
  [("text form carries the whole state of a value", I+"raw_fraction.hpp operator<<, operator>>"),
   ("operations depend on operand values only", I+"ops.hpp")],
  ["final register values of interrupted and uninterrupted runs"])

p("C15", "Decimal and hex text is accepted iff well formed, with its exact value",
  "Converting the text of a non-negative floating-point number (decimal or hexadecimal, with optional digit separators and exponent, at least a radix point or an exponent) yields exactly the rational number it denotes whenever the whole part, fraction, scale and result fit the type, and the undefined value for any text that is not such a number, including text truncated, corrupted, spliced or duplicated by the medium. The conversion never reads outside the text it was given and never crashes.",
  ["fault_sequences", "inputs", "crash_points"],
  "every damage (truncation, flipped, lost, duplicated, inserted bytes, block splice) of valid and random texts held in exactly-sized buffers next to inaccessible memory; several integer types and policies",
  "Tests list about ninety strings; acceptance and value quantify over all byte strings the medium can deliver, and out-of-bounds reads are invisible in a string literal.",
  [I+"parse_utilities.hpp", I+"floating_point.hpp", I+"fraction_math.hpp", I+"math_utilities.hpp"],
  [("scanner splits base, whole, fractional, exponent", I+"parse_utilities.hpp scan_floating_point_string, is_valid_digit_sequence"),
   ("digit conversion and scaling", I+"parse_utilities.hpp digit_sequence_to_int, "+I+"floating_point.hpp floating_point_string_to_fraction")],
  ["returned fraction; memory faults"])

p("C16", "Binary float samples convert exactly or are flagged undefined",
  "Whatever bits a stored or received float or double sample holds after corruption, converting it yields the fraction of exactly its value whenever the magnitudes of that value's lowest-terms numerator and denominator fit the integer type (zero included), and the undefined value for NaN, infinities and values that do not fit, subnormals among them. Converting a fraction back gives the nearest floating-point number whenever numerator and denominator are exactly representable in the target format, so every convertible sample makes the round trip unchanged (up to the sign of zero).",
  ["fault_sequences", "inputs", "configurations"],
  "every bit pattern reachable by bit flips, stuck and torn words from sensor samples of all magnitudes, float and double, 32- and 64-bit integer types",
  "Tests convert six values, all small dyadic normals and one NaN.",
  [I+"floating_point.hpp", I+"fraction_math.hpp", I+"math_utilities.hpp"],
  [("IEEE field extraction and exact scaling by powers of two", I+"floating_point.hpp floating_point_to_fraction"),
   ("division of the reduced parts", I+"floating_point.hpp fraction_to_floating_point")],
  ["returned fraction / float"])

p("C21", "Nodes of different integer types and policies agree on every value",
  "A fraction handed between components that use different integer types or arithmetic policies (by implicit or explicit conversion, raw parts, text, a mixed number, or a binary float that holds it exactly) keeps its exact value whenever its parts fit the receiver's type. Arithmetic, compound assignment and comparison of fractions and integers of different integer types give, in their common type and whichever operand stands on which side, the exact result whenever the policy's terms fit that type (the assigned operand's type for compound assignment). A cluster whose nodes are upgraded or rolled back one at a time from one type or policy to another, under message loss, duplication, reordering, partitions and crashes, therefore never changes a value.",
  ["histories", "fault_sequences", "configurations", "inputs"],
  "every history of messages, restarts and upgrades among nodes of five integer types (signed and unsigned, 32 and 64 bits) and ten policies (the eight published ones and two custom reductions), every operator and operand order, values up to the limits of the types",
  "Tests mix two signed types in a handful of expressions and convert one constant; type pairs, policies and magnitudes above the narrower type are universally quantified.",
  [I+"fraction.hpp", I+"raw_fraction.hpp", I+"ops.hpp", I+"mixed_number.hpp", I+"floating_point.hpp"],
  [("operands converted to the common type before the policy's operation", I+"fraction.hpp IEME_DO_FRACTION_AND_FRACTION_OP and siblings"),
   ("compound assignment converts the right operand", I+"fraction.hpp IEME_DEFINE_FRACTION_COMPOUND_ASSIGNMENT_OPS"),
   ("converting constructors", I+"fraction.hpp fraction(fraction<OtherRep, OtherOps>), "+I+"raw_fraction.hpp")],
  ["values and result types on every node after every step"])

p("C22", "Interrupted, nested and abandoned evaluations leave no trace",
  "An evaluation of anything the library offers may be interrupted at any point by a handler on the same thread (a signal handler, say) that evaluates anything itself, on shared constants and on values of its own, and may be interrupted in turn. It may also be abandoned there for good: the handler jumps out of it, or its thread stops for ever. Every evaluation that is resumed, made in a handler or made later by anyone, nevertheless gives the exact result of its own operands and nothing waits for an evaluation that was interrupted or abandoned; except for the target of an abandoned assignment, no value changes. (One-time initialisation of a static and the inside of standard streams are masked against jumps.)",
  ["schedules", "crash_points", "histories", "inputs", "configurations"],
  "every point of interruption at the granularity of one memory access, up to two levels of nesting, every way to leave a handler (return, jump, death of the thread), 1-3 threads, all eight policies and three integer types",
  "No test interrupts an evaluation; per-thread scratch space, a lock around a memo or a counter that is undone on return are all invisible until an evaluation is nested in another or never returns.",
  [I+"ops.hpp", I+"fraction_math.hpp", I+"raw_fraction_math.hpp", I+"math_utilities.hpp", I+"floating_point.hpp", I+"parse_utilities.hpp", I+"hash.hpp", I+"mixed_number.hpp", I+"chrono.hpp"],
  [("every intermediate value is local to the evaluation; no thread_local, static or lock", "all headers"),
   ("compound assignment evaluates fully before storing", I+"fraction.hpp IEME_DEFINE_FRACTION_COMPOUND_ASSIGNMENT_OPS")],
  ["return values, shared and own values after every evaluation, progress of every thread"])

p("C23", "Evaluations neither depend on nor disturb their surroundings",
  "Every value operation gives its exact result whatever floating-point environment its thread happens to be in (rounding mode, flush-to-zero, denormals-are-zero, trapping of invalid operations, divisions by zero and overflows, reduced x87 precision) and whatever the process-wide C++ locale is, even if that is replaced while the evaluation is under way; subnormal samples are still told from zero and text is still read by the same grammar. And it leaves that environment and that locale exactly as it found them. (Two things follow their surroundings by design: an inexact quotient converted to floating point is rounded in the thread's mode, an undefined one may trap; and a stream formats by its own locale.)",
  ["schedules", "histories", "inputs", "configurations"],
  "every sequence of environment and locale changes between and (locale) during evaluations of 1-3 threads in different environments, every operation, all eight policies and three integer types",
  "Tests run in the environment the process was started in; audio threads, numerical code, plug-ins and localised programs do not.",
  [I+"floating_point.hpp", I+"parse_utilities.hpp", I+"math_utilities.hpp", I+"fraction_math.hpp", I+"ops.hpp", I+"chrono.hpp"],
  [("float samples are taken apart by their bits, in integer arithmetic", I+"floating_point.hpp floating_point_to_fraction"),
   ("text is scanned by fixed characters, independent of any locale", I+"parse_utilities.hpp"),
   ("powers, rounding and comparison are integer arithmetic", I+"math_utilities.hpp, "+I+"fraction_math.hpp, "+I+"ops.hpp")],
  ["return values, floating-point control registers and global locale after every evaluation"])

p("C24", "Every evaluation is done within a bounded number of steps",
  "A node that evaluates what arrives in real time is never held up by it: every value operation takes a number of steps and an amount of stack that is bounded by the number of bits of its operands (and exponent), not by their magnitude, and every text operation a number of steps in proportion to the length of the text on a bounded stack, for all operands, exponents, texts (well-formed or not) and float bits for which the operation is specified. An insertion or extraction asks its device for each chunk of text once and does not keep asking a device that has failed or ended. An evaluation that died half-way is repeated after the restart with the same bounds and the exact result. (Concretely: 20 000 basic blocks plus 400 per character, 64 KiB of stack; the worst today is below 2 500, 10 per character, and 4 KiB.)",
  ["schedules", "histories", "inputs", "fault sequences"],
  "every history of jobs delivered, repeated, delayed or corrupted, every operand, exponent and text, every slow-down, stall and crash of the node, all eight policies and three integer types",
  "Tests use small terms and short texts, on which a loop over magnitudes or a quadratic scan is as fast as any; no test counts steps.",
  [I+"raw_fraction_math.hpp", I+"math_utilities.hpp", I+"mixed_number.hpp", I+"ops.hpp", I+"parse_utilities.hpp", I+"floating_point.hpp", I+"raw_fraction.hpp"],
  [("reduction and common denominators by a logarithmic gcd", I+"raw_fraction_math.hpp, "+I+"ops.hpp"),
   ("powers by squaring", I+"math_utilities.hpp pow"),
   ("wholes carried by one division", I+"mixed_number.hpp fix"),
   ("one pass over the digits", I+"parse_utilities.hpp"),
   ("no retries on a stream that has failed", I+"raw_fraction.hpp")],
  ["basic blocks executed and stack used by every evaluation, requests the device received, return values"])

# --- not simulation targets ---------------------------------------------------

p("C25", "Values are plain bytes: moved, shared and swapped without loss",
  "A fraction, raw or with any policy, a mixed number and a duration counting fractions are their integer parts and nothing else. Values with the same parts are the same bytes, whatever computation, copy, move, swap, assignment to their parts or memory they came from, and the bytes of a value, copied in any pieces to any address, are that value. Hence processes that update shared fractions by comparing and swapping their bytes lose no update, and an update with no competitor succeeds; values sent in pieces, sorted or rotated in arrays, and processes whose whole memory is moved, or killed and restored from an image at another address, keep every value exactly; and a copy torn by a concurrent writer is just the value of the parts it holds.",
  ["histories", "schedules", "crash points", "inputs"],
  "every history of computations, copies, relocations, compare-and-swap updates, messages in pieces, crashes and restores over several processes, all eight policies",
  "Tests never look at the bytes of a value or use it at another address than the one it was made at.",
  [I+"raw_fraction.hpp", I+"fraction.hpp", I+"mixed_number.hpp", I+"chrono.hpp", I+"fraction_math.hpp"],
  [("two integers and no other member", I+"raw_fraction.hpp struct raw_fraction; "+I+"fraction.hpp class fraction"),
   ("a whole and a fraction and no other member", I+"mixed_number.hpp class mixed_number"),
   ("no value is known by its address", I+"fraction_math.hpp, "+I+"raw_fraction_math.hpp, "+I+"hash.hpp")],
  ["object representation", "num, den, whole, fractional, count"])

p("C26", "Everything works at every stage of a program's life",
  "Everything the library offers gives its exact results in the initialisers of static objects, in whatever order the linker put them and whether or not anything the library itself may have to initialise has been initialised yet; in main; in thread-exit handlers and destructors of thread-local objects; and in exit handlers and destructors of static objects, before and after anything the library itself may have to destroy has been destroyed. An evaluation gives the same answer, hashes included, at all of these stages, so that what was filed under a fraction at one stage is found at any other; and none uses memory the library has given back.",
  ["schedules", "histories", "inputs"],
  "every order of static initialisers, exit handlers, thread-exit handlers and evaluations between them, all eight policies and three integer types",
  "Tests evaluate from main only.",
  [I+"numbers.hpp", I+"hash.hpp", I+"math_utilities.hpp", I+"parse_utilities.hpp", I+"floating_point.hpp", I+"raw_fraction.hpp", I+"limits.hpp"],
  [("constants are constant expressions", I+"numbers.hpp, "+I+"limits.hpp"),
   ("no static or thread-local objects", I+"hash.hpp, "+I+"math_utilities.hpp, "+I+"parse_utilities.hpp, "+I+"floating_point.hpp")],
  ["results of evaluations at every stage"])

p("C17", "Compile-time evaluation agrees with run-time evaluation",
  "Every operation usable in a constant expression gives at compile time the result it gives at run time, and misuse of a decimal literal is rejected at compile time.",
  ["programs", "inputs"], "every constant expression over the library",
  "Tests evaluate a few constants, mostly at run time.",
  [I+"fraction.hpp", I+"fraction_literals.hpp"], [("constexpr functions", "all headers")], ["the compiler"])
p("C18", "Mixing arithmetic policies is refused by the compiler",
  "An expression combining fractions of two different arithmetic policies does not compile; conversion between policies must be explicit.",
  ["programs"], "every operator and pair of policies",
  "Tests cannot contain code that must not compile.",
  [I+"fraction.hpp"], [("deleted mixed-policy overloads, explicit converting constructor", I+"fraction.hpp")], ["overload resolution"])
p("C19", "Published limits and traits describe the types truthfully",
  "The limits and traits published for fractions (largest, lowest, smallest positive, undefined, signedness, exactness) are the true bounds and properties of the type.",
  ["configurations"], "every integer type and policy",
  "Tests compare the constants of fraction<int> only.",
  [I+"limits.hpp"], [("limits and numeric_limits specialisations", I+"limits.hpp")], ["constants"])
p("C20", "Result types follow the usual common-type rule",
  "The integer type of the result of a mixed-type expression or literal is the common type of its operands, so no operand is silently narrowed.",
  ["programs", "configurations"], "every pair of integer types and operator",
  "Tests check a handful of type pairs.",
  [I+"fraction.hpp", I+"fraction_literals.hpp", I+"mixed_number.hpp"], [("common_type-based signatures", I+"fraction.hpp")], ["static types"])
with open("/verif/properties.jsonl", "w") as f:
    for x in P:
        f.write(json.dumps(x) + "\n")
