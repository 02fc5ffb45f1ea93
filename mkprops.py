#!/usr/bin/env python3
# Writes properties.jsonl (kept as a script so the wording lives in one readable place).
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mech, **kw):
    d = dict(id=id, title=title, statement=statement,
             quantifier=dict(over=over, text=qtext), why_tests_cant=why,
             anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech], **kw))
    P.append(d)

p("P01", "Independent parties agree on every protocol value",
  "For every supported pairing family, parties that each load the same parameter text and exchange serialised group elements compute the same group products, powers, hashed-to-group values, pairings and products of pairings, and these always satisfy bilinearity with respect to the secret exponents. This holds whatever each party's entropy, earlier history, operand aliasing, chosen pairing method, arithmetic backend, precomputation and batching are, when identity elements are among the inputs, and however the network loses, duplicates or reorders messages and parties crash and restart from their saved bytes.",
  ["histories", "schedules", "crash_points", "configurations", "inputs"],
  "all histories of group operations at every party, all message schedules, all crash points, all seven pairing families, all method/backend options",
  "Unit tests fix one party, one short operation sequence, one method and generic operands; disagreement needs a particular mix of options, identity or aliased operands, stale objects and a value that crossed the wire.",
  ["ecc/pairing.c", "ecc/a_param.c", "ecc/d_param.c", "ecc/e_param.c", "ecc/f_param.c", "ecc/g_param.c", "ecc/eta_T_3.c", "ecc/curve.c", "arith/field.c", "arith/montfp.c", "arith/fastfp.c", "arith/fasterfp.c", "arith/naivefp.c", "arith/poly.c", "arith/fieldquadratic.c", "include/pbc_pairing.h", "include/pbc_field.h"],
  [("pairing maps and their alternative methods", "ecc/*_param.c option_set and map functions"),
   ("group law, hashing to a point and batched group law", "ecc/curve.c"),
   ("generic powering, power tables and products", "arith/field.c"),
   ("prime field backends selected at run time", "arith/fp.c and the four backends")])

p("P02", "Stored values survive crash and restart unchanged",
  "Any scalar, group element or field element that a party completely stores with a byte, compressed, x-only or text encoding is recovered equal to the original (for x-only, equal up to sign) by a fresh instance after a crash, including identity elements for the full byte and text encodings. The number of bytes written and the number consumed on reload both equal the advertised length, and encoding a value never touches memory outside that length.",
  ["histories", "crash_points", "inputs", "configurations"],
  "every value reachable by any operation history, every crash point between stores, every encoding and pairing family, writer and reader with different backends",
  "Tests round-trip one random generator per family; the failures live in identity elements reached through a history, boundary values, sign bits and a reader configured differently from the writer.",
  ["ecc/curve.c", "arith/field.c", "arith/montfp.c", "arith/fastfp.c", "arith/fasterfp.c", "arith/naivefp.c", "arith/poly.c", "arith/fieldquadratic.c", "arith/ternary_extension_field.c", "ecc/eta_T_3.c", "ecc/pairing.c", "arith/z.c", "arith/multiz.c"],
  [("point byte, compressed and x-only codecs", "ecc/curve.c curve_to_bytes ... element_from_bytes_x_only"),
   ("field codecs", "arith/*.c to_bytes/from_bytes/set_str/out_str")])

p("P03", "Damaged bytes never become an invalid element",
  "Whatever bytes or text arrive in place of an encoded element - corrupted, truncated and padded, replayed from another group, or hostile - decoding never crashes, never reads beyond the advertised length, and yields either the identity or a point that satisfies the curve equation, and for scalars a value that behaves exactly as its residue modulo the group order. The result is a normal element: comparing, re-encoding and computing with it is consistent, and later decodes of good data are unaffected.",
  ["inputs", "fault_sequences", "histories"],
  "all byte strings, all corruption patterns of valid encodings, all interleavings of good and bad decodes",
  "Tests feed only encodings produced by the library itself.",
  ["ecc/curve.c", "arith/field.c", "arith/montfp.c", "arith/fastfp.c", "arith/fasterfp.c", "arith/naivefp.c", "ecc/eta_T_3.c"],
  [("on-curve validation when decoding points", "ecc/curve.c curve_from_bytes, element_from_bytes_compressed, element_from_bytes_x_only, curve_set_str"),
   ("reduction of decoded scalars", "arith/*fp.c from_bytes")])

p("P04", "Random draws use only bytes the entropy source delivered",
  "When the entropy file cannot be opened, ends early, returns short reads or fails part-way, each random draw either yields a value below its limit that is a function of the bytes actually delivered, or leaves its target untouched and reports a warning; the process never crashes or leaks memory or open files, and the first draw after the source recovers succeeds. If no system entropy source can be opened at first use, the library warns and falls back to its seeded generator.",
  ["fault_sequences", "histories", "inputs"],
  "all sequences of open/read outcomes interleaved with all draw sizes and limits",
  "Tests never see the entropy device fail; the outcomes depend on the exact point of failure and on stale memory.",
  ["arith/random.c", "arith/init_random.c"],
  [("file-backed random source", "arith/random.c file_mpz_random"), ("first-use initialisation", "arith/init_random.c")])

p("P05", "All randomness comes from the installed source",
  "Once an application installs a random source (its own function, a file, or the seeded generator), every random choice the library makes - random elements in every group and field, generators, parameter generation, non-residues, randomised searches - is taken from that source: two executions that issue the same calls on fresh objects and see the same source bits produce identical results whatever the C library's generator, the clock, memory contents or the work done before installing were. Conversely, different source bits produce different random elements.",
  ["histories", "configurations", "inputs"],
  "all call sequences, all source streams, all prior histories and ambient states",
  "A test run has a single ambient state; a stray second source of randomness only shows when two executions with differing ambient state are compared.",
  ["arith/random.c", "arith/field.c", "arith/ternary_extension_field.c", "ecc/a_param.c", "ecc/e_param.c", "ecc/curve.c", "arith/poly.c"],
  [("random source dispatch", "arith/random.c pbc_mpz_random"), ("parameter generators", "ecc/*_param.c *_gen"), ("element_random implementations", "arith/*.c, ecc/curve.c")])

p("P06", "Running out of memory always ends in a reported stop",
  "If the system allocator (malloc or realloc) fails at any point of any sequence of library calls, once or from then on, the process prints a fatal diagnostic and terminates with the library's fatal status; it never returns to the caller as if the call had succeeded, never crashes, hangs or recurses. This also holds for big-number storage in the memory-wiping build.",
  ["fault_sequences", "histories"],
  "every allocation index in every call sequence, one-shot and persistent failure, both build flavours",
  "Tests run with memory available; the number of failure points is the number of allocations in every history.",
  ["misc/memory.c", "misc/utils.c", "misc/extend_printf.c"],
  [("checked allocation wrappers", "misc/memory.c"), ("fatal error reporting", "misc/utils.c pbc_die, report")])

p("P07", "Every block is released exactly once and never overrun",
  "With any conforming allocator installed, in every history of library calls including calls that fail on bad parameters, bad text, bad bytes or entropy errors, each block obtained is returned exactly once through the matching function, no block is read or written outside its bounds or after release, and once everything created has been cleared nothing remains allocated.",
  ["histories", "fault_sequences", "configurations"],
  "all create/use/clear histories, including every failing call, for all families, options and parameter generators",
  "Tests do not count blocks, rarely clear everything, and almost never take the failing paths.",
  ["misc/memory.c", "arith/field.c", "ecc/param.c", "ecc/a_param.c", "ecc/d_param.c", "ecc/e_param.c", "ecc/f_param.c", "ecc/g_param.c", "ecc/curve.c", "arith/poly.c", "misc/symtab.c", "misc/darray.c", "arith/random.c"],
  [("allocator seam", "misc/memory.c pbc_set_memory_functions"), ("clear functions of every object", "arith/*.c, ecc/*.c")])

p("P08", "Results depend only on values, not on memory or history",
  "The outcome of every call - equality and sign tests, encodings, printed text, hashes and computed elements - is determined by the mathematical values of its operands: it is the same whatever uninitialised memory happened to contain, wherever blocks are placed or moved, whatever values the objects held earlier, and whether an operand was freshly created, copied, reset, decoded or reached by computation.",
  ["histories", "configurations", "inputs"],
  "all call sequences paired with all memory contents, placements and earlier object contents",
  "A test observes one heap layout with mostly zero pages and objects used once; stale limbs and uninitialised words only matter for particular histories.",
  ["arith/montfp.c", "arith/fasterfp.c", "arith/fastfp.c", "arith/naivefp.c", "ecc/curve.c", "arith/field.c", "arith/poly.c", "arith/fieldquadratic.c", "arith/ternary_extension_field.c", "arith/z.c", "arith/multiz.c"],
  [("lazy zero/infinity flags beside stale limbs", "arith/montfp.c, arith/fasterfp.c, ecc/curve.c inf_flag")])

p("P09", "Interleaved callers on separate pairings do not interact",
  "Several tasks that each own their pairing and elements may have their library calls suspended and resumed at arbitrary points inside each other, and may choose different options for their own pairings; each task still gets exactly the results it would have got running alone in a process of its own. (Process-wide settings - field implementation, allocator, random source, message switch - are set once before; computing class polynomials, and generation of types D and G from them, is outside.)",
  ["schedules", "histories"],
  "all interleavings of any number of tasks at the granularity of memory and randomness requests, all per-task workloads over pairings, elements, precomputation, parsing and printing",
  "Tests are single threaded and sequential; interference needs a switch in the middle of a call.",
  ["arith/field.c", "ecc/pairing.c", "ecc/d_param.c", "ecc/e_param.c", "ecc/g_param.c", "ecc/a_param.c", "ecc/curve.c", "arith/poly.c", "misc/extend_printf.c", "ecc/param.c"],
  [("process-wide mutable state reached from per-pairing calls", "ecc/d_param.c, ecc/e_param.c, ecc/g_param.c method pointers; arith/random.c")])

p("P10", "The memory-wiping build erases every block before release",
  "In the safe-clean build, every block of library and big-number storage is completely zero at the moment it is handed back to the system, including blocks abandoned by growing, shrinking or moving, in every history; and this build computes exactly the same results as the ordinary one.",
  ["histories", "fault_sequences"],
  "all call histories that allocate, resize and release storage",
  "The released memory is invisible to a test, and the tested build does not even enable the option.",
  ["misc/memory.c", "configure.ac"],
  [("wiping allocators", "misc/memory.c SAFE_CLEAN section")])

p("P11", "Printed output is complete, counted right and never overruns",
  "Printing elements and formatted messages to a stream or a bounded buffer produces, for every element type, format string and buffer size, the same text that the other printing calls produce for that value, returns the number of characters of that full text, and writes at most the given buffer size with a terminating zero. If the sink accepts only part of the data or fails, a print to a stream never reports success for characters that were not accepted.",
  ["inputs", "fault_sequences", "histories"],
  "all element values and formats, all buffer sizes, all sequences of sink errors and short writes",
  "Tests print to a healthy terminal and ignore return values.",
  ["misc/extend_printf.c", "arith/field.c", "ecc/curve.c", "arith/poly.c", "arith/fieldquadratic.c", "arith/multiz.c", "arith/ternary_extension_field.c"],
  [("format front-end", "misc/extend_printf.c do_print"), ("element printers", "snprint/out_str of every field")])

p("P12", "Damaged parameter text is rejected, intact text reloads alike",
  "Loading pairing parameters from text that lost lines or whole fields, has a malformed number, an unknown or missing family name, or is cut at the given length returns failure without crashing, hanging, leaking or reading past the given length, and does not affect other pairings. Text that contains every field - in any order, with comments, extra white space, repeated identical or unknown fields, or written back out and reloaded after a crash - always loads and gives the same groups and pairing.",
  ["inputs", "crash_points", "fault_sequences"],
  "all cut points, deletions, duplications, permutations and malformed tokens of parameter texts of all seven families, any sequence of good and bad loads",
  "Tests parse a handful of well-formed files.",
  ["ecc/param.c", "ecc/pairing.c", "ecc/a_param.c", "ecc/d_param.c", "ecc/e_param.c", "ecc/f_param.c", "ecc/g_param.c", "ecc/eta_T_3.c", "misc/symtab.c"],
  [("tokeniser and table", "ecc/param.c"), ("per-family field lookup", "ecc/*_param.c pbc_param_init_*"), ("writers", "ecc/*_param.c *_out_str")])

p("P13", "Generated parameters are valid for every random stream",
  "Whatever bits the random source returns - uniform, biased, or stuck for a while and then healthy - parameter generation for each family, for sizes that leave room for a cofactor (from 14 bits in type A, 22 in type E), terminates within a bounded number of draws once the source is healthy, and yields parameters whose group order has exactly the requested length (types A and E) and is prime where required, whose field size is close to the requested one (types A and E: at most two bits more, and in a good part of the draws of a uniform stream no more than four bits less; type F: within four bits from 60 bits on), whose stated orders divide the curve orders, and whose pairing is non-degenerate and bilinear after being written out and reloaded. The generator programs print such parameters for the sizes and discriminants they are given or default to and refuse discriminants outside their stated residue classes, and the class polynomials they rest on (as the polynomial program prints them) have the class number as degree and split modulo primes represented by the norm form.",
  ["inputs", "fault_sequences", "configurations"],
  "all random streams with bounded stuck or biased phases, all small requested sizes, all generator families",
  "Tests ship fixed parameter files and never run the generators with an unlucky stream.",
  ["ecc/a_param.c", "ecc/d_param.c", "ecc/e_param.c", "ecc/f_param.c", "ecc/g_param.c", "ecc/mnt.c", "ecc/hilbert.c", "gen/genaparam.c", "gen/gena1param.c", "gen/gendparam.c", "gen/geneparam.c", "gen/genfparam.c", "gen/gengparam.c", "gen/hilbertpoly.c"],
  [("parameter generators", "pbc_param_init_*_gen"), ("CM parameter search", "ecc/mnt.c")])

p("P14", "A calculator session survives bad input however it arrives",
  "In the calculator, a statement that is malformed, names an unknown symbol or is given unsuitable arguments (wrong number or kind, other field, zero divisor, missing item, reserved name) reports an error and leaves all previously defined variables and functions as they were, and every later statement prints what it would have printed without it. A malformed statement ends at its terminator or, when lines are read, at the end of its line. What well-formed statements print - integer, list, residue and extension arithmetic, comparisons, choices, function calls, pairings and their bilinearity - is right and does not depend on how the input arrives: script or standard input, reads of any size, long lines, layout and comments, a last line without a newline. Input cut at any byte loses at most the unfinished statement; the session never crashes or hangs and ends with status zero or the one given to exit. (Arithmetic with non-invertible nonzero values and square roots in rings that are not fields, assignments nested inside a failing statement, and exhausting memory or stack are outside.)",
  ["histories", "inputs", "fault_sequences"],
  "all statement sequences mixing good and bad statements, all chunkings of the input stream, end of input at every byte",
  "Tests run three fixed correct scripts from whole files.",
  ["pbc/pbc.c", "pbc/parser.y", "pbc/parser.lex", "pbc/pbc_getline.c"],
  [("tree evaluation and error values", "pbc/pbc.c"), ("line input", "pbc/pbc_getline.c"), ("grammar and lexer", "pbc/parser.y, pbc/parser.lex")])

p("P15", "Precomputation stays faithful for the life of its object",
  "A precomputed pairing or power object always gives the same result as the direct operation on the element it was created from, for every second argument or exponent including identity, zero and values at or beyond the group order, no matter how the original element is later changed or cleared, how often and in what order the object is used, and which other objects are created or cleared meanwhile.",
  ["histories", "inputs", "configurations"],
  "all histories of creating, using and clearing precomputed objects interleaved with mutation of their base, for all families and methods",
  "Tests use the object once, immediately, with the base intact and a random second argument.",
  ["ecc/pairing.c", "arith/field.c", "ecc/a_param.c", "ecc/d_param.c", "ecc/g_param.c", "include/pbc_pairing.h", "include/pbc_field.h"],
  [("pairing precomputation", "pp_init/pp_apply/pp_clear in ecc/*_param.c and ecc/pairing.c"), ("power tables", "arith/field.c element_pp_*")])

p("P16", "Elapsed time follows the clock",
  "The elapsed-time call returns zero the first time and afterwards the signed difference between the clock's present reading and its first reading, for every sequence of clock readings including backward jumps, sub-second borrows and long sleeps.",
  ["histories", "fault_sequences"],
  "all sequences of clock readings and jumps",
  "Tests do not control the clock.",
  ["misc/get_time.c"], [("elapsed time accumulation", "misc/get_time.c")])

p("P17", "Randomised algorithms are right for every random stream",
  "Square roots and residue tests in every field, root finding and irreducibility tests of polynomials, discrete logarithm search, square-root based point construction and non-residue generation give a correct answer for every sequence of random bits and every previously chosen non-residue: randomness may change only how long they take, and they finish within a bounded number of draws once the stream is uniform.",
  ["inputs", "fault_sequences", "histories"],
  "all random streams (uniform, biased, temporarily stuck), all inputs in fields of various shapes, any order of first use",
  "Tests use one stream and mostly large primes congruent to 3 mod 4; wrong answers need particular two-adic structure and particular non-residues.",
  ["arith/field.c", "arith/fp.c", "arith/poly.c", "arith/dlog.c", "arith/fieldquadratic.c", "ecc/curve.c"],
  [("Tonelli-Shanks and lazily generated non-residue", "arith/field.c, arith/fp.c"), ("poly_findroot, poly_is_irred", "arith/poly.c"), ("Pollard rho", "arith/dlog.c")])

p("N01", "Class polynomials and curve searches are mathematically exact",
  "For every admissible discriminant the computed Hilbert class polynomial has the exact integer coefficients, and the curve-parameter search returns exactly the solutions in its range.",
  ["inputs"], "all discriminants and bit limits",
  "Tests cover a few discriminants.",
  ["ecc/hilbert.c", "ecc/mnt.c", "ecc/mpc.c"], [("complex-analytic computation", "ecc/hilbert.c pbc_hilbert"), ("Pell equation search", "ecc/mnt.c")])
p("N02", "Running time reveals nothing about secret operands",
  "The sequence of operations performed by powering and pairing does not depend on secret exponents or points.",
  ["inputs"], "all secret values", "Timing is not observable in functional tests.",
  ["arith/field.c", "ecc/curve.c"], [("sliding-window powering", "arith/field.c generic_pow_mpz")])
p("N03", "Algebraic identities of a single field operation",
  "For each field implementation, each individual operation satisfies the field axioms for all operands.",
  ["inputs"], "all operands of a single operation", "Tests sample operands.",
  ["arith/montfp.c", "arith/fastfp.c", "arith/fasterfp.c", "arith/naivefp.c", "arith/fieldquadratic.c", "arith/poly.c", "arith/ternary_extension_field.c"], [("field operation tables", "arith/*.c")])
p("N04", "Windows-specific sources behave like the portable ones",
  "The Windows variants of the clock, entropy and option parsing sources satisfy the same guarantees as the portable ones.",
  ["configurations"], "all Windows builds", "The tests do not build them.",
  ["misc/get_time.win32.c", "arith/init_random.win32.c", "pbc/XGetopt.win32.c"], [("Win32 variants", "*.win32.c")])
with open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "properties.jsonl"), "w") as f:
    for d in P: f.write(json.dumps(d) + "\n")
for d in P:
    assert len(d["title"]) <= 80, (d["id"], len(d["title"]))
