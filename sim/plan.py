# Which builds each property is explored in, and how many seeded runs: (flavour, quick, thorough).
ASSUME = ["GMP, glibc and the compiler are correct", "one seed is one execution: all allocation, randomness, files, clock and scheduling go through the simulated seams"]
PLAN = {
 "P01": dict(level="exploration", legs=[("plain", 2600, 60000)],
   technique="seeded multi-party runs with message loss, duplication, reordering, crash/restart and entropy faults, checked against an exponent ledger and GMP reference curve",
   note="Seeded search, not exhaustive: every value every party computes is compared with a ledger of discrete logs and independent curve arithmetic, over toy and shipped parameters of all families, all backends and pairing methods. Trusts GMP and the observer's naive add-only chain."),
 "P02": dict(level="exploration", legs=[("plain", 2000, 40000)],
   technique="seeded runs storing and reloading values across crashes, torn and short writes, exact-size guarded buffers, compared with the values before the crash",
   note="Seeded search over all element kinds, encodings, backends and crash points."),
 "P03": dict(level="exploration", legs=[("plain", 4000, 100000)],
   technique="seeded injection of corrupted, truncated, replayed and hostile bytes and text into decoders in front of unmapped pages, results checked against GMP curve and residue oracles",
   note="Seeded search over damage; buffers end at an unmapped page so any over-read faults."),
 "P04": dict(level="exploration", legs=[("plain", 5000, 150000)],
   technique="seeded simulated entropy files with open failures, short reads, early end, errors and recovery; draws replayed from the delivered bytes",
   note="Two executions per seed with different ambient memory; delivered bytes must determine every result."),
 "P05": dict(level="exploration", legs=[("plain", 450, 12000)],
   technique="seeded workloads run three times with different memory contents, clock, C-library generator and prior work under one simulated random source; transcripts compared, and a fourth stream must differ",
   note="Seeded search over all randomised calls; equality of three executions per seed. Ambient inputs not wrapped (addresses are fixed) are not varied."),
 "P06": dict(level="exploration", legs=[("plain", 7000, 200000), ("safe", 4000, 120000)],
   technique="seeded failure of the k-th system allocation, once or for good, in workloads over the whole library in the ordinary and memory-wiping builds",
   note="GMP's own storage in the ordinary build is GMP's responsibility and does not fail there; application-supplied allocators are outside."),
 "P07": dict(level="exploration", legs=[("plain", 800, 20000), ("asan", 150, 3000)],
   technique="seeded workloads including failing calls under a counting allocator with red zones, moves, reuse and poisoned released blocks; also in an address- and bounds-sanitised build",
   note="Seeded search; out-of-bounds reads are only seen in the sanitised leg."),
 "P08": dict(level="exploration", legs=[("plain", 4500, 90000)],
   technique="seeded call histories executed three times with different fresh-memory contents, placement, moves and reuse, operands replaced by equal ones reached differently, results written over operands or used objects, and unrelated earlier work; transcripts compared",
   note="Seeded search; the three executions of a seed must agree on every observation and computed value."),
 "P09": dict(level="exploration", legs=[("plain", 320, 8000), ("trace", 320, 8000)],
   technique="seeded scheduler interleaving tasks at every allocation, release and random draw, and at basic blocks of instrumented library code, compared with each task alone in its own process",
   note="Seeded search over schedules of 2-4 tasks. GMP calls are not interrupted. Class polynomial computation is outside."),
 "P10": dict(level="exploration", compare=True, legs=[("safe", 700, 15000), ("plain", 700, 15000)],
   technique="seeded workloads in the memory-wiping build with every released block inspected, and the same seeds in the ordinary build with equal results",
   note="Blocks are inspected at the system free/realloc; copies on the stack are outside the property."),
 "P13": dict(level="exploration", legs=[("plain", 5000, 100000)],
   technique="seeded random streams, biased or stuck for a while, driving parameter generation; the result is written out, reloaded and checked with GMP primality, divisibility and pairing tests, and draws are bounded",
   note="Small requested sizes so that unlucky draws are common; type D and G from a table of discriminants. The generator programs run inside the simulator with their output captured (not listmnt and listfreeman, which never end)."),
 "P15": dict(level="exploration", legs=[("plain", 1500, 40000)],
   technique="seeded histories of precomputed objects whose originals are changed, cleared and their storage reused, compared with the direct operation on a kept copy and with plain repeated multiplication",
   note="Changing a pairing's method option while its precomputed objects are alive, and negative exponents, are outside."),
 "P11": dict(level="exploration", legs=[("plain", 4000, 100000)],
   technique="seeded printing of all element kinds and formats to failing, short and full simulated sinks and bounded guarded buffers, cross-checked between printing calls",
   note="GMP's own miscounting with %Z on failing sinks is outside; multiz and ternary elements are checked on streams only."),
 "P12": dict(level="exploration", legs=[("plain", 900, 30000)],
   technique="seeded damage (lost, torn, garbled, noisy text) and rewriting of parameter files loaded from guarded buffers under a counting allocator, with a bystander pairing as interference monitor",
   note="Numbers follow GMP's syntax. Fields the loader does not read (k for type g, n0.. for a1) are not required."),
 "P17": dict(level="exploration", legs=[("plain", 4500, 100000)],
   technique="seeded random streams with stuck and biased phases and forced non-residues driving square roots, root finding, irreducibility, discrete logarithms and point construction, checked against GMP and brute-force oracles within a bounded number of draws",
   note="Seeded search over small and awkward fields where wrong branches are common."),
 "P14": dict(level="exploration", legs=[("plain", 2200, 40000), ("asan", 200, 4000)],
   technique="seeded calculator sessions of well-formed and faulty statements, run on simulated input and output as a script and line by line, with chunked reads, varied layout and input cut at any byte; every printed line compared with a reference evaluator and between executions",
   note="The readline variant of the line reader and the unused old calculator are not built. Printed random elements are not compared, only relations between them."),
 "P16": dict(level="exploration", legs=[("plain", 60000, 600000)],
   technique="seeded simulated clock with jumps, borrows and stalls, elapsed time compared with exact rational differences",
   note="The clock is entirely simulated."),
}
NA = {
 "N01": "Purely numerical and deterministic: no schedule, fault, time or randomness for the result to depend on, so simulation has nothing to vary. (P13 samples the class polynomials generation rests on.)",
 "N02": "A statement about physical time and side channels; the simulator replaces time and sees only values, so it cannot observe it.",
 "N03": "Single-operation algebra over all operands has no schedule or fault dimension; only its visible consequences in multi-step histories are covered (P01, P08, P17).",
 "N04": "The Windows sources cannot be compiled or run in this sandbox.",
}
