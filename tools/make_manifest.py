#!/usr/bin/env python3
"""Writes MANIFEST.json from the table below."""
import json, os
TRUST = ('Trusted: TLC, the exact-arithmetic module override (itself checked by TLC against a TLA+ reference), the C++/Python drivers that '
         'serialise calls and outcomes, and the compiler. ')
C = {
 'C01': ('exact evaluation of the counting specification Crossing.tla in TLC + model-checked algorithm machine SweepAlg + conformance of recorded calls (ApiTrace.tla)',
         'Every question on small grids (all n <= bound, all pairs of lists on the grid, enumerated by TLC), and seeded random, structured and extreme questions of larger n, are answered by the real ecdf2 (direct) and every answer is compared by TLC to the exact rational value of the specification. Bounded: the grid is exhaustive, larger n is sampled.'),
 'C02': ('exact evaluation of Crossing.tla in TLC + model-checked SweepAlg + conformance of recorded calls (ApiTrace.tla)',
         'As C01 for ecdf2 with FFT, with questions built so that both the direct and the FFT convolution are used at every transform length up to the bound.'),
 'C03': ('exact evaluation of Crossing.tla in TLC + model-checked algorithm machine JumpAlg + conformance of recorded calls (ApiTrace.tla)',
         'As C01 for ecdf1_new_b and ecdf1_new_B; sizes cover every jump size regime of the algorithm.'),
 'C04': ('exact evaluation of Crossing.tla in TLC + model-checked algorithm machine PolyAlg + conformance of recorded calls (ApiTrace.tla)',
         'As C01 for ecdf1_mns2016_b and ecdf1_mns2016_B.'),
 'C05': ('relational sessions generated for and accepted by RelTrace.tla (TLC), laws model-checked on the exact specification',
         'Sessions of related calls (cut at a point, tighten, trivial boundaries) on the real functions, sizes up to several thousand; TLC checks the additive/monotone laws over the exact values of the returned doubles. The laws are checked exhaustively on the counting specification for small grids.'),
 'C06': ('relational sessions accepted by RelTrace.tla (TLC)',
         'The same question put to all algorithms (and the command line algorithms); TLC compares the outcomes. Sampled sizes, including thousands, where the exact count is out of reach.'),
 'C07': ('relational sessions accepted by RelTrace.tla (TLC), reflection law model-checked on the exact specification',
         'A question and its exact mirror image (dyadic boundaries so that 1-x is exact) put to all functions; TLC compares.'),
 'C08': ('TLC enumeration of valid and invalid lists + conformance of recorded calls (ApiTrace.tla)',
         'All lists over a small alphabet with NaN, infinities and out-of-range numbers at every position (enumerated by TLC), and one defect planted at every position of longer lists; the outcome (number or error) is decided by the specification. Runs on the sanitised build too.'),
 'C09': ('character-level TLA+ reader BoundaryFile.tla; TLC enumerates texts and decides recorded readings (FileTrace.tla)',
         'All texts up to a bound over a small alphabet, all concatenations of tokens, and sampled long files are read by the real reader; correct rounding is decided exactly by TLC.'),
 'C10': ('TLC-enumerated command lines and files; stage machine Cli.tla decides each recorded run (CliTrace.tla)',
         'The real program is run on every combination of algorithm name, argument count and file class enumerated by TLC, plus sampled files; output, message and exit status are decided by the specification, values exactly.'),
 'C11': ('conformance of recorded Python calls with PyTrace.tla (TLC)',
         'The module (committed wrapper and a freshly SWIG-generated one) is called with enumerated argument kinds and values; TLC decides the value exactly, the exception class and the recorded reference counts.'),
 'C12': ('index machines with inductive invariants (Apalache, unbounded) refined by the algorithm machines (TLC); TLC-generated call histories; conformance of recorded sessions with ApiTrace.tla, on sanitised builds and under valgrind',
         'Histories of calls (successful and failing, all algorithms, sizes shrinking and growing) generated by the model are replayed in one process; outcomes must be those of the specification. Memory errors are observed as crashes of an instrumented build.'),
 'C13': ('statistical conformance with MCEstimate.tla: TLC computes the exact probability and the acceptance interval of k (MCTrace.tla)',
         'Runs under a controlled clock; a run is rejected if k is outside an interval that a correct program leaves with probability < 1e-9 in the whole check. With the clock fixed the outcome of the check is deterministic for given sources.'),
 'C14': ('statistical conformance with MCEstimate.tla: TLC computes the exact Poisson probability and the acceptance interval of k (MCTrace.tla)',
         'As C13 for the Poisson process.'),
 'C15': ('TinyMT64 written in TLA+ on bit vectors (TinyMT.tla; TinyMTPeriod.tla: full period), recorded streams decided by TLC (TinyMTTrace.tla), run pairs by MCRuns.tla',
         'Streams for many seeds, seed arrays and parameter sets are compared with the TLA+ generator output by output; ranges of all real-valued variants are decided exactly. Reproducibility is decided over pairs of runs with the clock controlled.'),
 'C16': ('TLC-enumerated command lines and files; stage machine Cli.tla decides each recorded run (CliTrace.tla)',
         'As C10 for crossprob_mc: enumerated commands, counts and file classes.'),
 'C17': ('model-checked ConvAlg, refining ConvIndex whose invariant is inductive (Apalache); recorded request histories decided exactly by TLC (ConvTrace.tla)',
         'Histories of request sizes (all short histories over small sizes, sampled long ones) on real FFTWConvolver objects; TLC evaluates the linear convolution exactly. If the internal class cannot be driven, the check falls back to the public functions.'),
 'C18': ('exact rational exponential in TLA+ (Exp.tla), recorded request histories decided by TLC (PoissonTrace.tla)',
         'Values for lambda from 0 to 10^4 and beyond and k up to 10^4 via all three ways, in many histories; TLC encloses e^-lambda lambda^k/k! rationally and compares.'),
 'C19': ('cost machine model-checked against the documented growth (Cost.tla, CostMC.tla); instruction counts of real calls decided by TLC (CostTrace.tla)',
         'Instructions executed by the real functions (counted by valgrind, so independent of the load of the machine) for families of questions of growing size: TLC checks them against a multiple of the documented growth and from one size to the next. The multiple is four times what the code needs, so a constant factor below that is not noticed; sizes are bounded.'),
 'C20': ('model-checked store machine (Store.tla); all its histories replayed into pickler.py and decided by TLC (StoreTrace.tla)',
         'All histories of the model up to the bound over two names and two values, and long random histories over 8 awkward names and 12 field sets, with and without process restarts.'),
 'C21': ('exact statistic, order statistic distributions and crossing counts in TLA+ (MnPlus.tla, model-checked); recorded calls decided by TLC (MnPlusTrace.tla)',
         'The statistic, its bounds, its distribution, its inverse and the stored tables of benchmarks/exactbj.py are called with samples, levels and sizes up to some tens (exactly) and up to 2000 (statistic, some bounds, distribution by two algorithms; plots are not made); TLC evaluates the binomial tails and the crossing probability exactly. Needs the Python with scipy of the toolchain.'),
 'C22': ('resource machine whose verdict is model-checked (Held.tla); recorded rounds of real calls decided by TLC (HeldTrace.tla)',
         'Allocated blocks, bytes and open files are counted (malloc is replaced by a counting one) after each of 15 rounds of the same calls in another order, or with other numbers; TLC decides by the rule that Held.tla shows to be right for everything that a call may keep. Histories are sampled: every algorithm, every kind of error and of Python argument.'),
}
m = {'version': 1,
     'setup_cmd': 'python3 check.py setup',
     'checks': [{'property': p, 'quick_cmd': 'python3 check.py ' + p, 'thorough_cmd': 'VERIF_TIER=thorough python3 check.py ' + p,
                 'technique': t, 'level': 'model_checking', 'level_note': n + ' ' + TRUST.strip()} for p, (t, n) in C.items()],
     'not_applicable': [],
     'notes': 'No hooks: the checks drive public functions, programs and the Python module built from /repo. Everything is written under /verif/build and /verif/evidence (both ignored by git). VERIF_SEED selects the sampled part.'}
json.dump(m, open(os.path.join(os.path.dirname(os.path.realpath(__file__)), '..', 'MANIFEST.json'), 'w'), indent=1)
