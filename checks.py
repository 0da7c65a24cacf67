"""Which workloads and monitors decide each property."""
from run_check import Job

CHECKS = {}


def check(pid, technique, jobs, distinct, rule, floors=None, evaluations="cases", assumptions=None, kinds=None):
    CHECKS[pid] = dict(kinds=kinds, technique=technique, jobs=jobs, distinct=distinct, rule=rule, floors=floors or {}, evaluations=evaluations,
                       assumptions=assumptions or ["the compilers and sanitizer runtimes are trusted",
                                                   "the reference arithmetic in harness/ref.h is trusted"])


def three(h, mode, quick, thorough, **kw):
    """The same workload on the scalar, SSE and AVX release builds."""
    return [Job(h, mode, v, quick, thorough, **kw) for v in ("OFF", "SSE", "AVX")]


check("C01", "runtime monitoring: offline comparison of decoded data over random survivor sets, three build configurations",
      three("h_codec.fnt", "anyk-fnt", 2000, 60000), ["patterns"],
      "A case is one code (k, m, word size, symbol type, packet size), one content and several survivor sets; content is biased to "
      "make output symbols exceptional. Distinct: (code, survivor set) pairs actually decoded and compared byte for byte.",
      {"decodes": 5000, "encodes_with_oor_marks": 100, "fragments_compared": 10000})
check("C02", "runtime monitoring: offline comparison of decoded data over random and exhaustive survivor sets, three build configurations",
      three("h_codec.other", "anyk-other", 500, 20000), ["patterns"],
      "As C01 for the six other codes; small codes have all their k-subsets enumerated.",
      {"decodes": 5000, "fragments_compared": 10000, "exhaustive_codes": 20})
check("C03", "runtime monitoring: refusal monitor and untouched-output monitor over under-provisioned decodes",
      three("h_codec", "toofew", 500, 15000) + [Job("h_capi", "fewc", v, 250, 8000) for v in ("OFF", "AVX")], ["patterns"],
      "A case encodes once and decodes with fewer than k fragments (none, k-1, random; only data; only parity), checks the refusal, "
      "the outputs, and that the same object still decodes. Distinct: (code, survivor set) pairs.",
      {"refusals_checked": 2000, "too_few_calls": 1000, "recovered_after_refusal": 300})
check("C04", "runtime monitoring: byte comparison through the C interface over random survivor sets and targets",
      three("h_capi", "capi", 700, 30000), ["patterns"],
      "A case is one geometry of the C interface and one content; all blocks are encoded, then decoded and single blocks rebuilt from "
      "survivor sets of size >= k. Distinct: (geometry, survivor set[, target]).",
      {"decode_calls": 3000, "reconstructed_data": 1000, "reconstructed_parity": 1000, "metadata_exactly_full": 5})
check("C05", "AddressSanitizer/UBSan on exact-size caller blocks, canary monitor and input-immutability monitor, fault injection on metadata",
      [Job("h_capi", "contract", v, n, t) for v, n, t in (("OFF", 300, 10000), ("AVX", 300, 10000), ("aOFF", 350, 12000), ("aAVX", 350, 12000))]
      + [Job("h_capi", "damaged", v, n, t) for v, n, t in (("AVX", 300, 10000), ("aOFF", 250, 10000))]
      + [Job("h_capi", "badargs", "aOFF", 60, 400)], ["patterns", "wishes", "damage"],
      "Every caller block is an exact heap allocation under AddressSanitizer, or stands between canaries; optional entries are NULL; "
      "inputs and unrequested blocks are compared before and after. Distinct: (geometry, survivor set or wish mask or damage).",
      {"partial_wishes": 200, "damaged_calls": 1000, "decode_calls": 2000})
check("C07", "runtime monitoring: markers compared with an independent evaluator of the code",
      three("h_codec.prime", "marks", 600, 25000), ["inputs"],
      "A case encodes content in which chosen output symbols are forced to values that do not fit a word and compares every marker, "
      "and every marked word, with an independent evaluation of the code. Distinct: (code, content).",
      {"marks_expected": 5000, "fragments_with_marks": 1000, "symbols_compared": 100000})
check("C08", "runtime monitoring: differential monitor across builds, processing modes, packet sizes, symbol types and stream chunkings",
      [Job("h_codec", "xcfg", v, 330, 15000, digest=True) for v in ("OFF", "SSE", "AVX")], ["inputs"],
      "The same cases run in three builds; within a build every mode, packet size, symbol type, stream chunking and prefix is compared, "
      "across builds the digests of fragments, markers and decoded data. Distinct: (code, content).",
      {"mode_pairs": 1500, "packet_pairs": 1500, "type_pairs": 300, "prefix_pairs": 300, "digests_compared_across_builds": 1000})
check("C09", "runtime monitoring: fragments compared with an independent reference evaluator",
      three("h_codec", "ref", 500, 20000), ["inputs"],
      "Every word of every fragment is compared with an independent evaluator of the code (own field arithmetic, own generator matrix).",
      {"symbols_compared": 100000})
check("C17", "runtime monitoring: history checker against fresh objects",
      [Job("h_codec", "reuse", v, n, t) for v, n, t in (("OFF", 250, 9000), ("AVX", 350, 12000))], ["histories"],
      "A case is a random history of encodes, decodes and refused decodes on one object; every result is compared with a fresh object "
      "and with the original data. Distinct: history prefixes.",
      {"encodes": 500, "decodes": 2000, "refusals": 200, "stale_props_calls": 200})
check("C19", "runtime monitoring: round-trip monitor over stream lengths and chunkings",
      three("h_codec", "lengths", 800, 20000), ["lengths"],
      "A case runs several round trips of lengths around packet boundaries, empty included, through all modes. Distinct: (code, mode, packet, length).",
      {"round_trips": 3000, "empty": 200, "whole_packets": 300, "partial_last_packet": 500})
check("C06", "runtime monitoring with AddressSanitizer: round-trip oracle and damaged-form injection on exact-size buffers",
      [Job("h_props", m, v, n, t) for m, n, t in (("binary", 20000, 800000), ("damaged", 20000, 800000), ("text", 12000, 400000)) for v in ("OFF", "aOFF")],
      ["shapes"],
      "A case writes one random marker list to its binary or text form (buffers from too small to larger than needed) and reads it back, or "
      "reads a damaged form; the stored form is also parsed independently. Distinct: (list length or content, buffer size, damage kind).",
      {"binary_round_trips": 3000, "refused_small": 500, "damaged_forms": 5000, "text_round_trips": 3000, "guards_checked": 2000})
check("C14", "runtime monitoring: every helper's result compared with an independent oracle; UBSan on the same workload",
      [Job("h_arith", "arith", "OFF", 60000, 2000000), Job("h_arith", "arith", "aOFF", 12000, 300000)], ["facts"],
      "A case calls each helper of one group in three integer types on random and boundary operands; numbers to factor are built from known "
      "primes. Distinct: (function, type, operands).", {"facts_checked": 100000, "numbers_factored": 2000, "code_lengths": 5000})
check("C10", "runtime monitoring: scalar field operations compared with independent field arithmetic, small fields exhaustively",
      three("h_field.scalar", "scalar", 2500, 120000) + [Job("h_field.scalar", "scalar", "aOFF", 400, 15000)], ["operands"],
      "A case picks one field and symbol type and applies every scalar operation to boundary and random elements (all pairs in fields of up "
      "to 17 elements). Distinct: (field, operand pair).", {"results_compared": 200000, "logs": 200, "packings": 1000, "fields_exhausted": 50})
check("C11", "runtime monitoring: bulk and SIMD operations compared element-wise with independent arithmetic, guard zones around every operand",
      three("h_field.bulk", "bulk", 4000, 200000) + [Job("h_field.bulk", "bulk", v, 600, 25000) for v in ("aOFF", "aAVX")], ["shapes"],
      "A case picks one field, symbol type and length (vector tails included) and runs every bulk operation. Distinct: (field, length, placement).",
      {"elements_compared": 1000000, "guards_checked": 10000, "packet_sets": 2000})
check("C12", "runtime monitoring: generators, roots, orders and code lengths compared with independent group arithmetic",
      three("h_field.roots", "roots", 2000, 100000) + [Job("h_field.roots", "roots", "aOFF", 300, 10000)], ["roots"],
      "A case picks one field and queries generator, roots, orders and lengths, each twice. Distinct: (field, root index or element or length).",
      {"results_compared": 50000, "generators_checked": 1000, "primitive_elements": 200, "code_lengths": 5000})
check("C13", "runtime monitoring: every transform compared with the defining sum evaluated independently, guard zones and input-immutability monitors, three builds; ASan/UBSan on the same workload",
      [Job("h_fft", "vector", "OFF", 4000, 120000), Job("h_fft", "vector", "SSE", 1000, 30000), Job("h_fft", "vector", "AVX", 1500, 50000)] + three("h_fft", "buffer", 1600, 60000)
      + [Job("h_fft", "vector", "aOFF", 600, 16000), Job("h_fft.buffer", "buffer", "aAVX", 250, 8000), Job("h_fft", "buffer", "aOFF", 150, 6000)], ["shapes"],
      "A case picks one field, variant and length, several inputs (short, zero-extended, sliced, boundary values), and compares forward, "
      "inverse and unscaled inverse transforms with an independent mixed-radix evaluation. Distinct: (field, variant, length, input length, packet size).",
      {"values_compared": 500000, "variant_radix2": 100, "variant_additive": 300, "variant_cooley-tukey": 300, "variant_good-thomas": 300, "variant_large": 100,
       "variant_buf_radix2": 300, "taylor_expansions": 40, "refusals": 10})
check("C18", "runtime monitoring: model-based checker over random histories of container operations, guard zones; AddressSanitizer on the same histories",
      [Job("h_vec", m, v, n, t) for m, a, b, t in (("vector", 1200, 400, 30000), ("buffers", 1000, 350, 30000), ("cast", 1000, 400, 30000))
       for v, n in (("OFF", a), ("SSE", a // 2), ("AVX", a), ("aOFF", b), ("aAVX", b))], ["histories"],
      "A case is a random history of constructions (owned, wrapped, sliced, strided, zero-extended, combined, shuffled), operations, copies, moves "
      "and destructions over one set of containers; after every operation the whole visible content of all of them is compared with a model of the "
      "memory cells they share. Distinct: history prefixes.",
      {"operations": 50000, "elements_compared": 1000000, "copies": 1000, "move_constructed": 50, "copy_assigned": 200, "move_assigned": 50, "slices_moved": 100, "views_changed": 500,
       "rows_replaced": 200, "separations": 200, "packings": 500, "allocations": 5000, "made_zero-extended": 300, "made_shuffled": 50})
check("C20", "runtime monitoring: matrices, generators and polynomials compared with independent linear algebra; ASan/UBSan on the same workload",
      [Job("h_alg", m, v, n, t) for m, a, b, t in (("matrix", 1800, 400, 40000), ("poly", 1800, 400, 40000)) for v, n in (("OFF", a), ("aOFF", b))],
      ["operands"],
      "A case inverts, multiplies or generates matrices over four symbol types (structured, singular, needing row exchanges), or runs a random "
      "history of polynomial operations; generators of up to 130 row subsets have all of them tested. Distinct: operands and histories.",
      {"inverted": 500, "singular_refused": 200, "subsets": 5000, "generators_exhausted": 50, "cauchy": 200, "vandermonde_ec": 200,
       "polynomial_operations": 10000, "derivatives": 500, "multiplications": 500})
check("C16", "ThreadSanitizer on concurrent construction, use and destruction; comparison of every result with the same job run alone; injected yields and delays",
      [Job("h_thread", "threads", "tOFF", 60, 6000), Job("h_thread", "threads", "tAVX", 60, 6000), Job("h_thread", "threads", "AVX", 240, 20000), Job("h_thread", "threads", "OFF", 120, 10000)],
      ["interleavings"],
      "A case starts 2 to 6 threads that construct, use and destroy their own codecs, fields, transforms and C handles at the same time (mostly of the "
      "same class), with yields and delays inside the streams the codecs read from; the jobs are then repeated alone. Distinct: orders in which the "
      "threads' steps were observed.", {"jobs_compared": 1000, "events_while_others_active": 10000, "codec_jobs": 500, "field_jobs": 200, "c_interface_jobs": 50})


check("C21", "runtime monitoring: printed text parsed back and compared with the values printed; operation counters compared with the operations requested; ASan/UBSan on the same workload",
      [Job("h_diag", m, v, n, t) for m, a, b, t in (("decimal", 1500, 400, 60000), ("hexdump", 1500, 500, 60000), ("dumps", 600, 200, 30000), ("counters", 600, 100, 20000))
       for v, n in (("OFF", a), ("aOFF", b))] + [Job("h_codec.fnt", "stats", v, 300, 10000) for v in ("OFF", "AVX")], ["texts"],
      "A case prints 128-bit integers, containers or bytes and parses the text, compares the announced cost of a radix-2 transform with the definition, "
      "or compares the operation counters of a codec with what it was asked to do. Distinct: texts and operations.",
      {"values_printed": 50000, "hex_dumps": 1500, "dumps": 4000, "counters_compared": 500, "operation_counts": 2000, "streams_that_fill_up": 3000})


check("C22", "runtime monitoring: whole-directory comparison after coding, loss and repair of files by separate processes of the command-line driver; ASan/UBSan on the same runs",
      [Job("h_files", "files", v, n, t) for v, n, t in (("OFF", 280, 12000), ("AVX", 280, 12000), ("aOFF", 90, 4000))], ["losses"],
      "A case writes data files into a directory of its own, codes them, then twice loses files so that k fragments or more remain and repairs; every "
      "run of the driver is a process of its own. After each repair every file of the directory is compared with what it was. Distinct: (code, lost files).",
      {"codings": 400, "repairs": 800, "files_compared": 10000, "files_lost": 2500, "codings_with_markers": 50, "data_files_lost": 1000})


def asan(h, mode, off, avx, f=40):
    return [Job(h, mode, "aOFF", off, off * f)] * bool(off) + [Job(h, mode, "aAVX", avx, avx * f)] * bool(avx)


def memcheck(h, mode, n, f=40):
    return [Job(h, mode, "vSSE", n, n * f, vg=True, hang=240)]


check("C15", "AddressSanitizer, LeakSanitizer and UndefinedBehaviorSanitizer with the library's assertions enabled, and valgrind memcheck, on the workloads of all other checks",
      asan("h_codec.prime", "anyk-fnt", 90, 0) + asan("h_codec.prime", "marks", 50, 0)
      + asan("h_codec", "anyk-fnt", 0, 110) + asan("h_codec", "anyk-other", 0, 110) + asan("h_codec", "toofew", 0, 60)
      + asan("h_codec", "reuse", 0, 45) + asan("h_codec", "lengths", 0, 60) + asan("h_codec", "marks", 0, 45)
      + asan("h_capi", "capi", 60, 60) + asan("h_capi", "contract", 60, 60) + asan("h_capi", "badargs", 40, 0)
      + asan("h_props", "binary", 800, 0) + asan("h_props", "damaged", 800, 0) + asan("h_props", "text", 500, 0)
      + asan("h_fft", "vector", 200, 0) + asan("h_fft", "buffer", 150, 0) + asan("h_fft.buffer", "buffer", 0, 150)
      + asan("h_vec", "vector", 120, 0) + asan("h_vec", "buffers", 120, 0) + asan("h_vec", "cast", 120, 0)
      + asan("h_alg", "matrix", 150, 0) + asan("h_alg", "poly", 150, 0)
      + asan("h_field.scalar", "scalar", 150, 0) + asan("h_field.bulk", "bulk", 200, 0) + asan("h_field.roots", "roots", 120, 0) + asan("h_arith", "arith", 500, 0)
      + memcheck("h_codec", "anyk-fnt", 16, 80) + memcheck("h_codec", "anyk-other", 16, 80) + memcheck("h_codec", "toofew", 8, 80) + memcheck("h_capi", "contract", 16, 80)
      + memcheck("h_fft", "buffer", 32, 60) + memcheck("h_fft", "vector", 32, 60),
      ["patterns", "inputs", "histories", "lengths", "shapes", "operands", "roots", "facts", "wishes", "damage"],
      "The workloads of the other checks, run for what the instrumentation reports: out-of-bounds and dead accesses, uninitialised values that reach a "
      "decision, undefined behaviour, failed assertions, leaks. Wrong results are left to the other checks. Distinct: as in those checks.",
      {"decodes": 500, "values_compared": 50000, "operations": 3000},
      kinds=("memory", "undefined", "leak", "assertion", "uninitialised", "crash", "hang"))
