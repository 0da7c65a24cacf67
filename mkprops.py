#!/usr/bin/env python3
"""Writes properties.jsonl (kept as code so that the statements stay readable)."""
import json
P = []
def p(id, title, statement, over, text, why, files, mech, state, obs):
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text),
                  why_tests_cant=why,
                  anchors=dict(files=files,
                               mechanism=[dict(name=m, where=", ".join(files[:3])) for m in mech],
                               state=[dict(name=m, meaning=m, where=files[0]) for m in state],
                               observe_at=obs, hook_needed=None)))

p("C01", "Any k of the n fragments restore the data: Fermat transform codes",
  "For the Fermat-number transform codes, systematic and non-systematic, decoding any set of at least k of the k+m fragments produced by encoding (with the markers the encoder attached to them) succeeds and returns every requested data fragment byte for byte. This holds for every supported k, m, word size, symbol type, packet size and fragment content, through memory blocks and through streams, on every build configuration.",
  ["inputs", "configurations"],
  "All k, m up to the code length limit, all contents including those whose code symbols do not fit a word, all survivor sets of size >= k, all packet sizes and processing modes.",
  "fec_utest encodes random 50-word vectors for a few (k, m) and one random survivor set each; exceptional symbols occur there once per 65537 symbols.",
  ["src/fec_base.h", "src/fec_rs_fnt.h", "src/fec_context.h", "src/fec_vectorisation.cpp", "src/fft_2n.h", "src/property.h"],
  ["encode/decode through FFT and Lagrange interpolation", "markers re-applied before decoding"],
  ["decoding context", "fragment markers"], ["encode/decode of blocks and streams"])
p("C02", "Any k of the n fragments restore the data: all other codes",
  "For the binary-extension-field codes (Vandermonde and Cauchy matrix, multiplicative FFT, additive FFT), the prime-field FFT code and the packed Fermat code, decoding any set of at least k of the k+m fragments succeeds and returns every requested data fragment byte for byte. This holds for every supported k, m, word size, symbol type and fragment content on every build configuration.",
  ["inputs", "configurations"],
  "All k, m, word sizes 1 to 16 bytes, contents and survivor sets of size >= k.",
  "The unit tests sample one random survivor set for a few (k, m); the Cauchy matrix in particular is only exercised with one erasure pattern.",
  ["src/fec_base.h", "src/fec_rs_gf2n.h", "src/fec_rs_gf2n_fft.h", "src/fec_rs_gf2n_fft_add.h", "src/fec_rs_gfp_fft.h", "src/fec_rs_nf4.h", "src/vec_matrix.h"],
  ["matrix or FFT encoding", "decoding matrix inversion or Lagrange interpolation"],
  ["decoding context", "generator matrix"], ["encode/decode of streams and blocks"])
p("C03", "Too few fragments are refused, never answered",
  "When fewer than k fragments are available, decoding reports failure, writes nothing to any output, and leaves the codec fully usable for later operations. Reconstruction and decoding through the C interface report -1 in the same situation and leave every caller buffer unchanged.",
  ["inputs", "histories"],
  "All codes, all survivor sets of size < k (none, only data, only parity, mixed), interleaved with successful decodes on the same object.",
  "No existing test decodes with fewer than k fragments.",
  ["src/fec_base.h", "src/quadiron_c.cpp", "src/fec_rs_nf4.h"], ["fragment counting before decoding"], ["fragment counters"], ["return value and outputs of decode"])
p("C04", "C interface: encode, decode and reconstruct are byte exact",
  "Through the C interface, after encoding k data blocks any k surviving blocks (metadata included) let decode restore all data blocks, and let reconstruct rebuild any chosen missing block, data or parity, exactly as encoding produced it including its metadata. A call either does this and returns 0, or returns -1.",
  ["inputs", "configurations"],
  "Systematic and non-systematic, word sizes 1 and 2, all k, m, block sizes that are multiples of the word size, all survivor sets of size >= k, contents dense in exceptional symbols, every reconstruction target.",
  "The C test uses one (3 data, 3 parity) geometry, one block size and random content.",
  ["src/quadiron_c.cpp", "src/quadiron_c.h", "src/property.h", "src/fec_base.h"], ["metadata headers in front of each block", "decode then re-encode in reconstruct"], ["block headers"], ["the five C entry points"])
p("C05", "C interface: only the documented buffers are written",
  "The C interface never reads or writes outside block_size + metadata_size of the buffers it is given, accepts NULL for the entries documented as optional, and leaves surviving input blocks and blocks nobody asked for unchanged. The metadata area it fills is completely initialised and fits the advertised metadata size.",
  ["inputs"],
  "All geometries (more data than parity and the reverse), word sizes, wanted masks, missing masks and NULL patterns the documentation allows.",
  "The C test gives every buffer, wants every output, and has no guard zones.",
  ["src/quadiron_c.cpp", "src/quadiron_c.h", "src/property.h"], ["pointer tables built from caller arrays", "metadata serialisation"], ["caller buffers"], ["buffers with guard zones under AddressSanitizer"])
p("C06", "Fragment markers survive storage; malformed markers are refused",
  "Writing fragment markers to their binary form and reading them back, or to their text form and back, yields the same markers in the same order; a buffer too small for them is refused without being written past its end. Reading a binary form that is truncated, has a wrong signature or announces more entries than the buffer holds is refused without reading out of bounds and without adding markers.",
  ["inputs"],
  "All marker lists (empty to capacity), all buffer capacities including exactly full, all corrupted headers, all announced counts up to 2^32-1.",
  "property tests: a single text round trip; the binary form is only reached through the C test with nearly empty lists.",
  ["src/property.h", "src/property.cpp"], ["binary serialisation", "text serialisation"], ["marker list"], ["serialize/deserialize functions"])
p("C07", "Markers name exactly the exceptional symbols",
  "After encoding with a prime-field code, the markers of each fragment list, in increasing position and without duplicates, exactly those symbols whose value does not fit the word, and the stored word of such a symbol is its value reduced to what the decoder expects. Nothing beyond the end of the fragment is ever marked.",
  ["inputs", "configurations"],
  "Contents constructed so that chosen output symbols become exceptional: at packet edges, in vector lanes and tails, several per packet, in all outputs; all packet sizes and build configurations.",
  "Random content reaches an exceptional symbol about once per 65537 symbols, so tests almost never have two in one vector register or one in the tail.",
  ["src/fec_rs_fnt.h", "src/fec_rs_gfp_fft.h", "src/fec_rs_nf4.h", "src/fec_vectorisation.cpp", "src/simd_fnt.h", "src/simd_nf4.h"], ["post-processing after encoding"], ["fragment markers"], ["markers after encode, against an independent evaluation"])
p("C08", "Same fragments from every build, processing mode and symbol type",
  "For a given code, word size, k and m, the fragments and markers are a function of the data alone: scalar, SSE and AVX builds, block, vertical-stream and horizontal-stream processing, every packet size, every chunking of the input streams and every admissible symbol type produce identical bytes and markers, and each decodes the others' output. Encoding a prefix of the data yields the prefix of the fragments, and repeating an operation repeats its result.",
  ["configurations", "inputs"],
  "All pairs of configurations and modes over sampled codes and contents.",
  "Each test process runs in one configuration and compares only with itself.",
  ["src/fec_base.h", "src/simd_128.h", "src/simd_256.h", "src/simd_fnt.h", "src/simd_nf4.h", "src/simd_ring.h", "src/simd_radix2_fft.h", "src/fec_vectorisation.cpp", "src/gf_nf4.cpp", "src/gf_ring.cpp", "src/fft_2n.cpp"], ["specialisations chosen at compile time", "packet loops"], [], ["fragments and markers, compared across processes"])
p("C09", "Fragments are the documented code words",
  "Every fragment equals, word by word, the code word its mathematical definition prescribes: evaluation of the data polynomial at successive powers of the root of unity (or at the additive subspace points, or the prescribed Vandermonde/Cauchy combination) over the specified field and field polynomial. Systematic codes output parities that extend the data to such a code word.",
  ["inputs", "configurations"],
  "All codes, fields, word sizes, symbol types and geometries, compared with an independent evaluator that shares no code with the library.",
  "Tests only check that decode inverts encode, so a consistent change of the stored format is invisible to them and makes old fragments unreadable.",
  ["src/fec_rs_fnt.h", "src/fec_rs_gf2n.h", "src/fec_rs_gf2n_fft.h", "src/fec_rs_gf2n_fft_add.h", "src/fec_rs_gfp_fft.h", "src/fec_rs_nf4.h", "src/gf_bin_ext.h", "src/gf_ring.h"], ["generator of each code"], ["roots, evaluation points"], ["fragments after encode"])
p("C10", "Field arithmetic obeys the field's definition",
  "In every supported field (prime, binary extension, packed Fermat) addition, subtraction, negation, multiplication, division, inversion, exponentiation and logarithm of any two elements give the mathematically defined result, always inside the field. A logarithm that does not exist is refused with an exception. Supported prime fields are those whose sums of two elements fit the symbol type.",
  ["inputs"],
  "All element pairs of the small fields; boundary and random elements of the fields up to 2^128; all symbol types.",
  "gf_utest checks that operations invert each other on random elements, which is also true of many wrong fields, and not on boundary elements.",
  ["src/gf_ring.h", "src/gf_prime.h", "src/gf_bin_ext.h", "src/gf_nf4.h", "src/gf_base.h"], ["arithmetic by tables, splitting or double-size products"], ["log and exp tables"], ["scalar operations against an independent implementation"])
p("C11", "Bulk and vectorised operations equal element-wise arithmetic",
  "Operations on whole vectors and buffers (scaling, addition, subtraction, negation, element-wise product, packing and unpacking, in every field that defines them) give the same result as applying the scalar field operation to each element, for every length, coefficient and alignment tail, and touch nothing outside their destination. Scalar, SSE and AVX builds agree.",
  ["inputs", "configurations"],
  "All lengths around the vector widths, coefficients 0, 1, card-1 and random, element values up to the largest field element.",
  "simd tests use a few fixed lengths and random elements; the largest element occurs once in 65537 draws.",
  ["src/gf_ring.h", "src/gf_ring.cpp", "src/gf_nf4.h", "src/gf_nf4.cpp", "src/simd_ring.h", "src/simd_fnt.h", "src/simd_nf4.h", "src/vec_vector.h", "src/vec_buffers.h"], ["vector loops with scalar tails"], ["aligned buffers"], ["bulk operations against the scalar ones"])
p("C12", "Roots of unity and code lengths are right",
  "The field generator returned is a generator of the multiplicative group, the n-th root returned has order exactly n whenever n divides the group order, element orders are exact, the computed code length is the smallest divisor of the group order that is at least the requested length, and the highly composite length is a divisor at least that large from which no prime factor could be removed. Repeated requests give the same answers.",
  ["inputs"],
  "All n dividing (and not dividing) the group order in each field, all requested lengths.",
  "Tests check a handful of n per field.",
  ["src/gf_base.h", "src/gf_ring.h", "src/gf_bin_ext.h", "src/gf_nf4.h", "src/arith.h"], ["factorisation of the group order"], ["cached factors and root"], ["root, order and code-length functions"])
p("C13", "Every fast Fourier transform computes the Fourier transform",
  "Each transform variant (naive, single-point, length-2, radix-2, Cooley-Tukey, Good-Thomas, large, additive) computes exactly the defining sum for its root and length, on vectors and on packet buffers, including inputs shorter than the transform where the variant takes them, and its inverse and its unscaled inverse undo it, the latter up to the factor n. The radix-2 transform refuses lengths for which no root of unity exists. Inputs are left unchanged.",
  ["inputs", "configurations"],
  "All lengths admissible for each variant and field, shortened inputs, all packet sizes, boundary values, every build configuration.",
  "fft_utest checks that the inverse undoes the forward transform for a few lengths, which a wrong but invertible transform also satisfies.",
  ["src/fft_2n.h", "src/fft_2n.cpp", "src/fft_ct.h", "src/fft_gt.h", "src/fft_large.h", "src/fft_2.h", "src/fft_single.h", "src/fft_naive.h", "src/fft_add.h", "src/simd_radix2_fft.h"], ["butterflies", "bit reversal", "Taylor expansions"], ["precomputed powers"], ["fft/ifft/fft_inv on vectors and buffers against the definition"])
p("C14", "Number-theoretic helpers are exact",
  "Greatest common divisors with Bezout coefficients, modular exponentiation, Jacobi symbols, primality tests, factorisation, divisor enumeration, logarithms, Chinese remaindering and code-length searches return the mathematically exact result over the whole range of 32- and 64-bit types, and in the 128-bit type for operands whose products fit it. Invalid arguments are refused with the documented exception.",
  ["inputs"],
  "All small arguments exhaustively, boundary and random arguments of 32, 64 and 128-bit types.",
  "arith_utest checks a handful of values for each helper.",
  ["src/arith.h", "src/big_int.h"], ["Euclid, square-and-multiply, trial division"], [], ["each helper against an independent implementation"])
p("C15", "No memory error, undefined behaviour or leak in supported use",
  "Constructing, using and destroying any codec, field, transform, matrix or container with supported arguments performs no out-of-bounds or use-after-free access, reads no uninitialised memory that influences a result, triggers no undefined behaviour or failed internal assertion, and releases everything it allocated.",
  ["inputs", "configurations", "histories"],
  "All workloads of the other properties, with assertions enabled and with vector code compiled in.",
  "The test suite is built in release mode without assertions, sanitizers or leak checks.",
  ["src/fec_base.h", "src/fec_context.h", "src/vec_buffers.h", "src/vec_vector.h", "src/simd/allocator.h", "src/quadiron_c.cpp"], ["manual memory management", "raw pointer arithmetic"], ["heap"], ["AddressSanitizer, LeakSanitizer, UndefinedBehaviorSanitizer and valgrind memcheck reports"])
p("C16", "Independent objects may be used from different threads",
  "Threads that each own their codec objects can construct, encode, decode and destroy concurrently without data races, and obtain exactly the results the same operations give when run alone.",
  ["schedules", "inputs"],
  "All interleavings of construction and use of codecs, fields and transforms across threads.",
  "All existing tests are single threaded.",
  ["src/fec_base.h", "src/gf_base.h", "src/misc.h", "src/core.h", "src/gf_nf4.h"], ["absence of shared mutable state"], ["static tables and generators"], ["ThreadSanitizer reports; results compared with a serial run"])
p("C17", "Results do not depend on what the codec did before",
  "On one codec object any sequence of encodes, decodes and refused decodes, of different lengths, modes and survivor sets, gives for each operation the same result as a fresh object would, and markers left in a reused output list never survive into the next result.",
  ["histories", "inputs"],
  "Random operation histories on every code.",
  "Tests use a fresh object per (k, m) and at most a handful of operations.",
  ["src/fec_base.h", "src/fec_context.h", "src/fec_rs_nf4.h", "src/fec_rs_fnt.h"], ["scratch buffers kept in the object", "decoding contexts"], ["object members", "context vectors"], ["each operation's result against a fresh object"])
p("C18", "Vectors, buffers, slices and views behave as sequences",
  "Vectors, packet buffers, slices, zero-extended and strided views behave as the sequences they represent: reads return the last value written through any alias, copies of owning containers, constructed or assigned, are independent (copies of wrappers and slices alias the same memory), objects constructed or assigned from moved ones own the content, zero extension reads as zero, packing followed by unpacking restores the words, and allocations are aligned as advertised. Operations change only their destination. Strided views support element access and the operations defined through it.",
  ["inputs", "histories"],
  "Random operation sequences on every container type and constructor against a plain sequence model.",
  "vec_utest has one fixed example per operation.",
  ["src/vec_vector.h", "src/vec_buffers.h", "src/vec_slice.h", "src/vec_view.h", "src/vec_zero_ext.h", "src/vec_cast.h", "src/simd/allocator.h"], ["shared and owned memory", "offset and step arithmetic"], ["memory ownership flags"], ["container contents after every operation"])
p("C19", "Streams of every length round trip",
  "For every length that is a multiple of the word size, empty included, and whether or not it is a multiple of the packet size, every fragment has exactly the length of a data fragment, no marker points past its end, and decoding returns data fragments of exactly the original length and content. The way the input stream delivers its bytes makes no difference.",
  ["inputs"],
  "All lengths around packet boundaries, all packet sizes, streams delivering bytes in irregular pieces.",
  "Tests use one length per code, mostly whole packets.",
  ["src/fec_base.h", "src/vec_cast.h", "src/vec_buffers.h"], ["packet loop with a partial last packet"], [], ["lengths and contents of output streams"])
p("C20", "Matrix and polynomial algebra is exact",
  "Matrix inversion returns the inverse or refuses singular matrices, matrix-vector products are exact, generated Vandermonde and Cauchy generator matrices leave every set of k rows of the extended matrix invertible, and polynomial evaluation, negation, sums, products (by polynomials, scalars and linear factors) and derivatives obey their definitions, in every field that defines them.",
  ["inputs"],
  "Random and structured matrices and polynomials over all fields, all row subsets of the generators for small sizes.",
  "mat_utest and poly_utest check single hand-made examples; no test covers the Cauchy generator.",
  ["src/vec_matrix.h", "src/vec_poly.h"], ["row reduction", "generator normalisation"], [], ["results against independent arithmetic"])
p("C21", "Text and diagnostic output tells what is there",
  "128-bit integers, signed and unsigned, are printed as their exact decimal value (and the stream is marked bad when it cannot take them); dumps of vectors, slices, zero-extended views, buffers, matrices and polynomials list every element in order; hex dumps show every byte, 32 per line, with its printable form, and leave the stream's formatting as it was. The operation counters of a codec equal the number of words (streams horizontally) or packets (streams vertically, blocks) of its last encoding or decoding, and the announced cost of a radix-2 transform equals that of its definition.",
  ["inputs"],
  "All 128-bit values including both extremes, all container sizes, buffers around the line length, all stream lengths and packet sizes.",
  "Tests print nothing they check; the counters are only displayed by the benchmark.",
  ["src/misc.h", "src/misc.cpp", "src/vec_vector.h", "src/vec_buffers.h", "src/vec_matrix.h", "src/vec_poly.h", "src/fft_2n.h", "src/fec_base.h", "src/quadiron_c.cpp"], ["line splitting", "sign handling"], ["statistics members"], ["printed text parsed back; counters against the request"])
p("C22", "Files coded by the command-line driver survive the loss of files",
  "For every code, word size, fragment count, file size and content: after data files have been coded with the command-line driver and any files have been lost such that at least k fragments remain (each coding fragment with the file of its markers), repairing in a new process succeeds and brings back every lost data, coding and marker file byte for byte, and leaves every other file as it was; and this stays so for losses after repairs.",
  ["inputs", "histories"],
  "All codes and word sizes, all numbers of fragments, all file contents and sizes, all sets of lost files, all sequences of losses and repairs.",
  "The test script checks digests for a few parameters and random contents, in which symbols that need a marker are rare.",
  ["test/ec_driver.cpp", "src/fec_base.h", "src/property.h", "src/property.cpp"], ["marker files written after the last packet", "position of streams between rows"], ["marker lists per fragment"], ["whole-directory comparison after each process"])
with open("/verif/properties.jsonl", "w") as f:
    for x in P:
        f.write(json.dumps(x) + "\n")
