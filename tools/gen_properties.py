#!/usr/bin/env python3
"""Single source for properties.jsonl (run: python3 tools/gen_properties.py)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, state=None, observe=None):
    d = dict(id=id, title=title, statement=" ".join(statement.split()),
             quantifier=dict(over=over, text=" ".join(text.split())),
             why_tests_cant=" ".join(why.split()),
             anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech]))
    if state: d["anchors"]["state"] = [dict(name=n, meaning=m, where=w) for n, m, w in state]
    if observe: d["anchors"]["observe_at"] = observe
    assert len(title) <= 80, (id, len(title))
    P.append(d)

prop("C01", "Matrices are independent values through every history",
 """A matrix or vector behaves as a value: after any sequence of construction, copy, copy assignment (also to itself), move,
 resize, fill, element write and text assignment, every object reports exactly the shape, element count and elements that the
 sequence gives it, writing one object never changes another, and a moved-from object is an empty matrix that can be reused.
 Nothing is freed twice, leaked or used after being freed, and a result never depends on what the heap held before.""",
 ["histories"], "all operation sequences up to a bounded depth over a pool of matrix objects and a small alphabet of shapes and values",
 "The tests exercise a handful of two-step sequences on one or two objects; aliasing, moved-from and empty states appear only in specific longer histories.",
 ["inc/susa/matrix.h"], [("copy/move constructors and assignment operators", "inc/susa/matrix.h"), ("allocate/deallocate/resize", "inc/susa/matrix.h")],
 observe=["no_rows/no_cols/size/operator()/shape"])

prop("C02", "A failed allocation leaves matrices valid and leaks nothing",
 """When the allocator fails at any point of a history (with the library's assertions disabled, so that it cannot stop the process on purpose), the exception reaches the caller or the object ends up empty, and every
 existing matrix stays a usable object: the right-hand side keeps its value, the object being changed has a shape that agrees with the storage it owns, and it can be read, assigned and destroyed afterwards.
 No block is leaked or released twice, each is released with the size it was allocated with, and the library does not terminate the process.""",
 ["fault_sequences", "histories"], "every allocation index failing (one, then two faults) in every bounded history of constructions, assignments, resizes and text assignments, with assertions on and off",
 "No test injects an allocation failure.",
 ["inc/susa/matrix.h", "inc/susa/memory.h"], [("allocator_traits allocate/deallocate use", "inc/susa/matrix.h")])

prop("C03", "An out-of-range access never touches memory outside the object",
 """Reading or writing a matrix element, row, column or sub-range with an index outside the object never reads or writes memory that
 the object does not own, for any shape and any index. With assertions enabled element access, row and column writes, swaps and sub-ranges outside the object stop the process through the library's
 assertion; with assertions disabled such a call returns, leaves the object's shape alone and stays inside the object's storage.""",
 ["inputs", "configurations"], "all shapes and all indices around and far beyond the edges, for every accessor, in both assertion configurations",
 "Tests only use valid indices and only the default configuration.",
 ["inc/susa/matrix.h", "inc/susa/debug.h"], [("SUSA_ASSERT bounds checks", "inc/susa/matrix.h"), ("fallback element for invalid access", "inc/susa/matrix.h")])

prop("C04", "Matrix text parsing and printing agree and are format independent",
 """Parsing the text notation (rows separated by ';' or a newline, elements by blanks or commas, a complex element as a number or as (real,imaginary), optional brackets which count as blanks, any amount of
 extra blanks) yields exactly the shape and values written, for every element type with a text form and for rows of any length, and all spellings
 of the same matrix parse to equal matrices. Printing a matrix and parsing the printed text gives back the same shape and the values to the printed precision.
 Text whose rows have different lengths, or with an empty row, is rejected rather than producing a matrix with invented or missing elements.""",
 ["inputs"], "all strings of a bounded grammar of tokens and separators, all shapes up to a bound, long rows, and all bounded matrices for the round trip",
 "Tests parse a few literals.",
 ["inc/susa/matrix.h", "src/matrix.cpp"], [("pre_parser", "src/matrix.cpp"), ("parser", "inc/susa/matrix.h"), ("operator<<", "inc/susa/matrix.h")])

prop("C05", "Elementwise arithmetic, comparison and conversion are pointwise",
 """Addition, subtraction, elementwise multiplication and division between matrices of one shape or a matrix and a scalar (in either order), the
 compound forms += and -=, equality and inequality, and conversion between element types act on each element exactly as the scalar operation does, keep the shape, and
 leave the operands unchanged (except the target of a compound form), also when both operands are the same object.""",
 ["inputs"], "all shapes up to a bound and all positions of distinguishing values, each operator, each element type, with and without operand aliasing",
 "Tests check one or two fixed matrices per operator.",
 ["inc/susa/matrix.h"], [("friend operators and compound operators", "inc/susa/matrix.h")])

prop("C06", "Reductions and elementwise math equal their definitions",
 """Sum, mean, norm, min, max (and the index of a minimum or maximum, any of them among equals), absolute value, sign, log, conjugate, real and imaginary part, squared magnitude, complex construction,
 difference and the like give the value of their mathematical definition, column by column for a matrix and over
 all elements for a vector (including a one-element one), for every position of the extreme or distinguished element and every sign of the data, whenever the result is representable in the result type (for floating-point elements also the sum or the sum of squares behind it).""",
 ["inputs"], "all vectors and small matrices over a small signed alphabet, all shapes, all supported element types",
 "Tests use a single positive matrix for a few of the functions; the extreme element never sits at a boundary.",
 ["inc/susa/base.h", "inc/susa/statistics.h"], [("templates over matrix<T>", "inc/susa/base.h"), ("column loops", "inc/susa/statistics.h")])

prop("C07", "Row, column, sub-range and reshaping operations move elements exactly",
 """Getting, setting, swapping and removing rows and columns, left/right/mid sub-ranges, element removal, concatenation, flips, transpose and
 vectorisation deliver each element of the input exactly where its definition puts it and no other, for every shape and every valid index.
 The source stays unchanged unless the operation is defined to change it, and an operation followed by its inverse gives back the original.""",
 ["inputs", "histories"], "all shapes up to a bound (distinct tagged elements), all valid indices, and bounded sequences of operations",
 "Tests check single small examples (mostly square) for some of the operations.",
 ["inc/susa/matrix.h", "inc/susa/linalg.h", "inc/susa/signal.h", "inc/susa/base.h"], [("index arithmetic in column-major storage", "inc/susa/matrix.h")])

prop("C08", "Matrix product, determinant and conjugate transpose are exact",
 """The matrix product of conforming matrices, the determinant of a square real matrix, the identity matrix, and the conjugate transpose equal their textbook
 definitions for every shape and, except the determinant, every element type including real, integer and complex elements. Products and determinants of small integer matrices are exact (to rounding)
 and determinants satisfy det(AB)=det(A)det(B).""",
 ["inputs"], "all small matrices over a small integer alphabet and all conforming shapes up to a bound with distinguishing entries",
 "Tests check a few products and determinants.",
 ["inc/susa/linalg.h"], [("matmul", "inc/susa/linalg.h"), ("det", "inc/susa/linalg.h"), ("hermitian/eye", "inc/susa/linalg.h")])

prop("C09", "LU solvers give true solutions and report when they cannot",
 """When an LU or pivoted LU decomposition of a real matrix reports success, its factors are unit lower and upper triangular, reproduce the (row-permuted) matrix, and the solutions and
 inverse obtained from it satisfy the original equations for every right-hand side; the pivoted solver's multipliers never exceed one in magnitude and its pivot matrix, taken after either decomposition, is the permutation between the matrix and its factors. A pivot at or below the given tolerance (zero included) is reported as failure. A singular matrix with small integer entries is never reported as decomposed by the pivoted solver, an invertible
 one always is, and the plain solver reports failure when it must divide by a zero pivot instead of returning non-finite results, and only then.""",
 ["inputs"], "all 1x1, 2x2 and 3x3 matrices over a small integer alphabet (plus a structured family of larger and badly scaled ones) and a basis of right-hand sides",
 "Tests decompose one matrix.",
 ["inc/susa/solver.h"], [("decompose/solve", "inc/susa/solver.h")])

prop("C10", "Rank equals the number of linearly independent rows",
 """The reported rank of any matrix with elements of moderate magnitude equals its true linear rank, for every shape (wide, tall, square, single row or column), for real and integer element types, and is the same for the transpose.""",
 ["inputs"], "all matrices up to 3x3 (and wide/tall shapes) over a small integer alphabet, against exact rational elimination; all 0/1 patterns of larger shapes up to a bound",
 "Tests check one or two matrices.", ["inc/susa/linalg.h"], [("Gaussian elimination with pivoting", "inc/susa/linalg.h")])

prop("C11", "Singular value decomposition reproduces its input",
 """For every real matrix of any shape (element magnitudes between 1e-12 and 1e12, or zero) the decomposition delivers non-negative singular values and factors with orthonormal columns whose product U diag(S) V^T equals the
 input to within single-precision rounding relative to its norm, and the singular values are the true ones (their squares are the eigenvalues of A^T A).
 It terminates and succeeds for rank-deficient, zero, wide, tall and badly scaled matrices.""",
 ["inputs"], "all small integer matrices up to a bounded shape, and scaled and structured families",
 "Tests decompose one matrix.", ["src/svd.cpp", "inc/susa/svd.h"], [("Householder bidiagonalisation and QR iteration", "src/svd.cpp")])

prop("C12", "Filtering, convolution and resampling equal their defining sums",
 """FIR/IIR filtering (leading recursive coefficient one), convolution, the convolution matrix of a vector, Toeplitz construction, the Kronecker product, upsampling and downsampling equal their defining sums or placements
 for all lengths and orientations (including one-element operands) and for real and complex signals; filtering a signal by taps equals the head of the convolution, multiplying by the convolution matrix equals convolution,
 upsampling fills the gaps with zeros and downsampling inverts it. Matrix inputs are processed column by column without leaking state from one column to the next.""",
 ["inputs"], "all signals over a small alphabet up to a bounded length, all unit impulses for longer ones (linearity), all orientations and shapes",
 "Tests check one filter, one convolution.", ["inc/susa/signal.h", "inc/susa/linalg.h"], [("filter/conv/convmtx/toeplitz", "inc/susa/signal.h")])

prop("C13", "The discrete Fourier transforms equal the DFT sum for every size",
 """For every real signal and every length the DFT equals the defining sum, the fast transform gives the same result for every power-of-two length,
 and energy is conserved (Parseval); matrix inputs are transformed column by column, and repeated use of one transform object, whatever sizes it transformed before, gives the same result as a fresh one.""",
 ["inputs", "histories"], "all unit impulses (a basis) and bounded alphabets for all lengths up to a bound, several power-of-two lengths, and sequences of transforms of different sizes on one object",
 "Tests check a couple of sizes.", ["inc/susa/fft.h"], [("radix2/dft", "inc/susa/fft.h")])

prop("C14", "Selection, sorting and searching return correct positions",
 """Sorting returns a non-decreasing permutation of its input, sorted indices are a permutation that sorts it, selecting the k smallest or largest of a vector of two or more elements returns k distinct indices of elements of which none is
 beaten by an unselected one (restricted to the given index set, which holds at least k valid indices, in the limited variants), and finding returns exactly the positions holding the value.
 This holds for every ordering, negative values and repeated values, for every element type.""",
 ["inputs"], "all vectors over a small alphabet up to a bounded length (every permutation and tie pattern), every k, every index subset",
 "No test touches these functions.", ["inc/susa/search.h"], [("select_*/sort/sort_indices/find", "inc/susa/search.h")])

prop("C15", "Shortest-path search returns a true shortest-path tree",
 """For every weighted graph with non-negative weights (a zero entry means no edge, distances fit the weight type) and every source, the predecessor vector returned by the shortest-path search names, for every reachable node other than the source,
 the last node before it on a path from the source whose length equals the true shortest distance, whatever the number of nodes; following the predecessors reaches the source. Entries of unreachable nodes are only required to be valid.""",
 ["inputs"], "all graphs up to 4 nodes over a small weight alphabet (directed and undirected), every source, and path/ring/star families up to dozens of nodes",
 "No test touches it.", ["inc/susa/search.h", "inc/susa/sets.h", "src/sets.cpp"], [("dijkstra over a bitset of unvisited nodes", "inc/susa/search.h")])

prop("C16", "The bitset is an exact set of indices",
 """After any sequence of set, reset, set-all, reset-all, push and pop operations, the bitset answers membership, emptiness and any-bit queries exactly as the mathematical set of indices below its size
 does, for every size including those that are not multiples of a byte or word; indices outside are ignored and never members; copies are independent; pop removes and returns a member (or returns the size when there is none) and push adds the given one.""",
 ["histories"], "all operation sequences to a fixed point of the reachable state space for small sizes, and bounded-depth sequences for sizes around byte and word boundaries",
 "No test touches the bitset.", ["src/sets.cpp", "inc/susa/sets.h"], [("byte array with shift/mask addressing", "src/sets.cpp")])

prop("C17", "Multi-dimensional arrays address every element uniquely and copy as values",
 """For every list of dimensions, distinct valid index tuples address distinct elements, what was written at a tuple is read back at that tuple through every access path, and reading one element never
 influences a later access. Copies, assignments (also to itself) and moves give independent arrays with the same dimensions and contents after every history, and nothing leaks. (Elements are unspecified until written; a moved-from array is only assigned to or destroyed.)""",
 ["histories", "inputs"], "all dimension lists up to a bounded rank and size with all index tuples, and all bounded histories of construct/copy/assign/move/write",
 "Tests construct one array.", ["inc/susa/array.h"], [("mixed-radix indexing", "inc/susa/array.h"), ("copy/clone", "inc/susa/array.h")])

prop("C18", "The convolutional encoder follows its trellis in every history",
 """For every single-input (rate 1/n) code, every number of outputs and memory size and every generator set in octal notation, the coded word for any input sequence equals the modulo-2 convolution of the input with the generators, and the
 next-state and next-output look-ups describe exactly that trellis, independent of what the object encoded before. The state register starts at zero for each encoding, the code rate is k/n as a fraction,
 and copies and assignments of a code are independent and equivalent.""",
 ["inputs", "histories"], "all generator pairs and triples for small memories, all input words up to a bounded length, and all bounded histories of configure/encode/copy/assign",
 "Tests check one code and one input word.", ["inc/susa/ccode.h", "src/ccode.cpp"], [("next_state/next_output/encode", "src/ccode.cpp"), ("ownership of the generator table", "src/ccode.cpp")])

prop("C19", "The convolutional BCJR decoder returns exact a-posteriori values",
 """For every single-input code, every received block of a trellis that starts and ends in the zero state, every a-priori probability and every noise level whose likelihoods are representable, the BCJR decoder's output for each information bit is the a-posteriori probability ratio P(1)/P(0) obtained by summing over all codewords
 (to within rounding), so a noiseless codeword decodes to the bits that were encoded; the result does not depend on earlier calls or on heap contents.""",
 ["inputs", "histories"], "codes of memory 1-4 over all received words of a small alphabet up to a bounded length, against brute-force enumeration of all codewords",
 "Tests decode one noiseless block.", ["src/ccode.cpp"], [("forward/backward recursion", "src/ccode.cpp")])

prop("C20", "MLSE equalisation returns the maximum-likelihood sequence",
 """For every channel response of two or more taps, constellation and received block, sequence estimation with a known state (in which the encoder starts and ends the block) returns a symbol sequence whose squared distance to the received block is minimal among all
 sequences, and without a known start it returns one that is minimal among all sequences passed through the full convolution; so a noiseless transmitted sequence that no other explains is recovered. The encoder's block is the convolution of the sequence, started and ended in the given state.
 The result is independent of earlier calls, of other objects and of heap contents.""",
 ["inputs", "histories"], "all transmitted sequences and all received blocks over a small alphabet for all small and several fixed responses of length 2-4 and 2-8-ary constellations, against brute-force search over all sequences",
 "Tests decode one noiseless sequence.", ["inc/susa/channel.h"], [("Viterbi recursion and traceback", "inc/susa/channel.h")])

prop("C21", "The channel BCJR equaliser returns exact a-posteriori values",
 """For every channel response of two or more taps, two-point constellation, received block and noise level whose likelihoods stay representable, the BCJR equaliser's output for each symbol equals the a-posteriori probability ratio P(second point)/P(first point) obtained by summing over all transmitted sequences consistent with the
 start and end in state zero (to within rounding), independent of earlier calls and heap contents; noiseless blocks decode to the transmitted symbols at every noise level.""",
 ["inputs", "histories"], "all received blocks over a small alphabet up to a bounded length for several responses and noise levels, against brute force over all sequences",
 "Tests decode one noiseless block.", ["inc/susa/channel.h"], [("forward/backward recursion", "inc/susa/channel.h")])

prop("C22", "Random generators are the Mersenne Twister and depend on their seed alone",
 """Both random generators produce exactly the MT19937 sequence of their seed for any number of draws; the same seed always gives the same sequence whatever was drawn before re-seeding, and generator
 objects (including copies) never influence each other. A generator that was never seeded draws the sequence of MT19937's default seed 5489.""",
 ["histories"], "all interleaved histories of construct/seed/draw/copy/assign over several generators up to a bounded depth, and long runs across several state regenerations for boundary seeds",
 "No test touches the generators.", ["src/mt.cpp", "inc/susa/mt.h", "src/rng.cpp", "inc/susa/rng.h"], [("init/extract/twist", "src/rng.cpp"), ("mt_init_genrand/mt_genrand_int32", "src/mt.cpp")])

prop("C23", "Derived random draws stay in range and follow the raw sequence",
 """Integers drawn from a mask or a range, Bernoulli and general discrete draws, uniform and normal numbers and bit vectors always lie in their documented range and set, have the requested length, are the documented function of the
 underlying MT19937 sequence (uniform: the number divided by 2^32-1; thresholds: (number+0.5)/2^32; normal: polar Box-Muller), and follow the given probabilities at the exact thresholds.""",
 ["inputs", "histories"], "every draw kind after every bounded history, all masks and a grid of probability vectors, compared with an independent MT19937 driving the documented formula",
 "No test touches these.", ["src/mt.cpp", "inc/susa/mt.h", "src/rng.cpp"], [("rand*/bernoulli/nonuniform", "src/mt.cpp")])

prop("C24", "QAM, BPSK and channel noise follow their definitions",
 """For every supported order (powers of two) the QAM mapper gives a centred rectangular grid of pairwise distinct points, its noise deviation for a given Eb/N0 follows from the constellation's mean power per bit, and demodulating any received value
 returns a nearest constellation point, so every point demodulates to itself. BPSK maps zero to -1 and any other bit value to 1 in the shape of its input, and the noise generator delivers normal noise in the signal's shape, scaled to the signal's power and the requested signal-to-noise ratio for real and complex samples of any type. Mappers and their copies are independent.""",
 ["inputs"], "all orders, all symbols, bit blocks up to a bound, and a dense grid of received values covering every decision region",
 "No test touches modulation.", ["inc/susa/modulation.h", "src/modulation.cpp"], [("constellation construction, nearest-point search, noise scaling", "src/modulation.cpp")])

prop("C25", "Memory accounting is exact and returns to its starting value",
 """After every history of creating, copying, resizing, moving and destroying library objects that use the logging allocator, including failed allocations, the tracked byte count equals the bytes the live objects hold,
 and it returns to its starting value when they are gone.""",
 ["histories", "fault_sequences"], "all bounded histories over a pool of logged objects with every allocation-failure point",
 "Tests check three straight-line sequences without failures.", ["inc/susa/memory.h"], [("allocator_log", "inc/susa/memory.h"), ("memory tracker", "inc/susa/memory.h")])

prop("C26", "Memory accounting is exact under concurrency",
 """When several threads allocate, copy, release and read the accounting at the same time, the tracked byte count after every interleaving equals the bytes held, no update is lost, every value read lies within
 what the concurrent operations allow, and the accounting object is initialised exactly once.""",
 ["schedules"], "all thread interleavings up to a preemption bound of 2-3 threads each performing 1-3 allocations, releases and reads, including first use",
 "The existing threaded test observes whatever interleavings the OS happens to produce.", ["inc/susa/memory.h"], [("atomic counter", "inc/susa/memory.h"), ("function-local static", "inc/susa/memory.h")])

prop("C27", "Independent objects used in different threads do not interact",
 """Threads that work on their own matrices, solvers, codes, channels, generators and transforms never race with each other, and each obtains exactly the result it obtains when it runs alone, under every interleaving.""",
 ["schedules"], "all interleavings up to a preemption bound for all pairs of library operations on disjoint objects, with a happens-before race check on every memory access",
 "No test runs the library's numeric code in more than one thread.", ["inc/susa/matrix.h", "inc/susa/linalg.h", "inc/susa/signal.h", "inc/susa/fft.h", "src/ccode.cpp", "inc/susa/channel.h", "src/mt.cpp", "src/rng.cpp"],
 [("absence of shared mutable state", "whole library")])

prop("C28", "Objects that are only read can be shared between threads",
 """Any number of threads may use the read-only operations of one shared object at the same time: they never race, never change the object, and each obtains the result it would obtain alone.""",
 ["schedules"], "all interleavings up to a preemption bound of pairs of const operations on one shared object, with a happens-before race check on every access",
 "No test shares an object.", ["inc/susa/matrix.h", "inc/susa/array.h", "inc/susa/channel.h"], [("const methods do not write", "inc/susa/*.h")])

prop("C29", "Scalar mathematical functions are accurate over their whole domain",
 """The normal distribution function is within 7.5e-8 of the true value for every argument and, with its complement, sums to one; integer power, binary logarithm, modulus and rounding equal their exact definitions for every
 argument of every supported type, including negative values, extremes and large magnitudes, and all of them terminate.""",
 ["inputs"], "all 16-bit integers, all powers of two and neighbours for wider types, all single-precision arguments of the distribution functions (thorough), a complete grid (quick)",
 "Tests check four values.", ["inc/susa/base.h", "src/base.cpp"], [("normcdf/qfunc/mod/log2/pow/round", "src/base.cpp")])

prop("C30", "Root-raised-cosine taps sample the defined spectrum, symmetric and finite",
 """For every upsampling factor, roll-off from zero to one (including those that place a spectral sample on a band edge) and odd filter length the taps are finite, symmetric about the centre, of unit energy, and equal the inverse discrete transform of the
 sampled root-raised-cosine spectrum (the documented frequency-sampling method), so two cascaded filters satisfy the Nyquist criterion to within truncation error.""",
 ["inputs"], "all combinations of a bounded grid of oversampling, roll-off and length, including every band-edge combination",
 "No test touches it.", ["inc/susa/rrcosine.h", "src/rrcosine.cpp"], [("frequency sampling of the root-raised-cosine spectrum", "src/rrcosine.cpp")])

prop("C31", "Time stamps and stop-watch readings are faithful to the clock",
 """For every instant (years 1000 to 9999), the time stamp is the fixed-width digits of that local date and time (year, month, day, hour, minute, second), so stamps sort in time order, and a stop-watch reading is the elapsed time in seconds, to the millisecond, since it was last started, however often it was started or read before.""",
 ["inputs", "histories"], "all field boundary instants (every day of several years, every second of a day) through an interposed clock, and all bounded histories of start/advance/read",
 "No test touches them; a real clock shows one instant.", ["src/utility.cpp"], [("timestamp/tic/toc", "src/utility.cpp")])

prop("C32", "Calls that violate a precondition are refused, all others are served",
 """A call whose documented precondition does not hold (operands of incompatible shapes, selections of more elements than there are, transforms of unsupported length, non-square graphs or systems, operations on empty matrices, zero dimensions,
 even filter lengths, unsupported codes or generator numbers) is stopped by an assertion; with assertions disabled it returns the same predefined result every time, touches no foreign memory, and leaves its operands and later calls unaffected.
 A call whose precondition holds is never refused.""",
 ["inputs", "configurations"], "all shapes up to a bound for every function with a checked precondition, all counts and indices around the limit, in both assertion configurations",
 "Tests make valid calls in one configuration.", ["inc/susa/debug.h", "inc/susa/search.h", "inc/susa/linalg.h", "inc/susa/signal.h", "inc/susa/fft.h", "inc/susa/matrix.h", "src/ccode.cpp", "src/rrcosine.cpp"],
 [("predefined result when assertions are disabled", "inc/susa/debug.h"), ("SUSA_ASSERT", "inc/susa, src")])

prop("C33", "Results depend on the arguments alone and arguments stay unchanged",
 """Whatever calls were made before (of the same or other functions, on the same, refilled or other objects, of any size), every function returns for given arguments what it returns for them as the first call of a fresh process, and it leaves the objects it was given
 for reading as they were. No hidden state carries over from one call to the next.""",
 ["histories"], "all ordered pairs and bounded triples of operations from a catalogue covering every part of the library, each history in a process of its own, compared with first calls",
 "Each test makes its calls in one fixed order and never compares with another.", ["inc/susa", "src"], [("functions without hidden state", "whole library")])

if __name__ == "__main__":
    here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
    with open(os.path.join(here, "properties.jsonl"), "w") as f:
        for d in P: f.write(json.dumps(d) + "\n")
    print(len(P), "properties")
