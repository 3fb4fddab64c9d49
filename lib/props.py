# The property list; gen.py turns it into properties.jsonl and MANIFEST.json.
L = []
def p(id, title, statement, over, text, why, files, mech, observe=None):
    assert len(title) <= 80, (id, len(title))
    L.append(dict(id=id, title=title, statement=" ".join(statement.split()),
        quantifier=dict(over=over, text=" ".join(text.split())), why_tests_cant=" ".join(why.split()),
        anchors=dict(files=files, mechanism=[dict(name=a, where=b) for a, b in mech], observe_at=observe or [], hook_needed=None)))

IO = "emp-tool/io/"; U = "emp-tool/utils/"; C = "emp-tool/circuits/"; G = "emp-tool/gc/"; X = "emp-tool/execution/"

p("C01", "NetIO delivers each direction's bytes exactly once, in order, unmodified",
  """For any program of sends and receives that two connected NetIO parties can complete over an ideal full-duplex pipe,
  each receive obtains exactly the next bytes the peer sent, in order and unmodified, independent of how either side splits its
  data into calls, of buffering, of how the operating system splits or delays transfers, and of the order in which the parties run.
  In particular a party may send while bytes it has not yet received are already waiting.""",
  ["programs", "schedules", "inputs"],
  """all two-party programs of send/recv/flush (bounded length, sizes around the buffer limits), all interleavings of the two parties and
  short-read/short-write answers of the operating system within a deviation bound""",
  "test/netio.cpp samples a few ping-pong patterns on one fast loopback connection; kernel splitting, partial transfers and crossing messages never vary.",
  [IO + "net_io_channel.h", IO + "io_channel.h"],
  [("send_data_internal / recv_data_internal loops over partial transfers", IO + "net_io_channel.h"), ("stream buffering of the socket", IO + "net_io_channel.h")], ["bytes returned by recv_data/recv_block"])

p("C02", "NetIO conversations make progress: no deadlock from unsent buffered data",
  """Two NetIO parties running programs that could complete over an ideal pipe never wait for each other forever because data is held back:
  everything a party sent before it starts waiting for input, calls flush or sync, or destroys its channel reaches the peer.
  sync returns on neither side before the other side has entered it.""",
  ["programs", "schedules"],
  "all bounded two-party programs over send/recv/flush/sync/destroy, all interleavings and partial-transfer answers within the deviation bound",
  "Tests run two fixed conversations; a lost flush shows only for particular sequences (send then recv without explicit flush, last message before close).",
  [IO + "net_io_channel.h", IO + "io_channel.h"],
  [("has_sent flag triggers flush before receive", IO + "net_io_channel.h"), ("flush, sync, destructor flush", IO + "net_io_channel.h")], ["termination of both parties", "bytes visible to the peer"])

p("C03", "HighSpeedNetIO turn-taking conversations arrive intact and complete",
  """For any conversation in which the two HighSpeedNetIO parties take turns (one sends while the other receives exactly those bytes, then roles may swap,
  both calling flush at the same points), every receive obtains exactly the bytes sent, in order, however the data is split into calls and however the operating system
  splits transfers; the conversation always completes; and no byte outside data given to send is read beyond its buffer or put on the wire from outside the channel's own buffers.""",
  ["programs", "schedules", "inputs"],
  "all bounded turn-taking conversations with chunk sizes around the internal buffer and packet-boundary residues, explicit flush on or off, partial transfers within the deviation bound",
  "The repository's tests use one fixed sequence of sizes; padding and refill arithmetic depends on residues of the running byte counts.",
  [IO + "highspeed_net_io_channel.h"],
  [("SenderSubChannel/RecverSubChannel buffering and flush padding", IO + "highspeed_net_io_channel.h")], ["bytes returned by recv_data", "memory accesses of the channel"])

p("C04", "A lost peer or short file is reported as an error, never hangs or fakes data",
  """If the peer closes or resets the connection, or a file or memory channel holds fewer bytes than requested, the receiving call reports an error
  (process exit with an error for network and file channels; an error message with buffer and position untouched for the memory channel) instead of returning successfully with data that
  was never sent or waiting forever; every receive that does return was given exactly the bytes sent.""",
  ["fault_sequences", "histories"],
  "every byte/transfer position at which the connection or file can end, for NetIO, HighSpeedNetIO (both roles, receive and send side), FileIO and MemIO",
  "No test closes a connection early or truncates a file.",
  [IO + "net_io_channel.h", IO + "highspeed_net_io_channel.h", IO + "file_io_channel.h", IO + "mem_io_channel.h"],
  [("result checks of fread/fwrite/read/write", IO), ("bounds test in MemIO::recv_data_internal", IO + "mem_io_channel.h")], ["exit status", "return of recv_data"])

p("C05", "Typed channel helpers round-trip blocks, bools and points for every length",
  """Whatever sequence of blocks, bool arrays or curve points is sent with the typed send operations, the matching typed receives on the other end of any channel return
  the same values, for every length including zero and every alignment of either party's memory, and consume exactly what was sent so later messages stay in step.""",
  ["inputs", "histories", "configurations"],
  "all lengths up to a bound and all sender/receiver alignments of bool arrays, block counts, point sequences, mixed sequences; with and without BMI2",
  "Tests send a handful of lengths from malloc'd (16-byte aligned) buffers with equal alignment on both sides.",
  [IO + "io_channel.h"], [("send_bool_aligned packing with pext/pdep or fallback", IO + "io_channel.h"), ("send_pt/recv_pt length framing", IO + "io_channel.h")], ["values returned by recv_block/recv_bool/recv_pt"])

p("C06", "MemIO and FileIO return stored bytes in order for any history",
  """For every history of sends, receives, clears, flushes, resets and file save/load on a memory or file channel, receives return exactly the stored bytes in order from the current position;
  clear empties the memory channel so that the next send/receive pair starts afresh, and data saved to a file and loaded again is identical.""",
  ["histories", "inputs"],
  "all operation histories up to a depth with sizes around capacity-growth and buffer limits",
  "test/mem... exercises one send and one receive; growth, interleaved reads and reuse after clear are not covered.",
  [IO + "mem_io_channel.h", IO + "file_io_channel.h"], [("buffer growth and positions", IO + "mem_io_channel.h"), ("stdio stream", IO + "file_io_channel.h")], ["recv_data", "file contents"])

p("C07", "The sent-byte counter equals the payload bytes handed to send",
  """On every channel kind, after any history of raw and typed sends and receives, the channel's counter equals the total number of payload bytes its send operations have handed to the channel so far, which is what the matching receives consume,
  and is never changed by receiving, flushing or synchronising buffers of the peer.""",
  ["histories"],
  "all bounded histories of typed and raw operations on each channel kind",
  "Only printed by tests, never compared, for one fixed history.",
  [IO + "io_channel.h"], [("counter update in send_data", IO + "io_channel.h")], ["counter"])

p("C08", "Connections come up in any start order; invalid ports are rejected",
  """A server and a client channel constructed for the same port connect to each other whichever starts first, however many connection attempts fail before the server listens, and also when an earlier connection used the same port,
  and end as two ends of the same connection (for the high-speed channel, each sending pipe wired to the peer's receiving pipe); port numbers outside 0..65535 are refused with an error before the network is used, and a port that cannot be bound is reported as an error.""",
  ["schedules", "configurations", "inputs"],
  "all interleavings of the two constructors' network steps within a bound on retries, all port values at the limits",
  "Tests start both sides at once on loopback; the client-first and late-listen orders are not enumerated.",
  [IO + "net_io_channel.h", IO + "highspeed_net_io_channel.h"], [("client retry loop and server accept", IO + "net_io_channel.h"), ("two-connection setup", IO + "highspeed_net_io_channel.h")], ["bytes exchanged after construction", "exit status"])

p("C38", "Channels release exactly their own descriptors, streams and memory",
  """Destroying any channel (network, high-speed, file or memory), after any use of it and any number of refused connection attempts, closes every descriptor it opened exactly once, closes no other descriptor of the process,
  and releases all memory it allocated; other channels of the same process keep working.""",
  ["histories", "schedules"],
  "all bounded lifecycles of channels (construct, use, destroy, repeat; neighbours opened while another closes) under the run orders and scheduling deviations of C08",
  "Leaks and double closes do not change the outcome of a single-channel test.",
  [IO + "net_io_channel.h", IO + "highspeed_net_io_channel.h", IO + "file_io_channel.h", IO + "mem_io_channel.h"],
  [("constructors, connection retry loop, destructors", IO)], ["open descriptors, streams and allocations"])

p("C09", "ThreadPool runs every accepted task exactly once, even across shutdown",
  """Every task whose enqueue returned is executed exactly once; destroying the pool waits until all accepted tasks have finished and all workers have ended; while a worker is free an accepted task starts
  even if other tasks are blocked; no interleaving of workers, enqueuing threads and
  the destructor deadlocks or has a data race; and enqueue on a stopped pool fails with an exception rather than dropping the task.""",
  ["schedules", "programs"],
  "all schedules up to a preemption bound of pools with 1-3 workers, 1-2 producers and up to 4 tasks",
  "test/threadpool.cpp runs one fixed program under whatever schedule the OS gives.",
  [U + "ThreadPool.h"], [("queue mutex, condition variable, stop flag", U + "ThreadPool.h")], ["task execution counts", "termination"])

p("C10", "ThreadPool futures deliver each task's own result or exception",
  """The future returned for a task yields exactly that task's return value, or rethrows exactly the exception it threw, after the task has finished and with everything the task wrote visible to the waiter;
  a task may enqueue further tasks, one task's exception affects no other task or worker, and a single-worker pool runs tasks in the order they were enqueued.""",
  ["schedules", "programs"],
  "all schedules up to a preemption bound for small programs with returning, throwing and nested tasks",
  "Tests only collect results of a fixed set of tasks under the OS schedule; exceptions and nesting are untested.",
  [U + "ThreadPool.h"], [("packaged_task/future pairing, FIFO queue", U + "ThreadPool.h")], ["future.get()", "order of side effects"])

p("C11", "With threading enabled, concurrent sessions never affect each other",
  """When the library is built with threading enabled, each thread that installs its own circuit and protocol backend has all of its circuit operations executed by that backend only, with results identical to running alone,
  for every interleaving of the threads and without data races in the circuit library.""",
  ["schedules", "programs"],
  "all interleavings (preemption-bounded) of two or three threads, each running a different circuit on its own backend",
  "The threading option is not enabled in the test build.",
  [X + "circuit_execution.h", X + "protocol_execution.h", "emp-tool/emp-tool.cpp", C + "integer.hpp"],
  [("thread-local backend pointers", X + "circuit_execution.h")], ["results per thread", "backend call log"])

p("C12", "Half-gates: the evaluator always holds the label of the true wire value",
  """For any circuit built from AND, XOR, NOT and public constants and any inputs, garbling with the half-gates generator and evaluating the transmitted bytes with the half-gates evaluator gives, on every wire,
  the generator's zero label when the value is 0 and that label offset by the global difference when it is 1, and the evaluator consumes exactly what the generator sent.""",
  ["programs", "inputs"],
  "all circuits up to a gate bound over a small alphabet (operand reuse, constants, gates fed by equal wires), all input values, plus gate counts crossing every rekeying boundary",
  "Tests garble a few fixed circuits with sampled inputs.",
  [G + "halfgate_gen.h", G + "halfgate_eva.h", U + "mitccrh.h", U + "aes_opt.h"], [("halfgates_garble / halfgates_eval", G), ("tweak/key schedule kept in step", U + "mitccrh.h")], ["labels on both sides", "bytes on the channel"])

p("C13", "Privacy-free garbling: evaluator always holds the label of the true value",
  """For any circuit built from AND, XOR, NOT and public constants and any inputs, garbling with the privacy-free generator and evaluating with the privacy-free evaluator gives on every wire the label of the true value
  (zero label, or zero label offset by the global difference), with the evaluator's label revealing the cleartext value it computes on, and consumes exactly what was sent.""",
  ["programs", "inputs"],
  "as C12, for the privacy-free generator and evaluator",
  "Tests garble a few fixed circuits with sampled inputs.",
  [G + "privacy_free_gen.h", G + "privacy_free_eva.h"], [("garble/eval of AND with label LSB", G)], ["labels on both sides", "bytes on the channel"])

p("C14", "Garbling cost: XOR/NOT/constants free, fixed bytes per AND, exact AND counts",
  """For any circuit, the half-gates generator sends exactly two 16-byte blocks per AND gate (privacy-free: exactly one) and nothing for XOR, NOT or constants beyond its fixed setup,
  and after any prefix of the circuit the AND counter of every backend (generator, evaluator, privacy-free pair, plain) equals the number of AND gates executed since its creation (the plain backend folds an AND with a public operand without executing a gate).""",
  ["programs", "histories"],
  "all gate sequences up to a bound plus AND counts crossing every batching boundary",
  "No test compares communication or AND counts with the circuit.",
  [G + "halfgate_gen.h", G + "halfgate_eva.h", G + "privacy_free_gen.h", G + "privacy_free_eva.h", X + "plain_circ.h"], [("num_and and send_block(table, 2)", G)], ["channel byte counter", "num_and()"])

p("C15", "Garbling secrecy basics: fresh secret offset, LSB 1, never exposed on the wire",
  """The generator's global difference has least significant bit 1 and is freshly random for each generator; for any circuit and inputs, no XOR-combination of the transmitted blocks and the labels the evaluator legitimately holds equals that difference,
  no two AND gates use the same hash tweak/key, and an evaluator label never equals the generator's other label on any wire.""",
  ["programs", "inputs"],
  "all circuits up to a gate bound with all inputs (linear-span check over GF(2)), gate counts crossing rekeying boundaries, several generators per process",
  "A secrecy failure does not change any output, so functional tests cannot see it.",
  [G + "halfgate_gen.h", G + "privacy_free_gen.h", U + "mitccrh.h", U + "block.h"], [("set_delta with LSB forced, tweak by gate id", G), ("start point renewal", U + "mitccrh.h")], ["transcript and labels"])

p("C16", "Plain backend: any program computes its cleartext meaning for every owner",
  """Running any circuit program under the plain backend gives for every input assignment, input owner (either party or public) and output recipient (either party, public or XOR sharing) exactly the value the same program computes on clear bits,
  reports the number of AND gates executed, and can be set up and torn down repeatedly.""",
  ["programs", "inputs", "histories"],
  "all gate programs up to a bound over all inputs, owners and recipients; repeated setup/finalize histories",
  "Tests use random Integers with fixed owners; gate-level programs and constants are not enumerated.",
  [X + "plain_circ.h", X + "plain_prot.h"], [("PlainCirc gates", X + "plain_circ.h"), ("PlainProt feed/reveal", X + "plain_prot.h")], ["revealed values"])

p("C17", "An emitted circuit file computes the traced program on every input",
  """When the plain backend is asked to print the circuit, the file it writes for any program (first party's inputs, then second party's inputs, then gates and reveals) loads with the library's circuit loader, declares the right input and output sizes,
  and on every input computes exactly the outputs the program revealed, including outputs that are public constants, input wires or repeated wires.""",
  ["programs", "inputs"],
  "all gate programs up to a bound (constants, reused wires, direct inputs as outputs), each emitted, reloaded and evaluated on all inputs",
  "Only one fixed circuit is generated by the tests and its file is not re-evaluated on all inputs.",
  [X + "plain_circ.h", X + "plain_prot.h", C + "circuit_file.h"], [("gate recording and renumbering", X + "plain_circ.h")], ["the emitted file"])

p("C18", "Bristol Format/Fashion circuits evaluate exactly as the file says, repeatably",
  """Any well-formed Bristol Format or Bristol Fashion circuit of AND/XOR/INV gates loaded from a file, stream or array has the declared sizes and computes, for every input and in any backend, exactly the function the file describes;
  computing repeatedly, with the same object and with outputs aliasing inputs kept by the caller, gives the same answer, and a circuit exported as source text and reloaded is the same circuit.""",
  ["programs", "inputs", "histories"],
  "all small netlists in both formats (wire reuse, gate orders, output positions), all inputs, repeated evaluation; the shipped files",
  "Tests evaluate shipped AES/SHA circuits on one or a few inputs.",
  [C + "circuit_file.h"], [("parsing and gate execution", C + "circuit_file.h")], ["output bits"])

p("C19", "Circuit code is oblivious: gates executed never depend on private values",
  """For every library operation on secret bits, integers, floats, sorting, selection, and the in-circuit AES and SHA3, the sequence of gates requested from the backend, and the amounts of data fed and revealed, depend only on public parameters
  (operation, widths, counts, public constants), never on private input values.""",
  ["inputs", "programs"],
  "every public operation at all widths up to a bound under a value-blind backend, and all private input values for small widths under the plain backend",
  "Functional tests cannot observe the gate trace.",
  [C + "integer.hpp", C + "bit.hpp", C + "float32.hpp", C + "number.h", C + "sha3_256.h", C + "aes_128_ctr.h"], [("data-oblivious formulations (select, condNeg, bitonic network)", C)], ["calls received by the backend"])

p("C20", "Integer arithmetic is two's-complement arithmetic for every width and value",
  """For every width n >= 1 and all operand values, +, -, unary -, * equal the two's-complement result modulo 2^n; / truncates toward zero and % takes the dividend's sign (divisor non-zero, results modulo 2^n); abs is the two's-complement absolute value;
  and modular exponentiation equals base^exponent mod q whenever the intermediate products fit the width and q >= 2; operands are left unchanged.""",
  ["inputs", "configurations"],
  "all operand values at all widths up to a bound; boundary-value alphabets at larger widths (up to 256 bits)",
  "test/int.cpp draws random 32-bit operands; boundary values (MIN, -1, carries across all bits) and other widths are practically never drawn.",
  [C + "integer.hpp", C + "integer.h"], [("add_full, sub_full, mul_full, div_full, condNeg", C + "integer.hpp")], ["revealed values"])

p("C21", "Integer comparison, logic, shifts, selection, counting match their definitions",
  """For every width and all values: comparisons are signed comparisons, ==/!= exact; &,|,^ are bitwise; shifts by a public amount (any amount) are logical shifts; shifts by a secret amount below the width are logical shifts by that amount; select/If/swap choose exactly as the condition says;
  resize sign- or zero-extends or truncates; hamming_weight and leading_zeros count correctly.""",
  ["inputs", "configurations"],
  "all operand values at all widths up to a bound; boundary alphabets at larger widths",
  "Random 32-bit samples only; edge shift amounts, width-1 integers and mixed widths are not covered.",
  [C + "integer.hpp", C + "swappable.h", C + "comparable.h", C + "bit.hpp"], [("geq via extended subtraction, select, shifts", C + "integer.hpp")], ["revealed values"])

p("C22", "Integer construction and reveal preserve the value for every width and type",
  """Constructing a secret integer from a native integer keeps its low n bits (sign-extended beyond 64 bits), constructing from memory keeps the memory's little-endian bits, and revealing gives back the same bits:
  as unsigned/signed 32- or 64-bit numbers (low bits, zero-extended), as a little-endian 0/1 string, or written to memory, for every owner and recipient.""",
  ["inputs", "configurations"],
  "all values for small widths, boundary values for widths up to 192, every reveal type, every element type for the memory constructors",
  "Tests use 32-bit values and one or two types.",
  [C + "integer.hpp", U + "utils.hpp"], [("int_to_bool/to_bool/from_bool", U + "utils.hpp"), ("Integer::init and reveal", C + "integer.hpp")], ["revealed values"])

p("C23", "Oblivious sort returns the sorted permutation and carries its data along",
  """For every array length and all contents, sorting secret keys yields them in ascending (or, when asked, descending) signed order, as a permutation of the input in which every key keeps its own attached data item,
  and reads or writes nothing outside the arrays.""",
  ["inputs", "configurations"],
  "all 0/1 key vectors of every length up to a bound (zero-one principle), all key assignments for small lengths, both directions, with and without data",
  "test/int... sorts one random array of one size.",
  [C + "number.h", C + "swappable.h"], [("bitonic network for arbitrary n", C + "number.h")], ["revealed arrays"])

p("C24", "Secret Float +,-,*,/,sqr,sqrt equal IEEE-754 single precision",
  """For all single-precision operands, secret-float addition, subtraction, multiplication and division give the correctly rounded (round-to-nearest-even) IEEE-754 result bit for bit under the netlists' convention without subnormals and NaNs:
  a subnormal operand counts as zero and a NaN operand as infinity of the same sign, results below the normal range become zero of their sign, and invalid operations (infinity minus infinity, zero times infinity, 0/0, infinity/infinity) give +infinity.
  Square and square root equal the full IEEE-754 result, subnormals and infinities included (any NaN is accepted where the IEEE result is NaN).""",
  ["inputs"],
  "unary operations: all 2^32 operands; binary operations: all exponent/sign pairs with a mantissa boundary alphabet",
  "test/float.cpp draws moderate random operands and only prints mismatches; special values and extreme exponents are never tried.",
  [C + "float32.h", C + "float32_add.cpp", C + "float32_mul.cpp", C + "float32_div.cpp", C + "float32_sqrt.cpp", C + "float32_sq.cpp", C + "float32_sub.cpp", C + "circuit_file.h"], [("fixed netlist tables executed gate by gate", C + "float32_add.cpp")], ["revealed floats"])

p("C25", "Secret Float comparison, sign, selection and conversion are exact",
  """For all single-precision operands equal, less_equal and less_than agree with IEEE comparison (a subnormal operand counting as zero and a NaN operand as infinity of the same sign), negation and abs change only the sign bit, If/swap select exactly, bitwise operators act bitwise,
  and feeding then revealing any float returns the same bits (as double the same value, as string its decimal rendering) for every owner and recipient.""",
  ["inputs"],
  "all exponent/sign pairs with mantissa boundary alphabet for binary operations; all operands for unary ones",
  "Tests print three comparisons of ordinary numbers without asserting.",
  [C + "float32.hpp", C + "float32_eq.cpp", C + "float32_le.cpp", C + "float32_leq.cpp"], [("comparison netlists, bit-level operators", C + "float32.hpp")], ["revealed values"])

p("C26", "Secret Float sin, cos, exp, exp2, ln, log2 stay within tolerance everywhere",
  """For every single-precision operand, sin and cos (of pi times the operand) are within 1e-6 of the true value (NaN for NaN and infinities); exp and exp2 are within relative error 1e-6 for every operand except NaN, overflowing to +infinity and underflowing to zero;
  ln and log2 are within 1e-6 times max(1, |result|) for every positive normal operand, -infinity for +0 and +infinity for +infinity.""",
  ["inputs"],
  "all 2^32 operands of each function",
  "test/float.cpp samples 1000 operands per function in a narrow range and only prints mismatches.",
  [C + "float32_sin.cpp", C + "float32_cos.cpp", C + "float32_exp.cpp", C + "float32_exp2.cpp", C + "float32_ln.cpp", C + "float32_log2.cpp"], [("fixed netlist tables", C + "float32_sin.cpp")], ["revealed floats"])

p("C27", "PRG output is the AES-CTR stream of its seed, for any request history",
  """A PRG with a given seed produces the AES-128 counter-mode keystream of that seed: any history of block, byte (aligned or not), bool, word and element requests consumes whole blocks in order so that equal seeds and equal histories give equal output on any addresses,
  no keystream block is handed out twice, reseeding restarts exactly the stream of the new seed, and unseeded generators differ.""",
  ["histories", "inputs"],
  "all request histories up to a depth with sizes around block/batch limits and all alignments, against an OpenSSL AES-CTR reference",
  "test/prg.cpp measures speed and compares a few aligned bulk requests.",
  [U + "prg.h"], [("counter, batch loop, tail handling, word buffer", U + "prg.h")], ["output bytes"])

p("C28", "AES primitives, PRP and parallel key schedules agree with standard AES-128",
  """For every key, block value and batch length, single, batched and unrolled ECB encryption and decryption, the multi-key parallel key schedule and parallel encryption, and the fixed-key permutation all equal AES-128 applied block by block under the respective key, decryption inverts encryption, and no batch size touches memory outside the batch.""",
  ["inputs", "configurations"],
  "all batch lengths up to a bound, all template batch shapes, a key/block alphabet covering every byte value in every position",
  "Tests time AES and check few values.",
  [U + "aes.h", U + "aes_opt.h", U + "prp.h"], [("AES-NI rounds, batch remainder handling", U + "aes.h"), ("ks_rounds / ParaEnc", U + "aes_opt.h")], ["ciphertexts"])

p("C29", "Hash equals SHA-256 of the concatenation of everything put",
  """For every sequence of put calls with any lengths, digest returns the SHA-256 of the concatenation of all bytes put since creation, the last digest or the last reset, then starts afresh;
  the one-shot, block and key-derivation helpers equal the corresponding SHA-256 of their input.""",
  ["histories", "inputs"],
  "all put/digest/reset histories up to a depth with lengths around the internal buffer, all fill levels",
  "test/hash.cpp compares fixed-size chunked input only; mixed small/large chunks are not tried.",
  [U + "hash.h"], [("streaming buffer in front of EVP", U + "hash.h")], ["digest"])

p("C30", "CRH/CCRH/TCCRH/MITCCRH batches equal their per-block definitions",
  """The correlation-robust hashes equal their definitions from AES (pi(x)^x, pi(sigma(x))^sigma(x), the tweaked variant and the re-keyed variant) for every block; hashing n blocks in one batched call, through any of the template/array/in-place entry points, gives the same results as hashing them one at a time,
  and the re-keyed hash uses a key derived from the start point and a running gate index, each key for its stated number of inputs only.""",
  ["inputs", "histories"],
  "all batch lengths and template shapes, all call histories of the re-keyed hash up to a depth, block alphabets",
  "Tests time these functions or compare one size.",
  [U + "crh.h", U + "ccrh.h", U + "tccrh.h", U + "mitccrh.h"], [("batching and key renewal", U + "mitccrh.h")], ["hash outputs"])

p("C31", "GF(2^128) multiplication, reduction and packing are exact field arithmetic",
  """For all blocks, carry-less multiplication, reduction and field multiplication equal polynomial arithmetic modulo x^128+x^7+x^2+x+1, inner products (with or without reduction) equal the sum of the element products for every length, universal-hash coefficients are the successive powers of the seed, packing is the sum of element i times x^i, and vector XOR is the XOR of all elements, for every length.""",
  ["inputs"],
  "all pairs of basis elements and structured alphabets (bilinearity extends this to all values once linearity is checked), all vector lengths up to a bound",
  "test/f2k.cpp samples random values and one vector length.",
  [U + "f2k.h"], [("mul128, reduce, inn_prdt", U + "f2k.h")], ["results"])

p("C32", "Curve points and scalars obey the group laws and round-trip encodings",
  """For every history of point and scalar operations on the P-256 group (add, double via add, multiply, multiply by generator, invert, copy, assign, self-assign, encode/decode) the results equal the standard curve arithmetic, copies are independent of their originals, encode/decode is the identity, equality is exact,
  and scalars behave as integers with modular helpers reducing modulo the group order.""",
  ["histories", "inputs"],
  "all operation histories up to a depth over a few point/scalar variables (aliasing included), the identity, generator and order-adjacent scalars",
  "test/ecc.cpp runs one random Diffie-Hellman style check.",
  [U + "group.h", U + "group_openssl.h"], [("EC_POINT/BIGNUM wrappers", U + "group_openssl.h")], ["encodings", "equality"])

p("C33", "Decoding accepts only valid curve point encodings",
  """Decoding bytes as a curve point yields a point that is on the curve or reports an error: no input is silently turned into an invalid or different point, for every malformed length, format byte or off-curve coordinate, locally or received over a channel.""",
  ["inputs", "fault_sequences"],
  "every single-byte corruption of valid encodings (all positions and values), every truncation and format byte, off-curve points",
  "No test decodes an invalid encoding.",
  [U + "group_openssl.h", IO + "io_channel.h"], [("result check of EC_POINT_oct2point", U + "group_openssl.h")], ["exit status", "decoded point"])

p("C34", "AES-128 CTR in and out of circuit equals standard 128-bit-counter CTR",
  """For every key, IV, length and starting chunk (chunk numbers of the message below 2^64), the local AES-CTR function and the in-circuit AES-CTR (any backend, every IV-passing form) produce the same bytes as standard AES-128-CTR with a 128-bit big-endian counter, encrypting then decrypting is the identity,
  and processing a message in separate pieces at the right chunk offsets equals processing it at once.""",
  ["inputs", "histories"],
  "all lengths up to several blocks, counters at every carry boundary, all chunk splits",
  "The AES-CTR code is compiled only with the circuit option and its test uses one message and small counters.",
  [C + "aes_128_ctr.h"], [("counter increment, chunking and tail handling", C + "aes_128_ctr.h")], ["ciphertext"])

p("C35", "In-circuit SHA3-256 equals SHA3-256 for every message length",
  """Given a correct Keccak-f permutation circuit, the in-circuit SHA3-256 of any message (any byte length, including empty, block-boundary and multi-block lengths) equals the standard SHA3-256 digest.""",
  ["inputs", "configurations"],
  "all message lengths up to several rate blocks with a content alphabet, executed under the plain backend with a harness-generated Keccak-f circuit",
  "The Keccak circuit file is absent, so the code is not even built in the test configuration.",
  [C + "sha3_256.h"], [("padding, absorption, squeeze", C + "sha3_256.h")], ["digest"])

p("C36", "Bit/byte/block conversion and transpose utilities are exact for every size",
  """For every type, length and value the utilities that convert between integers or memory and bool arrays (both bit orders), bool arrays and blocks, block construction, XOR, comparison and bit setting, and bit-matrix transposition return exactly their defined result and touch only the stated memory.""",
  ["inputs", "configurations"],
  "all lengths/shapes up to a bound, all byte values, all basis matrices",
  "Used indirectly by tests with one or two sizes; the reverse order and odd sizes never.",
  [U + "utils.hpp", U + "utils.h", U + "block.h"], [("to_bool/from_bool, sse_trans, xorBlocks_arr, cmpBlock", U)], ["results"])

p("C37", "Shipped circuit files compute the functions they are named for",
  """Each circuit file shipped with the library (AES-128/192/256, SHA-1, SHA-256, 32-bit adder) loads with the library's loader and computes the standard function it is named for, on its documented bit ordering, for every input.""",
  ["inputs", "configurations"],
  "every shipped file: adder on all pairs from a carry-boundary alphabet, ciphers and hashes on every one-hot and two-hot input pattern and structured alphabets",
  "Tests evaluate two or three of the files on a single input.",
  [C + "files/bristol_fashion", C + "files/bristol_format", C + "circuit_file.h"], [("the netlist files", C + "files")], ["outputs"])
