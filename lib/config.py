# One entry per property: how to build its harness, and what the run claims.
PROPS = {}
def P(id, builds, bounds, oracle, **kw):
    for b in builds: b.setdefault("src", id + ".cpp")
    PROPS[id] = dict(builds=builds, bounds=bounds, oracle=oracle, **kw)

P("C29", [dict(asan=True)],
  "every history of <=5 put calls (lengths around 0/1/HALF/8191/8192/8193 of the internal buffer), digest/reset at every position; the same length put up to 300000 bytes, incl. put_block and one-shot helpers; single requests of 2^31-1 to 2^31+80 and of 2^32 to 2^32+53 bytes",
  "OpenSSL SHA-256 of the concatenation")
O3 = ["-O3"]
P("C20", [dict(opt=O3), dict(name="asan", asan=True, flags=["-DLIGHT"])],
  "all operand pairs at widths 1..11 (thorough 1..13) for + - * / %, all operands at widths 1..20 (27) for unary - and abs, aliased operand forms, every public constant at widths 1..5, modExp at widths 4..8 (10) and every exponent length at wider widths; boundary-alphabet pairs at widths up to 129 (512); every single bit and carry position at widths up to 4097 (8193; multiplicative 257)",
  "int128 / OpenSSL BIGNUM arithmetic",
  technique="exhaustive enumeration of operand values on the gate trace executed by the real code (bit-sliced explicit-state evaluation)",
  assumptions=["the recorded gate list is the code's behaviour for every value: labels are opaque to circuit code (C19)", "backends implement AND/XOR/NOT (C12, C13, C16)"])
SLICE = dict(technique="exhaustive enumeration of operand values on the gate trace executed by the real code (bit-sliced explicit-state evaluation)",
  assumptions=["the recorded gate list is the code's behaviour for every value: labels are opaque to circuit code (C19)", "backends implement AND/XOR/NOT (C12, C13, C16)"])
P("C21", [dict(opt=O3)],
  "all operand pairs at widths 1..10 (12); every public shift amount at widths 1..70 (140); all values and secret amounts at widths 1..9 (12); select/swap/resize/counting exhaustively at small widths; boundary alphabets and pairs differing in one bit at each position at widths up to 1025 (2000)",
  "native/BIGNUM comparison and bit-vector definitions", **SLICE)
P("C22", [dict(asan=True)],
  "all values at widths 1..8 for every owner x recipient x reveal type; boundary values at every width 1..135 (192), up to 4096 and up to 9 (40) million bits; memory constructors for 6 element types at every width 1..140 (200) and up to 4096 with one-hot/complement/mixed contents",
  "bit-vector definition of the two's-complement value")
P("C23", [dict(opt=O3), dict(name="asan", asan=True, flags=["-DLIGHT"])],
  "all 0/1 key vectors for every length 0..14 (18), all signed key assignments for small lengths/widths, all permutations of up to 7 (8) keys, run patterns for lengths up to 700; inductive 0-1 check (every pair of sorted halves) of every length up to 150 (400) and steps up to 513 (1025); ascending/descending/secret direction; with no, Bit and Integer data; address sanitizer on lengths <= 10",
  "result keys ordered and (key,data) multiset preserved", **SLICE)
P("C28", [dict(asan=True), dict(name="O3", opt=O3)],
  "every key and block of an alphabet with every byte value in every position, one-hot and complement patterns; every batch length 0..99 (299) and lengths around powers of two to 131073; compile-time batches 1..24; parallel schedules of 1..9,16 keys; ParaEnc shapes 1..8 x 1..9; both sanitizer and optimised builds",
  "OpenSSL AES-128-ECB")
P("C27", [dict(asan=True, ld=["-Wl,--wrap=_ZNSt13random_device9_M_getvalEv"])],
  "every one-hot seed and id alphabet; every length 0..149 (419) x misalignment 0..16 (63) x entry point; every history of 5 (6) requests over 18 request shapes incl. word buffer and reseed; 5000 (70000)-block streams in 10 chunkings; streams across 2^16 blocks through every entry point and from every power of two of the block counter; every bit of the drawn entropy",
  "AES-128-CTR keystream from OpenSSL")
P("C30", [dict(asan=True), dict(name="O3", opt=O3)],
  "sigma on all basis pairs; every byte value in every position; every length 0..79 (299) and around powers of two to 131073 x in-place x scratch; compile-time batches 1..20,32,64; re-keyed hash for 15 (batch,K,H) shapes and every call history of depth 4 (5) over 12 shapes, renewals, the same start point again and mixed K",
  "AES-128 definitions of the hashes via OpenSSL")
P("C31", [dict(opt=O3), dict(name="asan", asan=True)],
  "all 128x128 basis products; sums of basis pairs against all basis elements; byte alphabet; all 256x256 double-length basis pairs for reduction; every vector length 0..69 (299), around powers of two to 65537 and compile-time 1..33,128; packing",
  "bitwise polynomial arithmetic modulo x^128+x^7+x^2+x+1")
P("C36", [dict(asan=True), dict(name="O3", opt=O3)],
  "to_bool/from_bool at every length 0..136 (199), both orders, five element types, every one-hot/one-cold content and both destination fills; int<->bool for 8 types with every byte value at every position and every length; block helpers over the byte alphabet with every bit; xor/compare over every length 0..49 (129), up to 4099 and around powers of two to 5*2^20, and aliasing; bool arrays up to 70001; transposition of a 128 x 2^25 matrix; transposition of every shape up to 144x144 (192x192) on every one-hot and one-cold matrix",
  "bit-level definitions")
WRAP = ["-Wl,--wrap=_ZNSt13random_device9_M_getvalEv"]
for i, nm in (("C12", "half-gates"), ("C13", "privacy-free")):
    P(i, [dict(opt=O3, ld=WRAP), dict(name="asan", asan=True, flags=["-DLIGHT"], ld=WRAP)],
      "every circuit of 3 (4) gates AND/XOR/NOT over 2 inputs and both constants, all inputs; every 2-gate circuit over 3 inputs with all colour bits and 8 entropy seeds; 0..69 (299) AND gates in 6 shapes; 30000 (200000) AND gates; generator and evaluator in step over 2^20 (2^26) gates; set_delta histories; 12 Integer operations on all 3 (4)-bit values",
      "cleartext evaluation: label == zero label (+ offset iff 1), transcript fully consumed")
P("C14", [dict(opt=O3, ld=WRAP)],
  "every gate sequence of length 3 (4) over 2 inputs and both constants for the five backends; 70000 (1500000)-gate sequences in 5 shapes, counters compared after every gate; 2^31+2M AND gates per garbling backend and 2^32+2M on the plain one (thorough 2^32 on all)",
  "gate counts of the executed program")
P("C15", [dict(opt=O3, ld=WRAP)],
  "every circuit of 3 (4) gates, all inputs; 2-gate circuits with all colour bits and seeds; up to 120 (400) repetitions of a gate; 128 generators per process with real and controlled entropy",
  "GF(2) span and rank of transcript + evaluator labels")
P("C16", [dict(opt=["-O2"]), dict(name="asan", asan=True, flags=["-DLIGHT"])],
  "every program of 3 (4) gates over 2 inputs and both constants x 9 owner assignments x 4 inputs with all recipients; every Bit operator x value x owner x recipient; feed/reveal of every length 0..19 (69) and up to 65537; sessions of 1.1 (20) million gates with each result revealed; every sequence of up to 4 sessions; 3-bit Integer operations on all values",
  "cleartext evaluation")
P("C17", [dict(opt=["-O2"])],
  "every program of up to 2 (3) gates over 1-2 inputs and both constants with every choice of 1-2 (3) revealed wires (inputs, constants, repeats), emitted, parsed strictly, reloaded and evaluated on all inputs; Integer programs of width 1..3 (4); up to 5000 gates; headers with up to 7-digit sizes",
  "cleartext evaluation of the program; independent strict parser")
P("C18", [dict(opt=["-O2"]), dict(name="asan", asan=True, flags=["-DLIGHT"])],
  "every netlist of up to 2 (3) gates over 2 inputs with every gate order and output-wire numbering, 1-3 outputs; 3-gate netlists over 1 (1-2) inputs; each as Format and Fashion text (4 whitespace styles, input/output groupings), from file name, stream, array, loaded twice, exported and reloaded; all inputs twice, in place; plain and value-blind backends; up to 70000 gates; outputs that are input wires",
  "direct evaluation of the netlist")
P("C37", [dict(opt=O3)],
  "all seven shipped files: zero/one, every one-hot and one-cold input, byte alphabet and 400 (2000) mixed inputs (thorough: every two-hot input) on the netlist the loader produces; adder on all pairs of a carry alphabet; AES files through the plain backend as well",
  "OpenSSL AES, SHA-1 and SHA-256 compression, native addition",
  technique="exhaustive enumeration of a bounded input space on the gate trace executed by the real loader (bit-sliced explicit-state evaluation)")
P("C34", [dict(opt=["-O2"], circ=True)],
  "local: IVs with every carry chain (0..16 trailing 0xff bytes) x 12 start chunks x 3 forms x every length 0..69 (299), byte alphabet keys/IVs, every chunk split, messages up to 2^20 and beyond 2^31 and 2^32 bytes; in circuit: IV secret / IV public / key public forms with lengths around block boundaries (public key: up to 2^26 bits), start chunks and carry IVs on 300 key/IV/message values each; plain backend with reuse",
  "AES-128-ECB from OpenSSL with a 128-bit counter")
P("C35", [dict(opt=["-O2"])],
  "in circuit: every byte length 0..419 (699) and up to 2048 on pattern/one-hot messages, every overload and piece-cutting at block boundaries, the digest written over the message, every history of three messages on one object, plain backend with all owners; local helper for every length 0..599 (1999), up to 1000003, and four element types",
  "OpenSSL SHA3-256; Keccak-f netlist generated from FIPS 202")
P("C19", [dict(opt=["-O2"], float=True, circ=True)],
  "under a backend whose labels depend on the carried value (3 encodings): every Bit/Integer operation on all values at widths 1..6 (7), alphabet pairs at widths up to 64 (128); unary on all values up to width 9 (12); sort of up to 5 keys on all values; all 24 Float operations on special-value pairs; AES-CTR, SHA3, all 2-gate Bristol circuits; feed/reveal of every type on all values; plain-backend AND counts",
  "gate/feed/reveal trace identical for all private values; no reveal inside an operation")
P("C24", [dict(opt=O3, float=True)],
  "+ - * /: all 512x512 sign/exponent pairs with 23x23 (117x117) boundary mantissas, 26x26 limit exponents with a 117x117 mantissa alphabet, every exponent distance -28..28 with 676 x 676 one-, two-bit and run mantissas (+ -), all pairs of 6700 (16700) mantissas at four exponent combinations, all 2^23 mantissas against six operands in both positions; sqr and sqrt: all sign/exponents with 2^21 mantissas in 256-blocks (thorough: all 2^32 operands); plain backend on special values",
  "native IEEE-754 single precision arithmetic (round to nearest even)", **SLICE)
P("C25", [dict(opt=O3, float=True)],
  "comparisons: all 512x512 sign/exponent pairs with boundary mantissas, every 61st (thorough: every) mantissa against itself, its successor and its negation, every one- and two-bit difference, 875 x 875 one-, two-bit and run mantissas at equal and neighbouring exponents; sign, bitwise, select, swap operators on all one- and two-hot patterns and special values; feed/reveal of every sign/exponent with one-hot mantissas for all owners and recipients",
  "native IEEE-754 comparison and bit-level definitions", **SLICE)
P("C26", [dict(opt=O3, float=True)],
  "every sign/exponent with about 2^18 mantissas in blocks of 256 plus dense neighbourhoods of 25 critical operands per function (thorough: all 2^32 operands of each of the six functions)",
  "double-precision libm, tolerance 1e-6", **SLICE)
XW = dict(flags=["-DMC_WRAP_EXIT"], ld=["-Wl,--wrap=exit,--wrap=abort,--wrap=__assert_fail"])
P("C32", [dict(asan=True)],
  "every history of 3 operations over 3 point variables (66 (90) operations: add, inverse, copy, encode/decode, scalar and generator multiplication, all aliasings) with all points, encodings and equalities compared after each; scalar alphabet around 0, 1, order, 2^256 for the laws; BigInt operations on all pairs (and triples with modulus) of a 15-value alphabet; copies, default points and scratch growth; scalars of every size 0..299 bytes",
  "discrete-logarithm model on an independent P-256 instance; FIPS constants")
P("C33", [dict(asan=True, **XW)],
  "all 256 values of every byte of 2 (4) encodings, every length 0..140 with 9 format bytes, all 256 format bytes, small-x compressed and non-canonical encodings, off-curve and foreign-curve points, multi-point messages; wrong declared lengths; three decoding entry points (fresh object, existing object, channel); thorough: every two-bit corruption in two bytes",
  "SEC 1 decoding written out over the P-256 equation")
NETW = ["socket", "bind", "listen", "accept", "connect", "setsockopt", "close", "usleep", "nanosleep", "fdopen", "dup", "read", "write", "send", "recv", "fclose", "shutdown", "recvfrom", "sendto", "writev", "readv", "sendmsg", "recvmsg", "poll", "select", "getsockopt", "fcntl", "accept4", "sleep", "clock_nanosleep", "getpeername", "getsockname"]
NET = dict(flags=["-DMC_WRAP_EXIT", "-U_FORTIFY_SOURCE", "-D_FORTIFY_SOURCE=0"], ld=["-Wl,--wrap=exit,--wrap=abort,--wrap=__assert_fail," + ",".join("--wrap=" + x for x in NETW)])
NETL = dict(NET, flags=NET["flags"] + ["-DLIGHT"])
NETT = dict(technique="stateless model checking of the real channel code over a controlled in-memory network (systematic schedules, partial transfers and faults)",
  assumptions=["the in-memory network represents the system calls' behaviour (ordered reliable byte pipes of unbounded capacity, blocking calls)", "libc stdio on a descriptor loops over partial writes and returns partial reads, as the cookie stream does"])
P("C01", [dict(opt=["-O2"], **NET), dict(name="asan", asan=True, **NETL)],
  "every pair of programs of up to 3 (4) sends/receives of 1-4 bytes that completes over an ideal pipe x 3 run orders x transfer splits; flush and empty transfers; up to 3 (4) scheduling/short-transfer deviations on all pairs of 2 operations, 1 (2) on 3; sizes around the stream buffer; periodic conversations of 72 (240) and of 5400 (60000) messages; messages beyond 2^31 and 2^32 bytes",
  "ideal full-duplex pipe", **NETT)
P("C02", [dict(opt=["-O2"], **NET)],
  "every pair of programs of up to 4 (5) of send/recv/flush/sync that completes over an ideal pipe x 3 run orders x transfer splits, with channels destroyed or kept open; up to 3 (4) scheduling/short-transfer deviations on pairs of 3 operations; every mirrored conversation of up to 8 (10) turns; conversations of 4500 (72000) turns with every period of up to 3; sizes around the stream buffer; last message before close",
  "ideal full-duplex pipe; bytes visible on the wire when waiting, after flush, sync and destruction", **NETT)
P("C03", [dict(opt=["-O2"], **NET), dict(name="asan", asan=True, **NETL)],
  "every conversation of 2 turns (6 sizes around the 32 KB packet x 3 receive splits x flush on/off x direction) and 3 turns (4 sizes, 2 splits); every residue 0..B+64 (quick: those near powers of two) of the running byte count followed by a reply; two-chunk turns; sizes around the 1 MB stream buffer; transfer splits and up to 2 (3) scheduling/short-transfer deviations; address sanitizer; heap filled with a marker that must not reach the wire; messages beyond 2^31 and 2^32 bytes",
  "the bytes handed to send, in order", **NETT)
P("C04", [dict(opt=["-O2"], **NET), dict(name="asan", asan=True, only_thorough=True, **NET)],
  "NetIO: every program pair of up to 3 operations x every byte position of either direction x end/reset/write failure x 3 run orders, sizes around the stream buffer; HighSpeedNetIO: 1-2 turns x 11 positions x 3 faults, one packet cut at every byte (quick: every 251st and all near the ends); FileIO: every file length up to 600 (49152) against request sizes, sequences of 3 receives, full device; MemIO: every history of 4 (5) send/recv/clear",
  "bytes sent; a receive that cannot be satisfied must end the process with an error (MemIO: message, nothing changed)", **dict(NETT, technique="exhaustive fault injection: every end-of-stream/reset/write-failure position of bounded conversations on the real code"))
C05X = [("C05b.cpp", ["-I/repo", "-Demp=emp_nobmi", "-march=x86-64", "-mavx2", "-msse4.1", "-maes", "-mpclmul", "-mrdseed"])]
P("C05", [dict(opt=["-O2"], extra=C05X, **NET), dict(name="asan", asan=True, extra=C05X, **NETL), dict(name="nobmi", opt=["-O2"], extra=C05X, isa=["-march=x86-64", "-mavx2", "-msse4.1", "-maes", "-mpclmul", "-mrdseed"], **NETL)],
  "bool arrays: every length 0..260 (600) x 8 sender x 8 receiver offsets x 7 contents, every one-hot content, all contents up to 12 (16) bools, both pack paths (BMI2 and portable) and between the two builds; lengths around internal buffers; blocks 0..260 (600); every sequence of up to 4 of 5 points incl. infinity; every sequence of 4 (5) typed messages over memory and file, 2 (3) over NetIO and HighSpeedNetIO",
  "the values sent; markers before and after each message", **NETT)
P("C06", [dict(asan=True)],
  "MemIO: every history of 6 (8) send/recv/clear of 0,1,3,8 bytes for 4 capacities, growth for every capacity 1..12 (24) and sizes, around the default capacity, 4-step histories with save/load through files; FileIO: every history of 6 (8) send/recv/reset/flush/reopen/new, sizes around the file buffer; loading files in pieces; 600-step histories; single transfers and totals beyond 2^31 (2^32) bytes",
  "byte-vector model with position; file contents read back independently")
P("C07", [dict(opt=["-O2"], **NET)],
  "MemIO: every history of 5 (6) of 11 typed messages, receives and clears; FileIO: every sequence of 3; NetIO and HighSpeedNetIO: every conversation of 3 typed messages x direction x flush/sync; every size 0..599 (2999); totals beyond 2^32 through a custom channel",
  "sum of payload bytes handed to the transport, cross-checked with bytes stored/consumed", **NETT)
P("C08", [dict(opt=["-O2"], **NET)],
  "every interleaving of the network steps of both NetIO constructors with up to 3 (5) refused attempts and of both HighSpeedNetIO constructors with up to 1 (3); 0..99 (399) refused attempts with 2 deviations, and up to 70000 (10^6) in a row; ten addresses of the server machine; every one of the 65536 ports on both sides; all invalid ports near the limits and at power-of-two wraps; several channels in one process with 2 (3) deviations",
  "both ends exchange their own data; bind/connect calls recorded by the network", **NETT)
P("C38", [dict(opt=["-O2"], **NET), dict(name="asan", asan=True, **NETL)],
  "1-3 consecutive connections x 3 run orders x 0-3 refused attempts x 5 sizes x 3-4 uses with 1 (2) scheduling deviations; two neighbouring channels of both kinds in every destruction order with a third opened in between; memory/file lifecycles",
  "descriptor, stream and allocation tables of the fake system", **NETT)

TS = dict(opt=["-O1"], flags=["-fsanitize=thread"], extra=["mtsched.cpp"], emptool=False)
MT = dict(technique="stateless model checking of the real code under a controlled scheduler (preemption-bounded systematic exploration, vector-clock race detection)",
  assumptions=["sequentially consistent interleavings at synchronisation operations; executions are also checked to be free of data races, so nothing else is observable", "pthread, futex and call_once semantics as modelled in lib/mtsched.cpp"])
P("C09", [dict(**TS)],
  "all schedules with up to 2-3 (3-4) preemptions (4 (6) for one worker; 2 (4) delays for two producers) of pools with 1-3 workers: 0-4 tasks, two producers, nested enqueues racing with destruction (refused once the destructor waits for the workers), throwing tasks, empty pools, two pools, tasks awaited one by one, spurious wakeups; pools of up to 33 workers and tasks waiting for each other",
  "each accepted task ran exactly once when the destructor returns; no deadlock, race, unjoined thread or destroyed-in-use primitive", **MT)
P("C10", [dict(**TS)],
  "all schedules with up to 3 (4) preemptions for one task of 6 kinds (value, exceptions, void, string, reference) x 4 ways of collecting, 1 (2) for 2-3 tasks; execution order on one worker with one and two producers; nested tasks; two waiting threads; argument capture; spurious wakeups; pools of up to 31 workers with up to 257 tasks and one worker with up to 90",
  "each future yields its own task's value/exception; side effects visible (race detector); per-producer order on one worker", **MT)
P("C11", [dict(name="threading", opt=["-O1"], flags=["-fsanitize=thread", "-DTHREADING"], extra=["mtsched.cpp"], emptool=True, float=True, floatsan=True, circ=True)],
  "two and three threads with their own sessions (logging, plain, plain writing a circuit, half-gates, privacy-free): every pair of 9 circuits with up to 1 (2) preemptions, every combination of session kinds with 1 (2) delays, 17 large circuits (division, modExp, sort, all Float functions, AES-CTR; thorough: SHA3) with one delay, sessions changed and kept open meanwhile with 1 (2) delays; every execution in a fresh process",
  "native results; results, gate trace and output file equal to the same session running alone; backend and channel calls come from the owning thread; race detector over the instrumented library", **MT)
