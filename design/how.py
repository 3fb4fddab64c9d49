# How model checking decides each property (the per-property text of DESIGN.md).
HOW = {
"C01": """Both parties run the real NetIO code as cooperatively scheduled tasks over the in-memory network of lib/fnet.h. The program generator enumerates every pair of bounded send/recv/flush programs, an abstract pipe automaton keeps the pairs that complete over an ideal pipe, and each such pair is executed under every run order and every choice of scheduling switch and short read/write within the deviation bound. The received bytes are compared position by position with the sent stream.""",
"C02": """Same explorer as C01 with sync, flush and destruction added. A state in which every unfinished party waits is a deadlock and is reported; in addition, whenever a party blocks, returns from flush/sync or has destroyed its channel, the number of its bytes on the wire must equal what it has sent. sync is checked for being a barrier with the event order of the schedule.""",
"C03": """The two-connection HighSpeedNetIO runs over the same network. Conversations are enumerated turn by turn; every residue class of the running byte count modulo the packet size is visited because flush padding depends on nothing else. The heap is filled with a marker so padding taken from outside the channel is visible on the wire, and an address-sanitizer build watches the copies.""",
"C04": """Fault enumeration: for each bounded conversation the fault-free execution fixes the byte count of each direction, then every byte position of either direction is tried as the point where the stream ends, is reset, or the writer's connection dies, under each run order. A party may finish with right data or exit with an error status; finishing with other data, exiting with status 0 or blocking forever is a violation. Files: every truncation length against every request. MemIO: every history, comparing the object before and after a refused receive.""",
"C05": """Every length x both alignments x contents enumerated for bools; sequences of typed messages enumerated as histories, with a marker message after each so loss of step is visible. A second translation unit of the same library compiled without BMI2 is linked in (renamed namespace), so both pack paths and the mixed pairing are explored.""",
"C06": """Every operation history up to the depth is run on a fresh real object and on a byte-vector model in lock step; every state is compared after each step (conformance on every transition).""",
"C07": """Every history of typed messages is run; after each step the counter must equal the running sum, which is cross-checked with what the transport really stored or carried. A custom IOChannel subclass that discards data takes the totals over 2^31 and 2^32.""",
"C08": """All interleavings of the constructors' system calls (socket, bind, listen, accept, connect, close, sleep) are explored; a connect before listen is refused, and the explorer decides how often. The network records which sockets were joined and which address/port was used; afterwards both ends exchange distinct data in both directions.""",
"C38": """The fake system keeps a table of descriptors, streams and heap blocks; every lifecycle in bounds is executed and the table compared before and after. Closing a descriptor the channel does not own, or twice, is reported at the call; neighbours opened in between reuse numbers, so a double close hits them.""",
"C09": """The real ThreadPool.h is compiled with -fsanitize=thread instrumentation but linked against our own runtime (lib/mtsched.cpp), which takes over thread creation, mutexes, condition variables, futexes, call_once and every memory access. Threads run one at a time; at each synchronisation operation the explorer chooses who continues; all choices within the preemption (or delay) bound are enumerated by stateless depth-first search with replay. Deadlock, lost task, double execution, unjoined thread and (vector-clock) data race are reported.""",
"C10": """As C09; the oracle is the future: each must yield its own task's value or exception, and the happens-before race detector shows that what the task wrote is visible to the waiter in every schedule.""",
"C11": """As C09 on the whole circuit library built with -DTHREADING: each execution is a fresh process (function-local statics are fresh too), two or three threads run their own sessions, and results, gate trace and emitted file are compared with the same session running alone. Every backend call must come from the thread that owns the backend.""",
"C12": """All circuits of bounded size are enumerated, garbled by the real generator into a MemIO and evaluated by the real evaluator for all inputs; every wire's label must be zero label + value*delta. Entropy is intercepted so colour bits are enumerated. Long chains cross every re-keying boundary.""",
"C13": """As C12 for the privacy-free pair, plus: the evaluator's label colour bit equals the value.""",
"C14": """Every gate sequence is run on the five backends; bytes on the channel and num_and() are compared with the executed sequence after every gate.""",
"C15": """For every circuit and input in bounds, Gaussian elimination over GF(2) decides whether delta lies in the span of the transcript blocks and the labels the evaluator holds (a state predicate that no functional test can see); repeated gates with equal inputs must give linearly independent tables (tweak reuse); all generators in a process must have distinct offsets with LSB 1.""",
"C16": """Every gate program x inputs x owners x recipients on the plain backend against direct evaluation; every sequence of sessions up to depth 4.""",
"C17": """Every program in bounds is traced to a file; an independent strict parser checks well-formedness and header, the library's loader loads it back, and both evaluate it on all inputs against the program's cleartext meaning.""",
"C18": """Every small netlist (gates, wiring, gate order, output numbering) is written as text in several layouts and loaded through every entry point; the loaded circuit is executed by the real code on a recording backend and evaluated on all inputs.""",
"C19": """A backend whose labels are a function of the carried value (several encodings, so that any label-dependent branch sees different labels) records the call trace; for every operation in bounds the traces over all private values must be identical and nothing may be revealed.""",
"C20": """The real operator runs once per width on a recording backend, which yields the gate list the code executes. That list is evaluated bit-sliced (256 operand pairs per pass) on every operand value in bounds: the complete transition relation of the circuit is enumerated explicitly. C19 shows the list does not depend on values, and each list is also replayed on the plain backend (traces validated).""",
"C21": """As C20.""",
"C22": """Constructors and reveals are run directly on the plain backend for every width/value/type/owner in bounds.""",
"C23": """As C20: the sorting network executed for each length is evaluated on all 0/1 inputs (zero-one principle) and on all small key assignments; the data items carry unique tags.""",
"C24": """As C20: the operator's gate list is evaluated on the enumerated float operands against the host FPU (round to nearest even).""",
"C25": """As C20 for comparisons; sign, bitwise, select operations and conversions run directly.""",
"C26": """As C20; thorough enumerates all 2^32 operands of each function.""",
"C27": """Every request history in bounds is run on a real PRG and on a model (position in the AES-CTR stream + word buffer) in lock step; addresses are varied over all misalignments; "far" runs take the block counter across 2^16, 2^20 and (through a wrapper counting only) higher boundaries.""",
"C28": """Every batch length, compile-time shape and byte value in every position against OpenSSL; batches sit at the end of exact heap allocations under address sanitizer.""",
"C29": """Every history of put/digest/reset with lengths around the buffer size.""",
"C30": """Every length, shape and call history of the re-keyed hash against a model that keeps the gate index and the inputs used per key.""",
"C31": """All basis pairs, and linearity on all pair sums, so the bilinear maps are decided on a generating set; every vector length.""",
"C32": """Every history of three operations over three point variables, aliasing included; the model is the discrete logarithm of each point, so expected points come from one independent generator multiplication.""",
"C33": """Every single-byte corruption, length and format byte through each decoding entry point; the outcome must be an error exit or the point SEC 1 prescribes. Each attempt that may exit runs behind wrapped exit/abort.""",
"C34": """The local function is enumerated directly over carry chains, start chunks and lengths; the in-circuit forms are executed once per shape on the recording backend and the gate list is evaluated on the value alphabet.""",
"C35": """The missing Keccak-f netlist is generated from FIPS 202 into the check's build directory; the real sha3 code runs for every length on the recording backend, and the gate list is evaluated on the content alphabet.""",
"C36": """Every length/shape x one-hot/one-cold contents; guard bytes and address sanitizer watch memory.""",
"C37": """Each shipped file is loaded by the real loader into a recording backend; the gate list is evaluated on every one-hot, one-cold and structured input.""",
}
