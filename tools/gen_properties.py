#!/usr/bin/env python3
# Writes /verif/properties.jsonl from the table below (kept as code so that it stays readable).
import json, os, re
P = []
def p(id, title, statement, over, text, why, files, mech, observe=None, state=None, hook=None):
    assert len(title) <= 80, (id, len(title))
    assert set(over) <= {"schedules", "crash_points", "inputs", "programs", "histories", "configurations", "fault_sequences"}, (id, over)
    assert len(re.findall(r"[.!?](?:\s|$)", statement.replace("e.g. ", "").replace("i.e. ", ""))) <= 3, id
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if observe: a["observe_at"] = observe
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    a["hook_needed"] = hook
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why, "anchors": a})

SW = ["src/serial/842_compress.c", "src/serial/842_decompress.c"]
OPT = ["src/serial_optimized/842_compress.cpp", "src/serial_optimized/842_decompress.cpp", "src/serial_optimized/bitstream.cpp"]
COMMON = ["src/common/842.h", "src/common/crc32.h", "src/common/crc32table.h", "src/common/endianness.h"]
COMP = ["src/stream/DataCompressionStream.cpp", "include/lib842/stream/comp.h", "include/lib842/stream/block.h"]
DEC = ["src/stream/DataDecompressionStream.cpp", "include/lib842/stream/decomp.h", "include/lib842/stream/block.h"]
CL = ["src/ocl/cl842decompress.cpp", "src/ocl/decompress.cl", "include/lib842/cl.h"]

p("C01", "Compression is lossless for every input",
  "Whenever the serial or the optimised compressor reports success for an input (the serial one accepts every length, the optimised one every multiple of 8 bytes, and both succeed when the output buffer is twice the input plus a small constant), decompressing exactly the bytes it produced with the same implementation reports success and reproduces the input byte for byte with the same length. This holds for every content, every buffer alignment, and input sizes from 0 bytes to many megabytes.",
  ["inputs", "configurations"],
  "All byte strings (0 bytes to several MiB), all relative alignments of the input and output buffers, both implementations.",
  "The tests compress a handful of fixed patterns of at most a few KiB; a bug that needs a particular repeat run length, ring wrap position, hash collision, bit offset or template is outside the sample.",
  SW + OPT + COMMON,
  [("greedy template choice against the ring of earlier 2/4/8-byte values", "src/serial/842_compress.c process_next"),
   ("hash lookup validated against the stored value", "src/serial_optimized/842_compress.cpp find_index"),
   ("ring index to absolute offset", "src/serial/842_decompress.c __do_index; src/serial_optimized/842_decompress.cpp do_index")],
  ["return value, *olen and output bytes of compress/decompress"])

p("C02", "Every encoder's output is decoded identically by every decoder",
  "A stream produced by either software compressor for an input whose length is a multiple of 8 is decoded to exactly that input by the serial, the optimised and the OpenCL decompressor, through the plain, the chunked and the function-table entry points alike. The optimised functions behave the same for 8-byte-aligned and unaligned buffers.",
  ["inputs", "configurations"],
  "All inputs with length a multiple of 8; all pairs (encoder, decoder) among sw, optsw (aligned and unaligned) and OpenCL; all entry points.",
  "The tests pair each implementation only with itself or with canned streams, so an encoder and decoder that are wrong in the same way, or a template only one side emits, go unnoticed.",
  SW + OPT + CL + ["include/lib842/common.h"],
  [("shared format definition", "src/common/842.h"), ("fallback for unaligned buffers", "src/serial_optimized/842_compress.cpp optsw842_compress")],
  ["decoded bytes of each pair"])

p("C03", "Encoders emit well-formed streams of the documented 842 format",
  "The bytes produced by a successful compression form one well-formed 842 stream as the format documentation defines it: valid template codes whose indices only refer to data already produced, one end marker, the big-endian CRC-32 (polynomial 0x04c11db7, zero initial value, no final inversion) of the uncompressed data, then zero padding to a multiple of 8 bytes, nothing else. An independent decoder of the documented format reproduces the input from them, and the software-only short-data template appears only as the last element of the serial encoder's output for inputs whose length is not a multiple of 8.",
  ["inputs"],
  "All inputs, both encoders, all alignments.",
  "Tests compare a few compressed outputs with constants or only round-trip them; round trips cannot see a private deviation from the format that hardware or other 842 decoders would reject.",
  SW + OPT + COMMON,
  [("end template, CRC and padding", "src/serial/842_compress.c sw842_compress"), ("bit writer", "src/serial_optimized/bitstream.cpp")],
  ["compressed bytes"])

p("C04", "Decoders decode every well-formed stream, not only encoder output",
  "For every well-formed 842 stream - any sequence of templates, ring indices, repeats, zero blocks and an end marker with the right CRC, including choices neither encoder makes - the serial and the optimised decompressor report success and produce exactly the data the documented format defines. Bytes after the CRC are ignored, and the serial decoder also accepts the short-data template wherever it may appear.",
  ["inputs", "programs"],
  "All token sequences of the 842 grammar, with arbitrary ring positions (before, at and after wrap of each ring), repeat counts 1-64, arbitrary trailing bytes after the CRC; short-data templates for the serial decoder.",
  "Canned streams in the tests contain a few templates each and never wrap all three rings; encoder output never exercises most legal index/template combinations.",
  SW[1:] + OPT[1:2] + COMMON,
  [("template table", "src/serial/842_decompress.c decomp_ops"), ("hand-unrolled templates", "src/serial_optimized/842_decompress.cpp switch"), ("ring index to absolute offset", "__do_index / do_index")],
  ["return value, *olen, decoded bytes"])

p("C05", "No input makes the codec touch memory outside its buffers or hang",
  "For arbitrary bytes presented as compressed data (or as data to compress), of any length and with any output capacity, both implementations return after a bounded amount of work, read only the given input bytes, write only within the given output capacity, and execute no undefined operation.",
  ["inputs", "configurations"],
  "All byte strings as input (random, mutated valid, truncated, grammar-generated with bad fields), all declared lengths from 0, all output capacities from 0, all alignments.",
  "The existing bounds checks use a few fixed malformed streams without sanitizers; out-of-bounds accesses of a few bytes do not crash a normal build.",
  SW + OPT,
  [("input bounds check per field", "src/serial/842_decompress.c next_bits; src/serial_optimized/842_decompress.cpp read_word"),
   ("output bounds check per template", "do_data, __do_index, OP_REPEAT handling; optsw842_decompress"),
   ("bounded bit writer", "src/serial/842_compress.c add_bits; src/serial_optimized/bitstream.cpp stream_write_word")],
  ["AddressSanitizer/UBSan over exactly sized buffers"])

p("C06", "Decompression succeeds exactly when the output fits",
  "Decompressing a valid stream that expands to N bytes succeeds with *olen = N for every output capacity of at least N, and for every smaller capacity fails with -ENOSPC and *olen = 0. In no case is a byte beyond the given capacity modified.",
  ["inputs", "configurations"],
  "All valid streams, all capacities 0..N+slack, every position at which the capacity can run out (inside any template, repeat or zero block).",
  "Tests try one or two undersized buffers on fixed streams; an off-by-one for a particular last template is not sampled.",
  SW[1:] + OPT[1:2],
  [("capacity checks", "src/serial/842_decompress.c do_data/__do_index/sw842_decompress; src/serial_optimized/842_decompress.cpp optsw842_decompress")],
  ["return value, *olen, guard bytes"])

p("C07", "Compression succeeds exactly when the output fits",
  "If compressing an input with ample space produces M bytes, then compressing it with any capacity of at least M succeeds with the identical M bytes, and with any smaller capacity fails with -ENOSPC and *olen = 0. No byte beyond the given capacity is ever modified.",
  ["inputs", "configurations"],
  "All inputs, both encoders, all capacities from 0 to beyond M, including those that run out inside a template, the end marker, the CRC or the padding.",
  "The tests cover a few fixed capacities just below the need.",
  [SW[0], OPT[0], OPT[2]],
  [("add_bits capacity check and padding check", "src/serial/842_compress.c"), ("stream_write_word full check", "src/serial_optimized/bitstream.cpp")],
  ["return value, *olen, output bytes, guard bytes"])

p("C08", "Silent corruption is detected by the checksum",
  "The serial and the optimised decompressor report success only if the CRC-32 stored in the stream equals the CRC-32 of the bytes they produced. A stream whose payload or stored checksum was altered so that they disagree is rejected with -EINVAL and *olen = 0, whatever the output length.",
  ["inputs", "fault_sequences"],
  "All streams, all single- and multi-bit alterations of payload or checksum that keep the structure decodable, all output lengths from 0 bytes up (including 0, 1-7 byte tails, and large).",
  "One fixed stream with one wrong checksum is tested.",
  SW[1:] + OPT[1:2] + ["src/common/crc32.h", "src/common/crc32table.h"],
  [("CRC comparison after the end template", "sw842_decompress / optsw842_decompress"), ("slicing CRC", "src/common/crc32.h crc32_be")],
  ["return value against an independent bitwise CRC of the output"])

p("C09", "Malformed streams are rejected, with a clean error result",
  "A stream that uses a reserved template code, refers to ring data not yet produced, repeats before any 8 bytes exist, carries an invalid short-data length, or ends before its end marker and CRC are complete is rejected with a negative errno and *olen = 0 by both decompressors. Both report an error on the same word-aligned streams unless the software-only short-data template is involved, and the optimised compressor rejects lengths that are not a multiple of 8 with -EINVAL and *olen = 0.",
  ["inputs", "fault_sequences"],
  "All valid streams with one malformation injected at any position, every truncation point, and arbitrary byte strings classified by an independent reference decoder.",
  "The tests hold a small list of hand-made invalid streams; the position, ring state and template at which a malformation appears are unbounded.",
  SW[1:] + OPT,
  [("opcode validation", "sw842_decompress/do_op; optsw842_decompress default case"), ("index past end check", "__do_index/do_index"), ("repeat precondition", "OP_REPEAT handling"), ("input exhaustion", "next_bits/read_word")],
  ["return value and *olen against the reference classification"])

p("C10", "Chunked calls equal the same single calls in sequence",
  "A chunked compress or decompress call leaves, for every chunk that is not skipped, exactly the output bytes, length and per-chunk result that the corresponding single call on that chunk would leave, for any number of chunks, any strides (including buffers beyond 4 GiB) and any mix of sizes and capacities; chunks marked as skipped are left untouched. The call as a whole returns zero unless some chunk failed with an error other than lack of space, in which case it returns the first such error.",
  ["inputs", "configurations"],
  "All chunk counts (0 to hundreds), strides, per-chunk sizes, capacities, valid/invalid/skipped mixtures, total offsets below and above 4 GiB.",
  "The chunked entry points are only exercised by the stream sample with 16 equal chunks of valid data.",
  ["src/common/trivial_chunked.h", "include/lib842/common.h"] + SW + OPT,
  [("chunk loop", "src/common/trivial_chunked.h"), ("documented equivalence", "include/lib842/common.h lib842_compress_chunked_func")],
  ["rets[], olens[], output bytes, overall return"])

p("C11", "Codec calls are pure: deterministic, isolated, thread-safe",
  "The result of a compress or decompress call (return value, length, output bytes) depends only on its input bytes and output capacity: not on earlier calls (successful or failed), on previous contents of the output buffer or of freed heap memory, or on calls running concurrently in other threads. Input buffers are never modified.",
  ["histories", "schedules", "inputs"],
  "All sequences of calls of both implementations, all heap contents, all concurrent combinations of calls on distinct buffers.",
  "Each test process performs one or two calls on a fresh heap in one thread.",
  SW + OPT,
  [("per-call parameter struct on the heap/stack, no static mutable state", "sw842_compress, optsw842_compress, *_decompress"), ("explicit initialisation of ring/hash tables", "sw842_compress memset; optsw842_compress std::fill")],
  ["output compared across repeats, heap fill patterns and threads; input pages write-protected"])

p("C12", "Compressed size is bounded and repeats are exploited",
  "Every compressed output is at most the size of the all-literal encoding (69 bits per 8 input bytes plus trailer, rounded up to 8 bytes). The serial encoder's output has exactly the size obtained by encoding runs of an identical 8-byte word as repeats, zero words as zero templates and every other word with the cheapest template whose parts occur in the 842 rings; the optimised encoder is never smaller than that, never larger than the all-literal bound, and encodes runs and zero words just as compactly.",
  ["inputs"],
  "All inputs (random, ring-wrapping, near-match, runs longer than 64 words, zero runs); all lengths for the serial encoder.",
  "Tests only assert that a given pattern fits in a given fraction of its size.",
  [SW[0], OPT[0]],
  [("cost-ordered template list", "src/serial/842_compress.c comp_ops, process_next"), ("template key arithmetic", "src/serial_optimized/842_compress.cpp get_template, src/common/opcodes.h ops_dict"), ("repeat/zero special cases", "both encoders")],
  ["*olen against an exact cost model"])

p("C13", "Compress stream to decompress stream reproduces the data",
  "Data whose size is a multiple of the block size, compressed through a compression stream and then fed block by block to a decompression stream, is reproduced exactly and both operations report success. This holds for any content (including incompressible chunks), any numbers of threads, any implementation on either side, any order in which the blocks are handed over, and any thread schedule.",
  ["inputs", "schedules", "configurations"],
  "All contents mixing compressible and incompressible chunks, 1-16 threads per side, block permutations, all implementations, all schedules.",
  "One sample program runs once over a single compressible test file with default threads and no control of the schedule.",
  COMP + DEC + ["include/lib842/stream/common.h"],
  [("chunk size threshold and source fallback", "DataCompressionStream::handle_block; Block::get_chunk"), ("chunk placement", "DataDecompressionStream::handle_block")],
  ["destination bytes, finalize status"])

p("C14", "The compression stream emits every block exactly once, correctly",
  "Between starting an operation and its successful finalization, the block callback is invoked exactly once for each whole block of the data and for nothing else, each time with the block's offset in the data and, for every chunk, a compressed image that decodes to that chunk if the codec compresses the chunk to at most the compressibility threshold, and otherwise the marker size that designates the uncompressed chunk in the source. Every buffer handed to the codec satisfies the codec's required alignment. All invocations complete before the finalization callback starts.",
  ["schedules", "inputs", "histories"],
  "All data sizes (0, below one block, not a multiple of the block size, many blocks, more than 4 GiB), thread counts, contents, start/finalize orders and schedules.",
  "The sample only checks a final round trip, for one schedule.",
  COMP,
  [("atomic offset dispenser", "loop_compress_thread _current_offset.fetch_add"), ("finalize barrier before the callback", "loop_compress_thread _finalize_barrier"), ("size classification", "handle_block")],
  ["multiset of emitted offsets, chunk contents, callback order"],
  [("next offset", "offset of the next block to hand to a thread", "comp.h _current_offset")])

p("C15", "Blocks are never emitted ahead of their synchronisation epoch",
  "When an epoch size is configured on a compression stream, no block at or beyond a multiple of the epoch size is handed to the block callback before the callbacks for all blocks below that multiple have returned, and the operation still completes.",
  ["schedules", "configurations"],
  "All epoch sizes (power-of-two multiples of the block size), thread counts (including more threads than blocks per epoch), data sizes not aligned to the epoch, repeated operations, and schedules.",
  "No test sets an epoch size.",
  COMP + ["include/lib842/detail/barrier.h"],
  [("barrier crossings per epoch", "loop_compress_thread num_epochs"), ("documented ordering", "comp.h set_offset_sync_epoch_multiple")],
  ["order of block callbacks"])

p("C16", "The decompression stream writes exactly the blocks it was given",
  "After successful finalization every pushed block's chunks have been written, uncompressed, at the block's offset in the destination, whatever the order, number and subset of blocks pushed. Bytes of the destination that belong to chunks marked absent or to blocks never pushed, and bytes outside it, keep their previous values, and the success status is reported only after all writes are complete.",
  ["schedules", "inputs", "histories"],
  "All subsets and permutations of blocks, all mixtures of absent, compressed and uncompressed chunks, any chunk spacing inside the block, before/while/after processing starts, all schedules.",
  "The sample pushes all blocks of one file in order and never leaves gaps.",
  DEC,
  [("gap and uncompressed handling", "DataDecompressionStream::handle_block"), ("queue hand-off", "loop_decompress_thread"), ("finalize barrier", "loop_decompress_thread _finalize_barrier")],
  ["destination bytes compared with a model at the time of the finalize callback"])

p("C17", "Stream lifecycle: finalize calls back once, no hang, reusable",
  "For every history of start, (push,) finalize with or without cancel, and destruction of a compression or decompression stream, each finalize that is not overtaken by destruction leads to exactly one invocation of its callback with success when no chunk failed, no callback arrives after it for that operation, the stream is then ready for another operation that behaves like the first, and destroying the stream at any point returns with all its threads ended. After cancellation no block is emitted or written once the finalization callback has been invoked.",
  ["histories", "schedules"],
  "All operation histories of bounded length over one stream object (including zero-size operations, cancel at any time, reuse from inside the callback, destruction idle, in progress, or during finalization), 1-16 threads, all schedules.",
  "Only one history (start, finalize, destroy) under one schedule is run by the sample.",
  COMP + DEC + ["include/lib842/detail/barrier.h", "include/lib842/detail/latch.h"],
  [("trigger counter and condition variables", "loop_compress_thread / loop_decompress_thread"), ("barrier interruption on destruction", "destructors, barrier::interrupt"), ("state reset by the leader thread", "finalization phase")],
  ["callback counts and order, termination"])

p("C18", "Stream errors are reported once and do not poison later operations",
  "If the underlying codec fails for any chunk during an operation (corrupt data, wrong decompressed size, or a failing implementation), the operation's finalization reports failure, never success and never an abort, and by then the failure has been written to the error logger, which stays silent while nothing fails; for decompression, pushes after the failure was recorded are refused. The next operation on the same stream, given good data, reports success with correct results.",
  ["fault_sequences", "histories", "schedules"],
  "All positions and kinds of injected codec faults and corrupted blocks, in all histories and schedules, in builds with and without assertions.",
  "No test injects a fault into a stream.",
  COMP + DEC + ["src/common/trivial_chunked.h"],
  [("error flag and cancellation of remaining work", "loop_compress_thread / loop_decompress_thread"), ("per-chunk result evaluation", "handle_block in both streams")],
  ["finalize status, push_block result, subsequent operation"])

p("C19", "The library is free of data races under documented use",
  "When streams are used as documented (one controlling thread, callbacks from worker threads) and codec functions are called concurrently on distinct buffers, no two threads access the same memory without synchronisation where one of them writes.",
  ["schedules", "histories"],
  "All histories of both stream kinds with 1-8 threads, plus concurrent codec calls and concurrent first use of the function tables.",
  "A race is invisible to a functional test unless it happens to corrupt a result.",
  COMP + DEC + SW + OPT + ["include/lib842/detail/barrier.h", "include/lib842/detail/latch.h"],
  [("mutex protecting the shared state, atomic offset", "comp.h / decomp.h member comments"), ("barriers and latches", "include/lib842/detail")],
  ["happens-before race detection (ThreadSanitizer) over generated histories"])

p("C20", "Barrier and latch keep their synchronisation contract",
  "A barrier for N threads releases nobody before all N have arrived in the current phase, then releases all of them, for any number of consecutive phases; once interrupted it releases every waiting thread and blocks nobody afterwards. A latch releases waiters exactly when its count has reached zero, including waiters that arrive later.",
  ["schedules", "histories"],
  "All thread counts 1-8, numbers of phases, interrupt points, waiter arrival orders and schedules, with spurious wake-ups.",
  "They are only used indirectly by the stream sample.",
  ["include/lib842/detail/barrier.h", "include/lib842/detail/latch.h"],
  [("generation counter", "barrier::arrive_and_wait"), ("interrupt flag", "barrier::interrupt"), ("count under mutex", "latch")],
  ["per-phase arrival/departure order under a controlled scheduler"])

p("C21", "OpenCL host decompression handles every chunk layout",
  "Decompressing a buffer of many always-compressed chunks with the OpenCL host interface reproduces every chunk at its place in the output and reports its exact size and a zero result, for any number of chunks, any chunk size and stride, with or without each optional array, and for any permutation as processing order. The simple single-call interface decodes any valid stream to the same bytes as the serial decoder and reports lack of space and malformed data as negative results.",
  ["inputs", "configurations"],
  "All chunk counts (1 to beyond several work-groups), chunk sizes/strides, optional-argument combinations, shuffle permutations, stream contents, and single streams of any length.",
  "The OpenCL tests decode fixed single streams and one benchmark layout.",
  CL,
  [("global id to chunk mapping, shuffle map, size/return arrays", "src/ocl/decompress.cl decompress kernel"), ("buffer setup and copy back", "CLHostDecompressor::decompress"), ("template arithmetic", "src/ocl/decompress.cl do_op")],
  ["output bytes, sizes, return values"])

p("C22", "OpenCL mixed and in-place formats restore every chunk",
  "In the maybe-compressed format every chunk - stored raw, or marked and compressed at the end of its slot - is restored in the output buffer, and a chunk marked as already present is left alone; in the in-place format the same holds within the single buffer, as long as the documented lookahead limitation is respected. Sizes and results are reported per chunk.",
  ["inputs", "configurations"],
  "All mixtures of raw, compressed and skip chunks, chunk counts, contents, optional arrays, and (in-place) all streams whose output never overtakes the six-word lookahead.",
  "One benchmark file per mode is decoded by the tests.",
  CL + ["include/lib842/common.h"],
  [("marker recognition and embedded length", "src/ocl/decompress.cl decompress kernel"), ("lookahead buffer", "src/ocl/decompress.cl read_bits/decompress_core"), ("in-place buffer handling", "CLHostDecompressor::decompress")],
  ["output bytes, sizes, return values"])

p("C23", "A malformed chunk cannot affect OpenCL decoding of other chunks",
  "When chunks with malformed or truncated streams or too small capacities are mixed with good ones, each bad chunk is reported with a negative result and size 0, every good chunk is still decoded correctly, and nothing outside each chunk's own output area is read as input or written. The OpenCL decoder accepts and rejects exactly the word-aligned streams the optimised decoder accepts and rejects, except that it does not verify the checksum.",
  ["inputs", "fault_sequences"],
  "All mixtures of good and bad chunks, all malformations, arbitrary bytes as streams, all capacities up to the chunk size.",
  "The tests feed single invalid streams.",
  CL,
  [("error handling in the kernel", "src/ocl/decompress.cl ENABLE_ERROR_HANDLING paths")],
  ["per-chunk results, canary areas; kernel code run natively under AddressSanitizer"])

p("C24", "The OpenCL program cache never changes results",
  "Whatever the state of the on-disk program cache - absent, left by another configuration or kernel version, being read or rewritten by other constructions at the same time, truncated, corrupted, unreadable or unwritable - constructing an OpenCL decompressor succeeds and it decodes correctly for its own configuration.",
  ["fault_sequences", "histories", "configurations"],
  "All sequences and concurrent sets of constructions of different configurations sharing one cache file, all truncation points and corruptions of the file's metadata, unwritable cache locations.",
  "Tests start from an empty cache and share one configuration per process.",
  CL[:1],
  [("cache key comparison", "program_cache::find"), ("fallback to building from source", "CLDeviceDecompressor::buildProgram")],
  ["decoded bytes, absence of exceptions"])

p("C25", "No call or stream operation leaks memory or threads",
  "Every compress, decompress and chunked call frees all memory it allocated, on success and on every error path; a stream frees all blocks, buffers and threads it owns, whatever the history, including errors, cancellation and destruction with work pending.",
  ["histories", "fault_sequences", "inputs"],
  "All calls (valid, invalid, too small capacities at every point) and all bounded stream histories.",
  "The tests do not measure memory.",
  SW + OPT + COMP + DEC + ["include/lib842/detail/free_unique_ptr.h"],
  [("cleanup label", "sw842_compress"), ("exception path", "optsw842_compress"), ("RAII block buffers", "Block::chunk_buffer, queues")],
  ["allocation balance per call/history; LeakSanitizer"])

p("C26", "The hardware interface translates requests and faults faithfully",
  "Through the hardware (cryptodev) interface every plain or chunked request reaches the device with the caller's buffers, strides, lengths and skip marks unchanged, results and lengths come back per chunk, requests the device interface cannot express or whose buffers are misaligned for the device are refused with -EINVAL before reaching it, and any failing system call yields its negative errno. After an error during set-up no descriptor or session stays open and a later call can succeed; each thread uses one session, released when the thread ends.",
  ["fault_sequences", "inputs", "histories"],
  "All request shapes, fault positions and errno values in sequences of calls on several threads, all device alignment masks.",
  "The interface needs a special kernel module and is not even compiled by the tests here.",
  ["src/cryptodev/842_interface.c", "include/lib842/hw.h"],
  [("request validation and 32-bit translation", "c842_compress_chunked"), ("per-thread context", "get_thread_cryptodev_ctx"), ("clean-up on error", "c842_ctx_init")],
  ["calls seen by a simulated device; descriptors and sessions balance"])

p("C27", "The AIX accelerator adapter forwards every call unchanged",
  "Each AIX adapter call performs exactly the corresponding accelerator call per chunk with the caller's buffers, lengths and capacity, and passes its result and length back unchanged; compression and decompression are never exchanged.",
  ["inputs", "fault_sequences"],
  "All plain and chunked requests, all accelerator results.",
  "Not compiled on this platform.",
  ["src/aix/aix.c", "include/lib842/aix.h", "src/common/trivial_chunked.h"],
  [("thin wrappers", "aix842_compress / aix842_decompress"), ("function table", "get_aix842_implementation")],
  ["calls seen by a simulated accelerator"])

p("C28", "Kernel source embedding preserves the text exactly",
  "For every text file the embedding tool produces a C translation unit that compiles and defines a string with the requested name whose value is exactly the bytes of the file.",
  ["inputs"],
  "All text files (quotes, backslashes, trigraph-free punctuation, missing final newline, empty file, long files).",
  "The tool only ever runs over two fixed files.",
  ["src/tools/cl2c.cpp"],
  [("escaping loop", "src/tools/cl2c.cpp main")],
  ["value of the compiled string"])

p("C29", "The HLS tokenizer splits every stream into its tokens",
  "For every well-formed 842 stream of whole 8-byte words (no short-data tokens, which only the software codecs know) delivered in 128-bit beats, the hardware-description tokenizer outputs the stream's template codes with their parameter bits, in order and complete, and marks exactly the end token as last.",
  ["inputs", "programs"],
  "All well-formed streams of any length and beat alignment.",
  "Not compiled by the build; a single hard-coded stream is printed by its own main function.",
  ["src/hls/842_decomp.cpp"],
  [("buffer refill and shift", "opcode_tokenizer"), ("parameter lengths", "get_parameter_length")],
  ["token sequence compared with the reference parser"])

p("C30", "The CUDA decompressor decodes every well-formed stream",
  "For every well-formed stream of whole 8-byte words stored in a chunk slot the CUDA kernel writes the data the format defines to the corresponding output chunk and touches nothing else, whatever the grid shape and the order of its threads; built without the strict setting it does the same for the simplified format (absolute indices of chunk-size-dependent width, no repeats, no zero words).",
  ["inputs", "configurations"],
  "All well-formed streams whose data fits the chunk size (1 KiB as configured, also 8 KiB), all grid shapes.",
  "The kernel is not compiled without the CUDA toolkit.",
  ["src/cuda/842_decompress.cu", "src/cuda/842-internal.h", "include/lib842/cuda.h"],
  [("kernel", "cuda842_decompress")], ["device output"])

p("C31", "The checksum tables and routine equal the CRC-32 definition",
  "For every byte string, length and buffer alignment, the checksum stored by compressors and the one required by decompressors equals the bit-by-bit CRC-32 of the data with polynomial 0x04c11db7, zero initial value and no final inversion. The committed lookup table equals what the table generator derives.",
  ["inputs", "configurations"],
  "All table entries (complete), all alignments modulo 8, lengths 0 to several KiB (all small ones) and random large ones.",
  "Only checksums of a few short patterns are ever compared, and encoder and decoder share the same table.",
  ["src/common/crc32.h", "src/common/crc32table.h", "src/tools/gen_crc32table.c"],
  [("slicing-by-8 loop with alignment prologue and tail", "crc32_be"), ("tables", "crc32table_be")],
  ["CRC field of generated streams; routine called directly"])

p("C32", "NUMA spreading places threads evenly and never breaks a stream",
  "With the spread policy, every worker thread of a stream is pinned to exactly the CPUs of one memory node that the process may use and that has CPUs, and the threads are distributed over all such nodes as evenly as possible, on every topology. Without NUMA support, without an eligible node, or when pinning fails, and always with the default policy, the threads run unpinned. Pinning never changes what a stream produces.",
  ["configurations", "fault_sequences", "inputs"],
  "All node and CPU layouts (gaps, nodes without CPUs, disabled CPUs, restricted processes, CPU numbers above the count), all thread counts, failing NUMA and affinity calls.",
  "The test machine has one node, and nothing observes where threads run.",
  ["src/stream/numa_spread.cpp", "src/stream/numa_spread.h", "src/stream/DataCompressionStream.cpp", "src/stream/DataDecompressionStream.cpp"],
  [("computation of the assignment", "src/stream/numa_spread.cpp"), ("application to the threads", "loop_compress_thread, loop_decompress_thread")],
  ["affinity of each thread at the time it works, on a simulated topology; stream results"])

p("C33", "Build switches never change results",
  "Each documented compile-time switch (branch-free templates, portable byte order and integer sizes, strict length handling, no error handling on valid data, simplified encoding, no checksum, debug output, in-depth tracing, release optimisation, OpenCL without caching or lookahead) yields a library that satisfies the same round-trip, well-formedness, pipeline and placement guarantees as the default build, for the inputs its documentation allows.",
  ["inputs", "configurations", "schedules"],
  "All data and all well-formed streams, for each switch.",
  "The tests build one configuration only; a switch that is off is never compiled.",
  ["src/serial/842-internal.h", "src/serial/842_compress.c", "src/serial/842_decompress.c", "src/serial_optimized", "src/ocl/decompress.cl", "src/stream"],
  [("conditional code", "the #ifdef branches and switch definitions of each component")],
  ["output of the variant builds against the reference model and the stream history checks"])

p("C34", "The sample programs succeed exactly if the round trip does",
  "For every file (any size including none, any mix of compressible and incompressible contents) and any number of threads, each sample program compresses and decompresses the file padded with zeros to whole chunks, reports its sizes correctly and ends with success; when the codec reports an error, produces other data or a wrong length, it ends with failure instead. It never crashes, reads or writes outside its buffers, or races.",
  ["inputs", "fault_sequences", "schedules"],
  "All files, thread counts and codec faults at any call.",
  "The samples are built but never run by the tests.",
  ["sample/compdecomp_driver.c", "sample/compdecomp.c", "sample/compdecomp_streams.cpp", "sample/compdecomp_cl.cpp"],
  [("file reading and size handling", "sample/compdecomp_driver.c"), ("benchmark cores", "compress_benchmark_core")],
  ["exit status and printed sizes of the programs"])

p("C35", "Running out of memory or threads is reported and harms nothing else",
  "When a memory allocation fails anywhere inside a software codec call, the call returns an error other than -ENOSPC with an output length of 0 (or the very result it has otherwise), releases all its memory and, in a chunked call, affects only the chunk concerned; the process never crashes, hangs or exits. When a thread cannot be started or memory runs out while a stream is constructed, the constructor throws, leaving no thread behind. When memory runs out during a stream operation, the operation is finalized exactly once, reports success only if every block was delivered or decompressed correctly, and the same stream serves later operations normally.",
  ["inputs", "fault_sequences", "schedules"],
  "All inputs and all positions of one or more failing allocations or thread creations.",
  "The tests never make an allocation or a thread creation fail.",
  ["src/serial/842_compress.c", "src/serial_optimized/842_compress.cpp", "src/serial_optimized/bitstream.cpp", "src/stream/DataCompressionStream.cpp", "src/stream/DataDecompressionStream.cpp", "include/lib842/stream/block.h"],
  [("state and hash table allocations", "sw842_compress, replace_hash, optsw842_compress, stream_open"), ("thread creation", "constructors of the streams"), ("block buffers and queue", "Block::allocate_buffer, push_block, handle_block")],
  ["return values, output lengths and live allocations of calls with refused allocations; finalization results and blocks of streams; threads of the process"])

p("C36", "OpenCL failures surface as errors and leave nothing behind",
  "When an OpenCL call, a kernel execution or a memory allocation fails while CLHostDecompressor or CLDeviceDecompressor is constructed or decompresses, the failure is either of no consequence (the results are those of a run without it) or ends in an exception, cl::Error with the code the runtime gave, or any std::exception for allocations; cl842_decompress never lets an exception out and returns a negative value instead. A program that does not build is reported as CL_BUILD_PROGRAM_FAILURE, with its build log going to the error logger. Nothing outside the given buffers is touched, no OpenCL object outlives the decompressors, and both the same object and new ones work correctly afterwards, whatever the failed run left in the program cache.",
  ["inputs", "fault_sequences", "histories"],
  "All positions and codes of failing calls and allocations, in every phase, with and without a cached program, and all later calls.",
  "The tests run on one working CPU device; no call ever fails there.",
  ["src/ocl/cl842decompress.cpp", "include/lib842/cl.h"],
  [("program build, cache and build log", "CLDeviceDecompressor::buildProgram, program_cache"), ("buffers and transfers", "CLHostDecompressor::decompress"), ("kernel per call", "CLDeviceDecompressor::decompress"), ("C interface", "cl842_decompress")],
  ["exceptions, results, live OpenCL objects and later calls of both interfaces on a simulated runtime whose calls fail on request"])

p("C37", "OpenCL device choice, event wait lists and decompressors shared by threads",
  "CLHostDecompressor uses only devices that are available: GPUs if any platform has an available one, otherwise CPUs, otherwise its constructor throws cl::Error (CL_DEVICE_NOT_FOUND if there are platforms at all), and a program cached for other devices is not used. CLDeviceDecompressor::decompress starts only after the events of its wait list and returns an event that completes with the decompression. One decompressor may be used by several threads at once, as cl842_decompress does with its own, each call giving the results it gives alone.",
  ["configurations", "schedules", "inputs"],
  "All sets of platforms and devices, all event wait lists, all interleavings of calls.",
  "The tests run single-threaded on the one available CPU device, without wait lists.",
  ["src/ocl/cl842decompress.cpp", "include/lib842/cl.h"],
  [("device choice", "CLHostDecompressor::findDevices"), ("program cache", "program_cache"), ("kernel per call, wait list", "CLDeviceDecompressor::decompress"), ("shared decompressor", "cl842_decompress")],
  ["the devices of the context created and the exceptions on simulated platforms; results of device jobs whose input arrives through another queue; results of threads sharing a decompressor"])

p("C38", "Requests that cannot be carried out are refused before anything is touched",
  "An OpenCL host request whose buffers do not fit the format (in place with different buffers or sizes, otherwise one buffer for both, 'maybe compressed' with different sizes) and an in-place device request with different buffers or offsets fail with CL_INVALID_VALUE: the kernel is not run and none of the caller's buffers, sizes or results change. Constructing a stream for an implementation whose required alignment does not divide the chunk size logs an error, throws std::runtime_error and leaves no thread behind. In both cases later valid requests work.",
  ["inputs", "histories", "configurations"],
  "All formats, buffer relations, sizes and offsets, all alignments, in all orders with valid requests.",
  "No test makes such a request.",
  ["src/ocl/cl842decompress.cpp", "include/lib842/cl.h"] + COMP[:1] + DEC[:1],
  [("host request checks", "CLHostDecompressor::decompress"), ("device request check", "CLDeviceDecompressor::decompress"), ("alignment check", "DataCompressionStream::DataCompressionStream, DataDecompressionStream::DataDecompressionStream")],
  ["exceptions, log, kernels run, bytes of every buffer, live OpenCL objects and threads"])

with open(os.path.join(os.path.dirname(__file__), "..", "properties.jsonl"), "w") as f:
    for x in P: f.write(json.dumps(x) + "\n")
print(len(P))
