#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so that the text is reviewable)."""
import json, os
P = []
def prop(id, title, statement, over, qtext, why, files, mech, state=(), observe=()):
    assert len(title) <= 80, (id, len(title))
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": qtext},
              "why_tests_cant": why,
              "anchors": {"files": files,
                          "state": [{"name": n, "meaning": m, "where": w} for n, m, w in state],
                          "mechanism": [{"name": n, "where": w} for n, w in mech],
                          "observe_at": list(observe), "hook_needed": None}})

prop("C01", "Caller's stream buffers are never overrun and their cursors stay consistent",
 "Whatever the job kind, stream content and buffer sizes, processing writes only inside the output space the caller offered, reads only inside the input the caller offered, and never modifies the caller's input data. On every return the input pointer and remaining count have moved together by the same non-negative amount that does not exceed what was offered, and likewise for output.",
 ["inputs", "histories"], "every stream content, every sequence of (input length, output space, eof) offered, every job kind",
 "Tests drive rdiff with a few buffer sizes over small files; an overrun by a byte for one particular combination of pending output and remaining space is not visible to them.",
 ["src/tube.c", "src/scoop.c", "src/patch.c", "src/job.c", "src/delta.c"],
 [("clamping to remaining space before each copy", "tube.c rs_tube_catchup_write/rs_tube_catchup_copy, patch.c rs_patch_s_copying"),
  ("paired cursor updates", "tube.c, scoop.c rs_scoop_input/rs_scoop_advance, patch.c")],
 [("next_in/avail_in", "unconsumed caller input", "librsync.h rs_buffers_s"), ("next_out/avail_out", "unused caller output space", "librsync.h rs_buffers_s")],
 ["rs_job_iter"])

prop("C02", "Input is delivered to the job exactly once, in order, for any chunking",
 "However the caller chops the input into buffers, the job sees precisely the concatenated byte sequence: no byte is lost, repeated, reordered or invented when data is accumulated internally, read ahead, consumed or passed through. A request that cannot be satisfied yet consumes nothing from that logical sequence, and reports the end of input only when the caller flagged it and too few bytes remain.",
 ["inputs", "histories"], "every chunking of every input, every amount already accumulated, every requested length",
 "The scripts use a handful of fixed -I sizes; the accumulate/move/resize cases interact with specific residues that are not enumerated.",
 ["src/scoop.c", "src/scoop.h", "src/netint.c"],
 [("read-ahead buffer with direct-from-input fast path", "scoop.c rs_scoop_readahead, rs_scoop_input"), ("advance", "scoop.c rs_scoop_advance"), ("buffer iteration", "scoop.h rs_scoop_iterbuf/nextbuf")],
 [("scoop_buf/scoop_next/scoop_alloc/scoop_avail", "accumulated unconsumed input", "job.h")],
 ["rs_job_iter"])

prop("C03", "Queued output is delivered completely and in order",
 "Bytes a job has queued for output reach the caller's buffers completely, once each and in the order produced, however little space is offered per call; a pass-through of input that has been announced follows the header bytes queued before it. The job is never reported complete while output is still queued, and the internal queue can never overflow.",
 ["inputs", "histories"], "every sequence of output-space sizes including 0 and 1, every stream content",
 "Small output buffers are exercised only with a few sizes; partial flushes of multi-byte headers combined with pending copies are rarely hit.",
 ["src/tube.c", "src/job.c", "src/netint.c", "src/emit.c"],
 [("fixed-size write buffer plus one pending copy", "tube.c rs_tube_write, rs_tube_copy, rs_tube_catchup"), ("drain before each step and before completion", "job.c rs_job_work")],
 [("write_buf/write_len", "queued header bytes", "job.h"), ("copy_len", "pending pass-through", "job.h")],
 ["rs_job_iter"])

prop("C04", "Malformed deltas are rejected with an error",
 "Patching fails with the bad-magic error unless the stream starts with the delta magic number, and fails with the corrupt-stream error on a reserved or unknown command byte, a literal or copy length that is not positive, or a copy position that is negative. No output is produced and no basis data is requested on behalf of a rejected command.",
 ["inputs"], "every possible delta byte stream",
 "The tests apply only deltas the library itself generated plus a few fixed files; 256 commands x parameter values are not enumerated.",
 ["src/patch.c", "src/prototab.c", "src/prototab.h", "src/command.h"],
 [("256-entry command table", "prototab.c"), ("command dispatch and parameter validation", "patch.c")], (), ["rs_job_iter on a patch job"])

prop("C05", "Truncated deltas never yield success",
 "A patch job reports success only after the end command of the delta has been processed. If the input ends anywhere before that - inside the header, between or inside commands, or inside literal data - the result is the unexpected-end-of-input error, never success and never an endless wait.",
 ["inputs", "crash_points"], "every delta and every truncation point, every chunking",
 "No test truncates deltas.",
 ["src/patch.c", "src/scoop.c", "src/tube.c", "src/job.c"],
 [("end command is the only completing state", "patch.c rs_patch_s_run"), ("eof handling", "scoop.c rs_scoop_readahead, tube.c rs_tube_catchup")], (), ["rs_job_iter on a patch job"])

prop("C06", "A copy command yields exactly the requested basis range",
 "For a copy command (position, length) the patch job asks the basis callback only for ranges inside [position, position+length), in ascending contiguous order, never for more than the output space available, and emits exactly the bytes the callback supplied until length bytes have been produced. A callback that supplies fewer bytes than asked is asked again for the remainder, one that claims more than asked cannot overrun anything, and a callback error ends the job with that same error.",
 ["inputs", "histories", "fault_sequences"], "every position/length, every sequence of output-space sizes, every sequence of short, over-long or failing callback results, callback buffer or own buffer",
 "The tests use only the stdio callback on regular files, which never returns short except at end of file.",
 ["src/patch.c", "src/fileutil.c"],
 [("copying state", "patch.c rs_patch_s_copy, rs_patch_s_copying"), ("stdio callback", "fileutil.c rs_file_copy_cb")],
 [("basis_pos/basis_len", "remaining basis range", "job.h")], ["rs_copy_cb calls", "caller output"])

prop("C07", "Delta commands cover every byte of the new data exactly once, in order",
 "At every moment of a delta job, the bytes covered by the commands emitted so far plus the match or literal run still being gathered equal the input taken so far: each literal command is followed by exactly the announced number of the corresponding input bytes, and each copy command stands for exactly the input bytes it replaces. This holds whether or not output blocks at any point, and no emitted command ever has length zero or a length that does not fit its encoding.",
 ["inputs", "histories"], "every new file, every signature, every chunking of input and output including blocking at every possible point",
 "Tests compare round trips for small inputs and a few buffer sizes; blocking at a specific moment (between flush and match bookkeeping) is not controlled.",
 ["src/delta.c", "src/emit.c", "src/tube.c"],
 [("scan/append/flush bookkeeping", "delta.c rs_appendmatch, rs_appendmiss, rs_appendflush, rs_processmatch, rs_processmiss"), ("slack delta", "delta.c rs_delta_s_slack")],
 [("scan_pos/scan_len", "scan window", "job.h"), ("basis_pos/basis_len", "pending match", "job.h")], ["delta output stream"])

prop("C08", "Every command the writer can emit is decoded to the same operation",
 "For every literal length and every copy (position, length) pair the delta writer can be asked to emit, the command byte and parameter bytes it produces are decoded by the patch reader into the same kind of command with the same values. Integers are big-endian on the wire and every command byte 0..255 has the meaning the format documents (0x00 end, 0x01-0x40 immediate literals, 0x41-0x44 literals, 0x45-0x54 copies, the rest reserved).",
 ["inputs"], "all 63-bit positions and lengths, all 256 command bytes",
 "Offsets above 4 GiB and the width boundaries (255/256, 65535/65536, 2^32) in both parameters are not covered by the tests' small files.",
 ["src/emit.c", "src/prototab.c", "src/prototab.h", "src/netint.c", "src/patch.c"],
 [("width selection", "netint.c rs_int_len"), ("opcode selection", "emit.c"), ("decode table", "prototab.c"), ("parameter decode", "patch.c rs_patch_s_params, netint.c rs_suck_netint")], (), ["delta stream bytes", "patch parameters"])

prop("C09", "Delta streams are framed: magic first, one end command last",
 "A delta job's output begins with the delta magic number, contains no bytes before it, and a delta job completes successfully only after queueing exactly one end command after all data commands, once the whole input has been taken. Nothing is emitted after the end command.",
 ["inputs", "histories"], "every input, signature (present, empty or absent) and chunking",
 "Tests see the framing only for the flows they run; completion before the end of input under particular chunkings is not sampled.",
 ["src/delta.c", "src/emit.c", "src/job.c"],
 [("state chain header -> scan -> flush -> end", "delta.c")], (), ["delta output stream"])

prop("C10", "Signature streams hold a header and one entry per block of input",
 "A signature job's output is the magic, block length and strong-sum length as big-endian 32-bit integers, in that order, followed by one entry per consecutive block-length slice of the input (only the last may be shorter, never empty), each entry being the 32-bit weak sum and then the first strong-sum-length bytes of the strong sum of exactly that slice. The header describes the parameters actually used to compute the entries.",
 ["inputs", "histories", "configurations"], "every input, chunking, block length, strong length and magic",
 "Golden signatures exist for a few files and parameters only.",
 ["src/mksum.c", "src/sumset.h", "src/netint.c", "src/scoop.c"],
 [("header and block states", "mksum.c rs_sig_s_header, rs_sig_s_generate, rs_sig_do_block")], (), ["signature output stream"])

prop("C11", "Malformed signatures are rejected and cannot corrupt memory",
 "Loading a signature with an otherwise well-formed header fails with the bad-magic error unless the magic is one of the four signature kinds, and loading fails with an error if the block length is less than one or the strong-sum length is not between one and the maximum for that kind. A signature that ends inside its header or inside a block entry is reported as ended unexpectedly, and no signature content or file size makes loading access memory outside its own storage.",
 ["inputs", "crash_points"], "every signature byte stream, every truncation point, every claimed size",
 "No test loads malformed signatures beyond one or two fixed cases.",
 ["src/readsums.c", "src/sumset.c", "src/sumset.h"],
 [("header validation", "readsums.c, sumset.c rs_sig_args/rs_signature_init"), ("entry storage growth", "sumset.c rs_signature_add_block")],
 [("sig->count/size/block_sigs", "entry storage", "sumset.h")], ["rs_job_iter on a loadsig job"])

prop("C12", "A loaded signature holds exactly the file's entries in order",
 "After loading, the in-memory signature has the file's magic, block length and strong-sum length, and entry i holds the i-th weak and strong sum of the file, the weak sum transformed in the same way as weak sums computed during delta generation. Entries already stored are unaffected by later growth of the storage.",
 ["inputs", "histories"], "every signature, chunking and number of entries",
 "Unit tests add a few blocks; growth beyond the preallocated size happens only for streamed signatures of unknown size.",
 ["src/readsums.c", "src/sumset.c", "src/sumset.h", "src/checksum.h"],
 [("entry states", "readsums.c rs_loadsig_s_weak/rs_loadsig_s_strong"), ("storage", "sumset.c rs_signature_add_block, rs_block_sig_init"), ("weak-sum mixing", "sumset.c, checksum.h weaksum_digest")], (), ["rs_signature_find_match", "rs_sumset_dump"])

prop("C13", "A match is claimed only for data whose full strong sum equals the stored one",
 "During delta generation a piece of new data is replaced by a reference to basis block i only if the strong sum computed over exactly that piece, using the signature's own hash kind, equals entry i's stored strong sum in all of its strong-sum-length bytes. The position reported is i times the block length and the length is that of the piece compared.",
 ["inputs", "configurations"], "all new data, signatures and strong-sum lengths",
 "Weak-sum collisions with differing strong sums are practically never produced by the tests.",
 ["src/sumset.c", "src/hashtable.h", "src/delta.c", "src/checksum.c"],
 [("lookup comparing weak then strong sums", "sumset.c rs_signature_find_match, rs_block_match_cmp; hashtable.h NAME_find"), ("match use", "delta.c rs_findmatch")], (), ["copy commands"])

prop("C14", "Every indexed block can be found again",
 "After indexing, looking up data whose weak and strong sums equal those of some loaded block always finds a block with those sums, whatever the number of blocks (up to 2^29), their sum values (zero included) and collisions between them. Index construction and lookup always terminate and never access memory outside the index.",
 ["inputs"], "every multiset of block sums, every table size",
 "The unit test fills one table with a regular pattern; hash value zero, wrap-around of the probe sequence and minimal tables are sampled at best once.",
 ["src/hashtable.c", "src/hashtable.h", "src/sumset.c"],
 [("open addressing with triangular probing over a power-of-two table that always keeps an empty bucket", "hashtable.h, hashtable.c"), ("bloom filter", "hashtable.h"), ("zero-key remapping", "hashtable.h nozero")],
 [("size/count/tmask/bshift", "table geometry", "hashtable.h")], ["rs_build_hash_table", "rs_signature_find_match"])

prop("C15", "Rolling weak sums always equal recomputation from scratch",
 "For both weak checksum kinds, sliding the window one byte, appending a byte, or dropping the first byte leaves the accumulator in the state that computing over the resulting window from scratch would give, for every window content and length; accumulating a buffer in one call or in several gives the same sum. The weak sum stored in signatures and the one used for matching are the same function of the data.",
 ["inputs"], "all byte sequences, all window lengths",
 "Unit tests check a few fixed sequences of short lengths; arithmetic that differs only for long windows or particular byte values is not reached.",
 ["src/rollsum.c", "src/rollsum.h", "src/rabinkarp.c", "src/rabinkarp.h", "src/checksum.h", "src/checksum.c"],
 [("rolling updates", "rollsum.h, rabinkarp.h"), ("bulk update with unrolled loops and power table", "rollsum.c, rabinkarp.c")], (), ["weaksum_digest", "rs_calc_weak_sum"])

prop("C16", "A job asks to wait only when the caller can unblock it",
 "A call returns the blocked result only if offering more can help: either some output space would let pending output proceed (the offered output space is used up), or the end of input has not been flagged. In particular, once the end of input is flagged and output space remains, a call never returns blocked; a call that is offered input and output space and returns blocked has used some of one or the other; and neither the blocked result nor a finished call ever discards state: calling again with more input or space resumes where it stopped.",
 ["histories", "inputs"], "every job kind, every state in which it can be suspended, every buffer offer",
 "Only a few fixed buffer-size pairs are driven.",
 ["src/job.c", "src/scoop.c", "src/tube.c", "src/patch.c", "src/delta.c", "src/mksum.c", "src/readsums.c"],
 [("result codes of the read-ahead and output queues", "scoop.c, tube.c"), ("state machine driver", "job.c rs_job_work")], (), ["rs_job_iter result"])

prop("C17", "Processing always terminates: every step makes progress",
 "A single call to process a job always returns: each internal step consumes input, produces or queues output, or moves to a later stage, so no stream content and no behaviour of a basis callback that keeps to its contract can make the library loop forever. A completed job does no further work when called again.",
 ["inputs", "histories", "fault_sequences"], "every stream content, job kind and contract-abiding callback behaviour",
 "A hang needs a specific malformed command (zero-length copy, as fixed in 2.3.2) that tests do not contain.",
 ["src/job.c", "src/patch.c", "src/delta.c", "src/mksum.c", "src/readsums.c"],
 [("step loop", "job.c rs_job_work"), ("per-state consumption", "patch.c, delta.c, mksum.c, readsums.c")], (), ["rs_job_iter returns"])

prop("C18", "Failures of I/O and callbacks reach the caller",
 "Whenever a read, write, seek or an application callback fails during a whole-file or pull-mode operation, that operation returns a failure result (a callback's own error code unchanged, the I/O error for stdio failures) and never success; a short write counts as a failure and a read error is never mistaken for end of file. The first failure stops the operation.",
 ["fault_sequences"], "every position at which a read, write, seek or callback can fail or return short",
 "The tests never inject I/O faults.",
 ["src/buf.c", "src/fileutil.c", "src/job.c", "src/whole.c"],
 [("stdio adapters", "buf.c rs_infilebuf_fill/rs_outfilebuf_drain, fileutil.c rs_file_copy_cb"), ("driver", "job.c rs_job_drive"), ("whole-file wrappers", "whole.c")], (), ["return value of rs_*_file and rs_job_drive"])

prop("C19", "Whole-file operations and job teardown release everything exactly once",
 "Each whole-file operation frees every buffer and job it created on every return path, success or failure; freeing a job frees all memory the job owns, leaves the loaded signature to the caller and never frees a signature supplied by the caller, and freeing a signature frees its entries and index. Nothing is freed twice or used after being freed.",
 ["fault_sequences", "histories"], "every return path, every point at which a job can be abandoned",
 "The tests do not check for leaks and run only success paths.",
 ["src/whole.c", "src/job.c", "src/buf.c", "src/sumset.c", "src/scoop.c", "src/hashtable.c"],
 [("cleanup in whole-file wrappers", "whole.c"), ("rs_job_free/rs_free_sumset/rs_filebuf_free/_hashtable_free", "job.c, sumset.c, buf.c, hashtable.c")],
 [("job_owns_sig", "who frees the signature", "job.h")], ["rs_job_free", "rs_free_sumset"])

prop("C20", "Failed memory allocation is never dereferenced",
 "If the system refuses memory, the library either reports it (out-of-memory result from indexing a signature, releasing what was already allocated) or stops through its fatal-error path; it never dereferences the missing block, and sizes computed for allocations always cover what is later stored in them.",
 ["fault_sequences"], "failure of each individual allocation",
 "No test injects allocation failure.",
 ["src/util.c", "src/hashtable.c", "src/sumset.c", "src/scoop.c"],
 [("checked allocators", "util.c"), ("index construction", "hashtable.c _hashtable_new, sumset.c rs_build_hash_table")], (), ["rs_build_hash_table result"])

prop("C21", "Independent jobs share no mutable state",
 "Jobs on distinct data can be run concurrently or interleaved arbitrarily without affecting each other: apart from the process-wide log configuration and the whole-file buffer-size settings, which only their setters or the application change, the library keeps no mutable global or function-static state and uses no libc facility with hidden shared state for producing results.",
 ["schedules"], "every interleaving of any number of jobs in any number of threads",
 "The tests are single-threaded and run one job at a time.",
 ["src"],
 [("all job state lives in the job object", "job.h"), ("globals", "trace.c, whole.c")], (), ["results of concurrent jobs"])

prop("C22", "The library never exits, aborts or prints on its own because of data",
 "No stream content, callback result or I/O failure makes the streaming, pull or whole-file library interface terminate the process or write to the standard streams; the only process termination is the fatal path for refused memory and misuse guards of the file-open helper and base64 encoder, and all messages go through the application-settable log callback at their proper severity.",
 ["inputs", "fault_sequences"], "every input and fault",
 "Tests run through the command-line tool, where an exit in the library is indistinguishable from a reported error.",
 ["src"],
 [("log routing", "trace.c"), ("fatal path", "trace.h rs_fatal, util.c")], (), ["process state, standard streams"])

prop("C23", "rdiff never overwrites existing files unless forced, and its status is truthful",
 "The command-line tool opens an existing output file for writing only when forcing was requested, opens its inputs for reading only, and the exit status of a signature, delta or patch operation is zero only if that operation completed and all of its output was handed to the operating system without error.",
 ["configurations", "fault_sequences"], "every command line, file state and write failure",
 "The tests never check overwriting refusal for unreadable files or full devices.",
 ["src/rdiff.c", "src/fileutil.c"],
 [("existence check before open for write", "fileutil.c rs_file_open"), ("result propagation", "rdiff.c"), ("close", "fileutil.c rs_file_close")], (), ["rdiff exit status", "file contents"])

prop("C24", "Signature parameters are validated and defaulted consistently",
 "Requesting signature parameters succeeds only with one of the four known kinds, a positive block length and a strong-sum length between one and that kind's maximum; zero means the documented default (recommended kind, recommended block length, maximum strong length) and minus one the minimum strong length. An unknown kind yields the bad-magic error; an over-long strong length or a block length that does not fit an int yields the parameter error. The defaults of a whole-file signature are computed from the size of the basis file only if it is a regular file whose size can be determined, and as for an unknown size otherwise. Known file sizes are below 2^62.",
 ["inputs", "configurations"], "every file size, magic, block length and strong length",
 "A unit test checks a grid of values only.",
 ["src/sumset.c", "src/sumset.h", "src/util.c", "src/mksum.c"],
 [("argument check", "sumset.c rs_sig_args, rs_signature_init")], (), ["rs_sig_args, rs_sig_begin"])

prop("C25", "Statistics count exactly the work done",
 "The statistics of a job count one literal or copy command, its parameter bytes and its data bytes for each such command written or executed, one block per signature entry written or loaded, and exactly the bytes read from and written to files, with nothing counted twice when processing is suspended and resumed.",
 ["inputs", "histories"], "every stream and chunking",
 "No test checks statistics.",
 ["src/emit.c", "src/patch.c", "src/mksum.c", "src/readsums.c", "src/buf.c"],
 [("counter updates", "emit.c, patch.c, mksum.c, readsums.c, buf.c")],
 [("stats", "rs_stats", "librsync.h")], ["rs_job_statistics"])

prop("C26", "Each result code and log level maps to its own message",
 "Every result code the public interface defines has its own non-generic English description, different from that of every other code, and unknown codes get the generic one. Log messages carry the prefix of their own severity, are passed on exactly when at least as severe as the configured level, and are truncated rather than overflowing.",
 ["inputs"], "all result codes, all severities, message lengths",
 "Tests never enumerate the codes or levels.",
 ["src/msg.c", "src/trace.c", "src/librsync.h"],
 [("description table", "msg.c rs_strerror"), ("log formatting", "trace.c rs_log_va")], (), ["rs_strerror", "trace callback"])

prop("C27", "Formatting helpers never write past the buffer they were given",
 "Formatting statistics never writes beyond the given size, for any counter values and any size, truncating the text instead; hex encoding writes exactly two characters per input byte plus the terminator, reading only the given bytes.",
 ["inputs"], "all counter values, all sizes",
 "The only caller passes a buffer far larger than any text; small sizes are never used.",
 ["src/stats.c", "src/hex.c"],
 [("bounded appends", "stats.c rs_format_stats"), ("hex loop", "hex.c rs_hexify")], (), ["rs_format_stats, rs_hexify"])

prop("C28", "Strong sums do not depend on how data is fed and are always taken whole",
 "Feeding data to a strong checksum in any partition gives the same digest as in one piece, including pieces of length zero and totals beyond 512 MiB: every byte is hashed once in order, full blocks are processed as such, the tail is padded and the true total length is encoded. The MD4 and BLAKE2b compression functions and constants are those of the published standards.",
 ["inputs"], "all data, all partitions, all lengths",
 "Known-answer tests cover short messages in one piece.",
 ["src/mdfour.c", "src/blake2/blake2b-ref.c", "src/checksum.c"],
 [("block buffering", "mdfour.c rs_mdfour_update/rs_mdfour_tail, blake2b-ref.c blake2b_update/blake2b_final"), ("compression", "mdfour.c rs_mdfour64, blake2b-ref.c blake2b_compress")], (), ["rs_calc_strong_sum"])

prop("C29", "Whole-file adapters keep file and buffer positions in step",
 "The adapters that feed files to jobs hand each byte read to the job exactly once and in order, keeping unconsumed data when they refill, flag the end of input only at the end of file, and write out exactly the bytes the job produced, once each and in order, whatever the buffer sizes. They never access memory outside their buffers.",
 ["inputs", "histories", "configurations"], "every buffer size, every amount left unconsumed or produced between calls, every read length returned by the system",
 "Tests use default and a few small buffer sizes with regular files, which never give short reads.",
 ["src/buf.c", "src/whole.c"],
 [("refill keeping the tail", "buf.c rs_infilebuf_fill"), ("drain", "buf.c rs_outfilebuf_drain")],
 [("fb->buf/buf_len", "file buffer", "buf.c")], ["bytes seen by jobs and output files"])

prop("C30", "Applying a delta to its basis reproduces the new file",
 "For every basis and new file, any signature parameters and any chunking, applying the delta computed against the basis's signature to that basis yields the new file exactly, barring a strong-sum collision.",
 ["inputs", "histories", "configurations"], "every pair of files and all parameters",
 "The tests try a few dozen file pairs.",
 ["src/delta.c", "src/patch.c", "src/mksum.c", "src/readsums.c"],
 [("the composition of everything above", "whole library")], (), ["rdiff signature/delta/patch"])

prop("C31", "Unchanged data is transmitted as references, not literals",
 "A delta of data that is present block-aligned in the basis contains copy commands for it rather than literal bytes, so delta size stays small when files are similar.",
 ["inputs"], "every pair of files",
 "Only a few sizes are compared in performance scripts.",
 ["src/delta.c", "src/sumset.c"], [("match search and match extension", "delta.c")], (), ["delta size"])

with open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl"), "w") as f:
    for p in P:
        f.write(json.dumps(p) + "\n")
print(len(P), "properties")
