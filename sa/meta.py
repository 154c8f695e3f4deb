"""What each check claims: technique, level, note (MANIFEST.json) and explanation (evidence)."""
AI = 'abstract interpretation of the SSA IR (linear relational domain, trace partitioning, inferred inductive step and loop invariants)'
AINOTE = ('Sound-by-design static proof over every input, chunking and history inside the stated bounds: obligations that the '
          'abstract domain cannot discharge are reported. Trusts clang\'s lowering, the abstract interpreter in sa/, the libc '
          'models and the specification classes. Assumes NDEBUG x86-64, streams below 2^60 bytes, offers below 2^40.')
RULE = 'structural dataflow rules over the IR call graph'
RULENOTE = 'Rule-based: flags every construct of the stated shape; sound for that shape, trusts clang\'s lowering and the rule tables.'
M = {}


def m(pid, technique, level, note, explain):
    M[pid] = dict(technique=technique, level=level, note=note, explain=explain)


JOBX = ('Each job (patch, signature generation, signature loading, delta with and without a signature) is analysed as an open '
        'state machine: from the state its begin function leaves, every state function is interpreted on an arbitrary caller '
        'stream (fresh buffers and sizes at every call), its outcomes are joined into abstract states per (state function, spec '
        'mode), and this is iterated to a fixpoint, so the result covers every chunking and history. ')
m('C01', AI, 'proof', AINOTE, JOBX + 'Obligations: every load, store and memory-intrinsic range lies inside its object or offered '
  'buffer, and at the end of each step avail/next cursors moved together and within the offer.')
m('C02', AI, 'proof', AINOTE, JOBX + 'The input is a symbolic stream with a position; obligations: the bytes held in the scoop are '
  'exactly the stream slice after the last consumed byte, and each read yields the next slice.')
m('C03', AI, 'proof', AINOTE, JOBX + 'The tube is modelled as a bounded queue; obligations: writes never exceed its capacity, no '
  'command bytes are queued behind pending pass-through data, output bytes equal the queued ones in order.')
m('C04', AI, 'proof', AINOTE, 'Patch job analysed over every delta byte sequence (opcode table read from the module). Obligations: bad '
  'magic, reserved opcodes, non-positive lengths, negative positions and trailing states end in an error code as specified.')
m('C05', AI, 'proof', AINOTE, 'Patch job analysed with end of input possible at every step; obligation: RS_DONE only after the end '
  'command in command position.')
m('C06', AI, 'proof', AINOTE, 'Patch job with an arbitrary copy callback; obligations: position and length asked, what is done with '
  'short, long and failing reads, and the remaining range after each step equal the specification.')
m('C07', AI, 'proof', AINOTE, 'Delta job with arbitrary match decisions: ghost variables record what is covered, matched and consumed; '
  'each literal must carry exactly the next uncovered bytes and each copy must be justified by recorded matches.')
m('C08', AI, 'proof', AINOTE, 'Command writers decoded byte by byte against an independent transcription of the 256-entry opcode '
  'table, for every argument; the reader is analysed against the same table.')
m('C09', AI, 'proof', AINOTE, 'Protocol automaton over the bytes queued by the delta job: magic, commands, one end command last.')
m('C10', AI, 'proof', AINOTE, 'Signature job against a specification of header and per-block entries, for all parameters.')
m('C11', AI, 'proof', AINOTE, 'Loader job over every byte sequence, partitioned by signature kind: accepted headers, error codes, '
  'allocation sizes and entry stores.')
m('C12', AI, 'proof', AINOTE, 'Loader job: the n-th stored entry holds the n-th weak and strong sum of the file; count equals entries.')
m('C13', AI, 'proof', AINOTE, 'Delta job: lookups are made for exactly the window data with its weak sum, and copies come only from '
  'reported matches. rs_signature_find_match interpreted for every table size, hash, length and signature kind: a position is '
  'reported only after all strong-sum-length bytes of the strong sum computed over exactly the data, with the signature\'s kind, '
  'compared equal with the entry in the bucket found, and is its number times the block length.')
m('C14', AI, 'proof', AINOTE, 'For every table size _hashtable_new can make (tables up to 2^30): geometry, cleared memory, an empty '
  'bucket left; hashtable_add stores an entry under a non-zero hash in the first empty bucket of its probe sequence and sets its '
  'filter bit, and rs_signature_find_match for equal sums walks the same sequence to that bucket through arbitrary other entries; '
  'rs_build_hash_table adds every block not found. The J-th probed bucket is arbitrary, bounded by the table size.')
m('C23', AI, 'proof', AINOTE, 'rdiff.c and fileutil.c interpreted from main with arbitrary option sequences, arguments and file states: '
  'modes in which files are opened, the existence check before opening for writing, and the exit status of every path against '
  'the results of the operation and of closing.')
m('C15', AI, 'proof', AINOTE, 'Delta job: bytes rolled in and out of the weak sum are those '
  'entering and leaving the window. Primitives of both kinds: rolling in, out and rotating against recomputation as polynomial '
  'identities modulo the word size for every state; bulk update and rs_calc_weak_sum against the byte-by-byte fold for every '
  'content and length (to 2^40), including the power of the multiplier taken from the table; the digest looked up while matching '
  'equals the one stored in a signature entry of the same kind.')
m('C16', AI, 'proof', AINOTE, JOBX + 'Obligation: a step that returns RS_BLOCKED consumed all offered input or filled the output.')
m('C17', AI, 'proof', AINOTE, JOBX + 'Obligations: each RS_RUNNING step decreases a '
  'ranking of the job, a step that does not block makes progress, and every loop interpreted has a linear or lexicographic '
  'ranking function (found by search over its loop-carried values) on every way round.')
m('C25', AI, 'proof', AINOTE, 'Statistics fields compared with ghost counters at the end of every step.')
m('C21', RULE, 'other', RULENOTE, 'Every global object of the library, every store to one, every call of a libc function with hidden '
  'state and every function-static: mutable state outside the log configuration and the buffer-size settings is reported.')
m('C26', AI + '; ' + RULE, 'proof', AINOTE, 'rs_strerror interpreted for every result code and every interval of unknown codes; '
  'rs_log0 interpreted for every severity, level and destination: which text reaches which callback and when. Severity of each '
  'log call site of the library against the rule table.')
m('C27', AI, 'proof', AINOTE, 'rs_format_stats, rs_log_stats and rs_hexify interpreted for every counter value, buffer size and content: '
  'ranges written, order of the pieces, digits against bytes.')
m('C22', RULE + '; ' + AI, 'other', RULENOTE, 'Every call of a terminating or printing libc function in the library and who can reach it, '
  'log severities, and abort sites reachable from stream data.')
m('C18', AI, 'proof', AINOTE, 'Fill and drain callbacks, the pull driver and every whole-file operation interpreted with every stdio '
  'and callback result possible: a failing read, write, seek or callback must surface as the right failing result, the first one, '
  'and nothing further is done.')
m('C19', AI, 'proof', AINOTE, 'Ownership of every heap object over the whole-file operations and over each job from begin to '
  'rs_job_free: on every return path each object the operation created is freed exactly once, none the caller supplied is freed, '
  'and no freed object is accessed.')
m('C20', AI, 'proof', AINOTE, 'Every allocation may fail; obligations: a null block is never dereferenced and every store into an '
  'allocated object lies inside its allocated size, over jobs, whole-file operations and signature parameters.')
m('C24', AI, 'proof', AINOTE, 'rs_sig_args and rs_signature_init interpreted for every file size, magic, block length and strong length, '
  'against the documented validity and defaulting rules; rs_file_size for every kind of file and outcome of fstat, and whose '
  'size rs_sig_file passes on.')
m('C29', AI, 'proof', AINOTE, 'Fill and drain callbacks against a symbolic file position and buffer contents: which file bytes are where, '
  'what is kept, eof flag, what is written; pull driver automaton; wiring of buffers and files in the whole-file operations.')
m('C28', AI + '; value numbering of the compression functions', 'proof', AINOTE + ' Totals up to 2^60 bytes; BLAKE2b unkeyed with the '
  '32-byte digest of the signature format.', 'The value each chaining word has after the MD4 and BLAKE2b compression functions is '
  'computed as a canonical expression over state and block and compared with the expression of the published algorithm (RFC 1320, '
  'RFC 7693), as are the initial states. The buffering is interpreted from every state reachable by feeding data (any total, any '
  'tail) with any length fed: each block compressed is the next of the message, the tail kept is the rest, counters are exact; '
  'finishing is interpreted for every tail length and any total: padding, encoded length, last-block flag and digest bytes.')
