"""What each check builds and runs. See tools/check.py."""
SPECS = {}
NA = {}
NOTES = "Every check rebuilds its harness from /repo's headers (tools/check.py) and enumerates exhaustively within the stated bounds; see DESIGN.md."
def S(pid, harnesses, level, rule, bounds, assumptions=(), **kw):
    SPECS[pid] = dict(harnesses=harnesses, level=level, rule=rule, bounds=bounds, assumptions=list(assumptions), **kw)
ASSUME_C = ["single thread", "library code compiled with clang++-20 at -O1 with ASan and UBSan", "the reference oracle in the harness is the definition"]
C = dict(san="asan")
S("P28", [dict(src=["checks/h/P28.cpp"], libs=["-lcrypto"], **C)], "model_checking",
  "one evaluation per enumerated block of inputs; distinct_nontrivial counts distinct digests/blocks; transitions counts individual inputs encoded/decoded/hashed and compared with the reference",
  {"quick": "Base64/Base64Url: every input of 0..2 bytes, 3-byte inputs on a covering grid, all lengths<=130 with every single-bit pattern; decode: all texts of 0..2 bytes, 3 bytes over alphabet pairs, 16^4 texts plus tails, every single-character corruption of encodings up to 24 bytes; SHA-1: every length<=200 x every cut, every pair of cuts for length<=80",
   "thorough": "as quick with all 2^24 3-byte inputs, all 2^24 3-byte texts, lengths<=400, 28^4 texts, SHA-1 lengths<=520 and pairs of cuts<=150, one 520 MiB message"}, ASSUME_C)
S("P29", [dict(src=["checks/h/P29.cpp"], defs=["HXLIBS_ENABLE_SSL"], libs=["-lssl", "-lcrypto"], **C)], "model_checking",
  "one evaluation per value / plaintext length / operation-sequence block; transitions counts individual (token, alteration) readings and sequence steps",
  {"quick": "25 values x every position x {8-64 alphabet + 10 foreign characters, deletion, insertion, swap, truncation, splice}; plaintext lengths 0..80 with every bit flipped and every truncation; every operation sequence of length 5 over 8 operations on one cipher object",
   "thorough": "all 64 alphabet characters at every position, plaintext lengths to 300, sequences of length 6"}, ASSUME_C + ["OpenSSL's AES-GCM is correct; RAND_bytes is a real random source"])
S("P30", [dict(src=["checks/h/P30.cpp"], **C)], "model_checking",
  "one evaluation per (scheme, host) block; transitions counts URLs decomposed and compared component by component; distinct outcomes are distinct decompositions",
  {"quick": "7 schemes x 7 credentials x 10 hosts x 7 ports x 17 paths, all 65535 ports, 25 malformed texts", "thorough": "17 hosts, 12 ports, 25 paths, 9 credentials"}, ASSUME_C)
S("P36", [dict(src=["checks/h/P36.cpp"], **C)], "model_checking",
  "one evaluation per block; transitions counts (string, delimiter) pairs, strings, numbers and dates compared with the naive definition",
  {"quick": "every string up to length 7 over {a,b,','} x every delimiter up to length 3; every byte at every position of strings up to 20; 23k numbers x 6 bases; every day 1970-2105", "thorough": "strings up to length 9, byte positions up to 40, 70k numbers"}, ASSUME_C)
S("P31", [dict(src=["checks/h/P31.cpp"], defs=["PART=%d" % i], **C) for i in range(4)], "model_checking",
  "one evaluation per block of key sets; states counts key sets, transitions counts maps built and interrogated with the whole universe through find/at (const and not) and iteration",
  {"quick": "all subsets of size 1..6 of universes of 12-14 integer/string keys (sizes 2,3 in every insertion order), arithmetic key families of 7..200 keys; 11 enumerations x all values -400..400 x all single edits of every name", "thorough": "subsets to size 9, size 4 in every order, 16 strides"}, ASSUME_C + ["enumerators lie in the reflected range (-128..127 signed, 0..255 unsigned)"])
S("P33", [dict(src=["checks/h/P33.cpp"], **C)], "model_checking",
  "one evaluation per pair of first operations; states counts complete operation sequences, transitions counts operations compared with the reference ownership graph",
  {"quick": "every sequence of 4 operations over 51 operations on 3 pointers, with linked objects", "thorough": "every sequence of 5"}, ASSUME_C + ["ownership graphs are acyclic"])
S("P32", [dict(src=["checks/h/P32.cpp"], **C)], "model_checking",
  "one evaluation per pair of first operations per holder; states counts complete operation sequences, transitions counts operations after which state, value, liveness of every object and equality are compared with the reference model",
  {"quick": "cell: 14^5 sequences; variant<A,void,B>: 32^3 incl. throwing constructors; Try<A>: 20^4; Try<void>: 10^5; function: 10^6", "thorough": "cell 14^6, variant 32^4, Try 20^5, Try<void> 10^6, function 10^7"}, ASSUME_C + ["objects are not assigned from inside themselves"])
S("P26", [dict(src=["checks/h/P26.cpp"], defs=["PART=%d" % i], **C) for i in range(4)], "model_checking",
  "one evaluation per block of values; states counts values written, transitions counts texts read back; every text is also judged by an independent strict reader",
  {"quick": "every Unicode scalar value as string and as map key; every string of 1-3 pieces over 16 pieces; every 8/16-bit integer, +-2^k+-3; every float/double upper half x 4 lower patterns; every 2-level nesting of optional/pointer/vector/array/tuple/map over int, string, record; every pair of field deviations of a 13-field record; whitespace at every gap", "thorough": "4-piece strings, all five kinds of whitespace at every gap of the record"},
  ASSUME_C + ["floating-point values are finite", "the target object is fresh", "an optional or pointer directly inside another is not itself null"])
S("P27", [dict(src=["checks/h/P27.cpp"], defs=["PART=%d" % i], **C) for i in range(3)], "model_checking",
  "one evaluation per first token / block of edits; states counts token sequences, transitions counts texts read from exactly sized heap blocks (ASan sees any access beyond) and compared with an independent strict reader (must accept) and a lenient one (must reject)",
  {"quick": "21 target types x all token sequences up to length 5-9 over 4-11 tokens; all prefixes, suffixes, cut-outs, doublings, swaps and single-character insertions/replacements (34 characters) of 9 documents; all range limits +-3", "thorough": "sequences one longer, and all pairs of replacements"},
  ASSUME_C + ["nesting depth is bounded by the type or by the text's length (recursion depth is not limited by the library)", "text behind a complete value is not judged", "documented leniencies (literals in any case, 0/1 for bool, leading zeros, unknown escapes, fewer array elements) may be accepted or refused"])
S("P35", [dict(src=["checks/h/P35_%d.cpp" % i], defs=["HXLIBS_ENABLE_DB_SQLITE3"], libs=["-lsqlite3"], san="none", opt="-O0", shards=1) for i in range(6)], "model_checking",
  "one evaluation per expression of the generated grammar; transitions counts executed queries, each compared row by row with the C++ evaluation of the same expression (SQL three-valued logic) on every row",
  {"quick": "567 compile-time expressions: every one- and two-operator arithmetic shape (literal left/right, column, parameter), every comparison operator with the literal on either side, IN/LIKE/NOT, every grouping of AND/OR over 3 and 4 conditions; 61 parameter values (168 pairs); 50 rows covering all 16 truth assignments; whole queries with parameters in every subset of where/having/on/limit", "thorough": "as quick"},
  ["SQLite itself is correct", "harnesses are built with clang++-20 -O0 without NDEBUG", "no NULL columns (optional columns do not compile)"])

S("P34", [dict(src=["checks/h/P34.cpp"], defs=["HXLIBS_ENABLE_DB_SQLITE3"], libs=["-lsqlite3"], **C)], "model_checking",
  "one evaluation per pair of first operations; states counts complete histories, transitions counts operations after each of which the whole table is read back through a cached statement and compared with the reference table",
  {"quick": "all histories of 3 operations over 20 operations (inserts with/without returning, partial, explicit key; updates, deletes, with returning; late table creation; raw SQL; reopening) and of 5 operations over 7; value round trips of +-2^k+-2, 1.4k texts, 70 reals", "thorough": "histories of 4 (20 operations) and 7 (7 operations)"},
  ASSUME_C + ["SQLite itself is correct", "columns are non-optional numbers and text (optional columns do not compile)", "text without embedded NUL"])

SIM = dict(san="asan", defs=["NDEBUG"])
ASSUME_B = ["the io_uring library functions, the clock and the peers are replaced by lib/sim.hpp; the library code above them is the real one, compiled with clang++-20 -O1 NDEBUG with ASan and UBSan", "one thread per event loop"]
S("P06", [dict(src=["checks/h/P06.cpp"], **SIM)], "model_checking",
  "one evaluation per block of programs; states counts executed coroutine programs, transitions counts coroutine nodes run and compared with the reference evaluation",
  {"quick": "every program of seq/catch up to depth 3 over 8 leaf behaviours (return/throw, immediately or after yield, sleep, I/O) x 4 ways of running it; chains up to depth 1000; abandonment of every depth-2 program after each of 6 steps; move-only, void and reference results", "thorough": "one more level"}, ASSUME_B)

S("P07", [dict(src=["checks/h/P07.cpp"], **SIM)], "model_checking",
  "one evaluation per group of programs; states counts complete executions (program x completion order chosen by the simulated kernel), transitions counts coroutine nodes run; every outcome, completion time and object lifetime is compared with the reference evaluation",
  {"quick": "every pair of 11 member behaviours (return/throw immediately, after yield, after 1 or 2 sleeps, after I/O ready or late) x 4 ways of running x function and operator form, every triple of 10, two-level nestings of all/any/seq, plain I/O, timer and task members in every order, abandonment at every step; every order and batching of completions", "thorough": "operator triples in every order, nestings of two combinations"}, ASSUME_B)
S("P08", [dict(src=["checks/h/P07.cpp"], **dict(SIM, defs=["NDEBUG", "ANY=1"]))], "model_checking",
  "one evaluation per group of programs; states counts complete executions (program x completion order chosen by the simulated kernel), transitions counts coroutine nodes run; the winner must be one of the members that finish first, at that time, and losers must never run, leak or be written to afterwards",
  {"quick": "every pair of 12 member behaviours (as P07 plus never finishing) x 4 ways of running x function and operator form, every triple of 11, two-level nestings, plain I/O, timer and task members in every order, abandonment at every step; every order and batching of completions", "thorough": "operator triples in every order, nestings of two combinations"}, ASSUME_B)

S("P09", [dict(src=["checks/h/P09.cpp"], **SIM)], "model_checking",
  "one evaluation per first script; states counts complete executions, transitions counts waits; every wait is judged for time, order against every other wait pending at the same time, and number of resumptions",
  {"quick": "all pairs of 52 scripts (1-2 waits over sleeps of -1..3 ms, absolute deadlines, yields, ready and late I/O) in every completion order, all triples with 15 third scripts, all 4- and 5-tuples of single waits over 7-10 kinds, each script pair beside a perpetual yielder or zero sleeper with an advancing clock, all 6-step scripts of period 3", "thorough": "all triples of 52 scripts, 6-tuples"}, ASSUME_B)

S("P10", [dict(src=["checks/h/P10.cpp"], **dict(SIM, defs=["NDEBUG", "PART=%d" % i])) for i in range(2)], "model_checking",
  "one evaluation per first submitter; states counts complete executions, transitions counts submitted tasks; overlap, order, exactly-once, outcome, continuation and object lifetimes are judged from the recorded event order",
  {"quick": "both executors: all pairs of 84 submitters (1 of 7 task kinds then 1 of 4, submitted at once, after a yield or after 1 ms), all triples in every completion order, all 4-tuples of 13, and clearing / destroying / clearing and resubmitting / abandoning a submitter at 6 moments for all triples", "thorough": "all 4-tuples"}, ASSUME_B + ["a task does not submit to the executor it runs on and wait for it"])

S("P11", [dict(src=["checks/h/P11.cpp"], **SIM)], "model_checking",
  "one evaluation per group of programs; states counts complete executions (program x kernel choices), transitions counts operations; every operation's result, buffer, time and number of resumptions is compared with what the simulated kernel reported for it",
  {"quick": "all pairs (every completion order, batch split, race of result and timeout, wake-up by signal) and triples of 16 operation kinds (ready/late/EOF/error/cancelled receive, send, close, linked receive before/at/after its limit, sleep, yield), all 4-tuples of 7, two-operation scripts pairwise, run directly, through trySync and through a throwing sync; 1..4100 operations at once around the queue length, linked pairs straddling a full queue", "thorough": "4-tuples and scripts without deviation bound, deeper races"}, ASSUME_B)

S("P12", [dict(src=["checks/h/P12.cpp"], **SIM)], "model_checking",
  "one evaluation per pair of first operations; states counts complete histories (operations x transfer lengths x errors), transitions counts operations compared with a byte-string model of the file",
  {"quick": "all histories of 5 operations over 18 (open in 4 modes, failing open, reads of 1/3/9/2 of 5, readAll, writes of 0/1/4, offsets inside/at/behind the end, close and reopen) on files of 0 and 10 bytes; all of 4 with up to 2 short transfers (to 1, half or all but one byte) or one error; all of 3 with any number; sizes around 1, 2 and 3 transfer buffers with up to 2 short transfers", "thorough": "histories of 6, 3 short transfers"}, ASSUME_B + ["the file is not changed by others while in use", "writes continue behind the previous write of the same open (or at the end in append mode); only reads honour the offset"])
S("P13", [dict(src=["checks/h/P13.cpp"], **SIM)], "model_checking",
  "one evaluation per block of segmentations; states/transitions count complete executions of the server stack on one segmentation, each comparing every observed field of every request with the request that was sent",
  {"quick": "23 request shapes (bare, spaced/unspaced/upper/lower-case headers, declared length 0..44 incl. bodies that look like requests, chunked in 11 styles incl. extensions, padding, trailers) followed by another request: every set of at most 2 cuts and every byte separate, read into memory or saved to a file; all 529 ordered pairs of shapes pipelined x every single cut; every short-receive pattern with 2 deviations; bodies and heads of 16 KiB..50 KiB around the buffer size x 12 cut patterns", "thorough": "every set of 3 cuts, 3 deviations, every size"}, ASSUME_B)
S("P14", [dict(src=["checks/h/P14.cpp"], **SIM)], "model_checking",
  "one evaluation per block of byte sequences; states/transitions count complete executions of the server stack, each ending with the connection judged for closure, leaks, loops and output",
  {"quick": "every sequence of 3 of 22 raw tokens; of 3 (POST /) or 2 of 25 header/body tokens behind 5 endpoints' request lines, alone, completed, and followed by a request; of 3 of 20 chunk tokens behind 3 endpoints; of 3 of 20 target tokens behind 5 prefixes; of 3 of 15 range tokens; each delivered whole and byte by byte and followed by silence, end of stream, reset or a vanished peer; every truncation, deletion, doubling, cut-out and single-byte change/insertion (14 bytes) of 13 requests; 23 oversized elements of 1000..70000 bytes; 2..3 such connections beside a good one behind the real acceptor, also with peers that do not read; every pair of 12 accept errors", "thorough": "sequences one longer, pairs of changes"}, ASSUME_B + ["WebSocket connections are judged by P22"])
S("P15", [dict(src=["checks/h/P15.cpp"], **SIM)], "model_checking",
  "one evaluation per group of request sequences; states/transitions count complete executions of the server stack, each response being compared with the response of the same request on a fresh connection",
  {"quick": "every sequence of at most 3 of 26 request kinds (bodies read/unread, declared and chunked, HEAD, files, ranges, parameters, uploads, unknown paths, old versions, closing and failing ones) x 5 deliveries (one after the other, pipelined in one piece, in pieces, byte by byte, across the boundaries); every pair with up to 1 short receive or file read; every pair of kinds on two connections with up to 2 deviations in the completion order; 2 versions x 16 Connection headers x 6 requests x 3 timings x first/second request; silence after 1, 2, 4 requests with gaps up to and beyond the timeout and after every byte of every kind", "thorough": "sequences of 4, 2 short transfers, 3 deviations"}, ASSUME_B)
S("P16", [dict(src=["checks/h/P16.cpp"], **SIM)], "model_checking",
  "one evaluation per block of responses; states/transitions count complete executions of the server stack; clean runs are judged by an independent strict response reader, runs with short or failing writes byte for byte against the clean run",
  {"quick": "20 statuses x 4 header sets x 17 bodies (0..70000 bytes, bodies that look like framing) x 4 ways of setting them x own/default reason, GET and HEAD, alone and between others; chunked and plain files of 15 sizes around the transfer buffer; all sequences of up to 3 events; 11 responses x every set of 2 short writes (to 1, half, all but 1), x failure of each of the first 40 writes with 7 errors, x both combined; short reads and a failing open/read at each position; all pairs of responses on two connections with 2 deviations in completion order or write length", "thorough": "282 more file sizes, 3 short writes, 2 with a failure"}, ASSUME_B + ["the handler sends one response, sets framing headers only through the library, and no body with 204/304"])
S("P18", [dict(src=["checks/h/P18.cpp"], **SIM), *[dict(src=["checks/h/P18i.cpp"], **dict(SIM, defs=["NDEBUG", "PART=%d" % i])) for i in range(5)]], "model_checking",
  "one evaluation per block of route tables; states counts route tables (or interceptor configurations) served, transitions counts requests whose endpoint and parameters are compared with a naive reference",
  {"quick": "every table of at most 3 of the 53 templates with up to 3 segments over two literals, a variable and a trailing wildcard x all 94 paths up to 4 segments; every assignment of 3 methods to every triple of 11 templates x 5 methods x 8 paths; every triple of 12 templates with similar names x ~900 paths with query strings; every set of up to 3 of 63 query parameters on 3 kinds of template; 47 lists of 1-3 interceptors (only before, only after, both, each synchronous or suspending) x up to 4 kinds of template and the not-found endpoint x every combination of answers, for one and two requests", "thorough": "every table of 4 templates"}, ASSUME_B + ["templates differ for each method", "no empty path segments, no repeated or empty query keys", "what runs after a rejection is not judged"])
S("P17", [dict(src=["checks/h/P17.cpp"], **SIM)], "model_checking",
  "one evaluation per file size or block of range sets; states counts complete executions of the server stack, transitions counts downloads compared byte for byte by an independent reader of responses and multipart bodies",
  {"quick": "files of 0..12 bytes x every a-b, a-, -n with positions up to size+2 and 6 huge values, with GET, HEAD and between other downloads, 20 malformed ranges; every pair (2 separators) and triple of ~25 ranges on files of 1, 2, 10 bytes; files of 5 sizes around the 128 KiB buffer x every pair of 11 positions, alone and with other ranges; 7 downloads x every set of 2 short reads/writes; a failing open or read, or a file emptied or halved, at each of 6 positions", "thorough": "files up to 20 bytes, quadruples, 3 short transfers"}, ASSUME_B + ["a syntactically invalid range may be refused, ignored, or answered by the valid ranges beside it", "HEAD ignores ranges"])

MCS = dict(san="mcsched", opt="-O1")
RT = "nosan:lib/mcsched.cpp"
ASSUME_A = ["the real library code runs under lib/mcsched.cpp: threads are fibers, and every mutex, condition-variable, atomic, thread and sleep operation is a scheduling point of the explorer", "between scheduling points plain accesses are checked for data races with vector clocks, so exploring only those points is exhaustive for race-free code", "atomics are explored sequentially consistent; weaker orderings only show up as missing happens-before edges (data races)", "condition variables have no spurious wakeups"]
S("P04", [dict(src=["checks/h/P04.cpp", RT], **MCS)], "model_checking",
  "one evaluation per program; states counts scheduling points passed, transitions counts scheduling decisions; every complete history is compared with every linearization of a sequential FIFO queue",
  {"quick": "every program of 2 threads x 1-2 operations and 3 threads x 1 operation over push/frontAndPop/pop/size/empty, with and without spare elements, all interleavings without a preemption bound", "thorough": "2 threads x 3 operations and 3 threads x 2 operations"}, ASSUME_A + ["no operation pops from an empty queue (undefined for the queue by design)"])
S("P01", [dict(src=["checks/h/P01.cpp", RT], **MCS)], "model_checking",
  "one evaluation per program; states counts scheduling points passed, transitions counts scheduling decisions",
  {"quick": "one task of 8 kinds x 1-2 workers x 8 orders of submitting/starting/collecting with <=3 preemptions, all pairs of kinds with <=2, triples and two submitting threads with <=1-2, self-checking pools with <=1-2", "thorough": "one to two more preemptions everywhere"}, ASSUME_A + ["the pool outlives the tasks' futures being waited for"])
S("P05", [dict(src=["checks/h/P05.cpp", RT], **MCS)], "model_checking",
  "one evaluation per program; states counts scheduling points passed, transitions counts scheduling decisions",
  {"quick": "9 kinds of awaited jobs (value, void, exceptions, move-only, string, chained, slow, already finished) x {single, twice, loop reused, with I/O before/beside/after, with a timer, whenAll, two coroutines, abandoned by whenAny, two loops in two threads, a loop kept busy} x 1-2 workers, <=4 (single), <=3, <=2 deviations", "thorough": "one more deviation everywhere"},
  ASSUME_A + ["io_uring, eventfd and a slow file are stood in for by lib/ringa.hpp (completion order and timing chosen by the scheduler)", "the pool outlives the tasks that are awaited"])
S("P02", [dict(src=["checks/h/P02.cpp", RT], **MCS)], "model_checking",
  "one evaluation per program; states counts scheduling points passed, transitions counts scheduling decisions (and observations given to the default strategy)",
  {"quick": "destruction with 0-3 workers x 0-3 tasks (plain and submitting further ones) x awaited prefix x fixed/self-checking x elapsed time, <=2 preemptions; every sequence of 2-3 strategy answers over {+1,+2,-1,-2,0} and extreme ones with <=1-2 deviations; the default strategy on every observation with min<=max<=12, and in a live pool", "thorough": "one more deviation everywhere, strategy box to 20"}, ASSUME_A)
S("P03", [dict(src=["checks/h/P03.cpp", RT], **MCS)], "model_checking",
  "one evaluation per program; states counts scheduling points passed, transitions counts scheduling decisions; outcomes are compared with a reference evaluation of the chain",
  {"quick": "4 sources x 7 continuation kinds x 1-2 workers x attached before/after completion with <=2 deviations, all chains of two with <=1, all chains of three on the default schedule; move-only/string values, continuations returning futures, two chains, chains started on a worker or from two threads with <=2", "thorough": "<=3, <=2, <=1 deviations"}, ASSUME_A)

S("P20", [dict(src=["checks/h/P20.cpp"], **SIM)], "model_checking",
  "one evaluation per response kind and block; states/transitions count executions of the real client against one scripted server connection; each result is compared with what an independent strict reader finds in the bytes",
  {"quick": "22 response kinds (declared length, chunked with extensions/trailers, bodiless, HEAD, interim, close-delimited) x every cut and every pair of cuts, byte by byte, short receives and sends up to 2 deviations; every truncation x 4 endings; bodies around the buffer size; 45 malformed responses; every single-character insertion/replacement/deletion over 22 characters", "thorough": "every triple of cuts, 3 deviations"}, ASSUME_B)

S("P21", [dict(src=["checks/h/P21.cpp"], **SIM)], "model_checking",
  "one evaluation per (first operation, first server behaviour); states/transitions count complete histories of one client; every call's result is compared with what the scripted server received and answered",
  {"quick": "every sequence of 2 of 8 operations (GET, HEAD, POST, other origin, chunked upload, path only, close, connect) x every pair of 18 server behaviours (answer in 9 ways, close/reset/silence/garbage before, within head, within body, answer after the timeout) x reconnecting on/off x idle gaps; 3-operation sequences; every subset of the first 4 connects refused; short transfers", "thorough": "3-operation sequences over all 8 operations, 2 short transfers"}, ASSUME_B + ["a connect attempt is answered (the kernel's own connect time-out is not modelled)"])

S("P22", [dict(src=["checks/h/P22.cpp"], libs=["-lcrypto"], **SIM)], "model_checking",
  "one evaluation per block of streams; states/transitions count conversations of the real server or client end with a scripted peer; messages, pongs, closes and the end are compared with an independent RFC 6455 reading of the bytes",
  {"quick": "both ends: every stream of up to 3 of 20 items (texts, binaries, fragments with control frames between, pings, pongs, closes, 8 malformed kinds) x whole/byte-wise/behind the handshake x 4 endings; every cut and pair of cuts and truncation of 4 streams; every first frame byte x 40 second bytes; 22 lengths x 4 masks x 4 fragmentations x 6 segment sizes; sending all length classes; closing against 10 peer behaviours; silence of 25 gap pairs x 9^3 pieces", "thorough": "streams of 4 items, all 65536 frame heads, all gaps"}, ASSUME_B + ["one task at a time sends on a connection"])

S("P23", [dict(src=["checks/h/P23.cpp"], libs=["-lcrypto"], **SIM)], "model_checking",
  "one evaluation per block of handshakes; states/transitions count handshakes carried out by the real server or client end, followed by a message in each direction; the verdict is compared with an independent reading of RFC 6455 (SHA-1/Base64 from OpenSSL)",
  {"quick": "server: every subset of the 6 headers in both orders, every Base64 character at every key position, 50 values, every header-name case pattern, every cut and a third of the pairs of cuts with frames behind the handshake, short transfers (2 deviations); client: every subset of the 3 headers, 11 status lines, 25 values, every alteration of the accept value (28 positions x 6), cuts, every truncation x 3 endings", "thorough": "every pair of cuts, 3 deviations"}, ASSUME_B)

S("P24", [dict(src=["checks/h/P24.cpp"], **SIM)], "model_checking",
  "one evaluation per block of proxy behaviours; states/transitions count requests made by the real client through a scripted proxy; what the client sends is compared byte by byte with RFC 1928/1929 (SOCKS5) or read by a strict HTTP reader (CONNECT)",
  {"quick": "SOCKS5 with and without credentials: 18 targets, ~560 ports, credential lengths and every credential byte; every form of reply x every cut and pair of cuts, short transfers (2 deviations); every truncation x 4 endings; every value of every checked answer byte; bound addresses; two requests x tunnel lifetimes. HTTP proxy: targets x credentials, cuts, truncations, every status 300-599, malformed answers", "thorough": "every port, triples of cuts, 3 deviations"}, ASSUME_B + ["credentials are taken from the proxy URL without percent-decoding"])

S("P19", [dict(SIM, src=["checks/h/P19.cpp"], defs=["NDEBUG", "HXLIBS_ENABLE_SSL", "PART=%d" % i], libs=["-lssl", "-lcrypto"]) for i in range(3)], "model_checking",
  "one evaluation per block; states/transitions count exchanges of the real HTTPS client or server with a scripted peer built directly on OpenSSL; what each end reads is compared with what the other wrote",
  {"quick": "TLS 1.2 and 1.3, both ends: 19 body sizes around record/buffer boundaries x 3 framings x record sizes x segment sizes, requests with bodies, uploads, pipelining; every cut of the stream and pairs on a grid, fixed segment sizes, short transfers (1 deviation); truncation x 4 endings; altered bits; a failing connection beside a good one; key updates / empty records; 12 non-TLS streams; verification: 18 server certificates, 6 client certificates", "thorough": "every truncation and altered bit, finer pairs of cuts, 2 deviations"}, ASSUME_B + ["OpenSSL itself is trusted; certificates and keys are made at run time", "a close of the TCP connection without a TLS close may be taken for the end of a body that has no other end"])

S("P25", [dict(src=["checks/h/P25.cpp"], **SIM)], "model_checking",
  "one evaluation per block of streams, pushes or requests; states/transitions count executions of the real client or server end; event streams are compared with an independent reader of the WHATWG event stream format, requests with what was asked, by a strict HTTP reader",
  {"quick": "reading: every sequence of 3 of 20 lines (and 4 with 6 last ones), LF/CRLF/CR; 7 streams x 4 framings x every cut, a grid of pairs of cuts, byte-wise, short receives (2 deviations), every truncation x 4 endings, every single-byte edit over 12 bytes; sizes around the receive buffer; live streams with gaps; 20 heads. pushing: every text of up to 5 over {a, space, colon, LF, CR} as data, and as name/id; every sequence of 3 of 15 events, short sends, both ends together. requests: 14 URLs x 9 header sets x 8 bodies x 8 methods, sequences on one client, uploads of 14 sizes, short file reads and sends (2 deviations)", "thorough": "sequences of 4 lines, all pairs of cuts, texts of up to 6, 3 deviations"}, ASSUME_B + ["event names and ids contain no line breaks or NUL; other line breaks in data arrive as LF"])

S("P37", [dict(src=["checks/h/P37.cpp", RT], defs=["MCS_MAXT=24"], **MCS)], "model_checking",
  "one evaluation per program; states counts scheduling points passed, transitions counts scheduling decisions",
  {"quick": "10 ways of starting, asking and stopping (destructor, syncStop, asyncStop, both, from a handler, from another thread, at once, never started, port taken, with idle, busy and concurrent clients) x 1-2 server threads, all schedules with <=1 deviation", "thorough": "<=2 deviations"},
  ASSUME_A + ["sockets, io_uring and eventfd are stood in for by lib/ringa.hpp"])
S("P38", [dict(src=["checks/h/P38.cpp"], **SIM)], "model_checking",
  "one evaluation per block of byte sequences; states/transitions count complete executions of the server stack on one byte sequence, each judged against an independent reader of RFC 9112 that says of every request whether it is well-formed, malformed, incomplete or open to several readings",
  {"quick": "all sequences of <=2 of 35 header lines x 2 request lines x 3 bodies (and of a second request's head); all request lines of <=5 of 15 pieces; all sequences of <=4 of 24 chunk pieces x 3 ends; 7 well-formed requests with every truncation, every byte replaced by, or preceded by, each of 22 bytes, removed, every part cut out; bodies read, saved to a file or ignored, whole and byte by byte, the basic ones cut anywhere", "thorough": "sequences of 3 lines, request lines of 6 pieces, 5 chunk pieces, every two edits"}, ASSUME_B + ["what RFC 9112 leaves to the recipient (folded lines, several fields of one name, bare CR or LF, unknown methods, lists of transfer codings ending in chunked) is not judged"])
S("P39", [dict(src=["checks/h/P39.cpp", RT], defs=["MCS_MAXT=24"], **MCS)], "model_checking",
  "one evaluation per program; states counts scheduling points passed, transitions counts scheduling decisions",
  {"quick": "one client: every sequence of <=2 of 10 operations (GET, POST, PUT, HEAD, cut, cut once, connection ended, connect, refused upgrade, close) waited for at once, in order or in reverse, with and without reconnecting, two threads with one or two requests each; pools of 1-3 clients under 10 loads from 1-3 threads, as many requests at once as clients, every change of size, growth beside requests; all schedules with <=1 deviation", "thorough": "<=2 deviations"},
  ASSUME_A + ["sockets, io_uring and eventfd are stood in for by lib/ringa.hpp, the server by the harness", "a client or pool is closed, shrunk or destroyed only when its requests have been answered"])
S("P40", [dict(src=["checks/h/P40.cpp"], defs=["HXLIBS_ENABLE_DB_SQLITE3"], libs=["-lsqlite3"], **C)], "model_checking",
  "one evaluation per share of the first statements of a schema; states/transitions count statements carried out, at the end of distinct sequences, on the library's table and on one written by hand; result codes and all rows must agree after each",
  {"quick": "10 schemas (every constraint alone and combined, custom names, keys and foreign keys over several fields, indexes in both directions): shape compared through SQLite's own catalogue, all sequences of <=3 statements out of 10-55 (inserts with every column left out, given two values, NULL, or another type; updates; deletes), creation repeated and forced", "thorough": "sequences of <=4 (one schema: 5)"},
  ASSUME_C + ["SQLite itself is correct and enforces foreign keys when asked to (PRAGMA foreign_keys)"])
