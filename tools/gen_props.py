#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (one line per property)."""
import json, os
I = "include/HXLibs/"
P = []
def p(id, title, statement, over, text, why, files, mech, observe=None, hook=None):
    P.append({"id": id, "title": title, "statement": statement,
      "quantifier": {"over": over, "text": text}, "why_tests_cant": why,
      "anchors": {"files": [I+f for f in files],
        "mechanism": [{"name": n, "where": I+w} for n, w in mech],
        **({"observe_at": observe} if observe else {}), "hook_needed": hook}})

# ---------------------------------------------------------------- threads
p("P01", "Thread pool runs each task exactly once and its future reports it",
  "Every task submitted to a thread pool that runs and is not destroyed before getting to it is executed exactly once, on one worker thread. Its future becomes ready only after the task has finished, and then yields exactly the value the task returned (called with exactly the arguments it was submitted with, l-values by reference) or rethrows exactly the exception it threw, for value-returning and void tasks alike. No schedule contains a data race or leaves a waiter blocked for ever.",
  ["schedules"], "All interleavings (up to the preemption bound) of submitting, working and waiting threads, for fixed-size and self-checking pools, with value/void/throwing/move-only tasks.",
  "Tests run a handful of tasks under the OS scheduler; lost wakeups and early completion need particular preemptions.",
  ["container/ThreadPool.hpp", "container/FutureResult.hpp", "container/SafeQueue.hpp"],
  [("ThreadPool::addTask / makeWorker wait predicate", "container/ThreadPool.hpp"), ("FutureResult shared state", "container/FutureResult.hpp")])
p("P02", "Thread pool shutdown and resizing always terminate and respect the bounds",
  "Destroying a thread pool at any moment returns: it joins every thread the pool ever started, without hanging, crashing or leaving a thread behind, and no task that already started is cut short. While a self-checking pool runs, whatever its sizing strategy observes, the number of its live workers returns to at least the configured minimum and never exceeds the configured maximum.",
  ["schedules", "configurations"], "All interleavings (preemption bound) of destruction with idle, waking, working and retiring workers; all ThreadPoolData values in a box for the default strategy.",
  "Tests destroy idle pools only; the losing interleavings are a few instructions wide.",
  ["container/ThreadPool.hpp"], [("~ThreadPool, check, clearDelIdQueue, tryDecrementIfPositive", "container/ThreadPool.hpp"), ("ThreadPoolDefaultStrategy", "container/ThreadPool.hpp")])
p("P03", "Future continuations run exactly once with the predecessor's outcome",
  "A continuation attached to a future runs exactly once, after the predecessor finished, and receives exactly the predecessor's value or its exception; the future it returns yields exactly what the continuation returned, or the exception it threw or returned. Chains of continuations behave the same at every length, in every schedule, without data races.",
  ["schedules", "programs"], "All chains up to length 3 over the step kinds value/void/throw/return-result-or-error/recover, under all interleavings up to the preemption bound.",
  "Tests exercise one successful chain.",
  ["container/FutureResult.hpp", "container/ThreadPool.hpp", "container/Try.hpp"], [("FutureResult::thenTry", "container/ThreadPool.hpp")])
p("P04", "The thread-safe queue is a linearizable FIFO",
  "Concurrent pushes and pops on the thread-safe queue behave as if executed one at a time: no element is lost, duplicated or torn, elements of one producer come out in the order they were pushed, and size and emptiness queries report a state the queue really had. No schedule contains a data race.",
  ["schedules"], "All interleavings (unbounded preemptions for small, bounded for larger) of up to 3 threads with up to 3 operations each.",
  "No test exercises the queue concurrently.",
  ["container/SafeQueue.hpp"], [("SafeQueue locking", "container/SafeQueue.hpp")])
p("P05", "Awaiting a worker-thread result resumes the coroutine exactly once",
  "A coroutine running on an event loop that awaits a future computed by a worker thread is resumed exactly once, on its loop's own thread, after the worker finished, with the worker's value or exception, and the loop does not stop before that; an await that is abandoned (because something else was faster) is harmless. This holds in every schedule of loop and worker threads, without data races, deadlock, lost wakeups or use of destroyed objects.",
  ["schedules"], "All interleavings (preemption bound) of the loop thread, pool workers and the awaiting coroutine, for value, void and throwing jobs, one or two awaits, with and without other pending I/O.",
  "The one test relies on the OS never scheduling the worker between two adjacent instructions.",
  ["container/FutureResult.hpp", "coroutine/loop/ThreadLoop.hpp", "coroutine/loop/EventLoop.hpp"], [("FutureResult awaiter", "container/FutureResult.hpp"), ("ThreadLoop::prepare/notify/run, EventLoop::run", "coroutine/loop/ThreadLoop.hpp")])
# ---------------------------------------------------------------- coroutines
p("P06", "Coroutine tasks deliver their result once and release everything once",
  "Awaiting a task yields exactly the value it returned or rethrows exactly the exception it threw, at any nesting depth and whether or not it suspended in between; code before and after each suspension runs exactly once and in program order. Every local, argument and result of a task, including tasks that were never awaited or are destroyed while suspended, is destroyed exactly once.",
  ["programs", "schedules"], "All task trees up to a depth/width bound over return/throw/suspend/await/catch/drop actions, under every order of completing the pending suspensions.",
  "Tests use two or three fixed shapes and never count destructions.",
  ["coroutine/task/Task.hpp", "coroutine/task/RootTask.hpp", "coroutine/promise/Promise.hpp", "coroutine/loop/EventLoop.hpp"], [("Promise result storage, Task ownership", "coroutine/promise/Promise.hpp")])
p("P07", "Waiting for all returns every outcome in order, after the last one",
  "Waiting for all of several awaitables resumes the waiter exactly once, after every one of them has finished, and yields one entry per awaitable in argument order holding exactly its value or its exception, whatever the completion order, including awaitables that finish immediately. A failing member never hides or disturbs the others.",
  ["schedules", "programs"], "All combinations of up to 4 members (immediate/timer/I/O/yield, value/void/throw/move-only) and all completion orders; function and operator forms.",
  "Tests use one fixed order of timers.",
  ["coroutine/awaiter/WhenAll.hpp"], [("WhenAll control block", "coroutine/awaiter/WhenAll.hpp")])
p("P08", "Waiting for any yields the first finisher and cancels the rest safely",
  "Waiting for any of several awaitables resumes the waiter exactly once, as soon as the first of them finishes, and yields the index and value (or the exception) of that one, even if others finish at the same instant. The losers are abandoned without ever running further, leaking, or being touched after their storage is gone.",
  ["schedules", "programs"], "All combinations of up to 3 members (immediate/timer/I/O/yield/nested, value/void/throw) and all completion orders, including several completions reported in one batch.",
  "Tests use distinct timers; simultaneous completions never occur in them.",
  ["coroutine/awaiter/WhenAny.hpp", "coroutine/loop/EventLoop.hpp", "coroutine/loop/TimerLoop.hpp"], [("WhenAny control block", "coroutine/awaiter/WhenAny.hpp"), ("IoUring::run batch resume", "coroutine/loop/EventLoop.hpp")])
p("P09", "Timers fire in deadline order, never early, and nobody starves",
  "A sleeping coroutine is resumed exactly once, never before its deadline, and sleepers are resumed in deadline order (submission order for equal deadlines). Coroutines that yielded are resumed in the order they yielded and are not held up by timers that are not due or by I/O that is not ready; a coroutine that keeps yielding does not prevent due timers and completed I/O from being served.",
  ["schedules", "programs"], "All sets of up to 4 coroutines over sleep/yield/I-O/destroy actions with small durations, on a virtual clock, for every order of I/O completion and amount of clock advance.",
  "Tests measure real time for a couple of timers and never mix yield, timers and I/O.",
  ["coroutine/loop/TimerLoop.hpp", "coroutine/loop/EventLoop.hpp"], [("TimerLoop::run", "coroutine/loop/TimerLoop.hpp"), ("EventLoop::run", "coroutine/loop/EventLoop.hpp")])
p("P10", "Serial executors never overlap tasks and keep submission order",
  "Tasks submitted to a serial executor run one at a time, in submission order, each exactly once, even when they suspend, and each submitter continues only after its own task has finished. Clearing or destroying the executor drops exactly the tasks that have not started and never touches destroyed coroutines; a submitter that is abandoned while its task waits is skipped (abandoning one inside its own running task is the documented exception: memory stays safe, but the queue waits for the next submission).",
  ["schedules", "programs"], "All programs of up to 4 submissions with up to 2 suspensions each, submitted up front, later or from inside a task, under all completion orders.",
  "Tests run one fixed program.",
  ["coroutine/executor/SerialExecutor.hpp", "coroutine/executor/SerialExecutorPro.hpp"], [("start()/serial()", "coroutine/executor/SerialExecutor.hpp")])
p("P11", "The event loop delivers each I/O result to its own coroutine once",
  "Every I/O operation a coroutine awaits resumes that coroutine exactly once with the result the kernel reported for that operation, whatever the completion order, batching, interruption or error code. An operation with a linked timeout yields either its result or a timeout, exactly one of them. Running a task to completion returns only when it is finished, with its value or exception, however many other operations are in flight.",
  ["schedules", "fault_sequences"], "All completion orders, batch splits, -EINTR/-ETIME wake-ups and error results for up to 4 concurrent operations on a simulated kernel.",
  "Tests run on a real kernel that completes in one order and rarely fails.",
  ["coroutine/loop/EventLoop.hpp", "coroutine/task/AioTask.hpp"], [("IoUring::run, AioTask::linkTimeout", "coroutine/loop/EventLoop.hpp")])
p("P12", "File I/O transfers exactly the bytes of the file",
  "Writing a buffer through the asynchronous file puts exactly its bytes in the file in order (behind the previous write, or at the end in append mode), and reading to the end returns exactly the file's bytes, however the kernel splits the transfers. Reads start at the offset that was set and continue from there, a reopened file starts afresh, and any error the kernel reports surfaces as an exception instead of wrong data, a leaked descriptor or an endless loop.",
  ["fault_sequences", "inputs"], "All short-read/short-write splits and single errors for files up to a few transfer units.",
  "Regular files on the test machine never produce short transfers or errors.",
  ["utils/FileUtils.hpp"], [("AsyncFile::write/readAll/read", "utils/FileUtils.hpp")])
# ---------------------------------------------------------------- server
p("P13", "An HTTP request is understood the same however it is segmented",
  "The method, path, headers and body a handler observes for a well-formed request depend only on the bytes sent, not on how the network cuts them into pieces, for requests without body, with a declared length, and with chunked encoding. The observed values are exactly those of the request.",
  ["inputs", "fault_sequences"], "A catalogue of well-formed requests (all body kinds and sizes around internal thresholds) under all 2-cut and 3-cut segmentations and byte-by-byte delivery.",
  "Tests send each request in one piece over loopback.",
  ["net/protocol/http/Request.hpp"], [("Request head/body parser", "net/protocol/http/Request.hpp")])
p("P14", "No byte sequence from a client can crash or wedge the server",
  "Whatever bytes a client sends, in whatever pieces, and whenever it stops or disconnects, the server never crashes, reads or writes outside its buffers, loops without consuming input, or stops serving other connections; a failed accept does not stop it either. Each connection ends with it being closed exactly once, with its files closed, at the latest after the timeouts of silence; only a peer that never reads its responses may hold its own connection.",
  ["inputs", "fault_sequences"], "All token sequences up to a bound from an alphabet of HTTP fragments plus all single mutations/truncations of well-formed requests, each under several segmentations and ending in close, reset or silence.",
  "Tests send only well-formed requests.",
  ["net/protocol/http/Request.hpp", "net/server/ConnectionHandler.hpp", "net/socket/IO.hpp"], [("ConnectionHandler::start error handling", "net/server/ConnectionHandler.hpp")])
p("P15", "Requests on one connection are answered in order and in isolation",
  "For every sequence of well-formed requests on a keep-alive connection the server sends exactly one complete response per request, in order, each equal to the response the same request gets on a fresh connection. It keeps the connection open exactly when the request asks for it (by HTTP version and Connection header), and closes it when the peer stays silent past the idle timeout.",
  ["histories", "inputs"], "All sequences of up to 3 requests from a catalogue of request kinds (bodies, chunked, unknown route, error handler, file), pipelined or not, under several segmentations and idle gaps.",
  "Tests send few sequences, never pipelined, never mixing kinds.",
  ["net/server/ConnectionHandler.hpp", "net/protocol/http/Request.hpp", "net/protocol/http/Response.hpp"], [("ConnectionHandler::start loop, clear()", "net/server/ConnectionHandler.hpp")])
p("P16", "Every response on the wire is well framed and complete",
  "Each response the server sends is a valid HTTP message whose declared length or chunk framing matches the body byte for byte, with the status, headers and body the handler set, for fixed, chunked and streamed responses. Short writes, would-block delays and write errors never corrupt, duplicate or reorder bytes that are sent.",
  ["inputs", "fault_sequences"], "Status codes, header sets and body sizes around thresholds; all splits of the transmitted bytes into up to 3 partial writes plus one error at each write.",
  "Loopback sockets accept whole writes.",
  ["net/protocol/http/Response.hpp", "net/socket/IO.hpp"], [("Response::sendRes/_sendChunked/createResponseBuffer", "net/protocol/http/Response.hpp"), ("IO::fullySend", "net/socket/IO.hpp")])
p("P17", "File downloads and range requests return exactly the requested bytes",
  "Serving a file returns exactly its bytes; a satisfiable single byte range (bounded, open-ended or suffix) returns exactly those bytes with a matching partial-content status, length and range header, several ranges return each part exactly once in the requested order, and an unsatisfiable range yields a range error and no file bytes.",
  ["inputs", "fault_sequences"], "All single ranges a-b, a-, -n and pairs of ranges with positions in and around a small file, file sizes around the transfer buffer size, and short file reads.",
  "Tests download one file and one range.",
  ["net/protocol/http/Response.hpp"], [("useRangeTransferFile", "net/protocol/http/Response.hpp")])
p("P18", "Routing picks the most specific matching endpoint with right parameters",
  "A request is dispatched to the endpoint registered for its method whose template matches its path, preferring literal segments over path variables and path variables over wildcards; the handler sees exactly the path variables, wildcard remainder (with the slash before it, or without where the template also has path variables) and query parameters of that request; otherwise the not-found handler runs. The query string takes no part in routing. Interceptors run before and after the handler in registration order, and a rejecting interceptor prevents the handler from running.",
  ["inputs", "configurations"], "All small route tables (templates up to 3 segments over literal/variable/wildcard) against all request paths up to 4 segments, and all interceptor outcome combinations.",
  "Tests check a handful of routes.",
  ["net/router/Router.hpp", "net/router/RouterTree.hpp", "net/router/RequestParsing.hpp", "container/RadixTree.hpp"], [("RouterTree::find, Router::_addEndpoint", "net/router/RouterTree.hpp")])
# ---------------------------------------------------------------- client
p("P20", "The client understands a response the same however it is segmented",
  "The status, headers and body the client returns for a well-formed response depend only on the bytes the server sent, not on how they are segmented, for declared-length, chunked and bodiless responses. Truncated or malformed responses yield an error, never a crash, an endless wait on a closed connection, or a fabricated success.",
  ["inputs", "fault_sequences"], "A catalogue of well-formed responses under all 2-cut/3-cut segmentations, all truncation points, and single mutations.",
  "Tests talk to the library's own server over loopback.",
  ["net/protocol/http/Response.hpp", "net/client/HttpClient.hpp"], [("Response parser", "net/protocol/http/Response.hpp")])
p("P21", "The client pairs each response with its request across reconnects",
  "For every sequence of requests through one client, and however the server closes, resets or refuses connections in between, each call returns either the complete response to that very request or an error; bytes of an earlier or aborted exchange never appear in a later result. After an error the client is usable again as soon as the server is.",
  ["histories", "fault_sequences"], "All sequences of up to 3 requests against a scripted server that, per exchange, answers, closes before/within/after the response, resets or refuses the connection.",
  "The reconnect test covers one cut point.",
  ["net/client/HttpClient.hpp"], [("sendReq/makeSocket/needConnect", "net/client/HttpClient.hpp")])
p("P22", "WebSocket messages arrive exactly as sent under any framing",
  "Between a WebSocket client and server, every text or binary message is received exactly once, in order and byte for byte, whatever its length class, masking, fragmentation or network segmentation. Pings interleaved anywhere (also between fragments) are answered with a matching pong without disturbing messages; a close is answered once and ends the connection, and malformed or truncated frames end it with an error, never with a crash, hang or wrong message.",
  ["inputs", "fault_sequences", "histories"], "Message lengths around 0,1,125,126,65535,65536, all fragmentations into up to 3 frames with interleaved control frames, all 2-cut segmentations, all truncations.",
  "Tests exchange short unfragmented messages.",
  ["net/protocol/websocket/WebSocket.hpp"], [("WebSocket recv/send frame code", "net/protocol/websocket/WebSocket.hpp")])
p("P23", "WebSocket handshake accepts exactly valid upgrades",
  "The server completes a WebSocket upgrade with the accept value prescribed by RFC 6455 for the client's key, for every key, and refuses requests lacking the required upgrade headers; the client sends a well-formed upgrade request with all required header fields and accepts exactly a switching-protocols answer carrying the right accept value. Frames sent right behind the handshake are not lost.",
  ["inputs"], "Keys over an alphabet, all presence/absence/variant combinations of the upgrade headers, all response mutations.",
  "Tests perform the one good handshake.",
  ["net/protocol/websocket/WebSocket.hpp", "net/protocol/codec/SHA1.hpp", "net/protocol/codec/Base64.hpp"], [("WebSocketFactory accept/connect", "net/protocol/websocket/WebSocket.hpp")])
p("P24", "Proxy tunnels are established correctly or not used",
  "Connecting through a SOCKS5 or HTTP proxy sends the protocol's greeting, authentication and connect request for exactly the given host, port and credentials, and the tunnel is used only after the proxy has reported success. Any refusal, malformed or truncated answer, in any segmentation, yields an error and no application data is sent.",
  ["inputs", "fault_sequences"], "All proxy scripts over {method choice, auth result, reply codes, address types, truncation} under all 2-cut segmentations.",
  "No test uses a proxy.",
  ["net/protocol/proxy/Socks5Proxy.hpp", "net/protocol/proxy/HttpProxy.hpp"], [("proxy connect", "net/protocol/proxy/Socks5Proxy.hpp")])
p("P19", "TLS carries exactly the plain HTTP exchange or ends with an error",
  "An HTTPS client or server exchanges with any TLS peer exactly the requests and responses that plain HTTP would, whatever their sizes and however records and segments are cut. A connection that is broken, tampered with, silent, or not TLS at all ends that exchange within bounded time - an error for the client, a closed connection for the server - never a hang, invented or altered data, plain-text service, or a disturbance of other connections. With verification on, only peers with a certificate from a trusted authority (and, for servers, valid for the host asked for) are talked to.",
  ["inputs", "fault_sequences"], "Body sizes around every buffer boundary x framings x segmentations; every cut, truncation and altered byte of a handshake and exchange, TLS 1.2 and 1.3, both ends; certificate variants.",
  "Tests make a few small requests between the library's own two ends.",
  ["net/socket/IO.hpp", "net/protocol/https/Https.hpp"], [("HttpsIO", "net/socket/IO.hpp"), ("SslBio", "net/protocol/https/Https.hpp")])
p("P25", "Requests and server-sent events go out and come in exactly as given",
  "The HTTP client sends exactly the request it was asked for: the method, the path and query of the URL without its fragment, a Host naming the host and explicit port, each header given once with its value, and the body or file byte for byte. Every event a server pushes is complete on the wire when the push returns and reads back with the same data (line breaks as LF), name, id and retry; the client delivers the events of any event stream once, in order, as soon as each is complete, however the stream is written, chunked or cut, and ends with an error when it is broken, silent or not an event stream.",
  ["inputs", "fault_sequences"], "All short sequences of event-stream lines, all cuts, truncations and single-byte edits of streams; all short texts as event fields; URLs x headers x bodies x methods, uploads around the transfer buffer size.",
  "Tests read three events of the library's own server and make simple requests.",
  ["net/protocol/http/Response.hpp", "net/protocol/http/Request.hpp", "net/client/HttpClient.hpp", "net/protocol/url/UrlParse.hpp"], [("SseStream::push, parserSseStrem", "net/protocol/http/Response.hpp"), ("sendHttpReq, sendChunkedReq", "net/protocol/http/Request.hpp"), ("preprocessHeaders", "net/client/HttpClient.hpp")])
# ---------------------------------------------------------------- data
p("P26", "JSON written for a value reads back as an equal value",
  "For every value built from supported types (booleans, integers, finite floating-point numbers, strings of any valid UTF-8 text, enums, optionals, pointers, tuples, sequences, string-keyed maps and nested records) the produced text is valid JSON, and reading it into a fresh object, whose default member values are replaced, gives an equal value, with or without insignificant whitespace between tokens. Text that is not valid UTF-8 is refused or written as something valid, never read past its end.",
  ["inputs"], "Exhaustive small domains per type (all Unicode scalar values as one-character strings, all escapes, all 8/16-bit integers, boundary 64-bit and floating values), all nested shapes to a depth bound, all whitespace insertions.",
  "Tests round-trip a few literals.",
  ["reflection/json/JsonRead.hpp", "reflection/json/JsonWrite.hpp", "reflection/deserialization/Numer.hpp"], [("ToJson/FromJson", "reflection/json/JsonWrite.hpp")])
p("P27", "Malformed JSON is rejected without touching memory outside the text",
  "Reading any text either succeeds or throws; it never crashes, loops, or reads outside the text. Text that is cut short, has mismatched or missing punctuation, an unknown key, a number out of range for its field, an unknown enum name or too many elements for a fixed-size array or tuple is rejected; deliberate leniencies (literals in any letter case, 0 and 1 as booleans, leading zeros, unknown escapes, fewer elements than a tuple has, text after the complete value) are not covered.",
  ["inputs"], "All token sequences up to a bound and all prefixes and single-character edits of valid documents, parsed from exactly-sized buffers.",
  "Tests parse valid documents only.",
  ["reflection/json/JsonRead.hpp", "reflection/deserialization/Numer.hpp", "container/CHashMap.hpp"], [("FromJson", "reflection/json/JsonRead.hpp")])
p("P28", "Encoders and digests agree with their standards",
  "Base64, URL-safe Base64 and SHA-1 produce, for every input, exactly the output their standards prescribe, and URL-safe decoding inverts encoding for every byte string and rejects text that is not an encoding.",
  ["inputs"], "All byte strings up to length 2, all lengths across block boundaries with position-dependent bytes, all single-character corruptions.",
  "Only one handshake value is tested.",
  ["net/protocol/codec/Base64.hpp", "net/protocol/codec/Base64Url.hpp", "net/protocol/codec/SHA1.hpp"], [("codecs", "net/protocol/codec/Base64.hpp")])
p("P29", "Only untampered tokens sealed with the same key are accepted",
  "A token produced for a value reads back as that value under the same key, and two tokens for the same value differ. Any token that was altered in any character, truncated, extended, or sealed under another key is rejected with an exception.",
  ["inputs"], "Payload sizes 0..64 and structured values, every single-character substitution, every truncation and extension, other keys.",
  "The test seals and opens one token.",
  ["net/token/Token.hpp", "net/token/tools/Aes256Gcm.hpp", "net/protocol/codec/Base64Url.hpp"], [("Aes256Gcm::decrypt tag check", "net/token/tools/Aes256Gcm.hpp")])
p("P30", "URLs are taken apart into exactly their components",
  "For every URL of the form scheme://[user[:password]@]host[:port][/path[?query]] with a supported scheme, the extracted scheme, credentials, host, explicit or default port and path-with-query are exactly the corresponding components of the URL (IPv6 literals, fragments and a query without a path are outside this form). Text whose host or port is malformed is rejected.",
  ["inputs"], "All URLs assembled from small component alphabets (scheme x userinfo x host x port x path x query), all byte values for percent-encoding.",
  "Tests parse a few URLs.",
  ["net/protocol/url/UrlParse.hpp"], [("UrlParse", "net/protocol/url/UrlParse.hpp")])
p("P31", "The compile-time hash map and enum names form exact lookups",
  "For every set of distinct keys, the perfect hash map finds every key with its own value and no other key, through every lookup operation, without touching memory outside the map. Converting an enumerator inside the reflected value range to its name and back gives the same enumerator, and unknown names or values are reported as unknown.",
  ["inputs"], "All subsets of small key universes (strings and integers) of sizes 1..8, every member and non-member key; all enumerators and all 256 raw values of several enums.",
  "Tests look up members of two fixed maps.",
  ["container/CHashMap.hpp", "container/CPmhTable.hpp", "container/CPmhBucket.hpp", "reflection/EnumName.hpp"], [("makeCPmhTable/lookup", "container/CPmhTable.hpp")])
p("P32", "Value holders construct and destroy exactly what they hold",
  "Under every sequence of operations other than assigning a holder from a reference into itself, each holder (manual-lifetime cell, variant, result-or-error, move-only function) reports the state a reference model predicts, gives back exactly the value stored last, and constructs and destroys every stored object exactly once. Accessing an absent or wrong alternative is reported as an error.",
  ["histories"], "All operation sequences up to a depth bound over emplace/assign/copy/move/get/reset/destroy on two objects of each holder type, with values that may throw on construction.",
  "Tests run one sequence each and never count lifetimes.",
  ["container/Uninitialized.hpp", "container/UninitializedNonVoidVariant.hpp", "container/Try.hpp", "container/MoveOnlyFunction.hpp"], [("holders", "container/UninitializedNonVoidVariant.hpp")])
p("P33", "The non-atomic shared pointer frees its object exactly once",
  "Under every sequence of creating, copying, moving, assigning (including to itself), swapping, resetting and destroying shared pointers, the object stays alive exactly as long as some pointer owns it and is then destroyed exactly once; the reported owner count and equality are right at every step.",
  ["histories"], "All operation sequences up to depth 5 over three pointer variables (breadth-first with state hashing for deeper).",
  "One test, a few steps.",
  ["container/CoSharedPtr.hpp"], [("CoSharedPtr", "container/CoSharedPtr.hpp")])
p("P34", "The ORM stores and retrieves exactly the rows given",
  "After any sequence of inserts, updates, deletes and selects (including failed ones), the rows read back are exactly those of a reference table: every (non-optional) integer, floating-point and text value round-trips, affected-row counts and generated keys are right, and a statement that failed does not poison later executions of the same statement.",
  ["histories", "inputs"], "All operation sequences up to a depth bound over two small tables with boundary values and constraint violations, reusing cached statements.",
  "Tests print results of one fixed script.",
  ["db/sql/Dml.hpp", "db/sqlite3/SqliteStmt.hpp", "db/sqlite3/SqliteDB.hpp", "db/sql/Stmt.hpp"], [("bind / selectForEach / prepared statement cache", "db/sqlite3/SqliteStmt.hpp")])
p("P35", "Query expressions select exactly the rows they describe",
  "A where-expression written with the query builder selects, updates or deletes exactly the rows for which the expression is true when evaluated as written in C++ (operators, nesting, membership and pattern operators, bound parameters in order), and ordering and limits apply as stated.",
  ["programs", "inputs"], "All expression trees up to a depth bound over comparison/and/or/in/null operators on a table holding all combinations of column values.",
  "Tests check two queries by eye.",
  ["db/sql/Expression.hpp", "db/sql/Dml.hpp", "db/sql/Column.hpp", "db/sql/Operator.hpp"], [("exprToString", "db/sql/Dml.hpp")])
p("P36", "String helpers agree with their definitions on every input",
  "Splitting (with and without positions, and at the first delimiter), taking the part after the last delimiter, case conversion, number-base and hexadecimal conversion, byte swapping and HTTP date formatting return exactly what their definition says for every input: nothing is lost or invented, empty inputs and delimiters at the ends are handled, letters and only letters change case, and conversions invert each other.",
  ["inputs"], "All strings up to length 5-7 over a small alphabet including delimiters and non-letters.",
  "No tests.",
  ["utils/StringUtils.hpp", "utils/NumericBaseConverter.hpp"], [("StringUtil", "utils/StringUtils.hpp")])
p("P37", "A server listens once its start returns, and every stop terminates",
  "When the asynchronous start of an HTTP server returns, every server thread listens or has failed to bind, so a client that connects is never refused. Stopping (by the destructor, the synchronous or the asynchronous stop, or both, from any thread or from a request handler, immediately after the start or while clients are idle, connecting or being served) always terminates within the connection time-out, a request accepted before the stop is answered in full or its connection is ended, and afterwards no thread, socket or memory of the server is left. A port that is taken ends the threads concerned and nothing else.",
  ["schedules", "histories"], "All schedules, up to a deviation bound, of the real server and its client-based wake-up over an in-memory socket layer, for every way of starting, asking and stopping with one or two server threads.",
  "Tests start one server, sleep and destroy it.",
  ["net/server/HttpServer.hpp", "net/server/Acceptor.hpp", "net/server/ConnectionHandler.hpp"], [("HttpBaseServer::asyncRun/syncStop/~HttpBaseServer", "net/server/HttpServer.hpp"), ("Acceptor::start", "net/server/Acceptor.hpp")])
p("P38", "A malformed request is never acted on as if it were complete",
  "Of the bytes a client sends, the server takes for requests exactly what RFC 9112 calls requests. A request whose head is malformed (a request line not of three parts, a header line without a name, or with space before its colon, a continued line before any field) reaches no handler; one whose body is malformed or cut short (a length that is no number, does not fit or is given twice with different values, a transfer coding other than chunked, a bad chunk size, a chunk without its end) is never given to its handler as complete; nothing behind either is taken for a request; and every well-formed request in front of it, or without such a fault, is handled as sent.",
  ["inputs"], "All sequences up to a bound over alphabets of header lines, request line pieces and chunk pieces, and all single edits of a catalogue of requests, each followed by another request.",
  "Tests send only well-formed requests; a request smuggled behind a malformed one looks like an ordinary one.",
  ["net/protocol/http/BodyDecoder.hpp", "net/protocol/http/Request.hpp", "net/server/ConnectionHandler.hpp"], [("parserHeaderLine, BodyDecoder", "net/protocol/http/BodyDecoder.hpp"), ("HttpRequest::clear", "net/protocol/http/Request.hpp")])
p("P39", "Requests through a client or client pool from any threads get their own answers",
  "Every request submitted to an HttpClient or HttpClientPool, from whatever threads and however many at a time, is sent exactly once (once more when its connection broke and reconnecting is on), and its future or continuation yields the response to that request or the error it met; what happens to one request does not disturb another. One client sends the requests of a thread in the order in which they were submitted, one at a time over one connection. A pool of n clients carries n requests at once and never uses more than n connections, also after its size was changed and while it grows; closing it closes all of its connections.",
  ["schedules", "histories"], "All schedules with few deviations of programs of one to three threads over every operation of the blocking interface, with connections that are cut or ended.",
  "Tests make a few requests one after the other against a local server.",
  ["net/client/HttpClient.hpp", "net/client/HttpClientPool.hpp", "container/FutureResult.hpp"], [("HttpBaseClient::request/get/post/connect/close", "net/client/HttpClient.hpp"), ("HttpBaseClientPool", "net/client/HttpClientPool.hpp")])
p("P40", "A table made from a struct enforces exactly what the struct declares",
  "The table the ORM creates for a struct bears the declared (or the struct's) name and has exactly its fields as columns, in order and of the fitting SQL type, with exactly the declared NOT NULL, UNIQUE, default value (numbers and any text), auto-increment, primary key (single or over several fields, in the order given), foreign keys (single or over several fields, to the referenced table's real name) and indexes (fields, order, direction): every statement succeeds or is refused exactly as these constraints say. Creating tables that exist already succeeds and changes nothing, unless it was asked to fail.",
  ["inputs", "histories"], "A catalogue of declarations with every constraint, alone and combined, each driven through all statement sequences up to a depth and compared with a hand-written schema.",
  "Tests print the generated SQL for two structs.",
  ["db/sqlite3/MakeCreateDbSql.hpp", "db/sqlite3/SqliteDB.hpp", "db/sql/Constraint.hpp", "db/sql/Table.hpp"], [("CreateDbSql::createDatabase/createIndex", "db/sqlite3/MakeCreateDbSql.hpp"), ("SqliteDB::createDatabase", "db/sqlite3/SqliteDB.hpp")])
if __name__ == "__main__":
    out = os.path.join(os.path.dirname(__file__), "..", "properties.jsonl")
    with open(out, "w") as f:
        for x in P:
            assert len(x["title"]) <= 80, (x["id"], len(x["title"]))
            f.write(json.dumps(x, ensure_ascii=False) + "\n")
    print(len(P), "properties")
