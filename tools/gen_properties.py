#!/usr/bin/env python3
"""Source of /verif/properties.jsonl (kept in step with MANIFEST.json)."""
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mech, observe, state=()):
    assert len(title) <= 80, (id, len(title))
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=qtext), why_tests_cant=why,
        anchors=dict(files=files,
            state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
            mechanism=[dict(name=a, where=b) for a, b in mech],
            observe_at=observe, hook_needed=None)))

NOSRV = ("No test that runs starts a server: the integration tests under tests/ carry no #[test] attribute, and the unit tests "
         "call single parsers on single complete strings. ")

p("C01", "Handlers see exactly the request the client sent, however it is segmented",
  "For every well-formed HTTP/1.x request, the handlers observe exactly the method, version, path, headers (stored under the lower-cased name, without surrounding white space, repeated ones joined in order), cookies, query parameters (percent escapes decoded as UTF-8) and body - exactly the declared Content-Length bytes - that the client sent. "
  "This does not depend on how the bytes are split, coalesced or delayed on the way, on the client half-closing after its request, or on further bytes that follow the request on the connection.",
  ["schedules", "inputs"],
  "every valid request x every cut of its byte stream into segments x every delay and interleaving with other connections",
  NOSRV + "Which bytes arrive together is chosen by the network; the parsers' boundary handling (terminator across reads, body partly in the head's read) is never exercised.",
  ["octane_http/src/http1x/mod.rs", "src/request.rs", "src/server.rs", "src/cookie.rs", "src/query.rs"],
  [("incremental head reader that stops at the blank line", "octane_http/src/http1x/mod.rs Http1xReader::new"),
   ("body assembly from the read-ahead and the rest of the stream", "src/request.rs Request::from_raw"),
   ("header merge by lower-cased name", "src/request.rs Headers::parse")],
  ["arguments seen by route closures", "bytes received by the client"],
  [("body_remainder", "bytes read past the blank line", "octane_http/src/http1x/raw_request.rs")])

p("C02", "Every response arrives complete, in order and well framed under backpressure",
  "A client that keeps reading receives, for each request its handlers answered, exactly one HTTP response: a status line, every header and every cookie the handlers set, one blank line, and exactly the body bytes they sent with a Content-Length equal to their number, followed by end of stream. Header names that differ in case only are one header, the last set counts; no header or cookie value, whatever it contains, ends its line or adds another. "
  "This holds for every pattern of partial writes, full send buffers and slow or bursty readers, and for every body size.",
  ["schedules", "inputs", "fault_sequences"],
  "every response a handler can build x every sequence of partial writes / would-block / drain events",
  NOSRV + "Unit tests format three header-only responses in memory; nothing writes through a socket that pushes back.",
  ["src/server.rs", "src/responder.rs", "src/cookie.rs", "src/error.rs"],
  [("write_all of the head, copy of the body, flush and shutdown", "src/server.rs Octane::send"),
   ("head serialisation", "src/responder.rs get_data/headers")],
  ["bytes received by the client"])

p("C03", "Concurrent connections never mix: each gets the answer to its own request",
  "However many connections are served at once and however their progress interleaves across tasks and worker threads, every handler call sees the data of one request only and every client receives only the response computed from its own request.",
  ["schedules", "histories"],
  "every interleaving of any number of concurrent connections, on one or several worker threads",
  NOSRV + "No test has two requests in flight.",
  ["src/server.rs", "src/server_builder.rs", "src/router.rs"],
  [("one task per accepted connection, all per-request state owned by it", "src/server_builder.rs listen / src/server.rs serve"),
   ("immutable shared router", "src/router.rs Router::run")],
  ["arguments seen by route closures", "bytes received by each client"])

p("C04", "A slow, idle or stalled peer never delays another connection",
  "A connection whose peer stops sending, stops reading or trickles bytes occupies only itself: every other client that has delivered its complete request and reads its answer gets the whole response while the stalled peers are still stalled, and the stalled ones are served once they resume.",
  ["schedules", "fault_sequences", "histories"],
  "every number and placement of stalled peers (before the first byte, inside the head, inside the body, while reading the response, inside a TLS handshake) x every arrival order of the others",
  NOSRV + "Stalls are a property of peers and time; tests have neither.",
  ["src/server_builder.rs", "src/server.rs"],
  [("accept loop spawns instead of awaiting", "src/server_builder.rs listen / listen_ssl")],
  ["bytes received by each client at quiescence"])

p("C05", "A broken peer or a panicking handler affects only its own connection",
  "Whatever one peer does (resets, vanishes, half-closes, sends arbitrary bytes) and whichever handler panics, the server keeps accepting and serves every other connection correctly, before and after. "
  "No peer behaviour makes the server's own code panic, abort or exit.",
  ["fault_sequences", "schedules", "inputs"],
  "every sequence of connection faults and byte streams, at every point of a request or response, alone or mixed with healthy connections",
  NOSRV + "Tests feed parsers malformed strings one at a time and accept a panic as the error signal; none injects a socket error.",
  ["src/server.rs", "src/server_builder.rs", "src/request.rs", "octane_http/src/http1x/mod.rs", "src/cookie.rs"],
  [("errors turned into an error response or a dropped connection", "src/server.rs serve"),
   ("task boundary catches handler panics", "src/server_builder.rs task!")],
  ["process liveness", "panic hook", "bytes received by bystander and later clients"])

p("C06", "Handlers run only for completely received requests, exactly once each",
  "The handler chain of a request runs exactly once if its head and its whole declared body were received, and never if the stream ended, was reset or stalled before that. No retry, error path or later event makes a chain run again.",
  ["crash_points", "fault_sequences", "schedules"],
  "every cut point of every request x {end of stream, reset, stall} x every segmentation",
  NOSRV + "A truncated body or head is a fault at an instant; no test truncates a stream.",
  ["src/server.rs", "src/request.rs", "octane_http/src/http1x/mod.rs"],
  [("router run only after the head parse and the exact body read succeeded", "src/server.rs serve, src/request.rs from_raw")],
  ["record of handler invocations per request"])

p("C07", "Requests that cannot be served get the right error status",
  "A stream that ends early or whose head is malformed (request line without three parts or without an HTTP version, path that climbs above the root, header line without a legal name and colon, head that is not UTF-8, a Content-Length that is no number, HTTP/1.1 without Host) is answered with a complete 400 response, an unknown method with 501, both without running any handler; a request for which no handler produced a body is answered with a complete 404. "
  "Well-formed requests are never answered with these by the server itself.",
  ["inputs", "schedules"],
  "every malformed or unserviceable request x every segmentation x every state of the other connections",
  NOSRV + "Unit tests assert that parsing fails or panics, not what the client is sent.",
  ["src/server.rs", "src/request.rs", "src/http/http11.rs", "src/error.rs", "src/path.rs", "octane_http/src/http1x/mod.rs"],
  [("status selection", "src/server.rs serve / declare_error!"), ("validation", "src/http/mod.rs Http::validate")],
  ["status line received by the client", "record of handler invocations"])

p("C08", "Matching handlers run in registration order until one stops the chain",
  "For every history of registrations - method routes, any-method routes and middleware, made directly or through routers merged at any point - the handlers that match a request's method and path run in the order they were registered (a merged router's routes coming after everything registered before the merge), each at most once, up to and including the first that stops; nothing else runs.",
  ["histories", "schedules", "inputs"],
  "every registration history x every request x every hash-map iteration order x every interleaving of requests",
  "Unit tests count registered closures; none runs a chain, merges routers with interleaved registrations, or varies the hash seed that decides iteration order.",
  ["src/router.rs", "src/path.rs", "src/server.rs"],
  [("monotone registration index", "src/router.rs route_counter / append"), ("k-way merge by index", "src/router.rs Router::run")],
  ["record of handler invocations per request"],
  [("route_counter", "next registration index", "src/router.rs")])

p("C09", "A route matches exactly its path pattern and binds its own variables",
  "A registered pattern matches a request if and only if, after dropping the query and normalising both ('' and '.' segments ignored, '..' removing its predecessor), they have equally many segments and every literal segment is equal; each ':name' segment matches any one segment and is bound to that request's own text, and variables of other routes or requests are never visible.",
  ["inputs", "histories", "schedules"],
  "every set of overlapping patterns x every request path x every concurrency of requests and hash order",
  "Unit tests look up one tree with two patterns and four paths.",
  ["src/path.rs", "src/router.rs", "src/request.rs"],
  [("path tree with catch-all edges", "src/path.rs PathNode"), ("variable extraction", "src/path.rs check_matches")],
  ["record of handler invocations with the variables each saw"])

p("C10", "A served file arrives byte for byte, or its truncation is visible",
  "A response that sends a file carries exactly the file's bytes with a Content-Length equal to its size and the content type of its extension, for every file size and every pattern of short or interrupted disk reads and of socket backpressure. "
  "If the file cannot be opened the handler gets an error; if reading fails or the file shrinks midway the client receives fewer bytes than announced, never wrong ones, and if it grows never more.",
  ["fault_sequences", "schedules", "inputs"],
  "every file size x every sequence of short reads, EINTR, EIO, concurrent growth/truncation x every backpressure pattern",
  NOSRV + "No test reads a file body or injects a disk fault.",
  ["src/file_handler.rs", "src/util.rs", "src/responder.rs", "src/server.rs"],
  [("blocking reader adapted to async", "src/util.rs AsyncReader::poll_read"), ("length from metadata", "src/responder.rs send_file")],
  ["bytes received by the client", "result returned to the handler"])

p("C11", "Transient accept failures do not stop the server",
  "When accepting a connection fails transiently (peer aborted, out of descriptors, out of buffers or memory, interrupted), the server keeps running and, once the condition clears, accepts and serves every connection still waiting; connections already being served are unaffected. This holds for the plain and the TLS listener.",
  ["fault_sequences", "schedules"],
  "every sequence of accept errors, alone or in bursts, placed before, between and during connections",
  NOSRV + "accept never fails in a test.",
  ["src/server_builder.rs"],
  [("accept loop", "src/server_builder.rs listen / listen_ssl")],
  ["whether listen() returned", "bytes received by clients"])

p("C12", "A crashed server can be restarted at once on its port and serves again",
  "If the server process dies at any instant, with any connections open, half-open or just closed, a new instance started immediately on the same port begins listening and serves every new connection correctly, unaffected by anything its predecessor was doing.",
  ["crash_points", "histories"],
  "every crash instant relative to any set of connections x any number of consecutive crashes",
  NOSRV + "No test binds a port, let alone while old connections linger in TIME_WAIT.",
  ["src/server_builder.rs", "src/server.rs"],
  [("SO_REUSEADDR on the listening socket", "src/server_builder.rs ServerBuilder::new"), ("no state outlives the process", "src/server.rs")],
  ["result of listen()", "bytes received by clients of the new instance"])

p("C13", "Every connection is released when it is over",
  "Once an exchange has ended - answered, refused, reset, cut short, or its handler panicked - the server closes the connection and every file it opened for it, within a bounded number of steps. However many connections have come and gone in whatever way, descriptors and memory held for past connections do not accumulate.",
  ["histories", "fault_sequences"],
  "every history of connections and their ways of ending, up to thousands per run",
  NOSRV + "Leaks need histories; tests have none.",
  ["src/server.rs", "src/server_builder.rs", "src/file_handler.rs"],
  [("ownership: dropping both stream halves closes the socket", "src/server.rs serve")],
  ["open descriptors at quiescence", "live heap bytes across a long history"])

p("C14", "The Date header is the current time in HTTP format, whatever the clock does",
  "Every response the server generates or frames carries a Date equal, in IMF-fixdate form, to the wall clock at some instant while the response was being produced, for every date from 1970 to 9999. "
  "Clock steps in either direction, even to before 1970, never cost a client its response.",
  ["inputs", "schedules", "fault_sequences"],
  "every wall-clock value and every sequence of clock jumps between and during requests",
  "Three timestamps are tested; no test controls the clock the server reads.",
  ["src/time.rs", "src/constants.rs", "src/responder.rs"],
  [("civil-date conversion", "src/time.rs Time::time"), ("clock read per response", "src/time.rs Time::now")],
  ["Date header received by clients vs the simulated clock"])

p("C15", "Memory follows the bytes received, not the length a peer announces",
  "While a connection is being read, the memory the server obtains for it is bounded by a constant plus a small multiple of the bytes actually received, whatever Content-Length is announced; announcing an absurd length can neither abort the process nor affect other connections.",
  ["inputs", "fault_sequences", "schedules"],
  "every announced length up to 2^64 and beyond x every amount actually sent, on any number of connections",
  NOSRV + "No test announces more than it sends.",
  ["src/request.rs", "octane_http/src/http1x/mod.rs"],
  [("body read that grows with the data", "src/request.rs Request::from_raw")],
  ["largest and total allocation by server code", "process liveness"])

p("C16", "TLS serves the same requests and responses as the plain port",
  "With either TLS back end, a client that completes the handshake on the configured TLS port gets the same service as on the plain port - its request is seen intact, its response arrives complete and unaltered under any segmentation and backpressure, and ends with an orderly TLS closure - and both ports serve concurrently.",
  ["schedules", "inputs", "configurations"],
  "every request/response x every segmentation and backpressure of the TLS record stream x both back ends",
  NOSRV + "The TLS tests are not run (no #[test]) and their key file is unusable.",
  ["src/server_builder.rs", "src/server.rs", "src/tls/rustls.rs", "src/tls/openssl.rs"],
  [("TLS accept in a task per connection", "src/server_builder.rs listen_ssl"), ("flush and shutdown after the body", "src/server.rs Octane::send")],
  ["decrypted bytes received by TLS clients", "arguments seen by route closures"])

p("C17", "TLS trouble stays with the connection or listener that has it",
  "A handshake that fails, stalls, is reset or is not TLS at all affects only its own connection: other TLS and plain connections are served meanwhile and afterwards. "
  "If the TLS listener cannot be started (port taken, key or certificate missing or unusable), the plain port is served normally.",
  ["fault_sequences", "configurations", "schedules"],
  "every handshake fault at every byte of the handshake x every TLS misconfiguration x both back ends",
  NOSRV + "No test performs a failing handshake.",
  ["src/server_builder.rs", "src/server.rs", "src/tls/rustls.rs", "src/tls/openssl.rs"],
  [("handshake inside the spawned task", "src/server_builder.rs listen_ssl"), ("TLS listener in its own task", "src/server.rs listen")],
  ["bytes received by bystander clients", "whether listen() returned"])

p("C19", "listen either serves its port or returns the error that prevents it",
  "If the plain port's listening socket cannot be set up - the port is taken or forbidden, descriptors, buffers or memory run out, at whichever of the system calls involved - "
  "listen returns an error after a bounded number of steps, instead of panicking, hanging or carrying on without a listener, and keeps nothing that would hold the port: called again in the "
  "same process once the condition is gone, it serves every client. A listen that comes up calls its start callback exactly once and does not return.",
  ["fault_sequences", "schedules"],
  "every system call of the start-up x every error x any number of failed attempts before the one that succeeds x every interleaving with the TLS listener's task",
  NOSRV + "No test makes a start fail.",
  ["src/server_builder.rs", "src/server.rs"],
  [("socket, bind, listen, registration", "src/server_builder.rs new"), ("errors returned by listen", "src/server.rs listen")],
  ["result of listen()", "sockets open afterwards", "responses after the next attempt"])

p("C18", "Compile-time helpers expand to what they document",
  "The derive, attribute and path macros generate code that behaves as documented for every item they accept.",
  ["programs"], "every program that uses the macros",
  "They are exercised by a few doc examples, most of which do not compile.",
  ["octane_macros/src/json.rs", "octane_macros/src/lib.rs", "octane_macros/src/stream_parser.rs", "octane_macros/src/status.rs"],
  [("token rewriting", "octane_macros/src")], ["compiled expansion"])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
open(out, "w").write("".join(json.dumps(x) + "\n" for x in P))
print(len(P), "properties")
