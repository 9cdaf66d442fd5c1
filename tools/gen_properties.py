#!/usr/bin/env python3
"""Single source of /verif/properties.jsonl (run it to regenerate the file)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, state=(), observe=(), hook=None):
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files, state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
                     mechanism=[dict(name=a, where=b) for a, b in mech], observe_at=list(observe), hook_needed=hook)))
S = "starlette/"
WIRE = "the receive/send callables the simulated ASGI server hands to the application"

p("C01", "The request body reaches the application intact",
  "However a server splits, delays or pads a request body, the bytes an application reads (as a stream, a whole body, JSON or a urlencoded form) are exactly the bytes the client sent, in order and once, and reading the whole body again gives the same bytes. Reading a body stream that was already consumed raises an error instead of yielding nothing or partial data. If the client disconnects before the body is complete, the read raises a client-disconnect error and partial data is never presented as a complete body.",
  ["inputs", "schedules", "fault_sequences"], "every body, every split into ASGI messages (empty ones, missing optional keys), every delay, every disconnect point, every mix of accessors",
  "Tests send one to three fixed chunks; they cannot cover all chunkings, arrival schedules, disconnect points and accessor sequences.",
  [S+"requests.py", S+"formparsers.py"], [("Request.stream / body / json / form", S+"requests.py"), ("FormParser", S+"formparsers.py")],
  [("_stream_consumed", "final body message was seen", S+"requests.py"), ("_body", "cached whole body", S+"requests.py")], [WIRE, "bytes returned by Request accessors"])
p("C02", "Multipart forms parse the same however the body arrives",
  "Parsing a multipart form yields exactly the encoded fields and files (names, values, order, filenames, part headers, sizes and contents, each file positioned at its start), independent of how the body is split or delayed. The limits on number of files, number of fields and size of a field reject a form exactly when they are exceeded, whatever the split, with a 400 response inside an application. A client disconnect during the upload raises a client-disconnect error, never a partial form.",
  ["inputs", "schedules", "fault_sequences"], "every form, boundary position relative to message boundaries, limit setting, delay and disconnect point",
  "Tests use a few fixed bodies delivered as one message; message boundaries inside delimiters, headers and values are not explored, nor limits under splitting.",
  [S+"formparsers.py", S+"requests.py"], [("MultiPartParser callbacks and parse loop", S+"formparsers.py"), ("Request.form", S+"requests.py")],
  [("_current_part", "part being assembled", S+"formparsers.py"), ("_file_parts_to_write", "file data not yet written", S+"formparsers.py")], ["FormData returned by Request.form"])
p("C03", "Uploaded files are stored faithfully, off the event loop, and released",
  "An uploaded file read, written and seeked through the async API behaves like one ordinary byte file, whether it is kept in memory or spilled to disk, and a disk error surfaces as an error, never as silently missing data. Disk reads, writes and seeks for uploads never happen on the event-loop thread. When form parsing fails, or a form is closed (explicitly, through its context manager or through the request), every temporary file created for it is closed.",
  ["inputs", "schedules", "fault_sequences"], "every upload size relative to the spool limit, chunking, operation sequence, disk fault point, parse failure point, cancellation-free schedule",
  "Tests cover one rollover size and no disk faults; which thread performs the I/O and what is left open after each failure point is not observable in them.",
  [S+"datastructures.py", S+"formparsers.py", S+"requests.py"], [("UploadFile", S+"datastructures.py"), ("close on error", S+"formparsers.py"), ("FormData.close / Request.close", S+"datastructures.py")],
  [("_files_to_close_on_error", "temporary files created so far", S+"formparsers.py")], ["simulated disk under tempfile", "UploadFile methods"])
p("C04", "Every HTTP exchange is one well-formed response",
  "For any application built from the provided response types, routing, middleware and exception handlers, an exchange that finishes normally sends exactly one response start, then the body, then exactly one final body message and nothing after it, however sends and receives are delayed or interleaved. At no point, even when the exchange fails, is a second start sent, or a body before the start, or anything after the final body message. When a complete non-HEAD response declares a Content-Length it equals the number of body bytes sent, and the body is exactly the content the application supplied.",
  ["programs", "schedules", "fault_sequences"], "every composition of responses and middleware, every send/receive delay, error and disconnect point",
  "The test client collects the messages of a few fixed stacks under one schedule and hides grammar violations after completion.",
  [S+"responses.py", S+"middleware/base.py", S+"middleware/errors.py", S+"middleware/exceptions.py", S+"routing.py"],
  [("Response.__call__ and subclasses", S+"responses.py"), ("_StreamingResponse", S+"middleware/base.py")], [], [WIRE])
p("C05", "Gzip compression is lossless and correctly labelled",
  "With the gzip middleware installed, what a client whose Accept-Encoding names gzip obtains after decoding, and what any other client obtains directly, is byte for byte the body the application sent, for every chunking and timing of that body, including empty and missing chunks. A compressed response carries Content-Encoding gzip and Vary Accept-Encoding, and any Content-Length it carries equals the bytes actually sent; responses that are below the size threshold, already encoded or event streams pass through unmodified. An application error in mid-stream never makes a truncated response look complete.",
  ["inputs", "programs", "schedules", "fault_sequences"], "every body, chunking, threshold, level, header set, interleaving of concurrent responses and error point",
  "Tests use fixed bodies of repeated characters and at most a few chunks, one request at a time.",
  [S+"middleware/gzip.py"], [("IdentityResponder.send_with_compression", S+"middleware/gzip.py"), ("GZipResponder.apply_compression", S+"middleware/gzip.py")],
  [("initial_message", "held-back response start", S+"middleware/gzip.py")], [WIRE])
p("C06", "Dispatch-style middleware is transparent to the response",
  "A dispatch-style middleware (alone or nested) that returns what the next handler produced leaves status, headers and body bytes as the application sent them, for every response type, chunking and timing, and headers or content it changes are changed exactly as it did. The client receives each body chunk without waiting for later ones to be produced, and background work of the response does not delay the response body. Once the response has been sent, or discarded in favour of another, the application behind the middleware sees a disconnect instead of waiting forever, and the whole request finishes.",
  ["programs", "schedules"], "every response kind, nesting depth, chunk timing, receive/send interleaving and discard point",
  "A handful of fixed schedules are asserted; the in-memory hand-off between application and middleware has many more interleavings.",
  [S+"middleware/base.py"], [("call_next / body_stream", S+"middleware/base.py"), ("receive_or_disconnect / send_no_error", S+"middleware/base.py")],
  [("response_sent", "response handed to the server", S+"middleware/base.py")], [WIRE, "application behind the middleware"])
p("C07", "A body read by dispatch middleware is still there for the application",
  "If a dispatch-style middleware reads the whole request body, every inner middleware and the application still read exactly that body; if it reads nothing, they read the client's body; if it consumes the body as a stream, they read an empty but complete body and do not hang. This holds for every nesting of such middleware, body chunking, delay and reading method. A client disconnect before the body is complete is reported to whoever is reading as a disconnect, not as a complete body.",
  ["programs", "schedules", "fault_sequences"], "every nesting and reading pattern, chunking, delay and disconnect point",
  "Tests enumerate about ten patterns with fixed chunks and one schedule.",
  [S+"middleware/base.py", S+"requests.py"], [("wrapped receive of the cached request", S+"middleware/base.py")],
  [("_wrapped_rcv_consumed", "downstream got the last body message", S+"middleware/base.py")], ["bytes read at each layer"])
p("C08", "Errors behind dispatch middleware surface exactly once, unchanged",
  "An exception raised by the application before it starts a response is raised, as the same exception object, where a dispatch-style middleware awaits the next handler; if the middleware handles it by returning a response, the request completes with that response and no error. Otherwise, and for exceptions raised after the response started or in background work, the same exception object (never wrapped in a group) is raised to the caller once, at any nesting depth. A response cut short by such an exception is never finished as if it were complete.",
  ["programs", "schedules", "fault_sequences"], "every raise point in application, body iterator or background work, dispatch behaviour, nesting and schedule",
  "Tests cover a few raise points with one schedule, mostly with error raising in the client switched off.",
  [S+"middleware/base.py", S+"_utils.py"], [("app_exc hand-over", S+"middleware/base.py"), ("collapse_excgroups", S+"_utils.py")], [], ["exceptions out of the ASGI call", WIRE])
p("C09", "Streaming stops when the client goes away, and every request ends",
  "When the client disconnects during a streaming response, the response stops drawing from its source and sending within a bounded number of further chunks and the request ends in bounded time, also when the source is waiting and behind any stack of middleware; on servers that report disconnection by failing sends, a client-disconnect error is raised and nothing more is sent. Without a disconnect all chunks are delivered, in order, each before the next one is drawn. A source error is raised as that same error, and nothing is reported as complete after it.",
  ["schedules", "fault_sequences", "programs"], "every disconnect or send-failure instant, source timing, spec version and middleware stack",
  "Tests disconnect at one instant with one source; races between the disconnect listener, the sender and the source need controlled schedules.",
  [S+"responses.py", S+"middleware/base.py", S+"concurrency.py"], [("StreamingResponse.__call__ task group", S+"responses.py"), ("listen_for_disconnect", S+"responses.py")], [], [WIRE, "body iterators"])
p("C10", "A cancelled request unwinds completely",
  "When a server cancels a request or connection at any await point, the cancellation propagates to the server, no message is sent afterwards, every task started on behalf of the request has ended when the call returns, and background work is not started. This holds for every response type, middleware stack and for websockets. Cancellation never turns into a normal return or an error response, and other requests in flight are unaffected.",
  ["schedules", "fault_sequences", "programs"], "every cancellation instant, application composition and schedule",
  "Tests practically never cancel; the await points at which a cancellation can land are too many to sample by hand.",
  [S+"middleware/base.py", S+"responses.py", S+"middleware/errors.py", S+"_exception_handler.py", S+"routing.py"], [("except Exception (not BaseException)", S+"middleware/errors.py"), ("task groups", S+"middleware/base.py")], [], [WIRE, "task accounting of the simulated event loop"])
p("C11", "Unhandled errors become exactly one 500 and are re-raised",
  "If any exception escapes the application before a response started, the client receives exactly one complete 500 response (from the configured handler, the debug page or the default) and the same exception is then raised to the server. If the response had already started, nothing further is sent and the same exception is raised. Requests that do not fail never see the error handler.",
  ["programs", "schedules", "fault_sequences"], "every raise point, exception, handler kind (async or threaded), debug setting and concurrent traffic",
  "Tests raise at one or two points, one request at a time.",
  [S+"middleware/errors.py", S+"applications.py"], [("ServerErrorMiddleware", S+"middleware/errors.py")], [("response_started", "start message passed through", S+"middleware/errors.py")], [WIRE, "exceptions out of the ASGI call"])
p("C12", "Exceptions reach the most specific registered handler exactly once",
  "An exception raised by an endpoint or inner layer is passed exactly once to the handler registered for its status code if it is an HTTP error with one, else for the nearest class in its inheritance order, and that handler's response is what the client receives; HTTP errors without a registered handler produce their own status, detail and headers. If the response had already started, no handler runs and an error stating that is raised with the original as its cause; without any handler the exception propagates unchanged. This holds whether the handler is async or threaded and whichever requests run concurrently.",
  ["programs", "schedules", "fault_sequences"], "every handler registration, exception class hierarchy, raise point, nesting of applications and schedule",
  "Tests register a few handlers and raise before the response; interleavings and raise points inside streaming are not explored.",
  [S+"_exception_handler.py", S+"middleware/exceptions.py", S+"applications.py"], [("handler lookup", S+"_exception_handler.py"), ("ExceptionMiddleware", S+"middleware/exceptions.py")], [], [WIRE, "handler invocations"])
p("C13", "Background tasks run after the response, in order, exactly once",
  "Tasks attached to a response start only after its last body message has been handed to the server, run one at a time in the order they were added, each exactly once with its own arguments, and synchronous ones run in a worker thread without blocking the event loop. If a task fails, later ones do not run and the error is raised. If the response could not be completed because of an error, none of its tasks run.",
  ["programs", "schedules", "fault_sequences"], "every task list, response type, task duration, failure point, middleware stack and concurrent traffic",
  "Tests check one response and a shared counter, not the ordering against delivery under slow sends and threads.",
  [S+"background.py", S+"responses.py"], [("BackgroundTasks.__call__", S+"background.py"), ("background hooks of responses", S+"responses.py")], [], ["task start and end events against wire events"])
p("C14", "File responses send exactly the requested bytes of the file",
  "While a file does not change, a full response carries its bytes and length, and a range response carries exactly the slices its Content-Range headers name, with a Content-Length equal to the bytes sent, for every file size, chunk size and timing; unsatisfiable ranges give 416, malformed ones 400, and HEAD the same headers with no body. If the file disappears, shrinks or cannot be read while it is served, the exchange ends in bounded time with an error or a visibly incomplete body, never with wrong bytes or an endless stream. Every file opened is closed again, also on errors and cancellation, and no file I/O happens on the event-loop thread.",
  ["inputs", "schedules", "fault_sequences"], "every file size, range set, disk fault point, concurrent truncation or removal, cancellation instant",
  "Tests serve small immutable files; no I/O error, truncation or cancellation is ever injected.",
  [S+"responses.py"], [("FileResponse handlers", S+"responses.py"), ("range parsing and multipart framing", S+"responses.py")], [], [WIRE, "simulated file system"])
p("C15", "Static files: right file, inside the root, never a stale 304",
  "Over any history of deployments and requests, a static file mount answers with the current content of the regular file at the requested path inside its directories, or 404 (401 if access is refused), and never with anything outside them. A request carrying an entity tag is answered 304 only if the file still has the size and modification time of the version that tag was issued for; one carrying only a date only if the file has not been modified after that date; a range is cut out of that content, and under If-Range only if that validator is still the current one. File-system errors while looking up or opening a file give an error response, never content of another file, and no lookup happens on the event-loop thread.",
  ["histories", "schedules", "fault_sequences", "inputs"], "every sequence of file writes, replacements, removals, touches and requests with cached validators, every lookup fault and request path",
  "Tests use static content and isolated requests; cache validation is a property of histories with time.",
  [S+"staticfiles.py", S+"responses.py"], [("lookup_path", S+"staticfiles.py"), ("is_not_modified", S+"staticfiles.py"), ("set_stat_headers", S+"responses.py")], [], [WIRE, "simulated file system and clock"])
p("C16", "Websocket sessions follow the protocol and lose nothing",
  "For every sequence of application calls and client events, the messages passed to the server obey the websocket protocol (accept, deny or close first; data only after accept; nothing after close or after a complete denial response), and a call that would break it raises an error and sends nothing. Client messages are delivered once each, in order, with their exact payload; after a client disconnect the next receive reports it with its code and reason, iteration ends, and further receives raise. A failing send on an accepted session is reported as an abnormal disconnect and closes the session for sending.",
  ["histories", "schedules", "fault_sequences"], "every interleaving of application operations (from several tasks) and client events, every failing send",
  "Tests fix about forty short sequences; the state machine has many more histories.",
  [S+"websockets.py"], [("WebSocket.send / receive", S+"websockets.py")], [("client_state, application_state", "protocol position of each side", S+"websockets.py")], [WIRE])
p("C17", "Websocket endpoint callbacks: connect, every message in order, disconnect once",
  "A class-based websocket endpoint calls its connect callback first, its receive callback once per client message in order with the decoded payload, never concurrently with itself, and its disconnect callback exactly once after everything else, with the client's close code (1000 if none), or 1011 if a callback or decoding failed. A message of the wrong kind or malformed JSON closes the session with 1003. The failure is raised to the server.",
  ["histories", "schedules", "fault_sequences"], "every message sequence, encoding, callback duration and failure point",
  "Tests send one or two messages without overlap or failures inside callbacks.",
  [S+"endpoints.py"], [("WebSocketEndpoint.dispatch / decode", S+"endpoints.py")], [], ["callback invocations", WIRE])
p("C18", "Lifespan: startup completes before serving, shutdown runs exactly once",
  "Startup is announced only after every startup step has completed and shutdown only after every shutdown step has completed, with steps run once, in order; state yielded at startup is in the lifespan state by the time startup is announced. A failing startup or shutdown step is announced as the matching failure, with the traceback text, and raised; the shutdown half of an entered lifespan context runs exactly once, also when serving is cancelled. At most one startup and one shutdown announcement are made.",
  ["programs", "schedules", "fault_sequences"], "every lifespan style, step duration, failure point and cancellation instant",
  "Tests run each failure once without timing or cancellation.",
  [S+"routing.py", S+"applications.py"], [("Router.lifespan", S+"routing.py")], [("started", "startup was announced", S+"routing.py")], [WIRE])
p("C19", "Blocking work runs in threads without stalling or corrupting the event loop",
  "Synchronous endpoints, exception handlers, background tasks and iterators run in worker threads: the event loop keeps serving other work while they block, and never more of them run at once than the thread limit. Their results, exceptions and context variables are carried over exactly. A synchronous iterator is advanced by one call at a time, in order, and its end, including an empty iterator, ends the stream.",
  ["schedules", "programs", "fault_sequences"], "every thread start, block and completion order, thread limit, exception and cancellation instant",
  "Tests use one or two threads with real timing.",
  [S+"concurrency.py", S+"routing.py", S+"endpoints.py", S+"background.py"], [("run_in_threadpool, iterate_in_threadpool", S+"concurrency.py")], [], ["simulated worker threads"])
p("C20", "Sessions survive round trips, expire on time and cannot be forged",
  "Session data set while handling a request is exactly what the same client's later requests see until it is changed, cleared or the configured maximum age has passed since it was last issued; after that, and for cookies that are altered, foreign-signed or (where a maximum age is set) dated in the future, the session is empty. A request that ends with a non-empty session re-issues it, a cleared session is deleted at the client, and a client that never had data gets no cookie. Concurrent requests of different clients never see each other's data.",
  ["histories", "schedules", "inputs", "fault_sequences"], "every history of requests from several clients, clock advance or jump, cookie tampering and interleaving",
  "Tests use one client and never move the clock past the limit except by setting it negative.",
  [S+"middleware/sessions.py"], [("SessionMiddleware", S+"middleware/sessions.py")], [], ["Set-Cookie headers", "session seen by the application"])
p("C21", "Concurrent requests do not affect one another",
  "When many requests of any kind run concurrently through one application, each gets exactly the response, and its endpoint sees exactly the path parameters, query, headers, body, state, user, session and context variables, that it would get running alone. No request's data, error or disconnect is visible to another.",
  ["schedules", "programs", "fault_sequences"], "every set of concurrent requests, every interleaving, disconnect and failure of some of them",
  "Tests run one request at a time through the test client.",
  [S+"applications.py", S+"routing.py", S+"requests.py", S+"datastructures.py", S+"middleware/"], [("per-request scope", S+"routing.py"), ("per-request middleware state", S+"middleware/")], [], [WIRE, "what endpoints observe"])
p("C22", "Protected endpoints run only for authorised callers",
  "Every request or websocket handled behind the authentication middleware sees the user and permissions its own credentials map to, however long the backend takes and whatever runs concurrently; unauthenticated callers see an anonymous user with no permissions. Code guarded by required permissions runs only if the caller holds all of them; otherwise the caller gets the configured status or redirect, or a closed websocket. When the backend rejects the credentials, the application is not invoked and the caller gets the error response or a closed websocket.",
  ["schedules", "inputs", "programs", "fault_sequences"], "every mix of credentials, guards, endpoint kinds, backend delays and failures",
  "Tests authenticate one request at a time with an immediate backend.",
  [S+"authentication.py", S+"middleware/authentication.py"], [("requires", S+"authentication.py"), ("AuthenticationMiddleware", S+"middleware/authentication.py")], [], [WIRE, "guarded code"])
p("C23", "Polling for disconnect never blocks and never lies",
  "Asking whether the client has disconnected returns without waiting for anything to arrive. It answers no while the client is connected, and once the disconnect has been delivered it answers yes on every later poll. Polling after the body was read, with or without dispatch-style middleware in between, does not disturb the response or other readers.",
  ["schedules", "fault_sequences", "programs"], "every disconnect instant, poll times, server receive behaviour and middleware nesting",
  "Tests poll against one hand-written receive.",
  [S+"requests.py", S+"middleware/base.py"], [("Request.is_disconnected", S+"requests.py")], [("_is_disconnected", "disconnect seen", S+"requests.py")], [WIRE])
p("C24", "WSGI bridge: ordered, complete, and errors surface",
  "A mounted WSGI application receives the complete request body and correct environment, runs in a worker thread, and its status, headers and body chunks reach the client completely and in order, each before the application has finished if it is still producing. An exception from the WSGI application is raised to the server, whether it is thrown or passed as exception information, and the response start is sent at most once. An iterable with a close method is closed exactly once, however the request ends, and the request does not end before its thread.",
  ["programs", "schedules", "fault_sequences", "inputs"], "every chunking of request and response, thread interleaving with a slow client, raise point and cancellation-free schedule",
  "Tests run three tiny WSGI apps to completion.",
  [S+"middleware/wsgi.py"], [("WSGIResponder", S+"middleware/wsgi.py")], [], [WIRE, "WSGI environ and start_response"])
p("C25", "The test client reports what the application did",
  "The test client hands the application exactly the request it was asked to make, returns exactly the status, headers and body the application sent, raises the application's exceptions when asked to, and delivers websocket messages in both directions in order with exact payloads. Used as a context manager it runs startup before the first request and shutdown exactly once at exit, and shares lifespan state with requests. Leaving a websocket session or the client always returns, with the application's tasks ended.",
  ["programs", "schedules", "fault_sequences"], "every application behaviour, interleaving of the test thread with the application thread, and failure point",
  "It is the test infrastructure itself; its own interleavings are whatever real threads happen to do.",
  [S+"testclient.py"], [("_TestClientTransport", S+"testclient.py"), ("WebSocketTestSession", S+"testclient.py"), ("lifespan tasks", S+"testclient.py")], [], ["httpx responses", "websocket test session"])
p("C26", "The first finished of several functions ends the others",
  "Running several async functions until the first completes returns once the first one has completed, with all others cancelled and ended; a function that fails makes the call fail with its error and cancels the others. Cancelling the call cancels all of them.",
  ["schedules", "fault_sequences"], "every completion order, tie, failure and cancellation instant",
  "One test, one order.",
  [S+"concurrency.py"], [("run_until_first_complete", S+"concurrency.py")], [], ["task accounting of the simulated event loop"])
p("C27", "Push promises and debug information reach the server",
  "On a server that supports server push, every push promise that an endpoint, an exception handler or a dispatch function makes reaches the server once, with its path and exactly those request headers a pushed request repeats (Accept, Accept-Encoding, Accept-Language, Cache-Control, User-Agent), before whatever the application sends after it and through every stack of middleware; on other servers nothing is sent and nothing fails. Debug information for the test client gets through every middleware in the same way. The response itself is not affected.",
  ["programs", "schedules", "inputs", "configurations"], "every stack of middleware, place and number of promises, request headers and interleaving of sends",
  "Tests make one promise from a bare function without middleware.",
  [S+"requests.py", S+"middleware/base.py", S+"middleware/gzip.py", S+"endpoints.py"], [("send_push_promise", S+"requests.py"), ("receive/send relay", S+"middleware/base.py")], [], [WIRE])
p("N01", "Routing picks the first full match and binds its parameters",
  "The first route, in declaration order, that matches type, path and method handles the request with its converted parameters; a path match with a wrong method gives 405, a match after adding or removing a trailing slash a redirect, anything else 404. Mounted applications see the remaining path and the accumulated prefix.",
  ["inputs", "programs"], "every route table and request path", "Tests sample route tables and paths.",
  [S+"routing.py", S+"convertors.py", S+"_utils.py"], [("Router.app", S+"routing.py")])
p("N02", "URL reversal inverts routing",
  "A URL built for a named route with valid parameters is routed back to that route with equal parameters, through any nesting of mounts and hosts.",
  ["inputs", "programs"], "every route table, name and parameters", "Tests sample names and parameters.",
  [S+"routing.py", S+"convertors.py", S+"datastructures.py"], [("url_path_for", S+"routing.py")])
p("N03", "Header, query and form multi-dicts behave like their model",
  "Every sequence of operations on headers, query parameters, form data and URLs gives the results of an ordered list of pairs (case-insensitive for headers).",
  ["inputs", "histories"], "every operation sequence", "Tests sample short sequences.",
  [S+"datastructures.py"], [("MultiDict, MutableHeaders, URL", S+"datastructures.py")])
p("N04", "CORS, host and HTTPS policies decide correctly",
  "Each request gets the CORS headers, host rejection or HTTPS redirect that the configured policy prescribes for its method and headers, and disallowed origins or hosts are never granted.",
  ["inputs", "configurations"], "every policy and request header set", "Tests sample policies and headers.",
  [S+"middleware/cors.py", S+"middleware/trustedhost.py", S+"middleware/httpsredirect.py"], [("CORSMiddleware", S+"middleware/cors.py"), ("TrustedHostMiddleware", S+"middleware/trustedhost.py")])
p("N05", "Configuration, schema and templates are computed faithfully",
  "Configuration values come from the environment, then the file, then the default, cast as asked; generated schemas list each documented route; templates render with the given context.",
  ["inputs", "configurations"], "every configuration file, route table and template context", "Tests sample inputs.",
  [S+"config.py", S+"schemas.py", S+"templating.py"], [("Config.get", S+"config.py"), ("SchemaGenerator", S+"schemas.py")])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for x in P:
        assert x["statement"].count(". ") <= 2, x["id"]
        assert len(x["title"]) <= 80, x["id"]
        f.write(json.dumps(x) + "\n")
