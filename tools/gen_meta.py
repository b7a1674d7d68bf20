"""Writes properties.jsonl and MANIFEST.json from one table (run by hand, output committed)."""
import json
import os

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
S = "src/connectrpc/"
SA, SS, CA, CS = S + "_server_async.py", S + "_server_sync.py", S + "_client_async.py", S + "_client_sync.py"
PC, PG, PR, EN = S + "_protocol_connect.py", S + "_protocol_grpc.py", S + "_protocol.py", S + "_envelope.py"
OT = "connectrpc-otel/connectrpc_otel/_interceptor.py"
OI = "connectrpc-otel/connectrpc_otel/_instrumentor.py"
GEN = "protoc-gen-connectrpc/protoc_gen_connectrpc/__init__.py"

DIRECT = "stateless model checking of the real code: exhaustive depth-first enumeration of every choice "


def P(id, title, statement, over, text, why, files, mech, tech, note):
    return dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files,
                mech=mech, tech=tech, note=note)


PROPS = [
    P("C01", "Messages survive any chunking of the byte stream, promptly",
      "However the network splits the bytes of a request or response body, the receiving side sees exactly the "
      "messages that were sent, in order, once each, followed by a clean end. A message whose last byte has arrived "
      "is delivered without waiting for any further byte, on the async server, the sync server and both clients.",
      ["inputs", "schedules"],
      "every placement of chunk boundaries (up to the bound) over every message list, protocol, RPC kind and "
      "compression pattern; chunk k+1 is released only when the program is quiescent",
      "tests send whole bodies through one HTTP stack; the number of boundary placements is combinatorial",
      [EN, SA, SS, CA, CS], [("envelope reader", EN + " feed/_read_messages"), ("body readers", SA + " _read_body, " + SS + " _read_body")],
      "chunk-boundary placements and quiescence-gated chunk arrivals",
      "bounded by number of cuts and the message corpus; the real reader runs"),
    P("C02", "Truncated or malformed streams are never taken for complete ones",
      "If a request or response body stops before its natural end - at any byte, or at a message boundary without the "
      "protocol's end marker - the receiver reports an error and never a successful RPC. Messages received before the "
      "cut are a prefix of those sent, and bytes that follow the end marker are never delivered as messages.",
      ["fault_sequences", "inputs"],
      "every byte position of every encoded body as truncation point, for every protocol, kind, side and end marker",
      "tests cover a handful of cut points",
      [EN, PC, PG, SA, SS, CA, CS], [("end-of-stream detection", PC + " ConnectEnvelopeReader, " + PG + " GRPCEnvelopeReader")],
      "truncation points of every encoded body",
      "all cut points of the corpus bodies on the real code"),
    P("C03", "Errors raised by a handler reach the caller unchanged",
      "The code, message and details of an error raised by a handler are exactly those the caller's exception carries, "
      "for every protocol, RPC kind, codec and server/client implementation, and for a spec-conforming third-party "
      "peer on either side (text that is not valid Unicode may be replaced). Any other exception becomes an unknown error "
      "carrying its text; responses sent before the error are still delivered.",
      ["inputs", "configurations"],
      "16 codes x message corpus (all chars U+0000..U+024F, percent/CRLF/quote/edge strings) x detail lists x protocol x "
      "kind x side pairs x raise point",
      "tests use a few ASCII messages on a few pairs",
      [PR, PC, PG, S + "errors.py"], [("error encoding", PR + " ConnectWireError; " + PG + " GRPCEnvelopeWriter.end"), ("error decoding", PR + " from_dict; " + PG + " handle_response_complete")],
      "errors, raise points and peers",
      "corpus-bounded; independent codec is the peer and oracle"),
    P("C04", "Headers and trailers are delivered faithfully",
      "Every header a caller sets is seen by the handler, and every response header and trailer a handler sets is seen "
      "by the caller as a header or trailer respectively, with all values of a repeated name in order and independent of "
      "letter case - on success and on error, on every protocol and RPC kind. Metadata of one kind never "
      "appears as the other.",
      ["inputs", "configurations", "histories"],
      "all sequences of header/trailer operations up to the bound at every point of a handler x protocol x kind x "
      "implementation pair x outcome",
      "tests check a few single-valued headers",
      [SA, SS, S + "_response_metadata.py", PC, PG], [("response metadata", S + "_response_metadata.py"), ("context headers", SA + " _add_context_headers")],
      "metadata operation sequences and their placement in the call",
      "bounded number of operations over a small alphabet of names and values"),
    P("C05", "A caller's deadline is propagated to the handler exactly",
      "The deadline a caller sets reaches the handler as remaining time never longer than requested and short only by "
      "the rounding the protocol's unit imposes, and every timeout header of the protocol grammar is read at its exact "
      "value. A timeout header outside the grammar is rejected with an error without running the handler; no timeout "
      "header means no deadline.",
      ["inputs", "configurations"],
      "all timeout values of the corpus around every unit and digit boundary, in both directions, and all short header "
      "strings over the grammar's alphabet",
      "tests use a couple of values",
      [PG, PC, S + "request.py", CA, CS], [("timeout encode/parse", PG + " _serialize_timeout/_parse_timeout"), ("remaining time", S + "request.py RequestContext.timeout_ms")],
      "timeout values and header strings, on virtual time",
      "clock is virtual; strings bounded in length"),
    P("C06", "Client calls end at their deadline or cancellation, and say so truthfully",
      "An async call whose deadline passes while it waits - for the connection, the headers, any chunk, or the "
      "trailers - ends at that moment with deadline-exceeded, a call whose task is cancelled ends with canceled, and in "
      "every case the exchange with the server is released. A result obtained before the deadline is returned "
      "unchanged, and no outcome is ever invented.",
      ["schedules", "fault_sequences"],
      "every order of deadline, cancellation, headers, chunks and end over virtual time, for each protocol and kind",
      "tests wait on real clocks at one or two places",
      [CA, CS, S + "_asyncio_timeout.py"], [("deadline", CA + " wait_for/asyncio_timeout"), ("cancellation", CA + " except CancelledError")],
      "event orders under a virtual-time event loop",
      "single call at a time; transport is the controlled fake"),
    P("C07", "Compression is negotiated and applied correctly in both directions",
      "A request compressed with any supported algorithm is understood, one using an unsupported algorithm is refused "
      "with an error, and a response is compressed when the caller offers a supported algorithm and only ever with an offered one, "
      "with the label and flags truthfully describing the bytes; algorithms of the application included. The messages seen by handler and caller never depend on the compression "
      "configuration of either side.",
      ["inputs", "configurations"],
      "all ordered subsets of algorithms on each side x accept strings x request encodings x per-message flags x "
      "protocol x kind",
      "tests sample a few pairs of settings",
      [S + "_compression.py", PC, PG, SA, SS, EN], [("negotiation", S + "_compression.py negotiate_compression"), ("stream negotiation", PC + ", " + PG + " negotiate_stream_compression")],
      "configurations of both sides and accept strings",
      "four algorithms and one of the application, corpus of messages"),
    P("C08", "Messages over the configured size limit are refused, others accepted",
      "With a read limit of N bytes, a message whose uncompressed size is at most N is processed and any larger one is "
      "refused with resource-exhausted and never reaches the application - on servers and clients, for every "
      "protocol, kind, codec, HTTP method and compression. The refusal concerns single messages (an "
      "end-of-stream message counts as one): a stream of small messages is never refused for its total size.",
      ["inputs", "configurations"],
      "every limit/size pair around the boundary x position in the stream x compression x protocol x kind x side",
      "tests try one limit on one path",
      [EN, SA, SS, CA, CS], [("limit checks", EN + " _read_messages; " + SA + " _read_post_request; " + CA + " _send_request_unary")],
      "limit/size pairs around the boundary on every path",
      "sizes up to a few dozen bytes plus highly compressible ones"),
    P("C09", "The ASGI server always produces one well-formed, truthful response",
      "For every request, schedule, handler behaviour, cancellation and I/O fault, what the async server sends is a "
      "prefix of one well-formed ASGI response (start once, lower-case header names, bodies, trailers only if "
      "announced, nothing after the end), complete unless the connection failed. The outcome it reports is the "
      "handler's: success is reported only if the handler succeeded and every one of its messages was sent before it.",
      ["schedules", "fault_sequences", "crash_points"],
      "all interleavings of chunk arrival, disconnect, send completion/failure and cancellation with handler steps up to "
      "the preemption bound",
      "tests see one schedule per request",
      [SA], [("stream handling", SA + " _handle_stream"), ("unary handling", SA + " _handle_unary_connect"), ("errors", SA + " _handle_error")],
      "environment actions against the event loop's ready queue",
      "deviation-bounded schedules on a controlled event loop"),
    P("C10", "The WSGI server always produces one well-formed, truthful response",
      "For every request, handler behaviour and input fault, the sync server calls start-response exactly once before "
      "any body, yields only bytes, sends trailers exactly once, before the body ends and only on protocols that use "
      "them, and reports success only if the handler succeeded and all its messages were sent. An unexpected handler "
      "exception is reported to the caller as an error and to the server's error log, never by crashing the response.",
      ["inputs", "fault_sequences", "crash_points"],
      "handler programs (yield/raise/return at every point) x request shapes x input failures x protocol x kind",
      "tests exercise a few handlers",
      [SS], [("stream handling", SS + " _handle_stream/_response_stream"), ("errors", SS + " _handle_error")],
      "handler programs and input faults against a WSGI protocol automaton",
      "bounded handler programs"),
    P("C11", "Disconnect and cancellation stop the handler and leak nothing",
      "When the client goes away or the request is cancelled, at any moment, a streaming handler is stopped no later "
      "than its next attempt to send, its cleanup code runs exactly once before the request ends - also behind "
      "interceptors - and no task or pending read is left behind. After a completed request nothing keeps running "
      "either.",
      ["schedules", "fault_sequences"],
      "disconnect or cancellation at every scheduling point of a handler with cleanup code, with and without "
      "interceptors",
      "tests cover one disconnect moment",
      [SA, S + "_interceptor_async.py"], [("disconnect watcher", SA + " _watch_for_disconnect"), ("generator close", SA + " aclose")],
      "disconnect/cancel points under the controlled loop",
      "handlers of up to four steps"),
    P("C12", "Interceptors nest in order and see every call exactly once",
      "Interceptors run in the listed order around the call, each start hook exactly once and, if it succeeded, its end "
      "hook exactly once in reverse order with the call's real error or none, whatever the others, the handler or the "
      "caller do. What an interceptor replaces - request, response, error, or the whole call - is what "
      "the next layer sees; those not applicable to the RPC kind are skipped.",
      ["configurations", "histories", "crash_points"],
      "all stacks up to three interceptors of every type x failure points x early exits x RPC kind x side, sync and async",
      "tests cover a few stacks without failures",
      [S + "_interceptor_async.py", S + "_interceptor_sync.py", SA, SS, CA, CS], [("chain construction", SA + " _apply_interceptors"), ("metadata hooks", S + "_interceptor_async.py MetadataInterceptorInvoker")],
      "interceptor stacks x failure points against a nesting model",
      "stack depth three, one or two faults"),
    P("C13", "Requests are routed by path, method and content type, also when mounted",
      "A request runs exactly the handler registered for its path - also when the application is mounted under a prefix "
      "- and only if HTTP method and content type are acceptable; GET is accepted only for side-effect-free unary "
      "methods. Every other request gets not-found, method-not-allowed, unsupported-media-type or an RPC error (a malformed message: "
      "invalid-argument), never a crash - whichever optional parts of the scope or environment are absent - and never another handler.",
      ["inputs", "configurations"],
      "path x mount x method x content type x RPC kind x idempotency, both servers",
      "tests check a few negative cases",
      [SA, SS, S + "_protocol_server.py", PC], [("routing", SA + " __call__, " + SS + " __call__"), ("method gate", PC + " create_request_context")],
      "the product of paths, mounts, methods and content types",
      "finite alphabet per dimension"),
    P("C14", "GET and POST are the same call",
      "A side-effect-free unary RPC gives the same result, error, metadata and handler-visible request whether sent by "
      "GET or POST, for every message, codec, compression and option. Every GET query a spec-conforming client can "
      "produce is read correctly, and a malformed one is refused with an error without running the handler.",
      ["inputs", "configurations"],
      "messages x codecs x compression x query spellings (order, base64 with/without padding, percent-encoding) x server",
      "tests send a few queries",
      [SA, SS, CA, CS, S + "_client_shared.py"], [("GET building", S + "_client_shared.py prepare_get_params"), ("GET parsing", SA + " _read_get_request, " + SS + " _handle_get_request")],
      "messages, query spellings and settings",
      "corpus-bounded"),
    P("C15", "Sync/async, protocols, codecs and independent peers all agree",
      "The same call gives the same messages and outcome for every combination of async or sync client, async or sync "
      "server, protocol, codec (one of the application included), message library and an independent spec-conforming peer on either side. Exactly the "
      "messages sent are received, in order, for every RPC kind.",
      ["configurations", "inputs"],
      "full product of client/server implementation, protocol, codec, message library, kind and message corpus",
      "tests run the diagonal of this product",
      [CA, CS, SA, SS, S + "_codec.py", S + "compat/_codec.py"], [("codecs", S + "_codec.py"), ("request/response paths", CA + ", " + SA)],
      "the configuration product against an independent wire implementation",
      "corpus-bounded; peer implements the published spec"),
    P("C16", "Headers behave as a case-insensitive ordered multimap",
      "After any sequence of operations the headers container answers every query as an ordered multimap with "
      "case-insensitive names would: adding keeps earlier values, assignment and deletion replace or remove all values, "
      "all views agree with each other, and headers are equal only if all their values are.",
      ["histories"],
      "all operation sequences up to the depth bound over a small alphabet, each state compared with a reference model",
      "tests run a few fixed sequences",
      [S + "_headers.py"], [("container", S + "_headers.py Headers")],
      "operation sequences compared with a reference multimap",
      "depth-bounded, exact comparison after each operation"),
    P("C17", "Response metadata belongs to the call made in its scope",
      "A response-metadata scope receives the headers and trailers of the calls made inside it and of no other call, "
      "whatever the nesting of scopes and the interleaving of concurrent calls; outside any scope calls are unaffected. "
      "A scope reflects the last response received in it, also that of a failed call; a stream belongs to the scope in which "
      "its first message is asked for.",
      ["schedules", "histories"],
      "all interleavings of two or three concurrent calls with nested scopes, and all scope/call sequences up to the bound",
      "tests run one call at a time",
      [S + "_response_metadata.py", CA, CS], [("scope", S + "_response_metadata.py ResponseMetadata")],
      "interleavings of concurrent calls and scope operations",
      "two or three tasks"),
    P("C18", "The ASGI lifespan protocol is followed",
      "For every order of lifespan and request events the server answers startup and shutdown exactly once each with "
      "complete or failed according to the service's own code, serves requests only with the service the "
      "startup produced, and runs the service's cleanup exactly once at shutdown.",
      ["histories", "fault_sequences"],
      "all event orders up to the bound x service behaviour (plain, generator, failing at each step)",
      "tests cover the happy path and two failures",
      [SA], [("lifespan", SA + " __call__ lifespan branch")],
      "event histories x failing service programs",
      "bounded histories"),
    P("C19", "Whatever the server or network does, a client call fails only with an RPC error",
      "For every response - any status, headers, body or trailers, complete or broken off - and every transport "
      "failure, a client call either returns what a conforming reader would or raises an RPC error. HTTP statuses "
      "without an RPC error map to the documented codes, and stream resets to their documented codes.",
      ["inputs", "fault_sequences"],
      "all statuses 100..599 x content types x body corpus, all stream-reset codes at all points, and mutations of valid "
      "responses",
      "tests try a handful of bad responses",
      [CA, CS, S + "_client_shared.py", PR, PC, PG], [("fault mapping", CA + " _send_request_*; " + S + "_client_shared.py maybe_map_stream_reset"), ("HTTP status map", PR)],
      "faulty responses and transport failures at every point",
      "enumerated mutations"),
    P("C20", "Generated code matches its service definition",
      "For every service definition the generator emits importable code whose server applications route each RPC, with "
      "its kind and idempotency, to the implementation method generated for it, and whose clients call exactly that RPC. "
      "Unimplemented methods answer unimplemented, constructor options take effect, and no two RPCs of a service collide with each other or with the client's "
      "own methods.",
      ["programs", "configurations"],
      "service definitions over method kinds, names, idempotency, packages and generator options, up to the bound; every "
      "generated module is executed",
      "the repository checks in a few generated samples",
      [GEN], [("templates", GEN)],
      "generated service definitions, each generated, imported and called",
      "definitions bounded in number of methods and name alphabet"),
    P("C21", "Telemetry describes every call truthfully and never changes it",
      "With telemetry enabled each RPC that reaches the interceptors, on either side, yields exactly one span and one duration record with the right "
      "kind, name, peer and error attributes, linked to the caller's trace, and the span is ended however the call ends. "
      "The RPC's outcome is the same as without telemetry, and the caller's current span is afterwards what it was before.",
      ["configurations", "fault_sequences", "histories"],
      "kind x side x protocol x outcome x address shapes x parent context x exit path",
      "tests cover a few unary calls",
      [OT], [("span lifecycle", OT + " on_start/on_end")],
      "calls x outcomes x contexts against an in-memory exporter",
      "SDK exporters in memory"),
    P("C22", "Concurrent calls do not influence one another",
      "Any number of calls running concurrently on one client or one server, in any interleaving of tasks or threads, "
      "or one after another, behave exactly as if each ran alone: each gets its own messages, headers, trailers, errors and deadline.",
      ["schedules"],
      "all interleavings of two or three calls at await points (async) and all thread schedules up to a preemption bound "
      "(sync)",
      "tests run calls sequentially or under one lucky schedule",
      [CA, CS, SA, SS, S + "compression/zstd.py"], [("per-call state", CA + ", " + SA + " locals; shared codecs and compressors")],
      "task interleavings and preemption-bounded thread schedules",
      "two or three calls; preemptions at line granularity"),
    P("C23", "Short and partial reads of a WSGI request body change nothing",
      "However many bytes each read of the request body returns, the sync server sees exactly the body the "
      "client declared, never reads past its declared length, and treats a body shorter than declared as an error. On HTTP/1, a "
      "failing request leaves nothing of its declared body unread.",
      ["inputs", "fault_sequences"],
      "all splits of the body into read results x declared length x early end, unary and streaming",
      "tests use in-memory bodies that return everything",
      [SS], [("body readers", SS + " _read_body_with_content_length, _read_body")],
      "splits of a body into read results",
      "bodies of up to a dozen bytes, all compositions"),
    P("C24", "Streams are processed incrementally",
      "A streaming server sends each response before asking the handler for the next, and consumes "
      "request messages only as the handler asks for them; a streaming client hands over each message as it "
      "arrives and takes request messages as the transport asks. Headers a handler sets before its first message are sent.",
      ["schedules", "histories"],
      "all handler programs over receive/send/set-header steps up to the bound, both servers and clients, observed event "
      "order compared with the model",
      "tests compare final results only",
      [SA, SS, CA, CS], [("response loop", SA + " _handle_stream, " + SS + " _response_stream")],
      "handler programs; order of observable events",
      "bounded programs"),
    P("C25", "Peer addresses are reported correctly for every URL and Host form",
      "The server address a call reports is the host and port of the client's URL, or of the request's Host "
      "header, with the scheme's default port when none is given - for names, IPv4, IPv6, and URLs with paths - "
      "and the client address is the connection's peer.",
      ["inputs", "configurations"],
      "hosts x ports x schemes x path suffixes, both sides and servers",
      "tests use two URL forms",
      [PR, SA, SS], [("address parsing", PR + " host_to_server_address, url_to_server_address")],
      "the product of host forms, ports, schemes and paths",
      "finite grammar"),
    P("C26", "Instrumentation is applied exactly once and fully undone",
      "After any history of enabling and disabling automatic instrumentation, a newly created client or server is "
      "traced by exactly one telemetry layer while enabled and by none while disabled, and explicitly configured "
      "telemetry is never doubled. The layer is the outermost one, and all other interceptors are kept.",
      ["histories"],
      "all enable/disable/import/create histories up to the bound",
      "tests run one enable/disable cycle",
      [OI], [("patching", OI)],
      "histories of instrument/uninstrument/import/create in fresh interpreter state",
      "bounded history length"),
    P("C27", "Calls with one message per direction never accept zero or several",
      "Where an RPC has exactly one request or one response message, a body carrying none or more than one is refused "
      "with an error on both servers and both clients; the handler is not run and no message is "
      "returned to the caller.",
      ["inputs"],
      "message counts 0..3 x protocol x kind x side x chunking x trailing error",
      "tests cover one of these",
      [SA, SS, CA, CS], [("cardinality", SA + " _consume_single_request; " + CA + " _consume_single_response")],
      "message counts and positions on every single-message path",
      "counts up to three"),
    P("C28", "A request its caller cannot finish is broken off, never completed",
      "When a caller's request stream fails - its iterator raises, or a message cannot be encoded or compressed - the request "
      "body is broken off after exactly the messages before the failure and never ended like a complete one; a unary request "
      "that cannot be encoded is never sent. The caller gets an RPC error that names the cause, and the iterator is not asked "
      "again. Responses that arrived before are delivered, and a response that is complete before the failure counts.",
      ["fault_sequences", "schedules"],
      "failing after each number of messages in every way x client x protocol x kind x compression x every order of request "
      "reads and response chunks",
      "tests use request streams that succeed",
      [CA, CS, EN, PC], [("request content", CA + " _streaming_request_content; " + CS + " _streaming_request_content"), ("unary encoding", CA + " _send_request_unary")],
      "request failures and orders of request reads and response chunks",
      "streams of up to three messages; the transport is the controlled fake"),
]


def main():
    built = {p["id"] for p in PROPS
             if os.path.exists(os.path.join(ROOT, "checks", p["id"].lower() + ".py"))}
    with open(os.path.join(ROOT, "properties.jsonl"), "w") as f:
        for p in PROPS:
            assert len(p["title"]) <= 80, p["id"]
            f.write(json.dumps({
                "id": p["id"], "title": p["title"], "statement": p["statement"],
                "quantifier": {"over": p["over"], "text": p["text"]},
                "why_tests_cant": p["why"],
                "anchors": {"files": p["files"], "mechanism": [{"name": n, "where": w} for n, w in p["mech"]]},
            }) + "\n")
    man = {
        "version": 1,
        "setup_cmd": "./check selftest",
        "checks": [
            {"property": p["id"], "quick_cmd": f"./check {p['id']}",
             "thorough_cmd": f"./check {p['id']} --tier thorough",
             "technique": DIRECT + "of " + p["tech"] + ", deciding on the real code",
             "level": "model_checking", "level_note": p["note"]}
            for p in PROPS if p["id"] in built],
        "not_applicable": [{"property": p["id"], "reason": "check not built yet"} for p in PROPS if p["id"] not in built],
        "notes": "no hooks in /repo are needed: the code is driven through its public ASGI/WSGI/client interfaces",
    }
    with open(os.path.join(ROOT, "MANIFEST.json"), "w") as f:
        json.dump(man, f, indent=1)
        f.write("\n")


main()
