#!/usr/bin/env python3
"""Source of /verif/properties.jsonl (kept as code so it stays readable)."""
import json
I = "include/fitoria/"
P = []
def p(id, title, statement, over, text, why, files, state, mech, observe, hook=None):
    files = [f if f.startswith(("include", "test", "doc")) else I + f for f in files]
    state = [dict(name=x, meaning=x, where=files[0]) for x in state]
    mech = [dict(name=x, where=files[0]) for x in mech]
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files,
                     state=state, mechanism=mech, observe_at=observe, hook_needed=hook)))

# ---------------------------------------------------------------- routing
p("R01", "Route resolution follows static > {param} > #wildcard, in any registration order",
  "For every set of successfully registered routes, a request (method, path) is dispatched to the one route that the documented precedence selects: at the first position where candidates differ a static text wins over a {param}, which wins over a #wildcard, falling back to the less specific candidates when the more specific one does not lead to a full match, and among routes of the same path an exact method wins over any-method. "
  "The choice depends only on the set of routes, never on the order in which they were registered or on optimize(), and a request that no registered pattern matches is reported as not found.",
  ["inputs", "histories"], "all finite route sets over arbitrary static/param/wildcard patterns with shared prefixes, all registration orders, all methods and paths",
  "Tests register a handful of fixed routes in one order; the trie shape depends on the order and on common prefixes of all other routes.",
  ["web/router.hpp", "web/path_parser.hpp", "web/http_server.hpp"], ["router_tree nodes: statics_/param_/wildcard_/routes_"],
  ["prefix-tree split on insert", "backtracking lookup"], ["router::try_insert", "router::try_find", "HTTP response of the selected handler"])
p("R02", "A route is rejected exactly when an equivalent route is already registered",
  "Registering a route fails with route_already_exists exactly when a route with the same method and the same shape of path (parameter and wildcard names ignored) is already registered, and with a parse error exactly when its path is malformed. "
  "A rejected registration leaves the set of routable requests unchanged.",
  ["inputs", "histories"], "all sequences of registrations including duplicates in every order",
  "Whether a duplicate is seen depends on how earlier insertions split the tree; tests try a few orders only.",
  ["web/router.hpp"], ["router_tree"], ["duplicate detection at the leaf"], ["router::try_insert"])
p("R03", "Path parameters handed to a handler are exactly the matched text",
  "Whenever a route is selected for a path, every {param} of its pattern yields exactly the text of the path segment it stands for and the #wildcard yields exactly the rest of the path, under the names used in the pattern, and nothing else is reported. "
  "path_matcher::match agrees with the router: it succeeds for exactly the paths that the pattern denotes and never throws, whatever characters the static text of the pattern or the path contain.",
  ["inputs"], "all patterns of the path grammar and all paths (percent-decoded, including reserved and regex-special characters)",
  "The space of patterns x paths is unbounded, and two independent implementations (tree and matcher) have to agree.",
  ["web/path_matcher.hpp", "web/path_info.hpp", "web/router.hpp", "web/http_server.hpp", "web/path_of.hpp"], ["path_matcher tokens"],
  ["pattern to matcher compilation", "value extraction"], ["path_matcher::match", "request::path()"])
p("R04", "The path pattern parser accepts exactly the documented grammar",
  "path_parser accepts exactly the strings of its grammar (segments of URI path characters and %XX, {name} filling a whole segment, at most one #name and only at the end of routes, never in scopes, no two equal names) and yields the tokens that spell the pattern. "
  "Every other string is rejected, a path_matcher cannot be built from it, and scope and route paths compose by concatenation.",
  ["inputs"], "all strings",
  "The grammar is a state machine over unbounded strings; tests list a few dozen.",
  ["web/path_parser.hpp", "core/fixed_string.hpp", "web/scope.hpp", "web/route.hpp"], ["token list of path_parser"], ["recursive-descent parser"], ["path_parser::parse and get, path_matcher constructor"])
p("R05", "Middleware wraps the handler in scope order, each exactly once",
  "For every nesting of scopes and routes, a request passes the middlewares of the outermost scope first, in the order of use(), then inner scopes, then the route's own, then the handler, and the response passes back in exactly the reverse order, each layer once per call it receives. "
  "A middleware that does not call next short-circuits everything inside it and nothing outside it.",
  ["inputs", "histories"], "all scope trees, middleware lists and short-circuit points",
  "Composition is built by nested templates; tests cover one or two depths.",
  ["web/scope.hpp", "web/route.hpp", "web/handler.hpp", "web/to_middleware.hpp", "web/routable.hpp", "web/any_routable.hpp"], ["tuple of middlewares of scope_impl/route_impl"],
  ["scope_impl::routes", "route_impl::build"], ["sequence of middleware and handler invocations"])
p("R06", "Shared state resolves innermost-first and never leaks between siblings",
  "state<T>() seen by a handler is the value registered closest to it (session, route, then scopes from inner to outer), is the same shared object for every handler below the level it was registered on, and is absent for a type that no enclosing level registered. "
  "Adding state to a scope or route yields a new scope or route and changes nothing that was built from the old one.",
  ["inputs", "histories"], "all scope trees, all placements of state and derivation orders of scopes and routes",
  "Aliasing shows only for particular derivation orders of sibling scopes that tests do not build.",
  ["web/state_storage.hpp", "web/scope.hpp", "web/route.hpp", "web/request.hpp", "web/state_of.hpp"], ["state_storage lists of state_map"], ["use_state, rebind_parent, copy_prepend"], ["request::state<T>()", "state_of<T>"])
p("R07", "Extractors bind every argument, or answer the documented error and do not run",
  "A handler runs exactly when all of its extractor arguments can be built from the request, and then receives values equal to what the request carries for that argument; otherwise it does not run and the first failing argument decides the error response (status by error kind). "
  "Field values convert with from_string of the field type, and path, query and form extraction treat missing fields, surplus fields and malformed values as documented.",
  ["inputs"], "all combinations of extractor argument lists, request contents and failing positions",
  "Product of extractor kinds x failure kinds x positions exceeds sample tests.",
  ["web/from_request.hpp", "web/handler.hpp", "web/path_of.hpp", "web/query_of.hpp", "web/form_of.hpp", "web/json_of.hpp", "web/detail/extract_query.hpp", "web/detail/as_form.hpp", "web/detail/as_json.hpp", "web/to_response.hpp"],
  ["tuple of extracted arguments"], ["handler_middleware", "extract_query"], ["response status/body", "arguments seen by handler"])
# ---------------------------------------------------------------- server
p("S01", "Every request gets one response, in order; the connection ends when it should",
  "On one connection the server answers each well-formed request with exactly one final response, in request order, also when requests are pipelined or split at any byte boundary, and after a response it serves the next request if the request asked for keep-alive and closes otherwise. "
  "Connections are independent: what one client does never changes what another one receives.",
  ["inputs", "schedules", "histories"], "all sequences of requests per connection, all splits of the byte stream and interleavings of connections",
  "Tests send one request per read; pipelining and segmentation give unboundedly many schedules.",
  ["web/http_server.hpp", "core/net.hpp", "web/async_message_parser_stream.hpp"], ["session loop: flat_buffer, parser, keep_alive"], ["do_session_impl loop"], ["bytes on the client socket"])
p("S02", "Bytes of one request's body are never taken for another request",
  "Whatever a handler does with the body stream (read all, part, none, or hit a limit or error) and whichever route is selected, the next response on that connection answers the next request the client really sent, or the connection is closed; body bytes never reach the router as a request. "
  "A handler can never read bytes that belong to a following pipelined request.",
  ["inputs", "histories"], "all request sequences x body framings x handler read behaviours",
  "Needs a multi-request history with an unread body, which tests never build.",
  ["web/http_server.hpp", "web/async_message_parser_stream.hpp"], ["flat_buffer shared between parser and session"], ["do_session_impl", "async_message_parser_stream::async_read_some"], ["handler invocation log", "bytes on the client socket"])
p("S03", "A handler receives the request exactly as sent, whatever framing or segmentation",
  "Method, target, version, headers (all values of repeated names), query and body seen by the handler equal what the client sent, for content-length and chunked bodies of every size, and for every segmentation of the byte stream. "
  "The body stream delivers each byte once, in order, then ends; a body cut short by the peer is reported as an error and never as a complete body.",
  ["inputs", "schedules", "crash_points"], "all requests, chunkings, buffer-size boundaries, segmentations and cut points",
  "Read boundaries (e.g. at 64 KiB) and split points are a schedule space.",
  ["web/async_message_parser_stream.hpp", "web/http_server.hpp", "web/request.hpp", "http/header_map.hpp", "web/query_map.hpp", "web/async_read_until_eof.hpp"], ["parser and flat_buffer"], ["async_message_parser_stream::async_read_some"], ["request seen by the handler"])
p("S04", "Malformed, oversized and unroutable requests are refused as documented",
  "A header block beyond request_header_limit gets 400 and the connection closes, an invalid target gets 400, an unknown path gets 404, and a body beyond request_body_limit is never delivered as complete: the connection ends or the body stream fails; requests within the limits are unaffected. "
  "Bytes that are not an HTTP/1.x request reach no handler, Expect: 100-continue is answered by one interim 100 response before the final one, and a client that stalls longer than request_timeout is disconnected.",
  ["inputs", "schedules", "fault_sequences"], "all sizes around each limit, all malformed inputs, all stalls",
  "Boundaries and stall points are not sampled by tests.",
  ["web/http_server.hpp"], ["parser limits, stream timeout"], ["do_session_impl"], ["bytes on the client socket"])
p("S05", "Every response is framed so that a client reads exactly the body the handler set",
  "For every response (status, headers, null, sized or streamed body, any chunking of the stream) the bytes on the wire form exactly one valid HTTP/1.x message whose decoded status, headers and body equal what the handler produced: content-length equals the body length, streamed bodies are chunked and terminated, 1xx/204 carry no content-length, and Connection matches keep-alive. "
  "If a streamed body fails midway the message is left unterminated and the connection is closed, so that a truncated body is never seen as complete.",
  ["inputs", "fault_sequences"], "all statuses x body kinds x sizes x chunk sequences x failure points",
  "Cross product of body kinds and statuses, incl. empty chunks and mid-stream failures.",
  ["web/http_server.hpp", "web/async_write_chunks.hpp", "web/response.hpp", "web/any_body.hpp", "web/async_readable_vector_stream.hpp", "web/any_async_readable_stream.hpp"], ["any_body size/stream"], ["do_response variants", "async_write_chunks"], ["bytes on the client socket"])
p("S06", "A failing handler affects only its own connection",
  "An exception leaving a handler is turned into a 500 response by exception_handler, or without it ends that connection and reaches the configured server exception handler exactly once; other connections and later connections are served as if nothing had happened. "
  "Errors returned by a handler as expected/error values become the response their to_response defines.",
  ["inputs", "fault_sequences"], "all failure points (before/after reading body, in middleware, in handler, in streamed body) on any connection of many",
  "Fault placement among concurrent connections is not tested.",
  ["web/http_server.hpp", "web/middleware/exception_handler.hpp", "web/to_response.hpp"], ["session coroutine"], ["co_spawn completion handler", "exception_handler_middleware"], ["responses on all connections", "exception handler calls"])
p("S07", "Websocket sessions deliver each message once, in order, with its type",
  "A valid upgrade request to a websocket route gets 101 and runs the handler once; every message then sent by either side arrives exactly once, in order, whole and with its text/binary kind, and close ends the session on both sides. "
  "An upgrade request that is not valid, or that a handler refuses, gets an ordinary response and no session.",
  ["inputs", "histories"], "all message sequences, sizes, kinds and close points",
  "Tests echo a couple of fixed messages.",
  ["web/websocket.hpp", "web/http_server.hpp"], ["websocket::impl_type"], ["websocket::run"], ["frames at the client"])
p("S08", "Endpoints are bound, listened on and refused as the builder was told",
  "For every sequence of bind, bind_local and serve calls, each call succeeds or returns the error of the address, path or socket that it names and never throws; a server accepts connections on exactly the endpoints bound before serve, "
  "with the backlog it was given, a TCP address is free again as soon as its server is gone, and every request reports the true local and remote address of its connection. Each limit and timeout of a server is the last value its builder was given, else the default.",
  ["inputs", "histories"], "all sequences of bind calls over addresses, ports and paths, all combinations of settings",
  "Tests bind one valid address; which failures, orders and combinations a user meets is open.",
  ["web/http_server.hpp", "web/detail/make_endpoint.hpp", "web/detail/make_acceptor.hpp", "web/connect_info.hpp", "core/net.hpp"], ["http_server tasks and limits", "acceptors"], ["http_server::bind", "http_server::bind_local", "http_server::serve"], ["errors returned", "connections accepted", "connect_info"])
p("S09", "TLS connections behave as plain ones, and a stalled handshake is ended in time",
  "On a TLS endpoint every connection answers exactly the requests that a plain connection would, in the same order and with the same websocket sessions and timeouts, and its last answer is followed by a close_notify. "
  "No request is served before the handshake is complete; a client that does not finish it within the handshake timeout, or sends something else, is disconnected and leaves the others alone.",
  ["histories", "schedules", "fault_sequences"], "all histories of handshake steps, requests, pauses and ends",
  "Where a handshake stalls or is cut, and how it interleaves with other connections, is open.",
  ["web/http_server.hpp", "core/net.hpp"], ["shared_ssl_stream", "handshake timer"], ["http_server::do_session", "http_server::do_handshake"], ["bytes at the client", "handler runs"])
p("S10", "A server on a pool of threads serves each connection as on one thread",
  "On a multi-threaded execution context (net::static_thread_pool, as the documentation shows) everything of one connection - reads, handlers, writes, its timers - runs one at a time: its requests are answered in order with exactly the answers one thread would give, and a timeout that expires just as data arrives ends the connection or not, and nothing else. "
  "Connections are served in parallel as far as there are threads: a handler that keeps its thread delays its own connection only, unless all threads are kept. No data race, crash or lost answer follows from any interleaving.",
  ["histories", "schedules"], "all interleavings of completions and expiries of any connections over any number of threads",
  "Races need an expiry and a completion at the same instant; tests use one connection at a time on one thread.",
  ["web/http_server.hpp", "core/net.hpp", "doc/sphinx/source/overview/web/threading.rst"], ["the connection's stream and its timer"], ["http_server::do_listen", "http_server::do_session"], ["order of handler runs and answers", "reports of the thread sanitizer"])
# ---------------------------------------------------------------- content
p("C01", "Decompression is transparent, chunking-independent, and rejects damaged data",
  "For every body and every split of its gzip/deflate/brotli encoding into chunks, the inflate streams and the decompress middleware yield exactly the original bytes and then end, and requests without Content-Encoding pass unchanged; an unknown coding is refused with 400. "
  "Corrupt or truncated input, or input with trailing bytes, ends with an error and never hangs, repeats or loses data.",
  ["inputs", "schedules", "fault_sequences"], "all bodies, all chunkings (also at the 64 KiB output boundary), all corruptions and truncation points",
  "Buffer boundary behaviour depends on chunking and expansion ratio.",
  ["web/middleware/decompress.hpp", "web/middleware/detail/async_gzip_inflate_stream.hpp", "web/middleware/detail/async_inflate_stream.hpp", "web/middleware/detail/async_brotli_inflate_stream.hpp", "web/middleware/detail/gzip_stream.hpp"],
  ["inflater state and pending input buffer"], ["async_read_some of the inflate streams"], ["chunks returned by async_read_some"])
p("C02", "Compression streams lose nothing: inflate(deflate(x)) = x for every chunking",
  "For every sequence of source chunks, the concatenated output of the gzip, deflate and brotli deflate streams is one complete valid encoding whose decoding is the concatenation of the source chunks. "
  "A source error is passed on as an error instead of a completed stream.",
  ["inputs", "schedules"], "all chunk sequences including empty, large and incompressible chunks",
  "Loss appears only when one chunk's output exceeds the internal buffer.",
  ["web/middleware/detail/async_gzip_deflate_stream.hpp", "web/middleware/detail/async_deflate_stream.hpp", "web/middleware/detail/async_brotli_deflate_stream.hpp", "web/middleware/detail/gzip_stream.hpp"],
  ["deflater state"], ["async_read_some of the deflate streams"], ["concatenated output"])
p("C03", "Readable streams deliver each byte once and propagate errors",
  "Every readable stream (vector, file, parser, type-erased) delivers its contents once, in order, in non-overlapping chunks and then ends; async_read_until_eof returns the exact concatenation, or the first error, and never invents, drops or reorders bytes. "
  "An empty stream is distinguishable from an error, and moving a stream does not change what it delivers.",
  ["inputs", "histories"], "all chunk sequences with errors or end at any position",
  "Error and end positions in a chunk sequence are unbounded.",
  ["web/async_read_until_eof.hpp", "web/async_readable_vector_stream.hpp", "web/any_async_readable_stream.hpp", "web/any_body.hpp", "web/async_readable_file_stream.hpp", "web/async_write_chunks.hpp", "core/bytes.hpp"], ["stream cursor"], ["async_read_some"], ["returned chunks"])
p("C04", "Static files answer conditional and range requests per RFC 9110",
  "For every file and every If-None-Match and Range header, static_file answers 304, 206, 200, 416 or 400 as the validators and ranges require; a 206 carries exactly the requested bytes with a Content-Range naming that interval and the complete file size, and a 200 carries the whole file. "
  "An unsatisfiable range (beginning at or past the end, or an empty suffix) gets 416 with the file size and no body bytes, and no header makes it read outside the file.",
  ["inputs"], "all file sizes, ranges (open, closed, suffix, boundary, overflowing) and entity tags",
  "Arithmetic corner cases on unsigned 64-bit offsets.",
  ["web/static_file.hpp", "http/header/range.hpp", "http/header/if_none_match.hpp", "http/header/entity_tag.hpp", "web/async_readable_file_stream.hpp"], ["static_file state_t"], ["static_file::open", "to_response"], ["status, headers, body"])
# ---------------------------------------------------------------- http values
p("H01", "The Range header parser denotes exactly the byte intervals the header names",
  "range::parse succeeds exactly for unit=set strings whose set is a comma-separated list of well-formed a-b or a- items, or a single -n item, and every returned subrange is the offset and length that the item denotes for the given total length, with no arithmetic wrap-around. "
  "Anything malformed (signs, overflow, reversed bounds, missing numbers, extra =), an open range that begins at or past the end and an empty suffix yield nullopt.",
  ["inputs"], "all strings and total lengths", "Unbounded strings and 64-bit numbers.",
  ["http/header/range.hpp", "core/strings.hpp", "core/from_string.hpp"], [], ["range::parse"], ["range::parse result"])
p("H02", "Entity tags parse, print and compare per RFC 9110",
  "entity_tag::parse accepts exactly the strings [W/]\"etagc*\" and to_string is its inverse; strong and weak comparison ignore or respect weakness as defined. "
  "if_none_match::parse accepts exactly * or a comma-separated list of entity tags and yields them all in order.",
  ["inputs"], "all strings and tag lists", "Unbounded input strings.",
  ["http/header/entity_tag.hpp", "http/header/if_none_match.hpp"], [], ["parse", "to_string", "weakly_equal_to"], ["parse results"])
p("H03", "header_map is a case-insensitive ordered multimap",
  "After every sequence of set, insert, erase, clear, copy and move operations a header_map reports, for every lookup (get, get_all, contains, count/size, iteration), exactly what a multimap with case-insensitive names holds, with repeated names in insertion order. "
  "Conversion to and from the wire representation keeps every name/value pair.",
  ["histories", "inputs"], "all operation sequences and names differing in case", "State machine with unbounded histories.",
  ["http/header_map.hpp"], ["header_map impl_"], ["set/insert/erase/get"], ["header_map observers"])
p("H04", "Versions, methods, statuses and their text agree",
  "Every http version maps to one text and one wire number and back, and unknown numbers map to unknown; every status code belongs to exactly the class its first digit names and every response factory carries its own status.",
  ["inputs"], "all enum values and numbers 0..999", "Exhaustive only over the full domain.",
  ["http/version.hpp", "http/status_class.hpp", "http/status_code.hpp", "http/status.hpp", "http/verb.hpp", "web/response.hpp"], [], ["to_string/from_impl_version/to_impl_version", "status_code::category"], ["returned values"])
p("H05", "MIME types parse into their parts and compare case-insensitively",
  "mime_view::parse accepts exactly type/subtype[+suffix] followed by well-formed ;name=value parameters and reports each part as written, with parameters looked up case-insensitively; anything else is rejected. "
  "name_view and mime_view comparisons form one total order that ignores ASCII case, and params_view behaves as a map under it.",
  ["inputs", "histories"], "all strings; all operation sequences on params_view", "Unbounded strings and histories.",
  ["mime/mime_view.hpp", "mime/name_view.hpp", "mime/params_view.hpp"], ["params_view map"], ["mime_view::parse"], ["mime_view accessors"])
p("H06", "Base64 encoding and decoding are exact inverses for every split of the input",
  "For every byte string and every alphabet/padding choice, feeding it to the encoder in any split yields exactly the RFC 4648 text, and feeding that text to the decoder in any split yields the bytes back. "
  "The decoder reports an error for a character outside its alphabet, misplaced padding or a truncated quantum, and never reads or writes out of bounds.",
  ["inputs", "schedules"], "all byte strings, splits, alphabets and malformed texts", "Incremental state machines with unbounded inputs.",
  ["encoding/base64/encoder.hpp", "encoding/base64/decoder.hpp", "encoding/base64/alphabet.hpp"], ["encoder/decoder residue state"], ["process/finish"], ["encoded/decoded bytes"])
p("H07", "query_map is a map and query and form text decode to it faithfully",
  "After every sequence of operations query_map holds exactly what a map holds (set inserts or updates). "
  "Decoding a query string or an urlencoded form yields each percent-decoded name with its value, the same way for both.",
  ["inputs", "histories"], "all operation sequences and all encodings", "Unbounded histories and encodings.",
  ["web/query_map.hpp", "web/detail/as_form.hpp", "web/path_info.hpp"], ["query_map impl_"], ["set/get/erase/from"], ["query_map observers"])
p("H08", "Requests and responses built or changed step by step carry exactly what was set",
  "For every sequence of builder and setter calls on requests and responses (headers, body of every kind, json, state, version, status, prepare), the built object carries exactly the values set last, and building does not lose or duplicate anything. "
  "Test requests sent through serve_request reach the handler unchanged.",
  ["histories", "inputs"], "all builder call sequences in all value categories", "Order and value-category combinations are not sampled.",
  ["web/request.hpp", "web/response.hpp", "web/test_request.hpp", "web/test_response.hpp", "web/any_body.hpp"], ["builder fields"], ["builder methods"], ["accessors"])
p("H09", "An HTTP date prints as IMF-fixdate and is ordered as its time is",
  "For every representable time, date::to_string is the IMF-fixdate of its second, rounded down, whether it was made from the system or the file clock; utc_time and file_time give back the time it was made from. "
  "Two dates are equal, or one precedes the other, exactly as their times do.",
  ["inputs"], "all times of both clocks", "Tests print one date.",
  ["http/header/date.hpp", "core/chrono.hpp"], [], ["date::to_string", "date::operator<=>"], ["text", "order"])
# ---------------------------------------------------------------- core
p("K01", "optional behaves as the standard state machine for every operation sequence",
  "For T, T& and void-like instantiations, after every sequence of constructions, assignments, emplace, reset, swap and monadic operations, optional holds exactly the value (or emptiness) that the operations denote, comparisons agree with that state, and value() on an empty one throws bad_optional_access. "
  "Each contained object is constructed and destroyed exactly once, also when an operation of T throws.",
  ["histories", "fault_sequences"], "all operation sequences, value categories and throw points", "Sequences with throwing element operations are not tested.",
  ["core/optional.hpp"], ["has_value flag and storage"], ["optional special members"], ["has_value/value/live object count"])
p("K02", "expected behaves as the standard state machine for every operation sequence",
  "For value, reference and void T, after every sequence of constructions, assignments, emplace, swap and monadic operations, expected holds exactly the value or error that the operations denote, comparisons agree, and value() on an error throws bad_expected_access carrying that error. "
  "It always holds exactly one of the two, each contained object is constructed and destroyed exactly once, and an operation that throws leaves the old or the new state.",
  ["histories", "fault_sequences"], "all operation sequences, value categories and throw points", "Reinit paths with throwing moves are not tested.",
  ["core/expected.hpp"], ["has_value flag and union"], ["reinit_expected and special members"], ["has_value/value/error/live object count"])
p("K03", "dynamic_buffer is a bounded FIFO",
  "After every sequence of prepare, commit, consume and release operations the readable bytes of a dynamic_buffer are exactly the bytes committed and not yet consumed, in order, and size never exceeds max_size. "
  "prepare returns writable space of at least the bytes asked for that does not overlap the readable bytes and lies inside the storage, or throws length_error leaving the contents unchanged.",
  ["histories"], "all operation sequences, sizes and limits", "Compaction happens only for particular histories.",
  ["core/dynamic_buffer.hpp"], ["container, read/write offsets"], ["prepare/commit/consume"], ["data()/size()/capacity"])
p("K04", "from_string converts exactly the canonical texts in range",
  "from_string<T> yields the number, truth value or text that the whole string denotes and fails with invalid_argument or result_out_of_range for everything else, for every integral width and sign and for floating point. "
  "No leading or trailing character is ever ignored.",
  ["inputs"], "all strings x all target types", "Boundary values of all widths.",
  ["core/from_string.hpp", "core/detail/from_string_impl.hpp"], [], ["from_string_impl"], ["returned expected"])
p("K05", "String helpers compare, trim and split as defined on every input",
  "cmp_eq_ci and cmp_tw_ci define one ASCII-case-insensitive equality and total order and agree with each other; trim removes exactly the leading and trailing blanks; split_of yields every token between delimiters, trimmed, so that n delimiters give n+1 tokens. "
  "fixed_string concatenation preserves every character.",
  ["inputs"], "all strings", "Algebraic laws over unbounded strings.",
  ["core/strings.hpp", "core/fixed_string.hpp", "core/unordered_string_map.hpp"], [], ["strings.hpp functions"], ["returned values"])
# ---------------------------------------------------------------- log
p("K06", "Awaiting an operation yields exactly its value or error, once, and never throws",
  "For every operation that completes with an error code or a value and every way to wait for it (use_awaitable, as_expected over a callback, a future or deferred), the waiter receives exactly one expected that holds that value, moved not copied, or that error, on the executor bound to it. "
  "In every combination with || and && the first side to complete decides ||, succeeded or failed, the other side's operations are told to cancel, && has both results, and no result is ready before every operation started has completed.",
  ["schedules", "inputs"], "all combinations of operations, completion orders, outcomes and cancellations",
  "Tests never combine or cancel operations; every timeout of the server is such a combination.",
  ["core/as_expected.hpp", "core/net.hpp", "core/expected.hpp"], ["as_expected_handler"], ["use_awaitable", "as_expected"], ["results of co_await", "calls of the handler"])
p("L01", "Log levels and filters form one total order and pass exactly the enabled records",
  "Levels are totally ordered, convert to text and back, and a filter passes exactly the records whose level it admits, through every configuration sequence. ",
  ["inputs", "histories"], "all levels x filters x configuration histories", "All pairs and histories.",
  ["log/level.hpp", "log/filter.hpp", "log/log.hpp", "log/registry.hpp", "log/record.hpp"], ["registry filter/logger"], ["filter::operator()"], ["records delivered"])
p("L02", "The log formatter renders the record exactly, adding only its styling",
  "For every record the formatted line contains level, time, source location and message once each in the documented layout, message text is passed through verbatim (including braces and control characters), and colour escapes appear only when enabled and always balanced.",
  ["inputs"], "all records and formatter options", "Unbounded messages.",
  ["log/formatter.hpp"], [], ["formatter::format"], ["formatted string"])
p("L03", "Every accepted log record reaches every writer exactly once, in one order",
  "For every set of log calls from any number of threads, each writer of the logger receives each record that passes the filter exactly once, whole and with its own level, location and message, and all writers receive the records in the same order: a record logged before another was begun comes first. "
  "Records refused by the filter reach no writer, and destroying a logger delivers what it accepted and touches no freed memory.",
  ["schedules", "histories"], "all interleavings of producers and writers", "Asynchronous delivery order depends on the schedule.",
  ["log/async_logger.hpp", "log/log.hpp", "log/registry.hpp", "log/async_writer.hpp", "log/sync_stream_file_writer.hpp", "log/async_stream_file_writer.hpp"], ["channel and writers"], ["async_logger::log"], ["lines written"])
p("L04", "The logger middleware records each answer once and changes nothing",
  "For every stack of layers and every request, a logger layer writes exactly one info record for each answer that passes it, naming the client, method, decoded path, the status the answer has there and the user agent, and writes none when an exception passes it. "
  "Answers, handler runs and exceptions are as they are without the layer, at every log level and with no logger installed; the exception handler layer turns each std::exception into a 500 and one error record.",
  ["inputs", "histories"], "all stacks of layers, requests, header texts, answers and exceptions",
  "Tests call it once with one request.",
  ["web/middleware/logger.hpp", "web/middleware/exception_handler.hpp", "log/registry.hpp"], [], ["logger_middleware::operator()"], ["records", "answers"])

if __name__ == "__main__":
    import os
    out = os.path.join(os.path.dirname(__file__), "..", "properties.jsonl")
    with open(out, "w") as f:
        for x in P: f.write(json.dumps(x) + "\n")
    for x in P:
        assert len(x["title"]) <= 80, (x["id"], len(x["title"]))
    print(len(P))
