#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so the text stays readable)."""
import json, os
P = []
def prop(id, title, statement, over, qtext, why, files, mech, observe, state=None, hook=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech], "observe_at": observe, "hook_needed": hook}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why, "anchors": a})
MOD = "derive/src/from_request/mod.rs"; PARSE = "derive/src/from_request/parse.rs"
LIB = "src/lib.rs"; SVC = "src/service.rs"; BODY = "src/body.rs"; ERR = "src/error.rs"

prop("C01", "A request reaches exactly the variant whose method and pattern it matches",
 "A derived FromRequest type decodes a request into the variant that declares a route with the request's method and a pattern matching its whole raw path: literal segments byte for byte (case sensitive, nothing decoded or normalised, regex metacharacters and trailing slashes are ordinary text), `{x}` exactly one non-empty segment, `{x...}` everything after its `/` (which may be empty or contain `/`), `*` only the path `*`. If no declared pattern matches the path and there is no fallback variant, the result is a plain 404. Query string, headers, body, authority, HTTP version and the order in which variants and routes are declared have no influence on the choice.",
 ["inputs", "programs"], "every derivable route declaration and every request (method, URI, headers, body)",
 "The tests pin a few dozen hand-picked paths on about twenty declarations; the guarantee is about every pattern set the macro accepts and every path a client can send, including metacharacters, empty segments, prefixes/suffixes of routes and extension methods.",
 [MOD, PARSE], [("pattern to anchored regex translation", f"{PARSE} RoutePath::parse"), ("RegexSet lookup and (index, method) match", f"{MOD} derive_from_request, Step 1")],
 ["FromRequest::from_request / from_request_sync / from_request_and_body result of generated types"],
 [("ROUTES/REGEXES", "lazily built regex set and capture regexes per type", f"{MOD} statics")])

prop("C02", "Placeholder fields receive exactly their own raw path segment",
 "Every field named in a pattern holds the result of its type's FromStr applied to exactly the raw, undecoded text its own placeholder matched, whichever of the variant's routes matched and however fields are ordered or named. If a conversion fails, the request fails with a 404 hyperdrive error whose source is that conversion's error (the first failing placeholder in pattern order); no other variant or fallback is tried and no guard, body or nested decoder runs.",
 ["inputs", "programs"], "every declaration with placeholders (any number, order, sharing, multiple routes per variant) and every path",
 "Tests use one or two placeholders with unambiguous types; swaps, off-by-one captures with several routes, percent-encoded or multi-segment text and failure precedence are only visible over many declarations and paths.",
 [MOD, PARSE], [("captures by index into fld_ variables", f"{MOD} construct_variant"), ("same placeholders in same order for all routes of a variant", f"{PARSE} VariantData::parse")],
 ["decoded field values", "source of the returned error"])

prop("C03", "HEAD is served by the GET route unless HEAD is declared for that path",
 "For every pattern that has a GET route and no explicitly declared HEAD route, a HEAD request matching the pattern is decoded exactly as the GET request would be (same variant, fields, guards, body and errors). Where HEAD is declared for the pattern, the declared route gets it. No other pattern accepts HEAD, and an implicit HEAD never takes away or changes any other route.",
 ["inputs", "programs"], "every declaration mixing GET/HEAD routes on same and different patterns, every HEAD request",
 "Two unit tests look at one enum each; the rule interacts with every other route in the type, with multi-route variants, with 405 method lists and with fallbacks.",
 [MOD, PARSE], [("implied HEAD registration", f"{PARSE} PathMap::build")], ["decoding result of HEAD requests", "allowed methods of 405 errors"])

prop("C04", "405 reports exactly the methods that would be accepted for the path",
 "When a request's path matches a declared pattern but its method is none of those accepted there (and no fallback takes it), decoding fails with a 405 hyperdrive error whose allowed methods, as a set, are exactly the accepted methods (implicit HEAD included) of those routes of that pattern whose placeholder conversions all succeed on this path. The response built from that error carries exactly these methods in its Allow header. Standard methods, extension methods and method-name case are treated alike (`get` is not GET).",
 ["inputs", "programs"], "every set of variants sharing a pattern with different methods and placeholder types; every method and path",
 "Tests check a handful of method lists; which conversions succeed depends on the path's text, per variant, and lists must stay right for any sharing of patterns.",
 [MOD, ERR], [("find_accepted_methods / variant_matches_path", f"{MOD} derive_from_request"), ("Allow header", f"{ERR} Error::response")],
 ["Error::allowed_methods, Error::response of the decoding error"])

prop("C05", "#[forward] hands the nested type the unmodified request and falls back correctly",
 "A `#[forward]` field is decoded by its own type from the unmodified request, the untouched body and the same context; a fallback variant (forward without a route) is tried for exactly the requests no declared route of the outer type accepts, and never takes a request an outer route accepts, even if that route then fails. Errors of the nested type come back unchanged, except that when the path matched an outer pattern with another method and the nested type also answers 405, the result is a 405 whose methods are the union of both sides. Nesting works to any depth.",
 ["inputs", "programs", "fault_sequences"], "every nesting of types with routed and fallback forwards, every request, every nested result",
 "The existing forwarding tests use one level with few routes; precedence, error identity, and method merging must hold for all combinations of outer and inner outcomes and for any nesting depth.",
 [MOD, LIB], [("fallback arms and 405 merging", f"{MOD} derive_from_request"), ("from_request_and_body call of the nested type", f"{MOD} construct_variant")],
 ["what a hand-written nested FromRequest implementation observes", "result of the outer decode"])

prop("C06", "Query parameters are the urlencoded decoding of the raw query string",
 "A `#[query_params]` field holds what serde_urlencoded yields for the request's raw query string (the empty string when the URI has none), for whatever type it has; an `Option` is None for an absent or empty query and otherwise Some of the inner type's decoding. If decoding fails, the request fails with a 400 hyperdrive error that has the decoder's error as its source. Variants without such a field ignore the query completely, and the path, headers or body never leak into it.",
 ["inputs", "programs"], "every query string (percent escapes, repeated/empty/missing keys, `+`, garbage) and every deserializable type",
 "Tests use three literal query strings; the claim is equality with the reference decoder on every string, including malformed ones, and the exact error shape.",
 [MOD, "src/query.rs"], [("from_query", "src/query.rs"), ("raw_query and 400 mapping", f"{MOD} construct_variant")],
 ["decoded field value", "status and source of the error"])

prop("C07", "Decoding steps run in order and stop at the first failure",
 "Decoding a request runs its steps strictly one after the other: path conversions, then query parameters, then guards in field declaration order (each started only after the previous one's future succeeded), then the body decoder or nested type. The first step that fails determines the result, its error is returned unchanged, and no later step is ever started; each step is started exactly once, and the body is neither polled nor handed to anything before all guards succeeded, nor ever read when the variant has no body or forward field.",
 ["inputs", "programs", "fault_sequences", "schedules"], "every declaration, every choice of which steps fail, and every pattern of pending/ready polls of the guard and body futures",
 "Tests have at most two immediately-ready guards; ordering and short-circuiting must hold for any number of steps, any asynchronous completion pattern and any failing subset.",
 [MOD], [("reverse chaining with and_then", f"{MOD} construct_variant")], ["event log of instrumented guards, FromBody implementations, segment and query conversions and body stream polls"])

prop("C08", "Guards, body decoders and handlers see the original request and context",
 "Every guard, body decoder, nested type and service handler is given the request exactly as received (method, full URI, version, all headers in order with duplicates, and extensions) and a view of exactly the context value supplied for this request, projected with AsRef to the context type it asks for. What each field's decoder returned ends up in that very field of the resulting value, unchanged. Body decoders and nested types receive the complete, untouched body.",
 ["inputs", "programs"], "every request, every context value and type, every combination of guards with different context types",
 "Tests use fixed contexts and requests without checking headers, extensions or identity of the context; mix-ups between fields or contexts of the same type are invisible to them.",
 [MOD, LIB, SVC], [("Arc-shared request, context.as_ref()", f"{MOD} construct_variant"), ("from_request splitting", f"{LIB} FromRequest::from_request"), ("service call", f"{SVC} Service::call")],
 ["fingerprints recorded by instrumented guards/bodies/handlers"])

prop("C09", "Json and HtmlForm decode the whole body independent of its chunking",
 "`Json<T>` and `HtmlForm<T>` yield exactly what serde_json / serde_urlencoded yield for the concatenation of all body chunks, no matter how the body is split into chunks, how its arrival is delayed, or what Content-Type and Content-Length say. If the bytes do not decode, the decoder's own error is returned; if the body stream fails, that stream error is returned and nothing is decoded from the partial body.",
 ["inputs", "schedules", "fault_sequences"], "every body, every chunking (incl. empty chunks), every delay pattern, every point of stream failure",
 "Tests only decode bodies that arrive as a single ready chunk; truncation, reordering, first-chunk-only or partial-on-error decoding need chunked, delayed and failing streams.",
 [BODY], [("concat2 then decode", f"{BODY} FromBody impls")], ["decoded value / error versus direct decoding"])

prop("C10", "Overlapping or duplicate routes are rejected, and only those",
 "The derive rejects a declaration if and only if two of its routes could match a common path with different patterns, or the same pattern with the same method; patterns differing only in placeholder names are the same pattern, and the same pattern with different methods is allowed. The verdict does not depend on declaration order, and a path named as the overlap in the error is really matched by both routes. Implicit HEAD routes never cause a rejection.",
 ["programs"], "every pair and set of route patterns over literals, placeholders, rest placeholders and `*`",
 "The unit tests try about twenty pattern pairs; soundness (no ambiguous type accepted) and completeness (no unambiguous type rejected) are claims about all pattern pairs.",
 [PARSE], [("find_overlap, matches_same_paths", f"{PARSE} RoutePath"), ("duplicate detection", f"{PARSE} PathMap::add_route")],
 ["panic / acceptance of the derive run in-process", "ambiguity witnessed by requests against compiled types"],
 hook="cfg(hyperdrive_verif) entry points in derive/src/lib.rs to run the derive in-process")

prop("C11", "Malformed declarations are rejected at compile time, well-formed ones compile",
 "The derive rejects every declaration outside the documented grammar (unions, tuple variants that need decoding, unknown or duplicate placeholders, a non-final rest placeholder, routes of one variant with different placeholders or the same ones in another order, misplaced, malformed or repeated attributes, two roles on one field, body together with forward, body or query without a route, several fallback variants, nothing constructible), wherever in the type the fault sits. Every declaration inside the grammar is accepted and its generated code compiles, whatever its generics, names, field order, foreign attributes or surroundings. It never silently ignores a fault.",
 ["programs"], "every type declaration: well-formed ones and ones with a single fault injected anywhere",
 "Each fault class has at most one unit test with one minimal enum; position, combination with other items and acceptance of the whole grammar are not covered.",
 [MOD, PARSE, "derive/src/request_context.rs"], [("attribute parsing and validation", f"{PARSE} VariantData::parse, ItemData::parse, RoutePath::parse"), ("constructibility checks, bounds", f"{MOD} derive_from_request")],
 ["panic / acceptance of the derive run in-process", "rustc diagnostics of generated crates"],
 hook="cfg(hyperdrive_verif) entry points in derive/src/lib.rs")

prop("C12", "Services answer every hyperdrive error with its response",
 "Both service adapters answer a request whose decoding (or handler) fails with a hyperdrive error with exactly that error's response: its status code, the Allow header for 405, and an empty body; the handler is not called for a request that fails to decode. Any other error is returned unchanged as the service's error. This holds for every route type, context, method and error, including errors raised late in an asynchronous decode.",
 ["inputs", "fault_sequences", "schedules"], "every error at every step, ready or delayed, in both adapters, driven directly and over real connections",
 "One test per adapter exercises a 404-like path; other statuses, late and nested errors, foreign errors and handler suppression are untested.",
 [SVC, ERR], [("or_else downcast", f"{SVC} AsyncService/SyncService::call"), ("Error::response", ERR)], ["Response / error of Service::call", "raw HTTP responses on loopback"])

prop("C13", "HEAD responses carry no body but everything else; other responses are untouched",
 "For a HEAD request, both service adapters return the handler's response with its status, headers, version and extensions unchanged but with an empty body, whether the HEAD route is implicit or declared and whatever body the handler produced. For any other method, the handler's response is passed on with its body and everything else unchanged. The handler itself always sees the real method.",
 ["inputs", "schedules"], "every method, status, header set and body (fixed, chunked, empty, failing) a handler can return",
 "The test compares one body on one route per adapter; headers such as Content-Length, streaming bodies and non-HEAD transparency are not checked.",
 [SVC], [("is_head mapping", f"{SVC} call")], ["Response of Service::call", "raw bytes on loopback connections"])

prop("C14", "Each decoded request reaches the handler exactly once, with its own data",
 "Every request that decodes successfully causes exactly one handler call, receiving that request's own decoded value and original request, and its response goes back on that request, in both adapters. This holds under any interleaving of concurrent, keep-alive and pipelined requests, across service clones, make_service and connections; no value, context or response ever crosses over to another request, and an abandoned or failing request does not affect others.",
 ["schedules", "histories"], "all interleavings of concurrent requests over any number of connections and clones",
 "The tests issue single requests sequentially; duplication, loss and cross-talk only appear under concurrency and delayed completions.",
 [SVC, LIB], [("per-call Arc of handler, context clone", f"{SVC} call"), ("blocking hand-off", f"{LIB} blocking")], ["handler call log joined with per-request unique ids and received responses"])

prop("C15", "catch_unwind turns every panic into the panic handler's result",
 "If the wrapped service panics while being called or while its future is polled (in a guard, body decoder, request handler or anywhere else, on the first or any later poll), the panic handler is called exactly once with that panic's payload and its result becomes the result of the request; the panic never escapes, and the service keeps working for later and concurrent requests. Without a panic, readiness, responses and errors of the wrapped service pass through unchanged and the panic handler is not called.",
 ["inputs", "fault_sequences", "schedules", "crash_points"], "every point at which the wrapped service can panic, every payload, sync or async panic handler results",
 "Tests panic in three fixed places with one payload; later polls, repeated panics, concurrent requests, readiness and handler errors are not exercised.",
 [SVC], [("CatchUnwind::call / poll_ready", SVC)], ["result of Service::call, panic handler log"])

prop("C16", "blocking() runs its closure exactly once and delivers its result",
 "On a tokio thread pool, a future returned by `blocking` runs its closure exactly once (not at all if it is dropped before being polled) and resolves to exactly the closure's Ok or Err. This also holds when many more blocking tasks than the pool's blocking capacity are started at once: all of them complete, and other futures on the pool keep making progress meanwhile. Nothing runs when the future is merely created.",
 ["schedules", "fault_sequences"], "any number of concurrent blocking tasks, pool sizes, results, cancellations",
 "No test exceeds the blocking capacity, counts executions or checks error delivery and cancellation.",
 [LIB], [("poll_fn with Option around tokio_threadpool::blocking", f"{LIB} blocking")], ["closure execution log, future results"])

prop("C17", "hyperdrive::Error is self-consistent",
 "An Error reports exactly the status, source and allowed methods it was built with, through http_status, source (both the inherent and the trait method), allowed_methods (only for 405), Display and Debug; construction panics exactly for statuses that are not 4xx or 5xx. Its response has that status, no headers other than an Allow header precisely when the status is 405 (listing the allowed methods, in order and possibly empty), and can be built any number of times.",
 ["inputs"], "every status code, source and method list",
 "Tests build four errors; the API contract is over all status codes 100-999, any source and any method list.",
 [ERR], [("Error::new assertion, response, Display", ERR)], ["public API of Error"])

prop("C18", "from_request_sync gives the same result as from_request and terminates",
 "Decoding with from_request_sync gives the same value or error as running the future of from_request (or from_request_and_body) to completion, performs the same steps, and returns once that future completes, also when guards and bodies complete only later or are fed from other threads, or when it is called from many threads at once. It never needs an already running executor.",
 ["inputs", "schedules"], "every declaration and request, every delay pattern including wake-ups from other threads",
 "Tests use it only as a shorthand on ready futures.",
 [LIB], [("current_thread Runtime block_on", f"{LIB} FromRequest::from_request_sync"), ("request/body splitting", f"{LIB} FromRequest::from_request")], ["results and event logs of both entry points"])

prop("C19", "Derived contexts project to exactly their own fields",
 "For a type deriving RequestContext, AsRef gives a reference to the value itself, to a NoContext, and for each field marked `#[as_ref]` to exactly that field of that very value (the same address), and to nothing else; this holds for named, tuple and unit structs, enums and generic types. Guards and body decoders asking for any of these context types receive that projection of the context supplied with the request.",
 ["programs", "inputs"], "every struct/enum/generic shape with any subset of marked fields",
 "One test with one marked field; wrong-field selection needs several fields and identity checks.",
 ["derive/src/request_context.rs", LIB], [("AsRef impl generation", "derive/src/request_context.rs")], ["pointer identity of as_ref results, contexts recorded by guards"])

prop("C20", "No request can panic decoding or take the server down",
 "No request that can be represented or sent over a connection (any method, URI, header, version and body, valid or not) makes a derived decoder, Json/HtmlForm, or a service adapter panic, hang or abort; every complete request gets a response or a cleanly closed connection. After any sequence of such requests the server still answers well-formed requests correctly.",
 ["inputs", "histories"], "all requests, including byte-level hostile input on a connection, in any sequence",
 "Tests send only well-formed, friendly requests.",
 [MOD, BODY, SVC, ERR], [("expect/unwrap/index calls in generated code", f"{MOD} construct_variant"), ("header building", f"{ERR} response")], ["panics recorded by a panic hook and catch_unwind, server liveness probes"])

prop("C21", "Finished, failed or dropped decodes release everything and do nothing more",
 "Once a decode has completed (successfully or not) and its future is gone, or the future is dropped at any moment before that, hyperdrive holds no reference to the request, the body or the context any more, and starts no further step. A decode that cannot use the body never waits for it: its result does not depend on whether the body ever arrives. Only what the decoded value itself keeps stays alive, and what is kept otherwise (memory, threads, file descriptors) does not grow with the number of requests decoded or answered.",
 ["schedules", "crash_points", "fault_sequences"], "cancellation after any number of polls; never-ending and failing bodies; every declaration",
 "No test drops a future midway or checks resource release; leaks and waits on unneeded bodies are invisible to value-only assertions.",
 [MOD, LIB, SVC], [("Arc clones and moved body/context in the future chain", f"{MOD} construct_variant")], ["drop probes on contexts, body streams and request reference counts; event log after cancellation"])

prop("C22", "Decoding is a pure function of the request",
 "The outcome of decoding a request depends only on the type, the request, the body's content and the context: the same request decodes to an equal outcome first or last, alone or concurrently with any other requests on any number of threads (including a race for a type's very first use), after any history of successful, failed, panicking or abandoned decodes, and in any split of time between polls.",
 ["schedules", "histories"], "all interleavings and histories of decodes, including first use of a type from many threads at once",
 "Tests decode once per process state; hidden shared state, caching and initialisation races need repeated and concurrent decodes.",
 [MOD, LIB], [("lazy_static ROUTES/REGEXES as the only shared state", f"{MOD} statics")], ["outcomes of repeated, concurrent and reordered decodes compared with the single-run outcome"])

with open(os.path.join(os.path.dirname(__file__), "..", "properties.jsonl"), "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, p["title"]
        f.write(json.dumps(p, ensure_ascii=False) + "\n")
print(len(P))
