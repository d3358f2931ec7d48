#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as the editable source of that file)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, observe, state=None):
    assert len(title) <= 80, (id, len(title))
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech], "observe_at": observe, "hook_needed": None}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    P.append({"id": id, "title": title, "statement": statement, "quantifier": {"over": over, "text": text},
              "why_tests_cant": why, "anchors": a})

# ---------------------------------------------------------------- routing
p("R01", "Requests reach the most specific declared route, with the right captures",
  "For every set of declared routes and every request path, the request is handled by the declared route whose template matches the whole cleaned path, preferring segment by segment from the left a literal segment over a `:param:verb` segment (a longer verb over one it ends with) over a plain `:param` over a trailing `*:wild`, backtracking whenever a preferred choice leads to no declared route; when no declared template matches, the not-found handlers answer. "
  "The handler sees the template of the chosen route and, for every named parameter, exactly the text of the request path that it captured (a wildcard captures all remaining segments).",
  ["inputs", "configurations"], "all finite route tables built from literal, parameter, parameter-with-verb and wildcard segments, and all request paths",
  "Existing tests look up about 40 fixed paths in 6 fixed tables; precedence and backtracking interact across depth in combinations no fixed table samples.",
  ["router.go", "router_util.go"], [("(*route).match", "router.go"), ("splitRoutePath", "router_util.go"), ("(*route).calcPath", "router.go")],
  ["the *RouteInfo injected into the handler", "which handler answered", "404 response"],
  [("route tree", "static children, ordered param children, one wild child per node", "router.go")])
p("R02", "HTTP method selects explicit handler, then HEAD-as-GET, then All, then Any",
  "On a matched route the request method, compared case-insensitively, selects the handler registered for exactly that method; HEAD falls back to the GET handler; otherwise an All handler serves it (a function always, a controller by its method named after the HTTP method, else by its configured or default `All` action); otherwise an Any handler serves it with its configured or default `Any` action; otherwise the not-found handlers answer. "
  "No registered handler is ever run for a method it was not selected for.",
  ["inputs", "configurations"], "all combinations of per-method, All and Any registrations (functions and controllers) on a route, and all method tokens in any letter case",
  "Tests try one combination per route; the fall-back lattice over registrations x methods is not covered.",
  ["router.go", "router_method.go", "router_action.go"], [("(*routeRoot).handle", "router.go"), ("(*route).configRoutes", "router.go"), ("method.action", "router_method.go")],
  ["which handler ran", "response status/body"])
p("R03", "Route tables compose independently of nesting, splitting and order",
  "A route table means the same thing whether its paths are declared flat or nested, in one Routers call or several, and in whatever order sibling routes are declared. "
  "Declarations that cannot be honoured - two parameter names at the same position, two wildcard names at the same position, a wildcard that is not last, a controller without the required action, or a handler that is neither function nor struct - are rejected by a panic at registration, and valid tables never are.",
  ["inputs", "configurations"], "all route tables, all permutations and nestings of the same table, all invalid variations of a table",
  "Tests register each table in one spelling and order.",
  ["router.go", "router_util.go", "router_action.go"], [("(*route).configRoutes", "router.go"), ("calcRouterArgs", "router_util.go"), ("makeRouterController", "router_action.go")],
  ["panic or not at Routers()", "routing result per request"])
p("R04", "Controller actions get positional path arguments on a fresh copy per request",
  "When a controller method serves a request its arguments receive, in order, the path captures of the route converted to the argument's type, with the zero value where the capture is missing or not representable in that type, made anew for every request. "
  "The controller value each request runs on starts as a copy of the registered prototype with its injected fields resolved for that request, so nothing one request writes to its controller is visible to another request or to the prototype, whichever of the controller's methods served it.",
  ["inputs", "histories"], "all argument type lists, captured strings, and request sequences over controllers that mutate themselves",
  "Tests use a handful of integer and string captures and one controller mutation.",
  ["router_action.go", "app_util.go"], [("(*routerAction).callStructFunc", "router_action.go"), ("convertStringAsType", "app_util.go")],
  ["arguments seen by the action", "controller fields seen by the action", "prototype after the request"])
p("F01", "A route runs exactly its effective filters, inherited minus exempted, in order",
  "The filters that run before a handler are: the application filters in the order added, then the filters inherited from the enclosing routers from outermost to innermost, then the handler's own filters, each function at most once, at its first position, among the application filters and among those of the router chain. "
  "A router's Exempt removes inherited and own filters for that router and everything nested in it, a method's Exempt for that method only; application filters cannot be exempted, a filter exempted above can be added again below, and siblings are unaffected, also when their method handlers were made of one shared handler or one router is mounted at several places. An application that takes over the filters of another with ReplaceFilters has exactly those, and what either gets later is its own.",
  ["configurations"], "all nested router trees with arbitrary Filter/Exempt sets at application, router and method level",
  "The existing test checks one filter on one fixed tree; sharing of filter lists between siblings needs many shapes.",
  ["router_filter.go", "router.go", "router_util.go", "app.go", "app_util.go"], [("filters.append / filters.remove", "router_filter.go"), ("(*route).configRoutes", "router.go")],
  ["the ordered trace of filters that ran for a request"])
p("F02", "Filter chain runs in order, each once, nests around Next, stops when answered",
  "Filters, then the route's filters, then the handler run in order, each at most once per request; calling Next from a filter runs everything after it before returning, and a filter that does not call Next is followed by the rest of the chain after it returns. "
  "As soon as the response has been answered the chain starts no further filter or handler by itself, and on a request without a route the not-found handlers run in place of the route's chain under the same rules.",
  ["inputs", "histories"], "all chains of application filters, route filters and handlers with arbitrary choices of calling Next, answering, or neither",
  "Tests cover one filter calling Next.",
  ["context.go", "app.go", "router.go"], [("(*context).run / Next", "context.go"), ("newNestContext", "context.go")],
  ["ordered enter/exit trace of filters and handler"])
# ---------------------------------------------------------------- response
p("H01", "Response is committed once, with hooks run before the headers go out",
  "For any sequence of handler operations on the response writer, the client receives exactly one status line - the status set before the first body write or flush, 200 if none - with the headers set up to that point, and exactly the body bytes written; Before hooks run exactly once, in reverse order of registration, before the headers go out, so headers they set are sent. "
  "The writer reports the status that was actually sent, whether the response has been answered, and the number of body bytes written; operations after the headers went out cannot change what was sent, and no earlier response, taken over or not, shows in a later one.",
  ["histories"], "all sequences of WriteHeader, Write, Flush, header and Before-hook operations",
  "No existing test drives the response writer beyond single writes.",
  ["response.go", "app.go"], [("(*responseWriter).Write / WriteHeader / Flush", "response.go"), ("(*Strip).ServeHTTP", "app.go")],
  ["bytes and status received by the client", "Status/Written/Size"], [("status,size,once", "commit state of the response", "response.go")])
p("H02", "A panic anywhere in the chain becomes a 500 and never disturbs later requests",
  "With the recovery filter installed, a panic with any value in any later filter, handler or dependency provider is logged and, if nothing had been answered, turned into a 500 response - without a body outside development mode, with an HTML page in development mode; an answer already given is left as it was. "
  "The server keeps answering later requests correctly.",
  ["inputs", "histories"], "all panic values, positions in the chain, response states and run modes, and request sequences mixing panicking and normal requests",
  "No existing test covers the recovery filter.",
  ["recovery.go", "context.go"], [("RecoveryFilter", "recovery.go")], ["response", "log records", "responses of later requests"])
p("H06", "Panic reports show the value as text and the stack from the line that panicked",
  "The log record of a recovered panic and, in development mode, the panic page contain the value of the panic and the stack from the code that panicked outwards, every frame with file, line, function and the text of its source line, wherever and with whatever the panic happened. "
  "The value appears on the page as text and cannot change its structure; outside development mode nothing about the panic reaches the client.",
  ["inputs"], "all panic values and places of panics in handlers, filters, constructors, deferred functions and libraries",
  "No existing test covers the recovery filter.",
  ["recovery.go", "app_util.go"], [("RecoveryFilter and panic page", "recovery.go"), ("Stack", "app_util.go")], ["log record", "response body"])
p("H03", "Values returned by handlers become the response",
  "With the generic output filter, a handler's returned value is sent as the response - a string, byte slice or reader as the body, an ActionResult or http.Handler by letting it write, a trailing int as the status, an int alone as a status without body, and a reader that can be closed is closed exactly once. "
  "Other values and nil send nothing beyond the status; a handler that already answered the request itself keeps its own answer.",
  ["inputs"], "all result type combinations and values a handler can return",
  "No existing test uses the output filter.",
  ["router_action_out.go", "router_action.go"], [("GenericOutFilter", "router_action_out.go"), ("(*routerAction).writeResult", "router_action.go")],
  ["response status/body", "Close calls on the reader"])
p("H04", "API results and errors are sent as declared and never alter shared values",
  "An API result or error value writes exactly its status and a JSON body that decodes back to its data or code and message (indented in development mode; data without a JSON form is reported there under the same status), and a raw result writes its status, headers and body verbatim for every supported body kind. "
  "Deriving a variation from an API error or result never changes the original, equality compares what it says it compares, and derived values combine.",
  ["inputs", "histories"], "all codes, statuses, messages, JSON-representable data, body kinds and derivation sequences",
  "The package has no tests.",
  ["utils/apires/res.go", "utils/apires/error.go", "utils/apires/raw.go"], [("Res/Error/RawBody Write", "utils/apires"), ("With* / WithMsg", "utils/apires/error.go")],
  ["response status/header/body", "fields of the original after derivation"])
p("H05", "Concurrent requests are isolated from each other",
  "Any number of requests served concurrently by one application produce the same responses as when they are served one after another: each handler sees only its own request, path parameters, bound parameters, injected values and controller. "
  "No data race occurs inside the framework.",
  ["schedules", "inputs"], "all batches of concurrent requests and their interleavings",
  "Existing tests send one request at a time.",
  ["app.go", "context.go", "router_action.go", "inject/inject.go", "params/params.go"], [("per-request context and injector", "app.go"), ("fresh controller per request", "router_action.go")],
  ["response per request", "race detector"])
# ---------------------------------------------------------------- inject
p("I01", "Injection resolves by type and name from the nearest injector, once per scope",
  "A requested value resolves to the value or constructor last provided for its exact type (or interface, when provided as it) and name in the nearest injector of the parent chain that has one, an unnamed request never getting a named value or the other way round; a constructor runs at most once per injector it is resolved through, unless provided again there, and its dependencies are resolved from the injector that asked. "
  "Invoking a function always runs it with the values its parameters resolve to and returns its results; providing a value again takes effect for later requests to that injector, and asking whether something is provided never runs constructors.",
  ["histories"], "all sequences of provide, override, find, invoke and existence queries over chains of injectors",
  "Tests exercise a dozen fixed provide/find pairs on one or two injectors.",
  ["inject/inject.go", "inject/inject_provider.go"], [("injector.Find/Invoke/Provide", "inject/inject.go"), ("provider cache", "inject/inject_provider.go")],
  ["values injected", "number of constructor runs", "errors"], [("providers / values maps", "what is provided and memoised per injector", "inject/inject.go")])
p("I02", "Dependency resolution succeeds exactly for complete, acyclic graphs",
  "Resolving a value succeeds if and only if every constructor reachable from it, through what this injector has not resolved before, has all of its inputs provided with assignable values, and that reachable dependency graph has no cycle; then every reachable constructor has run at most once. "
  "Otherwise an error is returned - never a hang, a crash or a partially resolved value; a panic of a constructor reaches the caller - and the injector remains usable.",
  ["inputs", "configurations"], "all dependency graphs, including cyclic, incomplete and failing ones, spread over a chain of injectors",
  "Tests have one two-node cycle.",
  ["inject/inject.go", "inject/inject_provider.go"], [("cycle detection while resolving", "inject/inject.go")], ["error or value from Find/Invoke", "constructor run counts"])
p("I03", "Struct injection fills exactly the tagged fields",
  "Applying an injector to a struct sets every field tagged for injection, down to the third level of nested structs, to the value provided for its type and tag name, and leaves every other field - untagged ones and ones tagged `-` - untouched. "
  "If a tagged field cannot be resolved an error is returned; what is not a struct is left alone.",
  ["inputs"], "all struct types with tagged, named, skipped and nested fields, and all provided value sets",
  "Tests apply one fixed struct.",
  ["inject/inject.go"], [("injector.Apply", "inject/inject.go")], ["struct fields after Apply", "returned error"])
# ---------------------------------------------------------------- params
p("P01", "Scalar parameters bind to exactly the value their text denotes",
  "A request parameter bound to an integer, float, bool, string, time or pointer destination sets it to exactly the value its (decimal) text denotes - a time in the first of the configured formats that reads it, local where that format names no zone, or in Unix seconds; a text that denotes no value of that type gives the zero value, never another one. "
  "A parameter that is absent gives the zero value as well, and formatting a value and binding it gives the value back.",
  ["inputs"], "all scalar field types and all parameter texts",
  "Tests bind a dozen literal values.",
  ["params/binder.go"], [("binder functions per kind", "params/binder.go")], ["destination after binding"])
p("P02", "Slices, structs and maps bind element by element from indexed parameters",
  "Parameters named `a[0]`, `a[]` or repeated `a` bind to a slice with every element at its index or in order of appearance, `a.Field` to the fields of a struct (nested and embedded ones included), and `a[key]` to the entries of a map, for every composition of these (maps of scalars, pointers to scalars); elements not mentioned have zero values, and a type the application gave a binder of its own is bound by that binder wherever it appears. "
  "Binding the parameters written out from a value gives that value back, whatever the order in which the parameters arrive.",
  ["inputs"], "all values of slice/struct/map compositions and all orders of their parameters",
  "Tests bind three fixed forms.",
  ["params/binder.go", "params/params.go"], [("bindSlice / bindStruct / bindMap", "params/binder.go")], ["destination after binding"])
p("P03", "Handlers see every query, path, form, JSON and file parameter exactly once",
  "With the parameters filter installed, and parameters first asked for after routing, all query, path and body form values are visible together under their names - each submitted value exactly once, the values of one source in the order sent, path parameters included, whatever else in the query or body can not be read - JSON bodies are bound to the requested value (one without a JSON value that is not empty being an error), and uploaded files can be read back in the handler with exactly the bytes and file name sent. "
  "Nothing of an upload is left on disk once the request is over.",
  ["inputs"], "all query strings, path captures, url-encoded, JSON and multipart bodies, and memory limits",
  "Tests parse two hand-written requests.",
  ["params/params.go"], [("ParamsParser / ParamsFilter", "params/params.go")], ["values seen by the handler", "temporary directory after the request"])
p("P04", "Hostile parameters are rejected or ignored, never crash or exhaust the server",
  "Whatever parameter names, values, bodies and content types a client sends, binding them to any destination type completes without a panic and without allocating memory out of proportion to the request. "
  "Well-formed parameters in the same request are still bound; a slice index beyond 9999, or one that is no number, is ignored, and the error for a body that is no JSON does not repeat a large body.",
  ["inputs"], "all byte strings as parameter names, values, bodies and content types, and all destination types",
  "Tests contain no malformed input.",
  ["params/binder.go", "params/params.go"], [("index parsing and binder dispatch", "params/binder.go")], ["panic", "memory allocated", "bound values"])
p("P05", "Client address, host, scheme and URL reflect the forwarding headers",
  "The reported client IP, host, scheme, URI and URL follow the forwarding headers when present - the first listed client address, the forwarded host and scheme - and otherwise the connection and request themselves, with ports removed and IPv6 addresses intact. "
  "The result depends on nothing else and malformed headers never cause a panic.",
  ["inputs"], "all combinations of forwarding headers, host and remote address forms",
  "The existing test covers single literal headers.",
  ["params/real.go"], [("RealIp/RealHost/RealProto/RealUri/RealUrl", "params/real.go")], ["returned strings"])
# ---------------------------------------------------------------- config
p("C01", "Configuration text parses to exactly the sections and values it states",
  "Parsing a configuration file yields exactly the keys, values and sections it contains - comments and blank lines ignored, surrounding space trimmed, later assignments overriding earlier ones - so that writing out any set of values and parsing it gives that set back. "
  "A malformed line is reported as an error naming it and never silently misread, and no input makes the parser panic; a file and a reader given together read as one after the other.",
  ["inputs"], "all configuration texts",
  "The existing config tests need a missing file and fail; no format test runs.",
  ["config/config_parse.go", "config/config.go"], [("line parser", "config/config_parse.go")], ["Find results", "error returned"])
p("C02", "Configuration lookup prefers environment, then own values, then the parent",
  "A configuration value is looked up in the environment first, then in the configuration's own values, then in its parents, an empty value counting as none, and a later loaded file overrides an earlier one. "
  "Listing a section returns a copy of exactly that section's values, and changing the copy changes nothing.",
  ["histories", "configurations"], "all layered configurations, environments and lookup keys",
  "Tests look up two keys.",
  ["config/config.go"], [("Find / parents / LoadConfigFiles", "config/config.go")], ["Find/ListSection results"])
p("C03", "Typed configuration reads give exactly the value their text denotes",
  "Reading a configuration value into a typed destination sets it to exactly the value its text denotes, in decoding a whole struct as well as for one key, and leaves the destination untouched when the key is absent; a comma separated list gives its trimmed, non-empty elements in order. "
  "Application settings (path, mode, address, port) come from the environment or their defaults and follow an imported configuration, and a default given to a lookup stands for a missing value, with or without a configuration imported.",
  ["inputs"], "all destination types and value texts, and structs of them",
  "Tests bind a handful of literals.",
  ["config.go", "config/config.go", "utils/helpers/config.go"], [("Config.Bind", "config.go"), ("Decode", "config/config.go")], ["destination after reading"])
# ---------------------------------------------------------------- gzip/static
p("G01", "Compression is transparent and only used when the client accepts it",
  "With the gzip filter installed, decoding the response according to its Content-Encoding gives exactly the status, headers and body the handler produced without the filter - for every way of producing the body and also when the handler panics - and a compressed response says so, varies on Accept-Encoding and carries no stale Content-Length. "
  "A client that offers gzip gets bodies compressed and one that does not receives them unencoded; a flush delivers all that was written.",
  ["inputs", "histories"], "all request headers, write/flush/status sequences, returned results and panics",
  "Two tests check one short body and hijacking.",
  ["gzip/gzip.go"], [("gzip All filter and writer", "gzip/gzip.go")], ["decoded response bytes and headers"])
p("S01", "Static serving never reveals a file outside its directory",
  "Whatever path a client requests, in whatever encoding, the bytes served are those of a file inside the configured directory or come from another handler, never of a file outside of it. "
  "A redirect it issues always leads to the same host.",
  ["inputs"], "all request paths and prefixes, including dot segments, encoded separators, doubled slashes, backslashes and NULs",
  "Existing tests request two paths.",
  ["static-serve/static.go"], [("http.Dir and path cleaning", "static-serve/static.go")], ["body served", "Location header"])
p("S02", "Static files are served verbatim exactly under their rules",
  "A GET or HEAD request (any method if so configured) whose path is under the prefix is answered with the exact content the file at that path has then, a directory with its index file after redirecting to the path with a trailing slash, and the configured fallback file (or else not found) when there is no file at that path. "
  "Other methods, other prefixes and skipped prefixes are left untouched for the following handlers; no file stays open.",
  ["inputs", "configurations"], "all directory trees, static options, methods and paths",
  "The serving tests fail here for want of test data; nothing runs.",
  ["static-serve/static.go"], [("Static filter", "static-serve/static.go")], ["response status/body/Location", "whether the next handler ran"])
# ---------------------------------------------------------------- sessions / caches
p("X01", "Signed cookie values round-trip and cannot be altered",
  "A value signed with a secret is accepted and read back exactly, with its time, under the same secret. "
  "Any string that was not produced by signing - altered, truncated, re-split, re-timed, re-encoded, or signed with another secret - is rejected, so an accepted value always carries exactly the content and time that were signed.",
  ["inputs"], "all secrets, values and times, and all single and structured modifications of the signed text",
  "Tests sign one value and alter one byte.",
  ["sessions/utils.go"], [("EncodeSecureValue / DecodeSecureValue", "sessions/utils.go")], ["decode result"])
p("X02", "Sessions behave as one private map per client on every store",
  "Over any history of requests from any number of clients, each client's session returns exactly the values that client last set and had saved, flushed or deleted, on every storage backend alike; no client ever sees another's data, and requests with missing, forged or expired cookies start empty. "
  "Destroying a session removes its data and cookie, regenerating it changes the identifier and makes the old one worthless, cookies carry the configured attributes, and nobody can guess the identifier of a new session from earlier ones; collecting garbage removes expired sessions only.",
  ["histories", "configurations"], "all histories of set, get, delete, flush, save, touch, destroy, regenerate and expiry by several clients, on each backend",
  "The session tests need live databases and do not run.",
  ["sessions/manager.go", "sessions/provider.go", "sessions/store_dummy.go", "sessions/utils.go"], [("SessionManager.Start/Regenerate/Destroy", "sessions/manager.go"), ("session provider", "sessions/provider.go")],
  ["values returned", "Set-Cookie headers", "backend contents"], [("session record", "id, values and expiry in the backing cache", "sessions/provider.go")])
p("X03", "Remember-me tokens identify a user only while valid and untampered",
  "A remember-me cookie set for a user is accepted for that user's id and secrets until it expires or is cleared, and is rejected if it was altered, belongs to another user, secret or cookie name, or is older than its lifetime. "
  "Reporting that a cookie is present never succeeds for one that could not be verified.",
  ["inputs", "histories"], "all user ids, secrets, lifetimes and cookie manipulations",
  "One test sets and reads one cookie.",
  ["sessions/remember.go", "sessions/utils.go"], [("Remember set/verify", "sessions/remember.go")], ["verification result", "cookies"])
p("X04", "Backend faults surface as errors without losing or mixing up sessions",
  "When the session store fails at any point, session operations report an error instead of panicking or pretending success (logging a client out only has to clear the cookie), no session is confused with another, and a stored session that cannot be read is an error, not an empty session. "
  "Once the store works again saved data is still there, and changes whose save failed can be saved again.",
  ["fault_sequences", "histories"], "all placements of store failures in session histories",
  "No existing test injects a failure.",
  ["sessions/manager.go", "sessions/provider.go"], [("error propagation", "sessions/manager.go"), ("changed flag and save", "sessions/provider.go")], ["returned errors", "data after recovery"])
p("X05", "Clients working at the same time keep their sessions and tokens apart",
  "Any number of clients may use sessions of one store at the same time, through one session manager or several: each of them reads, saves, regenerates and destroys its session, and gets and presents its session and remember-me cookies, exactly as if it were alone. "
  "No two of them ever get the same session id, initial values given to several sessions at once are not altered, and several requests of one client that only read all see what was saved last.",
  ["schedules", "histories"], "all histories of several clients and all interleavings of them, on each backend",
  "No existing test uses a session from two goroutines, and the session tests need live databases.",
  ["sessions/manager.go", "sessions/provider.go", "sessions/remember.go", "sessions/utils.go"], [("SessionManager and provider shared by all requests", "sessions/manager.go"), ("session ids", "sessions/utils.go")],
  ["values returned", "cookies", "race detector reports"], [("session store", "one record per session id, shared by all requests", "sessions/provider.go")])
p("K01", "Every cache backend behaves as the same key-value store",
  "Over any history of set, get, delete, increment, decrement and touch operations, the Redis, memcached and MongoDB caches return exactly what one simple map of keys to byte values would return, including the not-found error for missing keys. "
  "Caches with different prefixes (neither beginning with the other) on one server never affect each other, except that cleaning a Redis or memcached cache empties its server.",
  ["histories", "configurations"], "all operation histories over keys, values and prefixes on each backend",
  "The cache tests need live databases and do not run.",
  ["caches/provider_redis.go", "caches/provider_memcache.go", "caches/provider_mgo.go"], [("CacheProvider implementations", "caches")], ["returned values and errors"])
p("K02", "Cache entries live exactly as long as their timeout says",
  "An entry stored or touched with a positive timeout is readable until that time has passed and never afterwards, with zero for the default of one minute and with a negative timeout forever, for every size of timeout and on every backend (as far as the server can express it: memcached knows no times beyond 2038, forever on MongoDB is 9999 days). "
  "Touching an entry extends it without changing its value, and an expired entry is never revived by any operation but a new set; collecting garbage removes what has expired (MongoDB without automatic expiry) and nothing else.",
  ["histories"], "all histories of set, touch, get and clock advances with all timeouts on each backend",
  "The cache tests need live databases and do not run; they cannot advance time.",
  ["caches/provider_redis.go", "caches/provider_memcache.go", "caches/provider_mgo.go", "caches/caches.go"], [("timeout conversion", "caches")], ["returned values and errors as the backend clock moves"])
p("K04", "Cache faults surface as errors and leave entries whole and the cache usable",
  "When a command of a cache operation fails or its connection breaks, before or after the server has carried it out, the operation reports an error other than the missed key, and the entry is either as it was or as the operation would have left it, its timeout included. "
  "Later operations work again and see one consistent entry, and connections are neither lost nor mixed up, on every backend.",
  ["fault_sequences", "histories"], "all placements of server and connection failures in operation histories on each backend",
  "No existing test injects a failure.",
  ["caches/provider_redis.go", "caches/provider_memcache.go", "caches/provider_mgo.go"], [("error handling and connection use", "caches")], ["returned values and errors", "number of open connections"])
# ---------------------------------------------------------------- the application as a whole
p("A01", "A running application serves exactly its own routes at its own address",
  "Running an application listens on the configured address (or every local address if it has none), announces address and mode once in its log, and serves its own routes, filters and no others to any number of connections, also through a handler or server setting the program replaced, beside other applications in the same process. "
  "Running returns an error, and nothing keeps listening, when the address is taken, and when the server is closed or shut down (which lets requests in flight finish).",
  ["configurations", "schedules"], "all modes, addresses, sets of applications, requests and ways to stop",
  "Tests never run a server; they call the handler directly.",
  ["app.go", "default.go"], [("Strip.Run", "app.go"), ("Strip.ServeHTTP", "app.go")], ["responses over TCP", "log records", "result of Run"])
p("A02", "Handlers see one request context with everything filters put into it",
  "Values, deadlines and cancellation that the server, an outer application or any filter puts into the context of a request are seen, nearest first, by every later filter and by the handler through the context, the request and the injected context alike; the logger of the request is the most recent one attached or else the application's. "
  "Changes replace only the request they were made for and take nothing away from what was there before, wherever the request logger stands among the filters.",
  ["histories"], "all sequences of context changes by filters and handlers of all forms",
  "The one test for context values fails at the pinned commit and uses one context.",
  ["context.go", "app.go", "utils/context.go", "request-logger/logger.go"], [("Context.ReplaceContext / GetContext / Logger", "context.go"), ("ReqLoggerFilter", "request-logger/logger.go")], ["values, errors and loggers seen by each participant"])
p("A03", "The classic setup behaves as its documented parts in their order",
  "An application with the classic filters and providers answers and logs each request exactly as one put together by hand from its parts: recovery first, then what the given hooks add, the request logger with the given option (or the one its run mode calls for), and the generic output filter. "
  "It holds in every mode and wherever options and hooks stand among the arguments, the global logger takes the format of the run mode, and panics and errors of hooks and handlers end in a single answer.",
  ["configurations", "inputs"], "all modes, hooks, options and requests",
  "No test uses the classic setup with options or hooks.",
  ["utils/helpers/filters.go", "utils/helpers/providers.go", "utils/helpers/log.go", "default.go"], [("UseClassicFilters", "utils/helpers/filters.go"), ("UseClassicProviders", "utils/helpers/providers.go")], ["responses", "log records", "order of filters"])
p("K03", "Concurrent users of one cache see one store",
  "Operations that several clients, or goroutines sharing one cache, do at the same time on the same keys give results that the same operations done one after another in some order (respecting their real-time order) could give: no count is lost or doubled, no deleted entry comes back, no value is seen that was never stored. "
  "It holds for every order in which the server carries out their commands, on every backend.",
  ["schedules", "histories"], "all interleavings of operations of several clients on each backend",
  "The cache tests need live databases, do not run, and use one client.",
  ["caches/provider_redis.go", "caches/provider_memcache.go", "caches/provider_mgo.go"], [("CacheProvider.Incr / Decr / Touch", "caches")], ["returned values and errors of concurrent calls"])
# ---------------------------------------------------------------- logs/utils
p("L01", "Logger emits exactly the enabled records, each in the documented form",
  "A logging call emits one record if and only if its level is at least as severe as the configured level, carrying the level's label, the prefix of its logger, the file and line of its caller when line information is enabled, and the formatted message. "
  "Flat mode emits every record as a single line, and colour mode changes nothing but colour codes.",
  ["inputs", "configurations"], "all logger settings, levels, call forms and messages",
  "No existing test checks log output.",
  ["log.go"], [("logger output", "log.go")], ["bytes written to the log sink"])
p("L02", "Every request is bracketed by log records under one request id",
  "With the request logger around everything that may panic, each request gets an id - the one sent by the client if it has 10 to 32 characters, otherwise a fresh unique one - which is returned in the response and prefixes every record logged while handling it, and it emits one begin and one end record with the request's method, path and client and the status, size and time of the response actually sent, all in the form (lines, colors, stacks, prefix) its options ask for. "
  "Records of concurrent requests never carry each other's id.",
  ["inputs", "schedules"], "all requests, responses and batches of concurrent requests",
  "The existing test covers only the client address.",
  ["request-logger/logger.go", "request-logger/reqid.go"], [("ReqLoggerFilter", "request-logger/logger.go")], ["log records", "response headers"])
p("L03", "Concurrent logging calls emit whole records in each caller's order",
  "Loggers may be shared, and share one output, among any number of goroutines: every call emits exactly the record it would emit alone, written at once, and the records of one goroutine appear in the order of its calls. "
  "Arguments are only read, values may log while they are formatted, and no call waits for another.",
  ["schedules", "inputs"], "all settings, sets of concurrent calls and interleavings",
  "No existing test checks log output.",
  ["log.go"], [("logger output", "log.go")], ["bytes written to the log sink"])
p("L04", "Request ids are unique in the process and tell where and when they were made",
  "Any number of goroutines may make request ids at once: no two are equal, each is 16 letters that are safe in a header and a URL, and decoding one gives the mark of the process that made it and the time it was made, later for each of a goroutine's ids. "
  "A text that is no request id decodes to zeros and never panics.",
  ["schedules", "inputs"], "all interleavings of goroutines making ids, and all texts decoded",
  "No existing test makes a request id.",
  ["request-logger/reqid.go"], [("NewReqId / DecodeReqId", "request-logger/reqid.go")], ["the ids", "the decoded mark and time"])
p("U01", "Worker pool runs every accepted task exactly once within its limit",
  "Every task accepted by the worker runs exactly once and never more than the limit run at the same time; Wait returns only after all accepted tasks have finished and reports an error if any of them failed. "
  "After Close, or once a failure was reported, no task is accepted, and neither Close nor a failing task can deadlock submitters or waiters.",
  ["schedules", "histories"], "all limits, task sets, failures, and interleavings of submit, wait and close",
  "Tests run one pattern with a fixed limit.",
  ["utils/worker.go"], [("Worker.RunTask/Wait/Close", "utils/worker.go")], ["task run counts", "peak concurrency", "return values"])
p("U02", "Context values are found by type, nearest first",
  "A value attached to a context is found by its exact type in that context and every context derived from it, the most recently attached one winning, and a context without a value of that type says so. "
  "Attaching a value never changes what other contexts see.",
  ["histories"], "all trees of derived contexts and values of all types",
  "The one test for this fails at the pinned commit.",
  ["utils/context.go"], [("CtxWithValue / CtxFindValue", "utils/context.go")], ["lookup result"])
p("U03", "String conversions are exact inverses and reject what does not fit",
  "Formatting any boolean, number, string or byte value as a string and parsing it back gives the same value, for every width and, in the application package, through every pointer depth. "
  "Parsing a text that denotes no value of the requested type returns an error and the zero value, and no value makes a conversion panic.",
  ["inputs"], "all values of all basic types and all texts",
  "The packages have no conversion tests.",
  ["app_util.go", "utils/converter.go", "utils/converter_value_to.go"], [("StrTo / ToStr", "app_util.go"), ("Value conversions", "utils/converter_value_to.go")], ["returned value and error"])
p("U04", "Generated tokens have the requested form, and number encodings round-trip",
  "A random token has exactly the requested length and only characters of the requested alphabet, every character of which can occur, and tokens do not repeat. "
  "Encoding a non-negative number in an alphabet of at least two characters and decoding it gives the number back, distinct numbers have distinct encodings, and session ids are 20 distinct-per-session upper-case letters and digits.",
  ["inputs"], "all lengths, alphabets and numbers",
  "There are no tests for them.",
  ["utils/rand.go", "sessions/utils.go"], [("RandomCreateBytes", "utils/rand.go"), ("number codec", "utils")], ["returned strings"])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for x in P: f.write(json.dumps(x, ensure_ascii=False) + "\n")
print(len(P), "properties")
