"""Which test package decides which property, and what MANIFEST.json says about it."""
CHECKS = {}

BASE = ("Generated-input search (pgregory.net/rapid, thousands of cases per run, shrunk to a minimal replay) through the exported API; "
        "establishes no absence beyond the cases explored. ")


def c(id, pkg, technique, note, **k):
    CHECKS[id] = dict(pkg=pkg, technique=technique, note=BASE + note, **k)


c("R01", "router", "property-based testing against a brute-force routing model",
  "Trusts the reference chooser (lexicographic specificity over all declared templates) and its path cleaning. Excludes verbs that are suffixes of each other, a segment equal to a bare verb, and equal parameter names at two levels.")
c("R02", "router", "property-based testing against a fall-back model",
  "Trusts the stated selection order; method tokens are ASCII.")
c("R03", "router", "metamorphic and model-based property testing of route declarations",
  "Two random spellings of one table against each other and the model; one impossible declaration against a required panic.")
c("R04", "router", "property-based testing against a reference conversion",
  "Argument types come from a fixed set of controller methods covering every kind; prototypes are compared by value fields.")
c("F01", "router", "property-based testing against a list model of filter inheritance",
  "Filters are functions compared by identity.")
c("F02", "router", "model-based property testing of filter chains",
  "Excludes calling Next after the response was answered.")
c("H01", "web", "model-based property testing of writer operation sequences",
  "Reference writer; a part of the cases goes through a real net/http server and client. Status codes 200-599; hooks do not write.")
c("H02", "web", "property-based testing with injected panics", "Panics before and after answers at every position; panics out of Before hooks during the final flush are outside the recovery filter and excluded.")
c("H03", "web", "property-based testing over generated handler signatures", "Signatures are built by reflection; an int inside an interface-typed result is excluded.")
c("H04", "web", "property-based testing of results and stateful testing of derivations", "JSON-representable data with valid UTF-8.")
c("I01", "injectx", "stateful model-based property testing of injector trees", "Trusts the reference resolver. Variadic functions are excluded.")
c("I02", "injectx", "property-based testing of random dependency graphs against a graph oracle", "Graphs of up to 14 nodes over up to 3 injectors; constructors that look things up themselves are excluded.")
c("I03", "injectx", "property-based testing over generated struct types", "Struct types are built by reflection, so embedded and unexported fields are not generated.")
c("P01", "paramsx", "property-based testing against arbitrary-precision readings", "Trusts math/big and time.Parse. Texts with a leading plus, infinities, NaN and hexadecimal floats are excluded.")
c("P02", "paramsx", "round-trip property testing over generated types", "Types of up to four levels; maps hold scalars; pointers point to scalars; every element of a slice is written in one form.")
c("P03", "paramsx", "model-based property testing of whole requests", "Parameters are first asked for after routing (a filter of the application that asks earlier sees, and fixes, parameters without the path). Multipart limits of net/http apply.")
c("P04", "paramsx", "grammar-based fuzzing with a panic, allocation and canary oracle", "Allocation is bounded at 128 MB for requests of a few KB.")
c("P05", "paramsx", "property-based testing against the parts requests were made from", "A loopback ::1 connection is reported as 127.0.0.1, as the code intends.")
c("G01", "gz", "differential property testing with and without the gzip filter",
  "Trusts compress/gzip for decoding; a part of the cases goes through a real net/http server. Excludes `*` as an offer of gzip, the sniffed content type of bodies that come in several pieces, and raw writes of outer filters behind a compressed body.")
c("H05", "conc", "differential property testing of concurrent against sequential execution, under the race detector",
  "The Go race detector sees races of the interleavings that ran only; requests are held together at generated places to make them overlap.", race=True)
c("C01", "conf", "round-trip and metamorphic property testing of configuration texts", "Excludes text after a closing quote, empty quoted keys, and re-opening a section that has numbered keys.")
c("C02", "conf", "stateful model-based property testing of layered configurations", "Trusts the stated order of files and the environment name mapping; the environment is this process's own. Directories that coincide are not generated.")
c("C03", "conf", "property-based testing against independent readings", "A text that denotes no value of the type may leave the default or give zero. Unexported tagged fields are excluded.")
c("S01", "stat", "property-based fuzzing of request paths against planted outside files", "The file tree has no symbolic links; a part of the cases are raw request lines through a real server.")
c("S02", "stat", "model-based property testing of static serving", "Trusts http.ServeContent's own rules for ranges and dates. A fallback or index that is a directory is not generated.")
c("U03", "utilx", "round-trip and reference-model property testing of conversions", "Trusts math/big. Texts with a leading plus, infinities, NaN, hexadecimal and underscored floats, and the word off are not judged; only the application package's ToStr follows pointers.")
c("U04", "utilx", "property-based testing of tokens and round-trip testing of encodings", "Alphabets have up to 256 distinct characters (two or more for encodings) and numbers are canonical and not negative; repetition is judged where chance is below 2^-80.")
c("U02", "utilx", "model-based property testing of context trees", "Values are pointers to, or to pointers to, 19 types; what a value-typed target holds after finding an attached nil pointer is not judged.")
c("L01", "logx", "model-based property testing of logger settings and calls", "Call depths that point into the logger itself are not judged. The misspelt label [CRITCIAL] is accepted with either spelling; the text of a stack trace is judged only up to its first frame.")
c("L02", "reqx", "property-based testing of concurrent request batches, under the race detector", "A panic that leaves the request logger (recovery outside it) has no end record and is not generated. An id is valid if it has 10 to 32 bytes. IPv6 clients may be shown with or without brackets.", race=True)
c("L04", "reqx", "property-based testing of concurrent id making and of decoding altered ids, under the race detector", "What a text longer than an id decodes to is not judged. The clock of the machine is trusted not to be set back.", race=True)
c("U01", "workx", "stateful property testing of concurrent histories, under the race detector", "Interleavings are those the scheduler gives, spread by generated delays. A task that submits to a full pool waits for a slot, as it must, so tasks submit others only where there is room for all; limits are positive and tasks are func() or func() error.", race=True)
c("X01", "sess", "property-based testing of signed texts and structured alterations of them", "Trusts HMAC; secrets that are equal as HMAC keys (trailing zero bytes) are not told apart.")
c("X02", "sess", "stateful model-based property testing of session histories on every backend", "Trusts the fake Redis, memcached and MongoDB servers. Values are those BSON can hold; requests still running when their session id is regenerated or logged out do not flush afterwards.")
c("X03", "sess", "model-based property testing of remember-me cookies and alterations of them", "A remember cookie and a session cookie made with one secret are not told apart.")
c("X04", "sess", "stateful property testing with injected store failures", "Failures are error replies and broken connections before or after the effect of any command (MongoDB: error replies and failures of the connection function). Requests still running after a regeneration or log-out do not flush afterwards.")
c("X05", "sess", "model-based property testing of concurrent clients, under the race detector", "Trusts the fake servers; goroutines run freely, spread by generated yields. Simultaneous requests of one client only read: what the last of two simultaneous saves leaves is not judged.", race=True)
c("K01", "kv", "stateful model-based property testing of all cache backends", "Trusts the fake servers, which speak the wire protocols. Counting on text that only some backends read as a number is not judged; memcached counters are not negative and keys are legal memcached keys.")
c("K02", "kv", "stateful model-based property testing with a controlled clock", "Trusts the fake servers and their clock; MongoDB expiry is moved by shifting stored times. A second around each deadline is not judged.")
c("A01", "appx", "model-based property testing of running applications over TCP", "Loopback addresses only; the port is one found free just before.")
c("A02", "appx", "model-based property testing of context changes along the filter chain", "Passing the context itself (not the one of GetContext) to ReplaceContext is a self-reference and not generated.")
c("A03", "appx", "differential property testing against the same parts put together by hand", "The parts themselves are judged by the other properties. Hooks act on the stage before all only, the other stage is never called.")
c("K03", "kvc", "linearizability testing of generated command schedules, under the race detector", "Trusts the fake servers and porcupine; the order of commands at the server is generated, goroutines sharing one cache run freely.", race=True)
c("H06", "web", "property-based testing of panic reports at known source lines", "Only the frames of the test's own code are compared line by line; runtime frames before them are allowed.")
c("K04", "kv", "stateful property testing with injected server faults against a set-of-states model", "Failures are error replies and broken connections before or after the effect of any command (MongoDB: error replies and failures of the connection function). Trusts the fake servers.")
c("L03", "logx", "differential property testing of concurrent against sequential logging, under the race detector", "Settings of a logger are made before it is shared.", race=True)
