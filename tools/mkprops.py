#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so that the long lines stay editable)."""
import json, os
P=[]
def p(id,title,statement,over,qtext,why,files,mech,state=None,observe=None,hook=None):
    P.append(dict(id=id,title=title,statement=statement,
      quantifier=dict(over=over,text=qtext),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=n,where=w) for n,w in mech],
        state=[dict(name=n,meaning=m,where=w) for n,m,w in (state or [])],
        observe_at=observe or [],hook_needed=hook)))

p("C01","Parsing untrusted input never panics",
  "For any content a peer can put in a header (any number of lines, any storable bytes) and for any string, every typed-header constructor and every string parser of the crate (mime types, forwarding elements, dates, methods, versions, status codes, encodings, ETags, ...) returns a value, nothing, or an error; it never panics, overflows, aborts or runs forever. A value that was accepted can be inspected, printed, compared, re-serialised and re-applied to a message without panicking either.",
  ["inputs"],"all header values (ASCII strings of any shape, several lines per name) for each of the crate's typed headers; all Unicode strings for each string parser; all values built by those parsers",
  "The tests feed each parser one to a dozen hand-written strings; totality quantifies over every string an attacker may send (short, truncated, multi-byte, huge numbers, unbalanced quotes).",
  ["src/parse_utils.rs","src/proxies/forwarded.rs","src/trace","src/cache","src/content","src/transfer","src/conditional","src/security","src/auth","src/other","src/mime/parse.rs","src/utils","src/method.rs","src/version.rs"],
  [("from_headers of each typed header","src/*/"),("parse_token/parse_quoted_string","src/parse_utils.rs"),("fallible conversions instead of unwrap/index","src/proxies/forwarded.rs, src/trace/trace_context.rs")],
  observe=["result or panic of every from_headers / FromStr / TryFrom call"])

p("C02","Typed headers round-trip through a message",
  "Writing a typed header into a message and reading it back from that message yields the same information the value carried (every entry in order, every flag, every parameter, durations and dates at the resolution of the wire format), for every value that can be built through the public API from data legal for that header, and reading legal text written by somebody else yields the information that text states. The text written is a legal field value for that header and writing the value read back produces the same text again.",
  ["inputs"],"all legal values of each typed header: cache directives, clear-site-data, ETag and conditional lists, Vary, Allow, encodings and encoding preferences, media types and preferences, authorization and challenges, basic credentials, forwarding elements, server timings, trace context, HSTS, timing-allow-origin, referer/source-map/content-location, age/retry-after/expires and all date headers, cookies",
  "Each header has one or two smoke tests with one fixed value; quoting, escaping, separators inside quoted text, many entries, extreme numbers and directive spellings are only reached by quantifying over values.",
  ["src/cache","src/conditional","src/content","src/transfer","src/auth","src/proxies/forwarded.rs","src/trace","src/security","src/other","src/server"],
  [("header_value / from_headers pairs","impl Header for each type"),("quoted-string formatting and parsing","src/parse_utils.rs")],
  observe=["Header::apply_header, from_headers, accessors of each type"])

p("C03","Header names and values are always ASCII text",
  "Every header value or name that can be obtained without unsafe code - parsed, built from bytes, produced by a typed header, a mime type, a cookie, or by converting a foreign message - consists of ASCII bytes only, and text or bytes that are not ASCII are refused with an error at the boundary. Names are stored in one canonical lower-case spelling, so two names that differ only in letter case are equal, hash alike and print alike, and a value or name that is accepted reads back exactly as given (names: lower-cased).",
  ["inputs"],"all byte strings and Unicode strings offered as names or values; all typed header values holding arbitrary text",
  "Existing tests check two or three literals per constructor; soundness of the internal unchecked string conversions depends on every producer of a header value for every content.",
  ["src/headers/header_name.rs","src/headers/header_value.rs","src/headers/to_header_values.rs","src/hyperium_http.rs","src/mime/mod.rs","src/auth","src/security/csp.rs","src/conditional/etag.rs"],
  [("is_ascii checks in FromStr/from_bytes","src/headers"),("to_ascii_lowercase","src/headers/header_name.rs"),("from_bytes_unchecked call sites","whole crate")],
  observe=["as_str() of every HeaderName/HeaderValue produced"])

p("C04","Headers behave as a case-insensitive ordered multimap",
  "Under any sequence of insert, append, remove, get, get_mut, iteration and cloning, the header collection of a request, a response, a trailer set or a bare header map behaves like a map from case-insensitive names to non-empty ordered lists of values: insert replaces all values and returns the previous ones, append adds after the existing ones, remove takes all of them out and returns them, and other names are never affected. An operation that is refused because of an invalid value leaves the collection unchanged, and every iterator visits exactly the stored entries, reporting consistent sizes.",
  ["histories","inputs"],"all operation sequences over all names (any letter case, static constants and dynamic strings) and all value lists",
  "The tests run single operations on one name; equivalence with a multimap quantifies over histories mixing spellings, multi-valued names, failing operations and iteration.",
  ["src/headers","src/request.rs","src/response.rs","src/trailers.rs"],
  [("HashMap<HeaderName, HeaderValues>","src/headers/headers.rs"),("delegation","src/request.rs, src/response.rs, src/trailers.rs")],
  state=[("headers","name to list of values","src/headers/headers.rs")],
  observe=["return values of every header operation and full iteration after each step"])

p("C05","A body delivers exactly its bytes, in order, once",
  "However a body is consumed - any mixture of buffered and unbuffered reads with any buffer sizes, directly or through its request or response and whatever else is set on that message, chained with others or not - the consumer receives exactly the bytes of its source in order, cut at the declared length when one is set, followed by end of stream for ever. This holds when the source returns short reads, reports not-ready and wakes later, or is exhausted early, and an I/O error of the source reaches the consumer unchanged without losing or inventing bytes.",
  ["inputs","schedules","fault_sequences"],"all contents, declared lengths, chain shapes, read-size sequences, and all schedules of Pending, short reads and errors of the underlying reader",
  "Tests read a few literals to the end; fidelity quantifies over interleavings of read/fill_buf/consume with partial, pending and failing sources and over chain boundaries.",
  ["src/body.rs","src/request.rs","src/response.rs"],
  [("poll_read / poll_fill_buf / consume length accounting","src/body.rs"),("chain","src/body.rs")],
  state=[("bytes_read","bytes handed out so far","src/body.rs"),("length","declared length","src/body.rs")],
  observe=["bytes returned by AsyncRead/AsyncBufRead"])

p("C06","Body length, type and emptiness are reported truthfully",
  "A body reports the length it was given (the exact byte count for in-memory data and files; nothing when unknown) and the media type that matches how it was built: text, octets, JSON, form, or the type detected for a file. Chaining two bodies reports the sum of what remains of both lengths when that sum is known and representable and otherwise nothing, keeps the media type only when both agree, and setting a media type, emptying or taking a body is reflected in later queries.",
  ["inputs","histories"],"all constructors and contents; all chains of bodies that may have been partially consumed; all file names and contents",
  "Tests check one literal per constructor and two chain examples; partially consumed parts, unknown and near-overflow lengths and file detection are not sampled.",
  ["src/body.rs"],[("length/mime fields, chain","src/body.rs"),("peek_mime/guess_ext","src/body.rs")],
  observe=["Body::len, is_empty, mime, Request/Response::len"])

p("C07","Content-Type header and body stay in step",
  "Giving a message a body (at construction, by set, replace or swap) adds a content-type header with the body's media type exactly when the message has none, and never changes, duplicates or removes one that is already there; the previous body is returned intact where the operation promises it. The content type reported for a message is the one its header states, or nothing when there is no header or it is not a media type.",
  ["histories","inputs"],"all sequences of body replacements, takes, content-type edits and header edits on requests and responses",
  "Only one or two single-step examples are tested; precedence between an existing header and a new body quantifies over histories.",
  ["src/request.rs","src/response.rs"],[("copy_content_type_from_body","src/request.rs, src/response.rs"),("set_body/replace_body/swap_body/take_body","src/request.rs, src/response.rs")],
  observe=["content_type(), header values, bodies returned"])

p("C08","Body decoding round-trips and rejects bad data with 422",
  "A body built from bytes, text, a JSON-serialisable value or a form-serialisable value decodes back to an equal value through the matching decoder, whether read from the body, a request or a response, whatever their headers, method or status say; text, JSON and forms written by somebody else decode to exactly what they state, white space included. Data that does not decode (invalid UTF-8, invalid JSON, invalid form) yields an error with status 422, and no declared length, however large or wrong, makes decoding fail by panicking.",
  ["inputs"],"all byte strings, Unicode strings and serialisable structures; all malformed payloads; all declared lengths",
  "Tests decode a handful of literals.",
  ["src/body.rs","src/request.rs","src/response.rs"],[("into_bytes/into_string/into_json/into_form and body_* helpers","src/body.rs, src/request.rs, src/response.rs")],
  observe=["decoded values and error statuses"])

p("C09","HTTP dates denote the right instant",
  "Formatting an instant representable in an HTTP date (years 1970-9999) yields the IMF-fixdate text of that instant truncated to seconds, and parsing that text, or the RFC 850 or asctime spelling of the same instant, yields it again. Text that is not one of these three forms or names a day or time that does not exist is refused with an error (a weekday name that disagrees with the date and a leap second are not judged); instants order the same before and after.",
  ["inputs"],"every second from 1970-01-01 to 9999-12-31, all three textual forms, and all malformed variants",
  "The unit tests convert fewer than ten instants; leap years, century rules and day/month carries need the whole calendar.",
  ["src/utils/date.rs","src/other/date.rs","src/cache/expires.rs","src/conditional/last_modified.rs","src/conditional/if_modified_since.rs","src/conditional/if_unmodified_since.rs","src/other/retry_after.rs"],
  [("From<SystemTime>/From<HttpDate> calendar arithmetic","src/utils/date.rs"),("parse_imf_fixdate / rfc850 / asctime","src/utils/date.rs")],
  observe=["fmt_http_date/parse_http_date, date headers"])

p("C10","Media types parse per the MIME standard and print back",
  "Parsing a media type string accepts and rejects exactly what the WHATWG MIME Sniffing algorithm accepts and rejects and yields the same type, subtype and parameters (lower-cased type, subtype and parameter names, first of duplicate parameters wins, quoted values unescaped). Printing a media type gives text that parses back to an equal media type, and the parameters can be queried by name in any letter case.",
  ["inputs"],"all strings over ASCII and Unicode, in particular every placement of separators, quotes, escapes, whitespace, duplicates and invalid code points",
  "Sixteen unit tests sample the grammar; agreement with the reference algorithm quantifies over all strings.",
  ["src/mime/parse.rs","src/mime/mod.rs","src/mime/constants.rs","src/content/content_type.rs"],
  [("parse","src/mime/parse.rs"),("format","src/mime/parse.rs")],
  observe=["Mime::from_str, essence, basetype, subtype, param, Display"])

p("C11","Media-type matching is a consistent wildcard order",
  "A media type is covered by a range exactly when the range's type and subtype are equal to it or wildcards and the media type carries every parameter of the range with the same value. Coverage is reflexive and transitive, everything is covered by */*, and a media type with parameters is covered by the same one without them but not the reverse.",
  ["inputs"],"all pairs and triples of media types, with and without wildcards and parameters (including charset)",
  "Tests check a handful of pairs.",
  ["src/mime/mod.rs","src/content/accept.rs"],[("subset_eq","src/mime/mod.rs")],observe=["Mime::subset_eq, PartialEq"])

p("C12","Content negotiation picks the best acceptable offer",
  "Negotiating an Accept, Accept-Encoding or TE preference list against a server's offers returns an offer the client accepts with the highest weight (the later listed preference wins among equal weights; among offers matched by the same preference the one the server lists first wins; a preference without a weight counts as weight one in Accept and ranks below all weighted ones in Accept-Encoding and TE; a media range does not apply to an offer covered by a strictly more specific range of the list; a bare wildcard is considered after every named preference, for the offers no preference names, and then selects the one the server lists first), and an error with status 406 when no offer is acceptable, a preference of weight zero selecting nothing. The answer is always taken from the offers, sorting only permutes the preferences, is stable under repetition, and weights outside 0..1 are refused.",
  ["inputs","histories"],"all preference lists with all weights, duplicates and wildcards, against all offer lists",
  "Each negotiator has a few examples with at most three preferences.",
  ["src/content/accept.rs","src/content/accept_encoding.rs","src/transfer/te.rs","src/utils/mod.rs","src/content/media_type_proposal.rs","src/content/encoding_proposal.rs","src/transfer/encoding_proposal.rs"],
  [("sort_by_weight","src/utils/mod.rs"),("negotiate","src/content/accept.rs, src/content/accept_encoding.rs, src/transfer/te.rs")],
  observe=["negotiate, sort, iter"])

p("C13","Trailers arrive exactly once, whatever the schedule",
  "Trailers sent on a request or response are delivered, complete and unmodified, to the one receiver of that message, no matter how sending, receiving, moving the halves across tasks and dropping them interleave; a receiver whose sender is dropped without sending resolves to nothing instead of waiting for ever, and sending to a receiver that is gone does not block or panic. Whether a message has trailers is reported from the moment a sender is obtained.",
  ["schedules","histories"],"all interleavings of sender and receiver across threads and tasks, including drops before, during and after polling",
  "The tests run one sequential send/receive; exactly-once delivery and wake-ups quantify over schedules.",
  ["src/trailers.rs","src/request.rs","src/response.rs"],[("bounded async channel of size one","src/trailers.rs, src/request.rs, src/response.rs")],
  state=[("trailers_sender/trailers_receiver","channel halves still held by the message","src/request.rs, src/response.rs")],
  observe=["Receiver output, task wake-ups, has_trailers"])

p("C14","Protocol upgrades hand over the connection transparently",
  "A connection sent over a message's upgrade channel reaches its receiver exactly once under any interleaving, or the receiver resolves to nothing when the sender is dropped. Bytes read from and written to the upgraded connection, and flush, close and errors, pass unchanged and in order to and from the underlying stream, including short, pending and failing operations.",
  ["schedules","inputs","fault_sequences"],"all interleavings of the two halves; all read/write/flush/close sequences over all stream behaviours",
  "The upgrade tests contain a single handshake at most; pass-through under partial, pending and failing I/O and hand-over under arbitrary schedules is not sampled.",
  ["src/upgrade","src/request.rs","src/response.rs"],[("channel of size one","src/upgrade"),("AsyncRead/AsyncWrite delegation","src/upgrade/connection.rs")],
  observe=["upgrade::Receiver output, Connection I/O results"])

p("C15","Extensions hold one value per type and drop it once",
  "The typed extension storage of a message (or a free-standing one) behaves as a map from types to single values under any sequence of insert, get, get_mut, remove and clear: insert returns the previous value of that type, other types are untouched, and each stored value is dropped exactly once.",
  ["histories"],"all operation sequences over several types, including values with side effects on drop",
  "The unit test performs five operations.",
  ["src/extensions.rs","src/request.rs","src/response.rs"],[("HashMap keyed by TypeId with identity hashing","src/extensions.rs")],
  observe=["returned values, drop counters"])

p("C16","Converting to and from hyperium/http loses nothing",
  "Converting a request, response, header map, method, status, version or URL to the hyperium http types and back preserves it: every header name keeps all its values in order, and method, URL (its fragment aside, which never travels over HTTP), status, version (one never set becomes HTTP/1.1) and body bytes are unchanged, in either direction. Foreign data that has no counterpart (values that are not ASCII, unknown methods or statuses) is reported as an error by the fallible conversions instead of panicking or being altered.",
  ["inputs"],"all requests and responses of either library, with multi-valued headers, every method, status and version, and any body",
  "There are two tiny conversion tests without multi-valued headers.",
  ["src/hyperium_http.rs"],[("hyperium_headers_to_headers, TryFrom<HeaderMap>, From<Request>","src/hyperium_http.rs")],
  observe=["converted messages, bodies"])

p("C17","Method, status and version codecs are exact bijections",
  "Every method, status code and protocol version converts to its standard text or number and, through every parser, number conversion and serde form the crate offers for it, back to itself, method names are recognised in any letter case and unknown ones are refused; numbers and strings that are not a registered code, method or version are refused everywhere, never mapped to another value. The class predicates partition the codes by their first digit, safety of methods follows RFC 7231, and versions order chronologically.",
  ["inputs"],"all 65536 numbers (and all wider integers offered through serde), all strings, every variant",
  "A few variants are tested; bijectivity is over all variants and rejects over all inputs.",
  ["src/status_code.rs","src/method.rs","src/version.rs"],[("TryFrom<u16>, serde visitors","src/status_code.rs"),("FromStr/Display tables","src/method.rs, src/version.rs")],
  observe=["conversion results"])

p("C18","Request host and remote follow the documented priority",
  "The host of a request is taken from the first source that provides one among the Forwarded header, the first entry of X-Forwarded-Host, the Host header and the URL, in that order, and the remote address likewise from Forwarded, the first entry of X-Forwarded-For and the peer address; the value returned is exactly what that source states for its first hop.",
  ["inputs"],"all combinations of presence, letter case, spacing, quoting and multiplicity of the three headers, the URL and the peer address",
  "Tests use one literal per source.",
  ["src/request.rs","src/proxies/forwarded.rs"],[("host/remote/forwarded_for/forwarded_header_part","src/request.rs")],
  observe=["Request::host, Request::remote"])

p("C19","Malformed typed headers are reported as client errors",
  "When a typed header cannot be parsed from a message the error carries status 400 (406 for negotiation failures), never a server-error status and never a silent default (the parse error of Forwarded, which carries no status, is only required to be an error); when the header is absent the result is \"none\".",
  ["inputs"],"every typed header and every malformed or absent content",
  "About a dozen bad_request tests use one malformed literal each.",
  ["src/cache","src/conditional","src/content","src/transfer","src/auth","src/trace","src/security","src/other","src/utils"],
  [(".status(400)? / ensure! macros","whole crate")],observe=["Error::status of from_headers failures"])

p("C20","Errors keep their status and cause",
  "An error keeps the status code it was created or tagged with through conversion, `?`, wrapping, boxing within the crate and the result and option helpers; the last status set explicitly wins and 500 is reported when none was given (conversion from foreign errors, including boxed ones and anyhow, carries none). A success passes through those helpers unchanged, without running the lazy ones. The message, the type name and the original cause can be recovered from the error, by the cause's type and by no other type, and every form of the error macros produces the same.",
  ["inputs","histories"],"all status codes, all causes, all sequences of status tagging on results and options, all macro forms",
  "Tests touch two or three statuses.",
  ["src/error.rs","src/status.rs","src/macros.rs"],[("Error wrapper over anyhow","src/error.rs"),("Status trait","src/status.rs")],
  observe=["Error::status, downcast, Display, type_name"])

p("C21","Cloned messages are independent of the original",
  "A clone of a request or response has the same method, URL, status, version, headers and addresses and an empty body; afterwards nothing done to one - headers, body, extensions, trailers, upgrade channel - is visible through the other, and the original keeps everything it had.",
  ["histories"],"all operation sequences on a message and its clones, including trailers and upgrades",
  "No test mutates both sides of a clone.",
  ["src/request.rs","src/response.rs"],[("Clone impls","src/request.rs, src/response.rs")],observe=["observable state of both copies after each step"])

p("C22","Safe API use is free of undefined behaviour and races",
  "No sequence of safe calls, from one thread or several, reads or writes invalid memory, leaks uninitialised data, creates an invalid string, or races, for any inputs.",
  ["inputs","schedules","histories"],"all call sequences over the public API and all thread interleavings of its shared parts",
  "The crate contains unsafe string construction and type-erased storage whose soundness depends on every caller; passing tests do not detect undefined behaviour.",
  ["src/headers","src/extensions.rs","src/body.rs","src/trailers.rs","src/upgrade","src/hyperium_http.rs"],[("from_bytes_unchecked and its callers","whole crate"),("Send/Sync of messages","src/body.rs, src/request.rs")],
  observe=["AddressSanitizer, ThreadSanitizer and Miri verdicts over the workloads of the other properties"])

p("C23","Security header helpers emit exactly the policy asked for",
  "The content-security-policy builder emits each directive with its sources in the order they were added, the same text every time it is applied, and in the enforcing or reporting header as chosen; the other helpers set or remove exactly the headers they document (unset powered-by removes it, referrer policies accumulate), applying the default set is the union of its documented parts, and no helper disturbs unrelated headers.",
  ["histories","inputs"],"all builder call sequences and all prior header states",
  "Each helper has one smoke test with a fresh response.",
  ["src/security/mod.rs","src/security/csp.rs"],[("ContentSecurityPolicy::value/apply","src/security/csp.rs"),("helpers","src/security/mod.rs")],
  observe=["header map after each helper call"])

p("C24","Query strings round-trip through requests",
  "Setting the query of a request from a value the query format can express and reading it back yields an equal value, and leaves every other part of the URL unchanged; a missing query reads as an empty one, and a query that does not fit the requested type is an error with status 400.",
  ["inputs"],"all flat and nested structures with any Unicode strings and numbers, all URLs",
  "Tests use two fixed structures.",
  ["src/request.rs"],[("query/set_query","src/request.rs")],observe=["Request::query, Request::url"])

p("C25","Trace context propagates identity unchanged",
  "A trace context read from a message or derived as a child keeps the trace id, version and flags, records the sender's id as its parent and has a fresh id; what it writes to a message is the 55-character W3C traceparent text, is read back with the same trace id and flags, and the sampled flag changes only its own bit.",
  ["inputs","histories"],"all ids, versions and flags, all chains of child/propagate/set-sampled operations",
  "Tests parse one literal.",
  ["src/trace/trace_context.rs"],[("child/from_headers/Display","src/trace/trace_context.rs")],observe=["accessors, header text"])

p("C26","Repeated header lines mean the same as one joined line",
  "For list-valued headers, reading a message that carries the elements on several lines gives the same result as one line joining them with commas, in the same order, with optional white space around separators and empty list elements ignored (Forwarded: as far as the joined line is a form the parser supports); for single-valued headers repeated on several lines the last line decides.",
  ["inputs"],"all element lists and all ways of splitting them over lines and padding separators, for every typed header",
  "Tests almost always use one line per header.",
  ["src/cache","src/conditional","src/content","src/transfer","src/server","src/security/timing_allow_origin.rs","src/trace/server_timing"],
  [("for value in headers { for part in value.split(',') }","from_headers of list headers"),(".iter().last()","from_headers of singletons")],
  observe=["from_headers results"])

p("C27","Message accessors and constructors reflect what was set",
  "A request or response built by any constructor and changed by any sequence of setters reports exactly the method, URL, status, version, addresses and flags last set, the constructor's own values otherwise, conversion into headers, body or bytes hands over exactly the stored parts, and no setter affects an unrelated part.",
  ["histories","inputs"],"all constructor/setter sequences over all methods, URLs, statuses, versions and addresses",
  "Accessors are tested one at a time, most not at all.",
  ["src/request.rs","src/response.rs"],[("field setters and delegation","src/request.rs, src/response.rs")],observe=["every accessor after each step"])

p("C28","Comparisons of values follow what the values carry",
  "For every public value type that can be compared (header names and values, media types and their parameters, methods, statuses, versions, codings and weighted proposals, directives, entity tags, forwarded elements, timing metrics, security policies and the headers that hold one instant or duration), two values are equal exactly when they were built from the same information (letter case of names aside), equality with plain text, numbers or the held type agrees with that in both directions, a clone equals its original, and equal values hash alike. Types with an order are ordered by the instant, duration, version or weight they carry, consistently in every form of comparison and in sorting.",
  ["inputs"],"all pairs and triples of values of every comparable type, however they were built",
  "Unit tests compare a value with one literal; laws over pairs and triples are never exercised.",
  ["src/headers/header_name.rs","src/headers/header_value.rs","src/headers/header_values.rs","src/mime/mod.rs","src/status_code.rs","src/content/encoding_proposal.rs","src/content/media_type_proposal.rs","src/transfer/encoding_proposal.rs","src/other/date.rs","src/other/retry_after.rs","src/proxies/forwarded.rs"],
  [("PartialEq, PartialOrd and Hash implementations, written and derived","src/**/*.rs")],observe=["==, <, cmp, hash and clone of values against the data they were built from"])

p("C29","Memory use follows the data and is given back",
  "Parsing a header or string, decoding or streaming a body, and copying or converting a message holds memory in proportion to the bytes actually supplied: numbers, lengths and counts that are merely declared never drive an allocation, streaming a body or an upgraded connection through a small buffer holds a bounded window however long the stream is, and once the values are dropped - also after errors, refused input, abandoned reads, cancelled sends and unreceived trailers or upgrades - everything allocated for them is returned.",
  ["inputs","histories","schedules"],"all inputs, declared lengths, stream lengths and histories of operations including abandoned ones",
  "Unit tests look at results, never at what is held; a preallocation or leak passes every one of them.",
  ["src/body.rs","src/request.rs","src/response.rs","src/extensions.rs","src/trailers.rs","src/upgrade/connection.rs","src/headers/headers.rs","src/parse_utils.rs","src/mime/parse.rs","src/trace/server_timing/parse.rs"],
  [("decoders and stream adapters","src/body.rs"),("parsers that collect","src/**/*.rs")],observe=["live, peak and total bytes per thread of a counting allocator"])
p("C30","Results depend on the inputs alone, on every thread, every time",
  "What an operation returns depends only on its arguments and the value it is called on: parsing, printing, building, decoding, converting, comparing or negotiating the same data gives the same result again, whatever the process did before - also after near variants of the same data, after errors and after many repetitions -, on whichever thread, while other threads do the same or read the same shared value, and in a fresh process under another environment. Excepted are the order in which header names, members of sets and policy directives are listed, identifiers documented as random, and the clock.",
  ["inputs","histories","schedules"],"all operations, all histories of other operations before them, all interleavings with other threads, all environments",
  "Each unit test calls a function once, in one order; a stale cache, a reused buffer, a global switch or a result resolved in hash order shows itself only to a second, different or concurrent call.",
  ["src/headers/headers.rs","src/mime/parse.rs","src/utils/date.rs","src/utils/mod.rs","src/parse_utils.rs","src/content/accept.rs","src/body.rs","src/request.rs","src/response.rs"],
  [("everything that parses, prints or decodes","src/**/*.rs"),("values shared between threads","src/headers/headers.rs")],observe=["descriptions of everything each operation returns, compared between runs, threads and processes"])

out=os.path.join(os.path.dirname(os.path.abspath(__file__)),"..","properties.jsonl")
with open(out,"w") as f:
    for x in P: f.write(json.dumps(x,ensure_ascii=False)+"\n")
for x in P:
    assert len(x["title"])<=80,x["id"]
print(len(P))
