#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so the text stays reviewable)."""
import json, os
I = "include/fitoria/"
P = []
def p(id, title, statement, over, qtext, why, files, mech, **anch):
    a = {"files": [I + f if not f.startswith("/") else f[1:] for f in files], "mechanism": [{"name": mech, "where": ", ".join(I + f for f in files[:3])}]}
    a.update(anch)
    P.append(dict(id=id, title=title, statement=statement,
                  quantifier={"over": over, "text": qtext},
                  why_tests_cant=why, anchors=a))

p("C01", "Base64 encoding is exact RFC 4648 and loses nothing",
  "For every byte string, base64 encoding yields exactly the RFC 4648 text for the chosen alphabet (standard or URL-safe) and padding choice, and decoding that text with the same alphabet gives back the original bytes. Feeding the input piecewise, or reusing one encoder object for further messages, yields the same text as encoding each message in one go.",
  ["inputs", "histories"], "every byte string, both alphabets, padded or not, every split of the input into single-byte feeds, every reuse history of one encoder",
  "The tests encode a dozen short ASCII strings; bytes above 0x7f, long inputs, reuse after a flush and the URL alphabet for all 64 symbols are never reached.",
  ["encoding/base64/encoder.hpp", "encoding/base64/decoder.hpp", "encoding/base64/alphabet.hpp"],
  "three-state encoder carrying the leftover bits of the previous byte between calls; alphabet and decode tables")

p("C02", "Base64 decoding accepts only well-formed text and never misreads",
  "Decoding arbitrary text either returns exactly the bytes it denotes (padding optional, only characters of the chosen alphabet) or reports invalid input: for any character outside the alphabet whatever its byte value, any data after padding, a single leftover character, or misplaced padding. Character-at-a-time decoding reports the same verdict and bytes as decoding at once, and once it has reported an error it stays failed until it is given a fresh decoder.",
  ["inputs", "histories"], "every text over all 256 byte values, both alphabets, at once or character by character",
  "The tests use a handful of ASCII texts; bytes >= 0x80 and long mutated texts are never decoded.",
  ["encoding/base64/decoder.hpp", "encoding/base64/alphabet.hpp"],
  "per-character state machine with padding states and a 256-entry decode table")

p("C03", "An optional value behaves like 'a value or nothing' after any history",
  "After any sequence of constructions, assignments (from values, from empties, from other optionals of the same or a convertible type), emplacements, swaps, resets, moves and copies, an optional reports engaged or empty, and yields the contained value, exactly as a plain 'either nothing or this value' model does. Access to an empty one throws the documented exception, fallbacks return the fallback, and the chaining operations call their function exactly when, and with exactly the value, the model prescribes.",
  ["histories", "inputs"], "every finite sequence of operations over several optionals, with trivially copyable, heap-owning, move-only and convertible element types, through every value category",
  "The unit tests run each operation once from one or two prior states; combinations of prior state, element type and value category are sampled, not covered.",
  ["core/optional.hpp"], "engaged flag plus union storage, constructed and destroyed by hand in every operation")

p("C04", "An optional reference rebinds and never copies; optional void is a flag",
  "An optional holding a reference always refers to the object it was last bound to (never to a copy), rebinding or emptying it never modifies the referred objects, and assigning an empty optional of any compatible type empties it. An optional of nothing carries only engaged/empty, with assignment, swap, reset and chaining behaving accordingly.",
  ["histories"], "every finite sequence of bind, rebind, assign, convert, swap, reset and chaining operations over several optional references and optional voids",
  "The tests bind and check a single reference; assignment from an empty optional of a different reference type and longer histories are not run.",
  ["core/optional.hpp"], "pointer-based specialisation for references, flag-only specialisation for void")

p("C05", "Optional never leaks, double-destroys or breaks when a value throws",
  "Whatever sequence of operations is applied to optionals, and whichever copy, move, assignment or construction of the element throws, every element ever constructed is destroyed exactly once, no element is used before construction or after destruction, and every optional afterwards is either empty or holds one live element. An operation that throws while constructing into an empty optional leaves it empty, and one that throws while assigning to a held element leaves an element held.",
  ["fault_sequences", "histories"], "every operation history times every choice of which element special member throws",
  "No test uses an element type that counts its lifetimes or throws.",
  ["core/optional.hpp"], "manual construct/destroy order relative to the engaged flag")

p("C06", "An expected holds exactly one of value or error after any history",
  "After any sequence of constructions, assignments (from values, from errors, from other expecteds of the same or a convertible type), emplacements, swaps, moves and copies, an expected reports value or error, and yields that value or error, exactly as a plain two-alternative model does. Accessing the value of an errored one throws an exception carrying that error, fallbacks return the fallback, and the chaining operations call their function exactly when, and with exactly the payload, the model prescribes, passing the other alternative through unchanged.",
  ["histories", "inputs"], "every finite sequence of operations over several expecteds, with trivial, heap-owning, move-only and convertible value and error types, through every value category",
  "The unit tests run each operation once from one or two prior states with one or two type pairs.",
  ["core/expected.hpp"], "discriminated union managed by hand; switch between alternatives re-initialises storage")

p("C07", "Expected of a reference or of nothing keeps binding and error intact",
  "An expected reference always refers to the object it was last bound to and never modifies or copies it on rebinding; an expected of nothing carries only success. For both, switching to an error by assignment, construction, conversion or swap stores exactly that error, switching back discards it, and errors pass through chaining operations unchanged.",
  ["histories"], "every finite sequence of operations over several expected references and expected voids with trivial and heap-owning error types",
  "The tests never assign an error to an expected reference that holds a value with a heap-owning error, nor run longer histories.",
  ["core/expected.hpp"], "pointer/error union for references, error-only union for void")

p("C08", "Expected never leaks, double-destroys or breaks when a payload throws",
  "Whatever sequence of operations is applied to expecteds, and whichever copy, move, assignment or construction of a value or error throws, every payload ever constructed is destroyed exactly once and never used before construction or after destruction. An operation that throws leaves each involved expected in the alternative it was in, still holding one live payload (or the same reference), so that it can be used or destroyed safely.",
  ["fault_sequences", "histories"], "every operation history times every choice of which payload special member throws, for throwing-value, throwing-error, reference and void variants",
  "No test uses a payload that counts its lifetimes or throws.",
  ["core/expected.hpp"], "re-initialisation helper and swap with rollback on exceptions")

p("C09", "Comparisons of optionals and expecteds agree with their payloads",
  "Two optionals compare as their values do when both are engaged, an empty one is equal only to an empty one and orders before every engaged one, and comparing with a plain value is the same as comparing with an engaged optional of it; this includes values that are unordered with respect to each other. Expecteds are equal exactly when they hold the same alternative with equal payloads.",
  ["inputs"], "every pair of (empty or engaged) operands of the same or different element types, including NaN, through every relational operator and three-way comparison in both operand orders",
  "The tests compare a few integers; empty operands of the three-way comparison and unordered values are never tried.",
  ["core/optional.hpp", "core/expected.hpp"], "hand-written relational operators and a separate three-way operator")

p("C10", "Text converts to numbers and flags exactly or fails with the right error",
  "Converting text to an integer or floating-point type succeeds exactly when the whole text is a number in the documented format that the type can represent, and then yields precisely that number (the nearest representable one for a floating type); otherwise it reports invalid input for text that is not entirely a number, and out-of-range for a number that does not fit (text that begins with a number too large and goes on with something else may report either). Flags accept exactly 1/t/true/y/yes and 0/f/false/n/no in any letter case, and converting text to a string is the identity.",
  ["inputs"], "every text, for every integer width and signedness, floating type and flag",
  "The tests try a few values per type; boundary neighbours, trailing garbage, overflow and mixed case for all types are sampled only.",
  ["core/from_string.hpp", "core/detail/from_string_impl.hpp"], "customisation point dispatching on the target type, full-consumption check after the parse")

p("C11", "Case-insensitive comparison, trimming and splitting are lawful",
  "Case-insensitive equality and ordering on ASCII text are those of the lower-cased texts, character by character, so they agree with each other and form a total order; trimming removes exactly the leading and/or trailing whitespace and nothing else. Splitting a text on delimiter characters yields exactly one piece more than there are delimiters, in order, each being the trimmed text between two neighbouring delimiters.",
  ["inputs"], "every pair or triple of texts, every delimiter set",
  "The tests fix a handful of literals.",
  ["core/strings.hpp"], "character-wise folding comparison; find_first_of based splitting; views into the input")

p("C12", "Entity tags round-trip and compare as HTTP prescribes",
  "Parsing accepts exactly an optional case-sensitive weakness prefix W/ followed by a double-quoted string of entity-tag characters (RFC 9110: visible ASCII except the quote, and obs-text), and serialising the parsed tag gives the same text back. Tags are equal exactly when both their opaque text and their strength are; weak comparison looks at the opaque text only.",
  ["inputs"], "every header text over all byte values; every pair of tags",
  "The tests try a dozen literals; non-ASCII bytes, DEL and mutated quoting are not covered.",
  ["http/header/entity_tag.hpp"], "prefix and quote stripping with a per-character validity predicate")

p("C13", "If-None-Match lists parse to exactly the listed entity tags",
  "A header value that is a single asterisk means 'any'; a comma-separated list of well-formed entity tags with optional surrounding whitespace parses to exactly those tags in order with their weakness, including tags whose quoted text contains commas; anything malformed is rejected as a whole. Serialised lists of tags therefore survive a parse unchanged.",
  ["inputs"], "every header text; every list of entity tags",
  "The tests try a few literals with simple tags; commas or odd characters inside quotes and long lists are not covered.",
  ["http/header/if_none_match.hpp", "http/header/entity_tag.hpp"], "list splitting followed by per-item entity-tag parsing")

p("C14", "A parsed byte range is the one its text denotes, without wrap-around",
  "For every Range header text and resource size, parsing succeeds only for a unit followed by one suffix range or a list of first-last / first- ranges, and each resulting sub-range is the one the text denotes: 'a-b' is b-a+1 units from a, 'a-' runs from a to the end of the resource, and '-n' is the last n units (the whole resource if it is shorter). No accepted text yields wrapped-around offsets or lengths; open-ended ranges that start at or beyond the end of the resource and malformed texts are refused.",
  ["inputs"], "every header text and every 64-bit resource size, in particular sizes smaller than the numbers in the text and numbers near 2^64",
  "All tests use size 1000 with in-bounds numbers.",
  ["http/header/range.hpp", "web/static_file.hpp"], "unsigned arithmetic on text numbers and the resource size; the file handler trusts offset+length")

p("C15", "HTTP dates print as IMF-fixdate and keep the instant",
  "Every representable time point prints as the RFC 9110 IMF-fixdate of its UTC second (floor), matching an independent civil-calendar computation. Converting a date between the file clock and the UTC clock keeps the instant for every instant both can represent, and dates order and compare as their instants do.",
  ["inputs"], "every time point from the distant past to the distant future, including before 1970, leap days and sub-second parts",
  "The tests print one or two fixed dates.",
  ["http/header/date.hpp", "core/chrono.hpp"], "clock conversions and chrono formatting")

p("C16", "HTTP versions convert consistently between all representations",
  "Each HTTP version has its own fixed text, and converting it to the wire library's number (9, 10, 11, 20, 30) and back gives the same version; every other number is the unknown version, and the unknown version is sent as 11. Formatting a version through the formatting library prints that same text wherever it is placed, and format specifications are refused rather than misapplied.",
  ["inputs"], "every enumerator, every integer passed to the conversion, every format specification",
  "The tests check each listed enumerator once and no other numbers.",
  ["http/version.hpp"], "switch tables in both directions")

p("C17", "Media types parse into the parts their text spells out",
  "A text is accepted exactly when it is type/subtype with an optional +suffix and ;name=value parameters (surrounding whitespace allowed, at most one slash, plus sign and equals sign per part, names that start with an ASCII letter or digit and go on with the characters RFC 6838 allows in names: letters, digits and !#$&-^_.); the type, subtype, suffix and parameters obtained are exactly those pieces. Of parameters that repeat a name (in any letter case) the last counts. The source and the essence are the given text and its type part, and media types are equal, and order, exactly as their lower-cased source texts do.",
  ["inputs"], "every text over all byte values, and every structure of type, subtype, suffix and parameters with random letter case and spacing",
  "The tests parse some well-known types; combinations of parameters, spacing, duplicate names and malformed separators are sampled.",
  ["mime/mime_view.hpp", "mime/name_view.hpp", "mime/params_view.hpp"], "split on ';', '/', '+', '=' with trimming and name validation, storing views into the source")

p("C18", "Media-type names and parameters behave as a case-insensitive map",
  "Media-type names are equal, and order, exactly as their lower-cased texts do, against other names and plain text alike. A parameter set behaves, after any sequence of insertions, overwrites, lookups, erasures and clears, like a map keyed by case-insensitive name, and two sets are equal exactly when they have the same names with the same values up to letter case.",
  ["histories", "inputs"], "every sequence of operations with keys that coincide only up to letter case; every pair or triple of names",
  "The tests perform each operation once on tiny sets.",
  ["mime/params_view.hpp", "mime/name_view.hpp"], "ordered map with a case-insensitive comparator")

p("C19", "File extensions and paths map to media types consistently",
  "Looking up a media type by extension does not depend on letter case, and looking it up by path is the same as looking up the path's last dot-separated part; unknown extensions and paths without one give nothing. Every type the lookup returns is itself a well-formed media type that parses back to an equal one.",
  ["inputs"], "every path text and every extension in every letter case",
  "The tests check listed extensions in one letter case.",
  ["mime/mime_view.hpp"], "sorted/static table lookup on the text after the last dot")

p("C20", "Route patterns are accepted and tokenised exactly by the grammar",
  "A route pattern is accepted exactly when it consists of literal path text with well-formed percent escapes, {name} parameters each filling one whole path segment, and, where wildcards are allowed, one trailing #name wildcard (never directly behind a parameter), with all names non-empty and distinct. The tokens obtained spell the pattern back in order, and evaluation at compile time and at run time agree.",
  ["inputs", "programs"], "every pattern text, with and without wildcards, at run time; generated literals at compile time",
  "The tests try a table of short patterns.",
  ["web/path_parser.hpp"], "hand-written constexpr scanner with per-token state and duplicate detection")

p("C21", "Shared state lookup returns the innermost registration and nothing leaks",
  "Looking up shared state by type returns the object registered for exactly that type in the nearest registered scope that has one, or nothing when none has; the object returned is the shared one, not a copy. Deriving a new registration from an existing one never changes what the existing one, or anything else derived from it, returns.",
  ["histories"], "every sequence of deriving registrations by prepending, appending or inserting state of several types, followed by lookups on all of them",
  "The tests register one or two states and look at the final one only.",
  ["web/state_storage.hpp", "web/route.hpp", "web/scope.hpp"], "vector of shared type-indexed maps searched front to back")

p("C22", "Log levels parse and filter as their order prescribes",
  "Level names parse in any letter case to the level whose text they are and anything else means off; text and parse are mutual inverses. A filter lets a record through exactly when its level is among those it was built from (a list, all, at-least-this, or the environment setting), and never lets the off level through.",
  ["inputs", "configurations"], "every text, every subset of levels, every threshold, every environment setting",
  "The tests try a few filters and names.",
  ["log/level.hpp", "log/filter.hpp"], "level/text tables and a bit set of allowed levels")

p("C23", "Log formatting prints each record field where the pattern puts it",
  "For every record and pattern, the formatted line is the pattern with each field placeholder replaced by that field of the record under its format specification, followed by the chosen newline; the file-name-only option keeps exactly the part after the last slash or backslash. Message text is printed verbatim, whatever characters it contains, and colours appear only when enabled and do not change the other text.",
  ["inputs", "configurations"], "every message, source location, level, pattern, newline and option combination",
  "The tests format one record with a few patterns.",
  ["log/formatter.hpp", "log/record.hpp"], "named-argument runtime formatting")

p("C24", "Framework error codes are distinguishable and round-trip",
  "Every error the framework defines converts to a non-zero error code that compares equal only to itself, carries its category's name and a message of its own, and converts back to the same error. Unknown numbers never crash and never masquerade as a defined error's message.",
  ["inputs"], "every enumerator and every integer in each framework error category",
  "The tests check listed messages only.",
  ["web/error.hpp", "web/middleware/detail/brotli_error.hpp"], "error_category subclasses with message switches")

p("C25", "Compile-time strings and function utilities compose faithfully",
  "Concatenating compile-time strings yields exactly the concatenated text with its size, whatever characters they contain and however the operands are grouped, and equal texts are the same template argument; reversing a tuple reverses the order of its elements and keeps their types and values. Visiting with an overload set calls exactly the matching alternative once, forwarding its argument, and a customisation point calls the function registered for its argument with the argument forwarded.",
  ["inputs", "programs"], "generated literals, tuples and byte strings",
  "The tests use one or two literals.",
  ["core/fixed_string.hpp", "core/utility.hpp", "core/bytes.hpp"], "constexpr array copy and index-sequence reversal")

p("C26", "The router finds a registered route whenever one matches, in any order",
  "After registering any set of routes in any order, looking up a method and path finds a route exactly when a registered pattern matches the path for that method (or for any method), preferring literal text over parameters over wildcards at the first place where they differ, and a route of that method over one of any method; a second route with the same method and pattern (parameter names apart) is refused and leaves the first in place. Optimising the router never changes what a lookup returns.",
  ["histories", "inputs"], "every set and insertion order of patterns with shared prefixes, parameters and wildcards, every lookup method and path, before and after optimisation",
  "The tests insert a few fixed route tables; prefix relations between siblings in unusual insertion orders are not covered.",
  ["web/router.hpp", "web/path_matcher.hpp", "web/any_routable.hpp"], "radix tree with node splitting and per-node literal/parameter/wildcard children")

p("C27", "Path matching captures each parameter's exact text",
  "A path matches a pattern exactly when its literal parts are equal character for character and each parameter stands for one non-empty segment (a wildcard for any remainder); the captured values are those texts under their names in pattern order. Characters in literal text have no other meaning than themselves.",
  ["inputs"], "every accepted pattern and every path",
  "The tests match a dozen fixed pairs without special characters.",
  ["web/path_matcher.hpp", "web/path_info.hpp"], "pattern translated to a regular expression with named groups")

p("C28", "Query and path parameter maps behave as maps of decoded text",
  "A query map or path-parameter map behaves, after any sequence of insertions, lookups, erasures, clears, copies and comparisons, like a map from name to value (path parameters in pattern order too); printing a query map lists every entry once. The map made from a query string or form body holds the percent-decoded text of every name=value pair, the last of a name counting.",
  ["histories"], "every sequence of map operations",
  "The tests perform each operation once.",
  ["web/query_map.hpp", "web/path_info.hpp", "web/detail/as_form.hpp", "core/unordered_string_map.hpp"], "hash map with heterogeneous lookup")

p("C29", "Header maps are case-insensitive and keep every value",
  "A header map behaves like a multimap keyed by case-insensitive field name after any sequence of inserts, sets, erases and lookups: set replaces all values of a name, insert adds one, lookup by name text and by known field agree.",
  ["histories"], "every sequence of header operations with names in any letter case",
  "The tests perform each operation once.",
  ["http/header_map.hpp", "http/field.hpp"], "wrapper around the wire library's field container")

p("C30", "Nested scopes compose path, state and middleware outside-in",
  "A route served through any nesting of scopes is reachable under the concatenation of their paths, sees the state of its own registration before that of inner and then outer scopes, and is wrapped by the outermost scope's middleware first, in registration order; what is added to a scope after a route was served applies to later routes only, and deriving a scope never changes the one it is derived from or sibling routes.",
  ["programs", "histories"], "every nesting and registration order of scopes, routes, state and middleware",
  "The tests build two or three fixed nestings.",
  ["web/scope.hpp", "web/route.hpp", "web/to_middleware.hpp", "web/router.hpp"], "template rebind on serve; tuple reversal when building the middleware chain")

p("C31", "Body streams deliver every byte once, in order, however it is chunked",
  "Reading a body through any readable stream, until its end or into a file, with any sequence of buffer sizes yields exactly the bytes the stream was made from, once and in order, then end-of-file; appending to and consuming from a dynamic buffer behaves like a byte queue.",
  ["histories", "inputs"], "every body, chunking and buffer-size sequence",
  "The tests use one body and one or two buffer sizes.",
  ["web/any_async_readable_stream.hpp", "web/async_readable_vector_stream.hpp", "web/async_read_until_eof.hpp", "core/dynamic_buffer.hpp"], "type-erased asynchronous stream with offset bookkeeping")

p("C32", "Compressed bodies round-trip under every chunking and corrupt ones fail",
  "Compressing a body with any supported content coding and decompressing it yields the original bytes for every body and every chunking on either side; a compressed body that is truncated, followed by other data or not valid in its format yields an error, never a crash, a hang or other bytes; the decompress middleware undoes the request's content codings in reverse order and refuses one it does not know.",
  ["inputs", "fault_sequences"], "every body, coding, chunk size and corruption",
  "The tests round-trip one short text per coding.",
  ["web/middleware/detail/async_inflate_stream.hpp", "web/middleware/detail/async_deflate_stream.hpp", "web/middleware/detail/async_gzip_inflate_stream.hpp", "web/middleware/detail/async_gzip_deflate_stream.hpp", "web/middleware/detail/async_brotli_inflate_stream.hpp", "web/middleware/detail/async_brotli_deflate_stream.hpp", "web/middleware/decompress.hpp"], "asynchronous stream adaptors around zlib and brotli contexts")

p("C33", "Request and response bodies are framed exactly on the wire",
  "Handlers are called once per request, in order, and read exactly the request's body, whether framed by length or chunks; every response a handler returns reaches the client with its status, headers and body bytes intact, framed by length or, for HTTP/1.1 clients, chunks so that the next response on a kept-alive connection starts exactly after it, however much of a request's body its handler read; a body is sent only where the method and status allow one; a handler or body that fails ends only its own connection, never with a response that looks whole.",
  ["histories", "inputs"], "every sequence of requests on one connection and every response body kind and size",
  "The tests exchange a few requests over loopback.",
  ["web/http_server.hpp", "web/async_write_chunks.hpp", "web/response.hpp"], "session loop over the wire library's serializer and chunk writer")

p("C34", "Server limits and timeouts are enforced for every client behaviour",
  "A request whose header section exceeds the configured limit is answered 400 and the connection is closed; one whose body exceeds the limit, or whose bytes do not arrive within the configured timeout, ends with a closed connection at that moment; no handler ever takes a truncated body for a whole one (reading it fails), and other connections, and requests within the limits, are unaffected, also when accepting a connection fails.",
  ["schedules", "fault_sequences"], "every client timing, size and disconnect point",
  "The tests try one oversize body and one idle client.",
  ["web/http_server.hpp", "web/async_message_parser_stream.hpp"], "parser limits and stream expiry timers in the session coroutine")

p("C35", "Extractors hand a handler exactly what the request carries or reject it",
  "For every request, each extractor (path, query, form, JSON, state, body, connection) yields the values the request carries, in any combination; a request that does not carry them is answered with the rejection of an extractor that failed (400 for what the request lacks, 500 for what the server lacks, the response of the user's own extractor) without calling the handler, and leaves the connection and other requests undisturbed. What a handler does to its extracted copies is not seen by other requests.",
  ["inputs"], "every request shape against every extractor",
  "The tests send one good and one bad request per extractor.",
  ["web/from_request.hpp", "web/path_of.hpp", "web/query_of.hpp", "web/form_of.hpp", "web/json_of.hpp", "web/state_of.hpp", "web/handler.hpp"], "customisation point per extractor type; handler invocation after all extractions")

p("C36", "Static files are served whole, partial or not-modified consistently",
  "For every file and every combination of Range, If-None-Match and If-Modified-Since headers, the response carries exactly the requested bytes of the file: the whole with 200, the first requested range with 206 and its positions in Content-Range, nothing with 304 when the client's validator is current, with 416 when the range is not within the file, and with 400 when the condition is malformed. Entity tag and Last-Modified are the same for the same size and second of modification and differ otherwise, Content-Type and Content-Disposition name the file, and a file that fails while it is read never ends like a whole one.",
  ["inputs"], "every file size, range text and conditional header",
  "The tests serve one file with a few headers.",
  ["web/static_file.hpp", "web/async_readable_file_stream.hpp"], "range and validator evaluation before choosing the response variant")

p("C37", "WebSocket messages arrive whole and in order until either side closes",
  "A connection switches to the websocket protocol exactly when the handshake is valid and the handler returns the response of set_handler(), whose header fields are sent with the 101; every other request for an upgrade gets an ordinary response (400 for a malformed handshake, 426 naming version 13 for another version, otherwise the handler's own) and the connection goes on serving requests. In a session every message either side sends arrives exactly once, with its kind and bytes and in order, whatever its size, its fragmentation and the control frames in between, until one side closes: a close by the client is read as close_t and answered, a close by the handler carries its code and completes with the client's answer. A disconnect, a violation of the protocol, or silence beyond the idle timeout that was set ends reads with an error and never as a message, and no limit set to none ends a session. When the handler of the session returns or throws, the connection ends without serving further requests, the exception reaches the exception handler, and other connections are not affected.",
  ["histories", "schedules"], "every message sequence, fragmentation, end and interleaving of the two sides, and every handshake",
  "The tests exchange fifty messages with one client, one close and one timeout.",
  ["web/websocket.hpp", "web/http_server.hpp"], "wrapper around the wire library's websocket stream")

p("C38", "Every enabled log record reaches every writer exactly once, in order",
  "Each record whose level the filter allows, submitted through a logger or through the functions of the default logger, is written exactly once, whole and unmixed with other records, to every writer attached before it, with the time, level, place and message of its submission, in submission order per thread, with any number of threads logging and whatever the buffer size; ending or replacing a logger returns once everything submitted to it is written, and nothing touches it afterwards.",
  ["schedules"], "every interleaving of logging threads and shutdown",
  "The tests log a few records from one thread.",
  ["log/async_logger.hpp", "log/registry.hpp", "log/async_stream_file_writer.hpp", "log/sync_stream_file_writer.hpp"], "strand-serialised writers and a registry of loggers")

p("C39", "Status codes classify and describe themselves consistently",
  "Every status code's class is the one its hundreds digit denotes, its number and enumerator convert both ways, numbers outside the known set are handled without loss, and equality compares the numbers.",
  ["inputs"], "every integer as a status code",
  "The tests check a few codes.",
  ["http/status_code.hpp", "http/status_class.hpp"], "conversions through the wire library's status enumeration")

p("C40", "A request or response carries exactly what its builder was given",
  "Whatever sequence of setters is called on a response, test request or request builder, as lvalue or rvalue and across repeated rebuilding, the built object has exactly the status, method, version, header multimap, query parameters, body kind and body bytes last given to it, and everything not set stays as it was.",
  ["histories"], "every history of builder calls and body forms",
  "The tests set one header and one body per builder.",
  ["web/request.hpp", "web/response.hpp", "web/test_request.hpp", "web/any_body.hpp", "web/async_readable_vector_stream.hpp"], "builders that move their parts into the built object and back")

p("C41", "Whatever a handler returns or throws becomes exactly one documented response",
  "A handler's result becomes the response it denotes, however variants and expecteds are nested: a response as it is, a string as 200 text/plain, a vector as 200 application/octet-stream of its bytes, a variant or expected as what it holds, a user's type as its customisation says; the handler is called at most once, in any callable form. Inside the exception handler middleware, a std::exception thrown by anything within becomes an empty 500 response and one error record with its text, and everything else passes unchanged; the logger middleware leaves the response as it is and logs one info record with remote address, method, path, status, user agent and duration for each response. An exception of any type that nobody catches ends only its own connection without a response and reaches the server's exception handler once.",
  ["inputs", "programs"], "every result type, callable form, exception and arrangement of middlewares",
  "The tests return four result types and throw one exception.",
  ["web/to_response.hpp", "web/handler.hpp", "web/middleware/exception_handler.hpp", "web/middleware/logger.hpp", "web/http_server.hpp"], "a customisation point with overloads per result type; coroutine middlewares around the handler")

p("C42", "An operation awaited as an expected yields exactly its outcome",
  "An asynchronous operation started with the framework's token, or any token or callback wrapped by as_expected, completes exactly once with an expected that holds the value when its error code says success and that very error code, category included, otherwise; values are moved in and never copied needlessly, lost or leaked, the arguments of the operation arrive unchanged, the handler is the one that was given and keeps its executor, and an operation that never completes leaves nothing behind.",
  ["inputs", "schedules"], "every value type, error, moment of completion and form of token",
  "The tests name the types only.",
  ["core/as_expected.hpp", "core/net.hpp"], "completion-token adapter that turns (error_code, value) into expected")

p("C43", "Servers answer on exactly the addresses they are bound to",
  "Binding succeeds exactly when the text is an address, it is not taken and the system lets it be opened and listened at; otherwise it returns the error, never throws, and leaves the address free. Every connection to a bound address is served by the server bound there, one to any other is refused, and each request sees the addresses of both ends of its connection; failing accepts, handlers that never end and other servers on the same context do not disturb it. When the context ends, at any moment, every handler and connection ends with it.",
  ["histories", "fault_sequences"], "every history of binds, clients and failures over several servers",
  "The tests bind one loopback port.",
  ["web/http_server.hpp", "web/detail/make_acceptor.hpp", "web/detail/make_endpoint.hpp", "web/connect_info.hpp"], "acceptor set-up step by step with early return; one coroutine per listener and connection")

for q in P:
    assert len(q["title"]) <= 80, (q["id"], len(q["title"]))
    for f in q["anchors"]["files"]:
        if not os.path.exists("/repo/" + f): print("missing", q["id"], f)
with open(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl"), "w") as f:
    for q in P: f.write(json.dumps(q) + "\n")
print(len(P))
