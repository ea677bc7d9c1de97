#!/usr/bin/env python3
"""Writes MANIFEST.json from the property list, the harness table and the notes below."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, "tools"))
from harnesses import HARNESSES

# property -> (technique, what the check gives)
N = {
 "C01": ("round-trip and differential property-based testing against an independent RFC 4648 encoder",
         "Random and structured byte strings (all lengths mod 3, all alphabets/padding, piecewise feeding, encoder reuse)."),
 "C02": ("grammar-based fuzzing with mutations, differential against an independent RFC 4648 decoder",
         "Valid texts, single and multiple mutations, raw bytes; both decode entry points on exact-size heap copies."),
 "C03": ("stateful model-based testing of operation histories against an either-nothing-or-value model",
         "Histories over several optionals of tracked, move-only, convertible and trivially copyable element types."),
 "C04": ("stateful model-based testing of reference and void optionals against an address model",
         "Histories over optional references (const, derived, cross-type) and optional<void>."),
 "C05": ("stateful fault injection: generated histories with a throwing element operation at a generated point",
         "Every element construction is tracked by address; the n-th copy/move/assign/construct throws."),
 "C06": ("stateful model-based testing of operation histories against a two-alternative model",
         "Histories over expecteds of tracked, convertible and trivial payloads, all construction and chaining forms."),
 "C07": ("stateful model-based testing of expected<T&>/expected<void>/move-only histories against a model",
         "Binding is compared by address, errors by content; all conversions between the forms."),
 "C08": ("stateful fault injection: generated histories with a throwing payload operation at a generated point",
         "Every payload construction is tracked by address; the alternative after each throw is checked."),
 "C09": ("property-based testing of comparison laws against the payloads' own operators",
         "Logging payload types with asymmetric and unordered comparisons; every operator, every operand form."),
 "C10": ("grammar-based fuzzing with an exact big-integer/strtold oracle",
         "Number texts around every type's limits, mutations, garbage; floats compared bit for bit."),
 "C11": ("property-based testing of algebraic laws and differential against naive references",
         "Case-insensitive order laws, trimming, splitting on random delimiter sets; exact-size heap inputs."),
 "C12": ("grammar-based fuzzing with mutations against an independent RFC 9110 entity-tag parser",
         "Acceptance, fields, serialise/parse round trip and comparison laws."),
 "C13": ("grammar-based fuzzing with mutations against an independent list parser; round trip",
         "Lists with commas in tags, whitespace, stray separators, serialised lists."),
 "C14": ("grammar-based fuzzing against an arbitrary-precision range interpreter",
         "Header texts and sizes around 0, the size and the 64-bit limits."),
 "C15": ("property-based testing against an independent civil-calendar computation",
         "Instants across the whole representable range, second boundaries, leap days, clock conversions."),
 "C16": ("exhaustive-enumeration plus generated conversions and format-string fuzzing",
         "All versions, all 32-bit numbers by generation, format placements and refused specs."),
 "C17": ("grammar-based fuzzing with mutations against an independent media-type parser",
         "Acceptance, every part, parameters, source/essence, equality and ordering laws."),
 "C18": ("stateful model-based testing against a case-insensitive map; comparison laws",
         "Histories over parameter sets; names against names and texts."),
 "C19": ("table enumeration plus metamorphic property-based testing (case, path, parse)",
         "Every table entry in generated letter cases, near-misses, paths with dots and slashes."),
 "C20": ("grammar-based fuzzing against an independent pattern parser; generated compile-time/run-time differential",
         "Patterns and mutations at run time; a seeded batch of patterns is compiled and compared with run time."),
 "C21": ("stateful model-based testing of state registrations and derived copies against a scope-list model",
         "Histories of inserts, derivations, lookups over many types; object identity checked."),
 "C22": ("property-based testing against an order model; generated environments",
         "Names in all letter cases, near-misses, filters from lists, thresholds and environment values."),
 "C23": ("differential fuzzing of format patterns and records against a reference renderer",
         "Random patterns with specs, messages with braces and escapes, colours, paths."),
 "C24": ("enumeration plus generated error numbers against a table model",
         "Every enumerator and category pair, arbitrary numbers."),
 "C25": ("generated-program differential: a seeded batch of compile-time concatenations/tuples, and model-based call tests",
         "Embedded NULs, groupings, template-argument identity, forwarding and value categories."),
 "C26": ("stateful model-based testing of registration histories against a list-of-routes model",
         "Patterns grown from each other, any registration order, lookups before and after optimisation."),
 "C27": ("differential property-based testing against an independent segment matcher",
         "Patterns over every path character, paths made from them, near-misses and arbitrary bytes."),
 "C28": ("stateful model-based testing against a name-to-value map; encode/decode round trip",
         "Histories over several query maps, path parameter maps, percent-encoded query strings and forms."),
 "C29": ("stateful model-based testing against a list-of-values multimap",
         "Histories over several header maps with names in any letter case and by known field."),
 "C31": ("stateful model-based testing against a byte queue; generated pieces, partial transfers and injected I/O faults",
         "Histories over dynamic buffers; bodies read through every stream type with generated pieces, short transfers and failures."),
 "C32": ("differential fuzzing against zlib and brotli; round trip; generated damage and chunkings",
         "Bodies packed by the code and by the reference libraries, cut anywhere, truncated, extended, corrupted; lists of codings through the middleware."),
 "C30": ("generated-program testing: random programs of scope and route derivations against a list model",
         "Batches of generated programs (use, use_state, serve in any order, shared subexpressions), inspected, called and served."),
 "C40": ("stateful model-based testing of builder histories against a record of the calls",
         "Response, test request and (in a middleware behind a server) request builders; text passed in is overwritten after each call; bodies compared byte for byte."),
 "C33": ("stateful property-based testing of generated connections against a script, with an independent HTTP/1.1 response reader",
         "One to three concurrent connections of pipelined requests sent in generated pieces, any body form on either side, failing bodies and handlers, generated partial transfers and task orders."),
 "C34": ("property-based testing: simulated server under a virtual clock with raw clients that stall, trickle, exceed limits and disconnect at generated points, judged from the moment each byte arrives",
         "random client scripts near and beyond each limit and timeout, among well-behaved ones; task order, transfer sizes and accept failures generated; the moment of every close is compared exactly"),
 "C35": ("property-based testing: pipelined requests generated together with what every extractor must yield from them, against handlers that report what they were given",
         "every built-in extractor and a user's own, alone and combined; field values, encodings, order, omissions, repetitions, content types, JSON shapes and body framing generated"),
 "C36": ("stateful property-based testing: a caching client against files that change between its requests, with independently computed ranges, dates and validators, and injected file failures",
         "file names, sizes, times and changes; every form of Range, If-None-Match and If-Modified-Since; GET and HEAD; failures of open, seek and read at generated points"),
 "C37": ("stateful property-based testing: scripted clients that write and read raw frames against handlers with a plan, judged by what was sent; generated handshakes against the rules of RFC 6455",
         "messages of every frame-size format in any fragmentation with control frames between, in pieces at generated times; closes, disconnects, violations and silence; handlers that echo, push from a second task, close, fail or return; TCP and local sockets; fifteen kinds of handshakes to refuse"),
 "C38": ("stateful property-based testing: histories of records, background turns, writers and ends of loggers against the list of what was submitted, on a background executor the harness runs in a generated order, plus real threads",
         "all levels, filters, buffer sizes and ways of submitting; recording, file and standard-output writers, synchronous and asynchronous; loggers replaced or ended with records waiting; one to four threads at once"),
 "C41": ("property-based testing of generated results, exceptions and layers behind a server, against a prediction from the layers",
         "22 result types in two callable forms each, five layers chosen at run time, one to four concurrent requests, own and default exception handler of the server; the log is read by a recording writer."),
 "C42": ("property-based testing of generated operations against their plans",
         "Eight value types, eight forms of token, success and errors of several categories, completion at once, later, after a timer or never, on several coroutines in a generated order; leaks by address sanitizer and counters."),
 "C43": ("stateful model-based testing of bind and connect histories with injected faults against a map of addresses",
         "One to three servers, IPv4, IPv6 and local addresses in several spellings, malformed and too long ones, faults in each step of making an acceptor, failing accepts, endless handlers, a context that ends at any point."),
 "C39": ("enumeration plus generated numbers against the registered-code table",
         "Every integer near the valid range and the extremes; format specifications."),
}
BOOST = "no check is registered yet; one is being built on the stand-ins in /verif/standin (see DESIGN.md)"
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
checks, na = [], []
try:
    from notes import EXTRA, NA
except ImportError:
    EXTRA, NA = {}, {}
N.update(EXTRA)
for p in props:
    i = p["id"]
    if i in HARNESSES:
        t, n = N[i]
        checks.append({
            "property": i,
            "quick_cmd": "python3 check.py " + i,
            "thorough_cmd": "VERIF_TIER=thorough python3 check.py " + i,
            "technique": t, "level": "exploration",
            "level_note": n + " Assurance is that of a bounded random search (seeded, counted in the evidence), run under "
                          "AddressSanitizer and UndefinedBehaviorSanitizer with g++-13/C++20; trusts the oracle in harness/."
                          + (" Boost >= 1.85 is not installed: the code runs on the stand-ins of /verif/standin."
                             if any("standin" in f for f in HARNESSES[i].get("flags", [])) else "")
        })
    else:
        na.append({"property": i, "reason": NA.get(i, BOOST)})
m = {"version": 1, "setup_cmd": "python3 tools/setup.py", "checks": checks, "not_applicable": na,
     "notes": "No hooks are needed in /repo: harnesses use public headers only. Genuine defects found were repaired with "
              "fix: commits, listed in known_findings.txt."}
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks,", len(na), "not applicable")
