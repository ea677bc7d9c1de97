#!/usr/bin/env python3
"""Mechanical mutants of the headers, judged by the checks:  mutate.py HEADER [max] [seed]

Each mutant is made in a scratch copy under /tmp (via VERIF_REPO), its properties'
checks are run in turn until one reports a violation.  Prints one line per mutant;
"SURVIVED" ones are read by hand (most are equivalent or touch compile-time only code).
"""
import os, random, re, shutil, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PROPS = {
    "core/optional.hpp": ["C03", "C04", "C05", "C09"], "core/expected.hpp": ["C06", "C07", "C08", "C09"],
    "core/detail/from_string_impl.hpp": ["C10"], "core/from_string.hpp": ["C10"],
    "core/strings.hpp": ["C11"], "core/fixed_string.hpp": ["C25", "C20"], "core/type_traits.hpp": ["C25"],
    "core/utility.hpp": ["C25"], "core/tag_invoke.hpp": ["C25"], "encoding/base64/alphabet.hpp": ["C01", "C02"],
    "encoding/base64/encoder.hpp": ["C01"], "encoding/base64/decoder.hpp": ["C02"],
    "http/header/date.hpp": ["C15"], "http/header/entity_tag.hpp": ["C12"], "http/header/if_none_match.hpp": ["C13"],
    "http/header/range.hpp": ["C14"], "http/version.hpp": ["C16"], "log/filter.hpp": ["C22"], "log/level.hpp": ["C22"],
    "log/formatter.hpp": ["C23"], "log/record.hpp": ["C23"], 
    "mime/name_view.hpp": ["C18"], "mime/params_view.hpp": ["C18", "C17"],    "mime/mime_view.hpp": ["C17", "C18", "C19"], "web/error.hpp": ["C24"],
    "web/middleware/detail/brotli_error.hpp": ["C24"], "web/path_parser.hpp": ["C20"], "web/state_storage.hpp": ["C21"],
    "core/chrono.hpp": ["C15"],
    # those that need the stand-ins
    "core/dynamic_buffer.hpp": ["C31"], "core/as_expected.hpp": ["C42"], "http/header_map.hpp": ["C29"],
    "http/status_code.hpp": ["C39"], "log/async_logger.hpp": ["C38"], "log/log.hpp": ["C38"],
    "log/registry.hpp": ["C38"], "log/basic_async_stream_file_writer.hpp": ["C38"], "log/sync_stream_file_writer.hpp": ["C38"],
    "web/any_async_readable_stream.hpp": ["C31"], "web/any_body.hpp": ["C31", "C33"], "web/any_routable.hpp": ["C30", "C26"],
    "web/async_message_parser_stream.hpp": ["C33"], "web/async_read_into_stream_file.hpp": ["C31"], 
    "web/async_readable_file_stream.hpp": ["C31", "C36"], "web/async_readable_vector_stream.hpp": ["C31"],
    "web/async_write_chunks.hpp": ["C33"], "web/connect_info.hpp": ["C43", "C35"], "web/detail/extract_query.hpp": ["C28", "C35"],
    "web/detail/make_acceptor.hpp": ["C43"], "web/detail/make_endpoint.hpp": ["C43"], "web/form_of.hpp": ["C35"],
    "web/from_request.hpp": ["C35"], "web/handler.hpp": ["C35", "C41", "C30"], "web/http_server.hpp": ["C34", "C33", "C43", "C41"],
    "web/json_of.hpp": ["C35"], "web/path_info.hpp": ["C28", "C35"], "web/path_matcher.hpp": ["C27"], "web/path_of.hpp": ["C35"],
    "web/query_map.hpp": ["C28"], "web/query_of.hpp": ["C35"], "web/request.hpp": ["C40", "C35"], "web/response.hpp": ["C40", "C33", "C41"],
    "web/routable.hpp": ["C30"], "web/route.hpp": ["C30", "C26"], "web/router.hpp": ["C26"], "web/scope.hpp": ["C30"],
    "web/state_of.hpp": ["C35"], "web/static_file.hpp": ["C36"], "web/to_response.hpp": ["C41"], "web/websocket.hpp": ["C37"],
    "web/middleware/decompress.hpp": ["C32"], "web/middleware/exception_handler.hpp": ["C41"], "web/middleware/logger.hpp": ["C41"],
    "web/middleware/detail/async_inflate_stream.hpp": ["C32"], "web/middleware/detail/async_gzip_inflate_stream.hpp": ["C32"],
    "web/middleware/detail/async_deflate_stream.hpp": ["C32"], "web/middleware/detail/async_gzip_deflate_stream.hpp": ["C32"],
    "web/middleware/detail/async_brotli_inflate_stream.hpp": ["C32"], "web/middleware/detail/async_brotli_deflate_stream.hpp": ["C32"],
    "web/middleware/detail/gzip_stream.hpp": ["C32"],
}
STANDIN = ["-I" + os.path.join(V, "standin")]


def mutants(text):
    lines = text.split("\n")
    out = []

    def add(i, new, why):
        if new != lines[i]:
            out.append((i, new, why))
    for i, l in enumerate(lines):
        s = l.strip()
        if not s or s.startswith(("//", "#", "static_assert", "namespace", "using ", "template", "*")):
            continue
        for a, b in [("==", "!="), ("!=", "=="), (" < ", " <= "), (" > ", " >= "), (" <= ", " < "), (" >= ", " > "),
                     ("&&", "||"), ("||", "&&"), ("true", "false"), ("false", "true"), (" + ", " - "), (" - ", " + "),
                     ("<< ", ">> "), (">> ", "<< "), (" & ", " | "), (" | ", " & "), ("++", "--"), ("!has", "has"),
                     (".first", ".second"), ("const&", "&"), ("break;", ""), ("continue;", "break;"), (" % ", " / "),
                     ("+= ", "-= "), ("-= ", "+= "), ("begin()", "end()"), ("size() - 1", "size()"), ("nullopt", "{}")]:
            for m in re.finditer(re.escape(a), l):
                if a == "&&" and l[m.end():m.end() + 1] in " )" and "requires" not in l and re.search(r"\w&&", l[max(0, m.start() - 1):m.end()]):
                    continue
                add(i, l[:m.start()] + b + l[m.end():], a + " -> " + b)
        for m in re.finditer(r"\bif (constexpr )?\((.*)\) \{$", l):
            add(i, l[:m.start(2)] + "!(" + m.group(2) + ")" + l[m.end(2):], "negated condition")
        for m in re.finditer(r"(?<![\w.'\"])(\d+)(?![\w.'\"])", l):
            add(i, l[:m.start()] + str(int(m.group(1)) + 1) + l[m.end():], "literal + 1")
            if int(m.group(1)) > 0:
                add(i, l[:m.start()] + str(int(m.group(1)) - 1) + l[m.end():], "literal - 1")
        for m in re.finditer(r"'(\\?.)'", l):
            c = m.group(1)
            add(i, l[:m.start(1)] + ("#" if c != "#" else "$") + l[m.end(1):], "character changed")
        for m in re.finditer(r"std::move\(", l):
            add(i, l[:m.start()] + "(" + l[m.end():], "move dropped")
        for m in re.finditer(r"std::forward<[^<>]*>\(", l):
            add(i, l[:m.start()] + "std::move(" + l[m.end():], "forward -> move")
            add(i, l[:m.start()] + "(" + l[m.end():], "forward dropped")
        for m in re.finditer(r"\(\*this\)|\*this\b", l):
            pass
        if s.endswith(";") and not s.startswith(("return", "using", "}", "throw", "typedef", "friend", "=")) and s.count("(") == s.count(")") \
                and (re.match(r"^[\w:.>\-\[\]*]+(\(| [-+|&]?= |\+\+|--)", s) or s.startswith("this->")):
            add(i, l[:len(l) - len(l.lstrip())] + ";", "statement deleted")
        for m in re.finditer(r"return (.*);$", l):
            if m.group(1) in ("true", "false"):
                continue
        for m in re.finditer(r"lookup|rfind|find_first_of|find_first_not_of|find_last_not_of|\bfind\(", l):
            if m.group(0) == "rfind":
                add(i, l[:m.start()] + "find" + l[m.end():], "rfind -> find")
            if m.group(0) == "find(":
                add(i, l[:m.start()] + "rfind(" + l[m.end():], "find -> rfind")
    return out


def main():
    h = sys.argv[1]
    cap = int(sys.argv[2]) if len(sys.argv) > 2 else 10 ** 9
    seed = int(sys.argv[3]) if len(sys.argv) > 3 else 1
    src = "/tmp/mut/" + h.replace("/", "_")
    shutil.rmtree(src, ignore_errors=True)
    os.makedirs(src)
    subprocess.run("git -C /repo archive HEAD include | tar -x -C " + src, shell=True, check=True)
    p = os.path.join(src, "include/fitoria", h)
    text = open(p).read()
    ms = mutants(text)
    random.Random(seed).shuffle(ms)
    tally = {}
    for i, new, why in ms[:cap]:
        lines = text.split("\n")
        lines[i] = new
        open(p, "w").write("\n".join(lines))
        # does it compile on its own?
        verdict = "SURVIVED"
        r = subprocess.run(["g++-13", "-std=c++20", "-w", "-DFITORIA_HAS_FMT", "-DFITORIA_HAS_ZLIB", "-DFITORIA_HAS_BROTLI",
                            "-fsyntax-only", *STANDIN, "-I" + src + "/include", "-x", "c++", p], capture_output=True, text=True)
        if r.returncode:
            verdict = "uncompilable"
        else:
            errs = 0
            for c in PROPS[h]:
                r = subprocess.run([sys.executable, os.path.join(V, "check.py"), c], capture_output=True, text=True,
                                   env=dict(os.environ, VERIF_REPO=src))
                if r.returncode == 1:
                    verdict = "caught " + c
                    break
                if r.returncode not in (0, 1):
                    errs += 1
            else:
                if errs:
                    verdict = "harness-error" if errs < len(PROPS[h]) else "harness-uncompilable"
        tally[verdict.split()[0]] = tally.get(verdict.split()[0], 0) + 1
        print("%s:%d %s [%s] %s" % (h, i + 1, verdict, why, new.strip()[:110]), flush=True)
    print(h, len(ms), "mutants,", tally, flush=True)
    shutil.rmtree(src, ignore_errors=True)
    for b in os.listdir(os.path.join(V, "build")):
        if "." in b:
            pass


if __name__ == "__main__":
    main()
