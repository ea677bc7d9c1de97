"""Build description of every property's harness."""
CXX = "g++-13"
BASE_FLAGS = ["-std=c++20", "-O1", "-g1", "-fno-omit-frame-pointer", "-w",
              "-fsanitize=address,undefined", "-fno-sanitize-recover=all",
              "-D_GLIBCXX_ASSERTIONS", "-ftrivial-auto-var-init=pattern", "-DFITORIA_HAS_FMT", "-DFITORIA_HAS_ZLIB", "-DFITORIA_HAS_BROTLI"]

# headers that need Boost are compiled against /verif/standin (see its README.md)
STANDIN = ["-I@VERIF@/standin", "-fno-sanitize=nonnull-attribute"]
STANDIN_LIBS = ["-lfmt", "-lz", "-lbrotlienc", "-lbrotlidec", "-lpcre2-8"]

def web(*srcs, **more):
    return dict({"srcs": list(srcs), "flags": STANDIN, "libs": STANDIN_LIBS,
                 "assumptions": ["the stand-ins in /verif/standin behave as the parts of Boost 1.86 they replace "
                                 "(they pass the project's own Boost-dependent tests, tools/standin_tests.sh)"]}, **more)

HARNESSES = {
    "C01": {"srcs": ["c01_base64.cpp"]},
    "C02": {"srcs": ["c02_base64_decode.cpp"]},
    "C03": {"srcs": ["c03_optional.cpp", "c03b_optional.cpp", "c03c_moveonly.cpp"],
            "must": {"c03c_moveonly.cpp": "histories over an optional whose element can only be moved"}},
    "C05": {"srcs": ["c05_optional_faults.cpp"]},
    "C04": {"srcs": ["c04_optional_ref.cpp"]},
    "C06": {"srcs": ["c06a_expected.cpp", "c06b_expected.cpp", "c06c_expected.cpp", "c06d_expected.cpp", "c06e_moveonly.cpp"],
            "must": {"c06e_moveonly.cpp": "histories over an expected whose value and error can only be moved"}},
    "C07": {"srcs": ["c07a_expected_ref.cpp", "c07b_expected_void.cpp", "c07c_expected_moveonly.cpp", "c07d_expected.cpp"],
            "must": {"c07c_expected_moveonly.cpp": "histories over an expected whose error can only be moved"},
            "probes": {"c07_probe.cpp": "assigning a modifiable unexpected to an expected reference"}},
    "C08": {"srcs": ["c08a_expected_faults.cpp", "c08b_expected_faults.cpp", "c08c_expected_faults.cpp",
                     "c08d_expected_faults.cpp", "c08e_expected_faults.cpp"]},
    "C09": {"srcs": ["c09_compare.cpp"]},
    "C10": {"srcs": ["c10_from_string.cpp", "c10_macos.cpp"]},
    "C11": {"srcs": ["c11_strings.cpp", "c11_macos.cpp"]},
    "C12": {"srcs": ["c12_entity_tag.cpp"]},
    "C13": {"srcs": ["c13_if_none_match.cpp"]},
    "C14": {"srcs": ["c14_range.cpp"]},
    "C15": {"srcs": ["c15_date.cpp"]},
    "C16": {"srcs": ["c16_version.cpp"]},
    "C17": {"srcs": ["c17_mime_parse.cpp"]},
    "C18": {"srcs": ["c18_mime_names.cpp"]},
    "C19": {"srcs": ["c19_mime_lookup.cpp"]},
    "C20": {"srcs": ["c20_path_parser.cpp"], "gen": "c20_gen.py",
            "must": {"gen.cpp": "patterns parsed by the compiler"}},
    "C21": {"srcs": ["c21_state.cpp"]},
    "C22": {"srcs": ["c22_log_level.cpp"]},
    "C23": {"srcs": ["c23_log_formatter.cpp"]},
    "C24": {"srcs": ["c24_error.cpp"]},
    "C25": {"srcs": ["c25_utility.cpp"], "gen": "c25_gen.py",
            "must": {"c25_utility.cpp": "compile-time strings, tuple reversals, overload sets and customisation points",
                     "gen.cpp": "concatenations made by the compiler"}},
    "C26": web("c26_router.cpp"),
    "C27": web("c27_path_matcher.cpp"),
    "C28": web("c28_maps.cpp"),
    "C29": web("c29_header_map.cpp"),
    "C30": web("c30_scope.cpp", gen="c30_gen.py", gen_parts=5, gen_flags=["-O0", "-g0", "-fno-sanitize=all"], must={"gen.cpp": "programs that compose scopes and routes"}),
    "C31": web("c31_streams.cpp"),
    "C32": web("c32_compression.cpp"),
    "C40": web("c40_builders.cpp"),
    "C33": web("c33_framing.cpp"),
    "C34": web("c34_limits.cpp"),
    "C35": web("c35_extract.cpp", "c35_paths.cpp", "c35_bodies.cpp", "c35_mixes.cpp"),
    "C36": web("c36_files.cpp"),
    "C37": web("c37_websocket.cpp"),
    "C38": web("c38_logging.cpp"),
    "C39": web("c39_status.cpp"),
    "C43": web("c43_servers.cpp"),
    "C42": web("c42_as_expected.cpp"),
    "C41": web("c41_outcomes.cpp", "c41_part_a.cpp", "c41_part_b.cpp", "c41_part_c.cpp"),
}
