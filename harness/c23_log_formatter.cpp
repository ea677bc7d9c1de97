// C23: log formatting prints each record field where the pattern puts it.
#include "text.hpp"
#include <fitoria/core/source_location.hpp>
#include <fitoria/log/formatter.hpp>

static pbt::Rule rule(
    "records with arbitrary message, names, numbers and times formatted by "
    "patterns assembled from literal text, escaped braces and fields with and "
    "without format specifications, over every newline, file-name and colour "
    "option; the expected line is put together field by field; non-trivial: a "
    "pattern with a field and a message or path with special characters, or two "
    "fields");

namespace fi = fitoria;
using namespace fi::log;
namespace {
const char* names[] = { "TRACE", "DEBUG", "INFO", "WARNING", "ERROR", "FATAL" };
std::string gen_msg(pbt::Case& c)
{
  std::string s;
  while (c.more(s.size(), 40, 6)) {
    s += c.chance(1, 4) ? static_cast<char>(c.below(256))
                        : "ab {}{MSG:}%\n\x1b[0m\\/\""[c.below(20)];
  }
  return s;
}
std::string gen_ascii(pbt::Case& c, std::string_view alpha)
{
  std::string s;
  while (c.more(s.size(), 30, 6)) {
    s += alpha[c.below(alpha.size())];
  }
  return s;
}
std::string file_name(const std::string& s)
{
  std::string out;
  for (char ch : s) {
    if (ch == '/' || ch == '\\') {
      out.clear();
    } else {
      out += ch;
    }
  }
  return out;
}
// the text without terminal colour sequences
std::string plain(const std::string& s)
{
  std::string out;
  for (std::size_t i = 0; i < s.size(); ++i) {
    if (s[i] == '\x1b' && i + 1 < s.size() && s[i + 1] == '[') {
      auto e = s.find('m', i);
      if (e == s.npos) {
        return "<unterminated colour>";
      }
      i = e;
    } else {
      out += s[i];
    }
  }
  return out;
}
struct setup {
  std::string file, func, msg; // what the record's views refer to
  record_ptr rec;
  int lv = 0;
};
setup gen_record(pbt::Case& c, bool plain_text)
{
  setup s;
  s.lv = static_cast<int>(c.below(6));
  s.msg = plain_text ? gen_ascii(c, "ab {}%.:") : gen_msg(c);
  s.file = gen_ascii(c, "ab//\\. :{}");
  s.func = gen_ascii(c, "ab<>()&:{} ,");
  auto line = static_cast<std::uint32_t>(c.raw() >> c.below(64));
  auto col = static_cast<std::uint32_t>(c.raw() >> c.below(64));
  auto t = c.range(-2000000000, 4000000000) * 1000000000
      + c.range(0, 999999999);
  c.in("level", names[s.lv]);
  c.in("msg", s.msg);
  c.in("file", s.file);
  c.in("func", s.func);
  c.in("line", line);
  c.in("col", col);
  c.in("time", t);
  s.rec = std::make_shared<record>(
      record::clock_t::time_point(std::chrono::nanoseconds(t)),
      fi::source_location::current(), static_cast<level>(s.lv), s.msg);
  s.rec->line = line;
  s.rec->column = col;
  return s;
}
void point(setup& s)
{
  s.rec->file_name = s.file;
  s.rec->function_name = s.func;
}
struct pattern {
  std::string text, want;
  int fields = 0;
  bool lv_spec = false;
};
std::string one(const std::string& spec, const auto& v)
{
  return fmt::format(fmt::runtime("{:" + spec + "}"), v);
}
pattern gen_pattern(pbt::Case& c, const setup& s, bool only_name, bool specs)
{
  pattern p;
  auto file = only_name ? file_name(s.file) : s.file;
  auto spec_str = [&]() -> std::string {
    return !specs || c.chance(1, 2)
        ? ""
        : c.pick({ ">20", "<12", "^15", "*^9", ".3", "_>8.2", "s", "0<5" });
  };
  auto spec_int = [&]() -> std::string {
    return c.chance(1, 2) ? ""
                          : c.pick({ "5", "08", "<7", "x", "#X", ">12", "^9", "d" });
  };
  for (int i = 0; c.more(i, 10, 5); ++i) {
    auto k = c.below(9);
    std::string name, sp, v;
    switch (k) {
    case 0: {
      auto t = gen_ascii(c, "ab []-:/%\n");
      p.text += t;
      p.want += t;
      continue;
    }
    case 1: {
      char b = c.chance(1, 2) ? '{' : '}';
      p.text += std::string(2, b);
      p.want += b;
      continue;
    }
    case 2:
      name = "MSG";
      sp = spec_str();
      v = sp.empty() ? s.msg : one(sp, s.msg);
      break;
    case 3:
      name = "LV";
      sp = spec_str();
      v = one(sp, std::string(names[s.lv]));
      p.lv_spec = p.lv_spec || !sp.empty();
      break;
    case 4:
      name = "LINE";
      sp = spec_int();
      v = one(sp, s.rec->line);
      break;
    case 5:
      name = "COL";
      sp = spec_int();
      v = one(sp, s.rec->column);
      break;
    case 6:
      name = "FILE";
      sp = spec_str();
      v = sp.empty() ? file : one(sp, file);
      break;
    case 7:
      name = "FUNC";
      sp = spec_str();
      v = sp.empty() ? s.func : one(sp, s.func);
      break;
    default:
      name = "TIME";
      sp = c.pick({ "%F", "%T", "%FT%TZ", "%Y", "%H:%M" });
      v = one(sp, s.rec->time);
    }
    p.text += "{" + name + (sp.empty() && c.chance(1, 2) ? "" : ":" + sp) + "}";
    p.want += v;
    ++p.fields;
  }
  c.in("pattern", p.text);
  return p;
}
struct options {
  newline_style nl;
  std::string newline;
  bool only_name;
};
options gen_options(pbt::Case& c)
{
  options o;
  auto k = c.below(3);
  o.nl = k == 0 ? newline_style::lf
      : k == 1  ? newline_style::crlf
                : newline_style::cr;
  o.newline = k == 0 ? "\n" : k == 1 ? "\r\n" : "\r";
  o.only_name = c.chance(1, 2);
  c.in("newline", o.newline);
  c.in("file name only", o.only_name);
  return o;
}
formatter::builder make_builder(const options& o)
{
  formatter::builder b;
  b.set_newline_style(o.nl).set_file_name_style(
      o.only_name ? file_name_style::file_name_only
                  : file_name_style::full_path);
  return b;
}
}

SECTION("patterns", 120000, 2000000)
{
  bool specs = c.chance(1, 2);
  auto s = gen_record(c, specs);
  point(s);
  auto o = gen_options(c);
  auto p = gen_pattern(c, s, o.only_name, specs);
  c.nontrivial(p.fields >= 2
               || (p.fields == 1
                   && s.msg.find_first_of("{}%\n\x1b") != s.msg.npos));
  auto b = make_builder(o);
  b.set_pattern(fmt::runtime(p.text));
  auto f = b.build();
  REQ_EQ(f.format(s.rec), p.want + o.newline);
  // formatting changes neither the record nor the formatter
  REQ_EQ(s.rec->msg, s.msg);
  REQ_EQ(f.format(s.rec), p.want + o.newline);
  formatter copy = f;
  REQ_EQ(copy.format(s.rec), p.want + o.newline);
}

SECTION("colours", 80000, 1500000)
{
  auto s = gen_record(c, true);
  point(s);
  auto o = gen_options(c);
  auto p = gen_pattern(c, s, o.only_name, false);
  bool custom = c.chance(1, 2);
  c.in("custom style", custom);
  int calls = 0, seen = -1;
  auto em = c.below(3);
  auto b = make_builder(o);
  b.set_pattern(fmt::runtime(p.text));
  if (custom) {
    b.set_level_style([&](level lv) {
      ++calls;
      seen = static_cast<int>(lv);
      return em == 0 ? fmt::text_style()
          : em == 1  ? fmt::text_style(fmt::emphasis::bold)
                     : fmt::fg(fmt::color::blue) | fmt::emphasis::italic;
    });
  } else {
    b.set_color_level_style();
  }
  auto got = b.build().format(s.rec);
  REQ_EQ(plain(got), p.want + o.newline);
  bool has_lv = p.text.find("{LV") != p.text.npos
      && p.want.find(names[s.lv]) != p.want.npos;
  c.nontrivial(has_lv);
  if (custom && has_lv) {
    REQM(calls == 0 || seen == s.lv, "style of another level");
    if (em == 0) {
      REQ_EQ(got, p.want + o.newline);
    }
  }
  if (got.find('\x1b') != got.npos) {
    c.label("coloured");
    REQ(has_lv);
    // the coloured level is wrapped: colour, text, reset
    auto at = got.find(std::string("m") + names[s.lv] + "\x1b[0m");
    REQ(at != got.npos);
  } else if (has_lv && p.text.find("{LV}") != p.text.npos) {
    REQM(custom && em == 0, "no colour although enabled");
  }
}

SECTION("default pattern and file names", 100000, 1500000)
{
  auto s = gen_record(c, false);
  point(s);
  auto k = c.below(3);
  c.nontrivial();
  formatter::builder b;
  std::string nl = "\n", file = file_name(s.file);
  if (k == 1) {
    b.set_file_name_style(file_name_style::full_path);
    file = s.file;
  } else if (k == 2) {
    b.set_newline_style(newline_style::crlf);
    nl = "\r\n";
  }
  auto f = k == 0 && c.chance(1, 2) ? formatter() : b.build();
  REQ_EQ(f.format(s.rec),
         fmt::format("[{:%FT%TZ} {} {}] ", s.rec->time, names[s.lv], s.func)
             + s.msg
             + fmt::format(" [{}:{}:{}]", file, s.rec->line, s.rec->column)
             + nl);
  REQ_EQ(std::string(get_file_name(file_name_style::file_name_only, s.file)),
         file_name(s.file));
  REQ_EQ(std::string(get_file_name(file_name_style::full_path, s.file)), s.file);
}

SECTION("records remember where they were made", 20000, 100000)
{
  auto lv = c.below(6);
  auto msg = gen_msg(c);
  auto ns = static_cast<pbt::i64>(c.raw());
  c.in("level", lv);
  c.in("msg", msg);
  c.in("ns", ns);
  c.nontrivial();
  auto loc = fi::source_location::current();
  record::clock_t::time_point t { std::chrono::nanoseconds(ns) };
  record r(t, loc, static_cast<level>(lv), msg);
  REQ(r.time == t);
  REQ_EQ(r.line, loc.line());
  REQ_EQ(r.column, loc.column());
  REQ_EQ(std::string(r.file_name), std::string(loc.file_name()));
  REQ_EQ(std::string(r.function_name), std::string(loc.function_name()));
  REQ_EQ(r.lv, static_cast<level>(lv));
  REQ_EQ(r.msg, msg);
}
