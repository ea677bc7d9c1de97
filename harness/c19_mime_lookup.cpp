// C19: file extensions and paths map to media types consistently.
#include "mime_ref.hpp"
#include <fitoria/mime/mime_view.hpp>

static pbt::Rule rule(
    "known extensions in random letter case, mutations of them, arbitrary "
    "extensions, and paths built from directories, several dots and known or "
    "unknown last parts; the fixed media types; non-trivial: a known extension "
    "or one an edit away from it, or a path with a dot");

namespace fi = fitoria;
using fi::mime::mime_view;
using fi::mime::name_view;
namespace {
struct row {
  const char* ext;
  const char* type;
};
const std::vector<row> table = {
  { "js", "application/javascript" },
  { "json", "application/json" },
  { "swf", "application/x-shockwave-flash" },
  { "wasm", "application/wasm" },
  { "xml", "application/xml" },
  { "bmp", "image/bmp" },
  { "gif", "image/gif" },
  { "jpe", "image/jpeg" },
  { "jpeg", "image/jpeg" },
  { "jpg", "image/jpeg" },
  { "png", "image/png" },
  { "svg", "image/svg+xml" },
  { "svgz", "image/svg+xml" },
  { "tif", "image/tiff" },
  { "tiff", "image/tiff" },
  { "css", "text/css" },
  { "htm", "text/html" },
  { "html", "text/html" },
  { "php", "text/html" },
  { "txt", "text/plain" },
  { "flv", "video/x-flv" },
};
const char* lookup(const std::string& ext)
{
  for (auto& r : table) {
    if (text::lower(ext) == r.ext) {
      return r.type;
    }
  }
  return nullptr;
}
std::string str(name_view v)
{
  return std::string(static_cast<std::string_view>(v));
}
void well_formed(pbt::Case& c, const mime_view& m, const char* want)
{
  auto p = mime_view::parse(static_cast<std::string_view>(m));
  REQ(p.has_value());
  REQ(*p == m);
  REQ_EQ(str(m.source()), std::string(want));
  REQ_EQ(str(m.essence()), str(p->essence()));
  REQ_EQ(str(m.type()), str(p->type()));
  REQ_EQ(str(m.subtype()), str(p->subtype()));
  REQ_EQ(m.suffix().has_value(), p->suffix().has_value());
  if (m.suffix()) {
    REQ_EQ(str(*m.suffix()), str(*p->suffix()));
  }
  REQ(m.params() == p->params());
  REQ(m.params().empty());
}
std::string gen_ext(pbt::Case& c)
{
  switch (c.below(4)) {
  case 0:
    return c.pick(table).ext;
  case 1:
    return text::flip(c, c.pick(table).ext);
  case 2:
    return text::mutate(c, text::flip(c, c.pick(table).ext), "sgzlfmjp./");
  default: {
    std::string s;
    while (c.more(s.size(), 6, 3)) {
      s += c.chance(1, 8) ? static_cast<char>(c.below(256))
                          : "jsonxmlhtpgdfv/ 3"[c.below(17)];
    }
    return s;
  }
  }
}
void judge(pbt::Case& c, const fi::optional<mime_view>& got, const char* want)
{
  REQ_EQ(got.has_value(), want != nullptr);
  c.label(want ? "known" : "unknown");
  if (want) {
    well_formed(c, *got, want);
  }
}
}

SECTION("extensions", 300000, 5000000)
{
  auto e = gen_ext(c);
  c.in("extension", e);
  c.nontrivial(!e.empty());
  text::placed p(c, e, "j", "n");
  judge(c, mime_view::from_extension(p), lookup(e));
}

SECTION("paths", 300000, 5000000)
{
  std::string s;
  for (int i = 0; c.more(i, 6, 3); ++i) {
    s += c.pick({ "a", "/", ".", "dir/", "file", ".tar", "..", ".JS", ".png", "\\",
                  " ", "js", "txt" });
  }
  if (c.chance(2, 3)) {
    s += (c.chance(7, 8) ? "." : "") + gen_ext(c);
  }
  if (c.chance(1, 10)) {
    s = text::mutate(c, s, "./js ");
  }
  c.in("path", s);
  auto dot = s.rfind('.');
  c.nontrivial(dot != s.npos);
  text::placed p(c, s, "a.js", "n");
  judge(c, mime_view::from_path(p),
        dot == s.npos ? nullptr : lookup(s.substr(dot + 1)));
}

SECTION("fixed types", 2000, 20000)
{
  using namespace fi::mime;
  struct fixed {
    mime_view (*fn)() noexcept;
    const char* text;
  };
  static const std::vector<fixed> all = {
    { &application_javascript, "application/javascript" },
    { &application_json, "application/json" },
    { &application_msgpack, "application/msgpack" },
    { &application_octet_stream, "application/octet-stream" },
    { &application_pdf, "application/pdf" },
    { &application_shockwave_flash, "application/x-shockwave-flash" },
    { &application_text, "application/text" },
    { &application_wasm, "application/wasm" },
    { &application_www_form_urlencoded, "application/x-www-form-urlencoded" },
    { &application_xml, "application/xml" },
    { &image_bmp, "image/bmp" },
    { &image_gif, "image/gif" },
    { &image_jpeg, "image/jpeg" },
    { &image_png, "image/png" },
    { &image_svg, "image/svg+xml" },
    { &image_tiff, "image/tiff" },
    { &multipart_form_data, "multipart/form-data" },
    { &text_css, "text/css" },
    { &text_csv, "text/csv" },
    { &text_html, "text/html" },
    { &text_javascript, "text/javascript" },
    { &text_plain, "text/plain" },
    { &text_xml, "text/xml" },
    { &video_flv, "video/x-flv" },
  };
  auto i = c.below(all.size()), j = c.below(all.size());
  c.in("type", all[i].text);
  c.in("other", all[j].text);
  c.nontrivial();
  well_formed(c, all[i].fn(), all[i].text);
  REQ_EQ(all[i].fn() == all[j].fn(), i == j);
}
