// Modes for the checks of htmlext and of the language bindings:
//   vh gen SEED FROM TO [hostile]   prints "<template hex> <html hex>" per line
//   vh dump                         reads "<template hex> <html hex> <limit>" lines and
//                                   prints what the library makes of each, as JSON
#include "core.h"

#include <iostream>

namespace vh {

static std::string hex(std::string_view s) {
  static const char* d = "0123456789abcdef";
  std::string o;
  for (unsigned char c : s) { o += d[c >> 4]; o += d[c & 15]; }
  return o.empty() ? "-" : o;
}
static std::string unhex(const std::string& s) {
  if (s == "-") return "";
  if (s.size() % 2) throw HarnessError("odd hex string");
  std::string o;
  auto v = [](char c) { return c <= '9' ? c - '0' : c - 'a' + 10; };
  for (std::size_t i = 0; i < s.size(); i += 2) o += char(v(s[i]) * 16 + v(s[i + 1]));
  return o;
}

// one JSON line: {"e":"syntax"|"limit"|"other","m":hex} or {"g":[[[name,value],...],...]}
int dump_main() {
  std::ios::sync_with_stdio(false);
  std::string th, hh;
  std::uint64_t limit;
  while (std::cin >> th >> hh >> limit) {
    std::string t = unhex(th), h = unhex(hh);
    try {
      // exactly sized blocks: a read past the end is reported
      std::vector<char> tb(t.begin(), t.end()), hb(h.begin(), h.end());
      hext::Rule rule = hext::ParseHext(tb.data(), tb.size());
      hext::Html doc(hb.data(), hb.size());
      hext::Result res = rule.extract(doc, limit);
      std::cout << "{\"g\":[";
      bool f = true;
      for (auto& g : res) {
        std::cout << (f ? "[" : ",[");
        f = false;
        bool f2 = true;
        for (auto& p : g) {
          std::cout << (f2 ? "[\"" : ",[\"") << hex(p.first) << "\",\"" << hex(p.second) << "\"]";
          f2 = false;
        }
        std::cout << "]";
      }
      std::cout << "]}\n";
    } catch (const hext::SyntaxError& e) { std::cout << "{\"e\":\"syntax\",\"m\":\"" << hex(e.what()) << "\"}\n"; }
    catch (const hext::MaxSearchError& e) { std::cout << "{\"e\":\"limit\",\"m\":\"" << hex(e.what()) << "\"}\n"; }
    catch (const std::exception& e) { std::cout << "{\"e\":\"other\",\"m\":\"" << hex(e.what()) << "\"}\n"; }
  }
  std::cout << std::flush;
  return 0;
}

// loads a document that lies between inaccessible pages
int edge_main(const std::string& h, bool at_start) {
  std::string s = unhex(h);
  Exact buf(s, true, at_start);
  hext::Html doc(buf.data(), buf.size());
  hext::Html copy(s.data(), s.size());
  bool same = RDoc(doc.root()).dump() == RDoc(copy.root()).dump();
  std::cout << (same ? "same" : "different") << std::endl;
  return 0;
}

static std::string text_value(Rng& r) {
  std::string s;
  int n = int(r.u(4));
  for (int i = 0; i < n; ++i)
    s += r.of<const char*>({ "a", "word ", "\"", "\\", "/", "\b", "\t", "\n", "\r\n", "\x01", "\x1f", "\x7f", "&amp;", "&lt;b&gt;", "&#0;", "&quot;", "'", "\xc3\xa9", "\xe2\x82\xac", "\xf0\x9f\x98\x80",
                             "\xe2\x80\xa8", "\xe2\x80\xa9", "\xef\xbb\xbf", "\xef\xbf\xbd", "\xef\xbf\xbf", "\xee\x80\x80", "\xf4\x8f\xbf\xbf", "&nbsp;", "&#x1F600;", "0", "null", "true", "-1", "1e5", "[]", "{}", "\\u0041", "\\x00" });
  return s;
}

// templates that capture much, names that repeat, values of all kinds
static std::pair<std::string, std::string> job(Rng& r, bool hostile) {
  std::string html, t;
  int k = int(r.u(100));
  if (k < 20 && !corpus_pairs().empty()) return r.pick(corpus_pairs());
  if (k < 45) {   // rules made for a document
    html = gen_html(r, r.in(4, 40));
    hext::Html h(html.data(), html.size());
    RDoc d(h.root());
    List l = gen_list_for(r, d, r.in(1, 8));
    return { render(l, r, int(r.u(3))), html };
  }
  // a flat document of values, possibly nested lists
  int items = r.in(0, 6);
  static const std::vector<const char*> tags = { "a", "p", "li", "b", "i", "div", "x-y" };
  const char* wrap = r.of<const char*>({ "div", "ul", "main", "x-y" });
  html = std::string("<") + wrap + ">";
  const char* tag = r.pick(tags);
  for (int i = 0; i < items; ++i) {
    html += std::string("<") + tag;
    if (r.p(60)) html += " id=\"" + [&] { std::string v = text_value(r), o; for (char c : v) if (c == '"') o += "&quot;"; else o += c; return o; }() + "\"";
    if (r.p(30)) html += " class='" + std::string(r.of<const char*>({ "a", "a b", "", "\xc3\xa4" })) + "'";
    html += ">" + text_value(r);
    if (r.p(30)) html += "<i>" + text_value(r) + "</i>";
    if (r.p(15)) html += "<br>";
    html += std::string("</") + tag + ">";
    if (r.p(20)) html += text_value(r);
  }
  html += std::string("</") + wrap + ">";
  if (hostile && r.p(40)) html = r.p(50) ? gen_html_bytes(r) : mutate_bytes(r, html, kHtmlDict);
  auto name = [&]() -> std::string {
    if (r.p(5)) { std::string q = r.of<const char*>({ "'a~b'", "'a~b'", "\"a~\"", "'~'", "'a~c'" }); for (auto& x : q) if (x == '~') x = '\0'; return q; }
    return r.of<const char*>({ "a", "b", "a", "value", "x-y", "A", "href", "n0", "__proto__", "length", "0", "toString", "caption", "aa", "constructor", "'\xc3\xa9'", "\"\xf0\x9f\x98\x80\"", "'a b'", "'\\\"q'", "'\x01'" });
  };
  auto value = [&] {
    std::string s = r.of<const char*>({ "@text", "@inner-html", "@strip-tags", "id", "class" }), v;
    int n = int(r.u(3)) - 1;
    for (int i = 0; i < n; ++i)
      v += r.of<const char*>({ ":append(\"!\")", ":prepend('q')", ":trim", ":toupper", ":replace(/a/,\"b\")", ":filter(/./)", ":collapsews", ":append(\"\\\"\")", ":filter(/zzz/)", ":append(\"\xc3\xa9\")", ":prepend(\"\xf0\x9f\x98\x80\")" });
    if (r.p(3)) v += std::string(":append('x\0y')", 14);
    return " " + s + v + ":" + name() + (s[0] != '@' && r.p(60) ? "?" : "");
  };
  if (hostile && r.p(15)) return { gen_template_bytes(r), html };
  auto el = [&](const std::string& tg, const std::string& inside) {
    std::string s = "<" + tg;
    int n = int(r.u(4));
    for (int i = 0; i < n; ++i) s += value();
    return inside.empty() ? s + "/>" : s + ">" + inside + "</" + (tg[0] == '?' || tg[0] == '+' ? tg.substr(1) : tg) + ">";
  };
  switch (r.u(6)) {
    case 0: t = el(tag, ""); break;
    case 1: t = el("*", ""); break;
    case 2: t = el(wrap, el(std::string("+") + tag, "")); break;
    case 3: t = el(wrap, "{" + el(tag, "") + "}"); break;
    case 4: t = el(tag, "") + el(std::string("?") + tag, ""); break;
    default: t = el(wrap, el(tag, el("?i", "")) + el(std::string("?") + tag, "")); break;
  }
  if (hostile && r.p(6) && !t.empty()) t.insert(r.u(t.size() + 1), r.p(50) ? std::string(1, '\0') : std::string(r.of<const char*>({ "\xff", "\xc3", "<", "}", "\xe2\x80\xa8" })));
  return { t, html };
}

int gen_main(std::uint64_t seed, std::uint64_t from, std::uint64_t to, bool hostile) {
  for (std::uint64_t i = from; i < to; ++i) {
    Rng r(fnv("jobs", seed * 0x9e3779b97f4a7c15ULL + i * 0xd1b54a32d192ed03ULL));
    auto j = job(r, hostile);
    std::cout << hex(j.first) << " " << hex(j.second) << "\n";
  }
  std::cout << std::flush;
  return 0;
}

} // namespace vh
