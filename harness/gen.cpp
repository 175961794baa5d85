// Generators: documents, templates guided by a document, hostile bytes.
#include "core.h"

#include <dirent.h>
#include <fstream>

namespace vh {

// ------------------------------------------------------------------- corpus
static std::vector<std::string> g_templates, g_htmls;
static std::vector<std::pair<std::string, std::string>> g_pairs;

void load_corpus(const std::string& dir) {
  std::vector<std::string> names;
  if (DIR* d = opendir(dir.c_str())) {
    while (auto* e = readdir(d)) {
      std::string n = e->d_name;
      if (n.size() > 5 && n.substr(n.size() - 5) == ".hext") names.push_back(n.substr(0, n.size() - 5));
    }
    closedir(d);
  }
  std::sort(names.begin(), names.end());
  auto slurp = [](const std::string& f) {
    std::ifstream i(f, std::ios::binary);
    return std::string(std::istreambuf_iterator<char>(i), {});
  };
  for (auto& n : names) {
    std::string t = slurp(dir + "/" + n + ".hext"), h = slurp(dir + "/" + n + ".html");
    g_templates.push_back(t);
    if (!h.empty()) { g_htmls.push_back(h); g_pairs.emplace_back(t, h); }
  }
  if (g_pairs.size() < 10) throw HarnessError("corpus missing: " + dir);
}
const std::vector<std::string>& corpus_templates() { return g_templates; }
const std::vector<std::pair<std::string, std::string>>& corpus_pairs() { return g_pairs; }

// --------------------------------------------------------------- vocabulary
const std::vector<std::string> kTags = {
  "div", "div", "div", "span", "p", "a", "a", "ul", "li", "li", "li", "b", "i", "em", "strong", "h1", "img", "br",
  "hr", "input", "section", "article", "label", "x-foo", "x-foo", "x-bar", "X-Foo", "my-el", "foo", "td", "small",
  "code", "pre", "q", "button", "nav", "main", "fieldset", "legend", "del", "ins", "object", "wbr", "font", "u",
  "address", "blockquote", "dl", "dt", "dd", "figure", "center", "header", "footer", "details", "summary" };
static const std::vector<std::string> kAttrs = { "id", "class", "class", "href", "title", "data-x", "src", "alt",
  "style", "data-y", "hidden", "name", "value", "lang", "rel", "Data-Z", "x_y", "a", "onclick", "role" };
static const std::vector<std::string> kWords = { "a", "b", "foo", "bar", "Foo", "BAR", "foobar", "x", "1", "12", "007",
  "price", "item", "item-1", "menu", "\xc3\xa9t\xc3\xa9", "caf\xc3\xa9", "aa", "aaa", "ab", "-", ".", "http://x.y/z?q=1", "\xe2\x82\xac" };
const std::vector<std::string> kTemplateDict = { "<", ">", "/>", "</", "<*", "</*>", "<?", "<+", "<?+", "<div>", "</div>", "<a", "<x-y>",
  "</x-y>", "{", "}", "#", "\n", " ", "\t", ":", ":empty", ":not(", ":nth-child(", ":nth-last-child(", ":nth-of-type(",
  ":nth-last-of-type(", ":first-child", ":last-child", ":first-of-type", ":last-of-type", ":only-child", ":only-of-type",
  ":child-count(", ":attribute-count(", ":type-matches(", ")", "(", "even", "odd", "2n", "2n+1", "-1n+3", "99999999999",
  "2147483647", "-2147483648", "2147483648", "-2147483649", "0", "n", "+", "-", "@text", "@inner-html", "@strip-tags", "@", "=", "==", "^=", "*=", "$=",
  "=~", "/x/", "/x/i", "/x/c", "/(/", "/[/", "/a{2,1}/", "/*/", "i", "c", "\"", "'", "\\", "\\\"", "\"x\"", "'y'", "!", "?", ":trim", ":trim(\"", ":collapsews",
  ":tolower", ":toupper", ":prepend(\"", ":append(\"", ":filter(/", ":replace(/", ",", ":x", ":\"n m\"", "class", "href", "id",
  ".", "_", "*", "\r", "\v", "\f", std::string(1, '\0'), "\xc3\xa9", "\xff", "\x80", "\x7f", "\x01", "/", "//" };
const std::vector<std::string> kHtmlDict = { "<", ">", "</", "/>", "<!--", "-->", "--!>", "<!", "<!DOCTYPE html>", "<?", "?>", "<![CDATA[", "]]>",
  "&", "&amp;", "&#0;", "&#x110000;", "&#xD800;", "&nbsp;", "&notit;", "&lt", "&#", "&#x", ";", "\"", "'", "=", " ", "\n", "\t", "\f", "\r\n",
  "<html>", "<head>", "<body>", "<div>", "</div>", "<p>", "</p>", "<table>", "<tr>", "<td>", "</table>", "<tbody>", "<caption>", "<colgroup>", "<col>",
  "<select>", "<option>", "<optgroup>", "</select>", "<textarea>", "</textarea>", "<title>", "</title>", "<script>", "</script>", "<style>", "</style>",
  "<svg>", "</svg>", "<math>", "</math>", "<foreignObject>", "<desc>", "<mi>", "<annotation-xml encoding=\"text/html\">", "<template>", "</template>",
  "<frameset>", "<frame>", "<noframes>", "<noscript>", "<plaintext>", "<xmp>", "<iframe>", "</iframe>", "<form>", "</form>", "<input>", "<button>", "</button>",
  "<a>", "</a>", "<b>", "</b>", "<i>", "</i>", "<font color=red>", "<nobr>", "<li>", "<dd>", "<dt>", "<h1>", "<h2>", "</h1>", "<br>", "</br>", "</p>",
  "<x-foo>", "</x-foo>", "<x", "<x-", "<a/b>", "<a=b>", "<div class=\"a\" class=\"b\">", " id", " class=a", " xlink:href=x", " xml:lang=e",
  "<image>", "<isindex>", "<keygen>", "<ruby><rt>", "<rp>", "<base>", "<meta charset=x>", "<object>", "<marquee>", "<applet>",
  std::string(1, '\0'), "\xff", "\xfe", "\xc3", "\xed\xa0\x80", "\xf4\x90\x80\x80", "\xef\xbb\xbf", "\xc0\x80", "\xe2\x82", "\x80", "\x0b", "\x7f", "\x01" };

static std::string word(Rng& r) { return r.pick(kWords); }

std::string gen_text(Rng& r, bool raw) {
  static const std::vector<std::string> sep = { " ", " ", " ", "  ", "\n", "\t", "\r\n", "\f", " \n ", "", "\xc2\xa0", "\v" };
  static const std::vector<std::string> extra = { "&amp;", "&lt;b&gt;", "&nbsp;", "&#65;", "&quot;", "&", "\\", "'", "\"", "a<b", "&copy", "\xe2\x80\xa8" };
  static const std::vector<std::string> rawx = { "<", ">", "&", "\"", "'", "\\", "\xff", "\xc3\xa9", std::string(1, '\0'), "\n", "$1", "\x01", "\xe2\x82\xac", "\xf0\x9f\x98\x80" };
  std::string s;
  int n = int(r.u(4));
  if (r.p(3)) n += 20;
  if (r.p(30)) s += r.pick(sep);
  for (int i = 0; i < n; ++i) {
    s += r.p(80) ? word(r) : raw ? r.pick(rawx) : r.pick(extra);
    s += r.pick(sep);
  }
  if (r.p(1)) s += std::string(std::size_t(r.u(3000)), r.of({ 'x', ' ' }));
  if (r.u(3000) == 0) { std::string u = word(r) + r.pick(sep); for (int i = big(r, 20000); i > 0; --i) s += u; }
  return s;
}

// ---------------------------------------------------------------- documents
static std::string gen_attr_text(Rng& r, const std::string& name) {
  std::string v;
  int n = int(r.u(3));
  for (int i = 0; i <= n; ++i) v += (i ? r.of<const char*>({ " ", " ", "  ", "\t", "\n" }) : "") + word(r);
  if (r.p(8)) v.clear();
  if (r.p(5)) v = " " + v + " ";
  if (r.p(4)) v += r.of<const char*>({ "\\", "&quot;", "'", "&lt;", "&amp;amp;", "\\&quot;", "\xff", "&#10;" });
  if (r.p(4)) return name;
  if (r.p(10) && v.find_first_of(" \t\n'\"=<>`") == std::string::npos && !v.empty()) return name + "=" + v;
  if (r.p(20) && v.find('\'') == std::string::npos) return name + "='" + v + "'";
  std::string e;
  for (char c : v) { if (c == '"') e += "&quot;"; else e += c; }
  return name + "=\"" + e + "\"";
}
static bool is_void(const std::string& t) {
  return t == "img" || t == "br" || t == "hr" || t == "input" || t == "wbr";
}
struct Html {
  Rng& r;
  bool wild;
  int left;
  std::string attrs(int max) {
    std::string s;
    int n = int(r.u(std::uint64_t(max + 1)));
    for (int i = 0; i < n; ++i) s += (r.p(5) ? "\n" : " ") + gen_attr_text(r, r.pick(kAttrs));
    return s;
  }
  std::string text() { return r.p(35) ? r.of<const char*>({ " ", "\n", "  \n\t" }) : gen_text(r); }
  std::string element(int depth) {
    --left;
    std::string t = r.pick(kTags);
    unsigned k = unsigned(r.u(100));
    if (k < 2) return "<svg" + attrs(2) + r.of<const char*>({ "", " viewBox='0 0 1 1'", " xlink:href=\"#a\"", " xml:lang=en", " xmlns:xlink='http://www.w3.org/1999/xlink'" }) + "><"
      + r.of<const char*>({ "circle r=1/>", "linearGradient id=g><stop/></linearGradient>", "foreignObject><div>x</div></foreignObject>",
                            "text>t</text>", "a xlink:href=\"u v\">l</a>", "title>T</title>", "clipPath/>" }) + (r.p(50) ? content(depth + 1) : "") + "</svg>";
    if (k < 3) return "<math><mi>x</mi><mo definitionurl=a>+</mo>" + text() + "</math>";
    if (k < 5) return "<template" + attrs(1) + ">" + content(depth + 1) + "</template>";
    if (k < 7) return "<table" + attrs(1) + ">" + rows(depth) + "</table>";
    if (k < 8) return "<select><option value=1>one<option selected>two</select>";
    if (k < 9) return r.of<const char*>({ "<script>a<b && c>d</script>", "<style>p > a {}</style>", "<textarea>\n <b>x</b></textarea>", "<noscript><p>n</p></noscript>" });
    if (is_void(t)) return "<" + t + attrs(3) + (r.p(30) ? "/>" : ">");
    return "<" + t + attrs(3) + ">" + content(depth + 1) + "</" + t + ">";
  }
  std::string rows(int depth) {
    std::string s;
    int n = r.in(1, 3);
    for (int i = 0; i < n; ++i) {
      s += "<tr" + attrs(1) + ">";
      int m = r.in(0, 3);
      for (int j = 0; j < m; ++j) s += r.p(80) ? "<td>" + (r.p(80) ? text() : content(depth + 2)) + "</td>" : "<th>" + text();
      s += "</tr>";
    }
    return s;
  }
  // repeated blocks of similar structure
  std::string repeated(int depth) {
    struct B { std::string tag, attr; bool drop; };
    std::vector<B> b;
    int n = r.in(1, 4);
    for (int i = 0; i < n; ++i) b.push_back({ r.of<const char*>({ "div", "span", "p", "a", "li", "x-foo", "b", "i", "h1" }),
                                              r.p(40) ? " " + gen_attr_text(r, r.pick(kAttrs)) : "", r.p(40) });
    bool wrap = r.p(40);
    std::string s;
    int m = r.in(2, 5);
    for (int i = 0; i < m; ++i) {
      std::string q;
      for (auto& x : b) {
        if (x.drop && r.p(50)) continue;
        int times = r.p(20) ? r.in(2, 3) : 1;
        for (int j = 0; j < times; ++j) {
          --left;
          q += "<" + x.tag + x.attr + (r.p(20) ? attrs(1) : "") + ">" + (r.p(70) || left < 0 ? text() : content(depth + 2)) + "</" + x.tag + ">";
          if (r.p(20)) q += text();
        }
        if (r.p(6)) q += "<!-- c -->";
      }
      s += wrap ? "<div>" + q + "</div>" : q;
      if (r.p(15) && left > 0) s += element(depth + 1);
    }
    return s;
  }
  std::string content(int depth) {
    std::string s;
    if (left <= 0 || depth > 12) return r.p(50) ? text() : "";
    int n = r.in(0, depth < 2 ? 5 : 3);
    for (int i = 0; i < n; ++i) {
      unsigned k = unsigned(r.u(100));
      if (k < 45 && left > 0) s += element(depth);
      else if (k < 60 && left > 0) s += repeated(depth);
      else if (k < 90) s += text();
      else if (k < 94) s += r.of<const char*>({ "<!-- comment -->", "<!---->", "<!--a--b-->", "<?pi x?>", "<![CDATA[x]]>" });
      else if (wild) s += r.pick(kHtmlDict);
    }
    return s;
  }
};

int big(Rng& r, int cap) {
  static const std::vector<int> t = { 8, 10, 16, 20, 32, 50, 64, 80, 100, 128, 150, 200, 255, 256, 300, 400, 512, 700, 1000, 1024, 1500,
    2048, 3000, 4096, 8192, 10000, 16384, 32768, 50000, 65535, 65536, 100000 };
  std::size_t n = 0;
  while (n < t.size() && t[n] <= cap) ++n;
  // the upper half of the permitted sizes more often
  std::size_t lo = r.p(60) ? n / 2 : 0;
  return std::min(cap, t[lo + std::size_t(r.u(n - lo))] + r.in(-1, 2));
}

std::string gen_scaled(Rng& r, int cap) {
  int n = big(r, cap);
  std::string s;
  auto num = [](int i) { return std::to_string(i); };
  switch (r.u(6)) {
    case 0: case 1: {   // siblings
      static const std::vector<std::string> ts = { "li", "b", "i", "x-foo", "div", "x-bar", "a", "br" };
      std::string a = r.pick(ts), b = r.p(50) ? a : r.pick(ts);
      unsigned q = unsigned(r.u(60)), attr = r.p(50) ? 100 : 20, txt = r.p(50) ? 60 : 5;
      s = "<div>";
      for (int i = 0; i < n; ++i) {
        const std::string& t = r.p(q) ? b : a;
        s += "<" + t + (r.p(attr) ? " id=" + num(i) : "") + (r.p(3) ? " class=foo" : "") + ">";
        if (t == "br") continue;
        s += (r.p(txt) ? num(i % 97) : "") + "</" + t + ">";
        if (r.p(3)) s += "\n";
      }
      return s + "</div>";
    }
    case 2: {           // attributes
      n = std::min(n, 300);
      s = "<div";
      for (int i = 0; i < n; ++i) s += " a" + num(i) + "=v" + num(i);
      return s + " id=last><p>x</p></div>";
    }
    case 3: {           // long texts and values
      std::string u = r.of<const char*>({ "foo ", "a", "12-", " ", "ab\n", "\xc3\xa9", "&lt;", "x<b>y</b>", "caf\xc3\xa9 <!--c-->" }), t, v;
      for (int i = 0; i < n; ++i) t += u;
      for (int i = 0; i < n; ++i) v += r.of<const char*>({ "foo", " ", "bar", "a" });
      return "<p class=\"" + v + "\" id=x>" + t + "</p><div title='" + v + "'>y</div>";
    }
    case 4: {           // depth
      n = std::min(n, 150);
      static const std::vector<std::string> ts = { "div", "span", "x-foo", "section" };
      std::string t = r.pick(ts), e;
      for (int i = 0; i < n; ++i) { s += "<" + t + (r.p(30) ? " id=" + num(i) : "") + ">" + (r.p(20) ? num(i) : ""); e += "</" + t + ">"; }
      return s + e;
    }
    default: {          // rows of a few columns
      n = std::min(n, cap / 3);
      s = "<table>";
      for (int i = 0; i < n; ++i) s += "<tr><td id=" + num(i) + ">" + num(i) + "</td>" + (r.p(80) ? "<td>a</td>" : "");
      return s + "</table>";
    }
  }
}

std::string gen_html(Rng& r, int size, bool wild) {
  if (size >= 15 && r.u(150) == 0) return gen_scaled(r, 300);
  Html h{ r, wild, size };
  std::string body;
  int guard = 0;
  do body += r.p(40) ? h.repeated(1) : h.content(0); while (h.left > 0 && ++guard < 6);
  unsigned k = unsigned(r.u(10));
  std::string s;
  if (k < 4) s = body;
  else if (k < 7) s = "<!DOCTYPE html><html><head><title>T</title>" + std::string(r.p(30) ? "<meta charset=utf-8>" : "") + "</head><body" + h.attrs(1) + ">" + body + "</body></html>";
  else if (k < 9) s = "<html lang=en>\n<body>\n" + body + "\n</body></html>\n";
  else s = "<!-- first --><body>" + body;
  if (wild) {
    int n = int(r.u(5));
    for (int i = 0; i < n && !s.empty(); ++i) s.insert(std::size_t(r.u(s.size() + 1)), r.pick(kHtmlDict));
    if (r.p(20)) s.resize(std::size_t(r.u(s.size() + 1)));
  }
  return s;
}

std::string mutate_bytes(Rng& r, std::string s, const std::vector<std::string>& dict) {
  int n = 1 + int(r.u(4));
  for (int i = 0; i < n; ++i) {
    std::size_t at = std::size_t(r.u(s.size() + 1));
    switch (r.u(9)) {
      case 0: case 1: case 2: s.insert(at, r.pick(dict)); break;
      case 3: if (at < s.size()) s.erase(at, 1 + std::size_t(r.u(3))); break;
      case 4: if (at < s.size()) s[at] = char(r.u(256)); break;
      case 5: if (at < s.size()) s[at] = r.of({ '<', '>', '"', '\'', '/', '\\', '\0', '\n', '(', ')', '{', '}', ' ', ':', '!' }); break;
      case 6: { std::size_t l = std::size_t(r.u(20)); s.insert(at, s.substr(std::size_t(r.u(s.size() + 1)), l)); break; }
      case 7: if (r.p(50)) s.resize(at); break;
      case 8: { std::size_t e = at + std::size_t(r.u(12)); if (e < s.size()) s.erase(at, e - at); break; }
    }
  }
  return s;
}

std::string gen_html_bytes(Rng& r) {
  unsigned k = unsigned(r.u(100));
  if (k < 10) {
    std::string s;
    int n = int(r.u(60));
    for (int i = 0; i < n; ++i) s += char(r.u(256));
    return s;
  }
  if (k < 30) {
    std::string s;
    int n = int(r.u(40));
    for (int i = 0; i < n; ++i) s += r.p(80) ? r.pick(kHtmlDict) : gen_text(r, true);
    return s;
  }
  if (k < 35) {   // deep or wide
    static const std::vector<std::string> rep = { "<div>", "<b>", "<a href=x>", "<p>", "<ul><li>", "<table><tr><td>", "<x-y>", "<svg>", "<font>", "<!--", "<span></span>", "<br>", "x<i></i>", "<table>", "<template>" };
    std::string u = r.pick(rep), s;
    int n = int(r.u(r.p(10) ? 1500 : 150));
    for (int i = 0; i < n; ++i) s += u;
    return s + gen_html(r, 5, true);
  }
  if (k < 50 && !g_htmls.empty()) {
    auto& h = r.pick(g_htmls);
    std::size_t b = std::size_t(r.u(h.size() + 1));
    return mutate_bytes(r, h.size() > 3000 ? h.substr(b, 3000) : h, kHtmlDict);
  }
  std::string s = gen_html(r, r.in(1, 40), true);
  return r.p(60) ? mutate_bytes(r, std::move(s), kHtmlDict) : s;
}

// ---------------------------------------------------------------- templates
static bool rx_ok(const Rx& x) {
  if (!renderable_literal(x.src)) {
    bool slash = true;
    for (std::size_t i = 0; i < x.src.size(); ++i) if (x.src[i] == '/' && !(i && x.src[i - 1] == '\\')) slash = false;
    if (!slash || (!x.src.empty() && x.src.back() == '\\')) return false;
  }
  try { boost::regex(compile(x)); return true; } catch (const boost::regex_error&) { return false; }
}

static std::string rx_escape(const std::string& s) {
  std::string o;
  for (char c : s) {
    if (std::string_view(".[{}()\\*+?|^$/").find(c) != std::string_view::npos) o += '\\';
    o += c;
  }
  return o;
}

Rx gen_rx(Rng& r, const std::string* v) {
  static const std::vector<std::string> fixed = { "", ".", "a", "^a", "a$", "^$", "foo|bar", "[a-c]+", "\\d+", "(\\d+)", "\\w+", "(\\w)(\\w*)",
    "^\\s+|\\s+$", "(a)|(b)", "o{2}", "(?:x|1)", "(fo)(o)", "[^ ]+$", "\\bfoo\\b", "(?=a)a", "a*", "(.)\\1", "FOO", "[[:digit:]]", "[[:alpha:]]+", "x*?", "\\.", "^.*$",
    "(.+)-(.+)", "\\/", "it\\x65m", "(a(b)?)", "b(?i)AR", "^(x|di)", "(?<!f)oo", "price.*", "\\n", "[\\\"x]", "\\x00?." };
  for (int tries = 0; tries < 20; ++tries) {
    Rx x;
    if (v && !v->empty() && r.p(45)) {
      std::size_t b = std::size_t(r.u(v->size())), l = 1 + std::size_t(r.u(6));
      std::string part = v->substr(b, l);
      if (part.find('\0') != std::string::npos) continue;
      x.src = rx_escape(part);
      if (r.p(25)) x.src = "^" + rx_escape(v->substr(0, l));
      if (r.p(25)) x.src = "(" + x.src + ")(.?)";
      if (r.p(20)) { for (auto& c : x.src) if (std::isalpha((unsigned char)c) && r.p(50)) c = char(c ^ 32); }
    } else
      x.src = r.pick(fixed);
    x.i = r.p(25);
    x.c = r.p(8);
    if (rx_ok(x)) return x;
  }
  return Rx{ "a", false, false };
}

static int gen_count(Rng& r, long long actual) {
  if (actual >= 0 && r.p(60)) return int(actual);
  if (r.p(3)) return 2147483647;
  return r.in(0, 4);
}

Trait gen_trait(Rng& r, const RNode* n, int depth) {
  Trait t;
  t.kind = Trait::Kind(r.u(depth > 0 ? 14 : 15));
  if (depth == 0 && r.p(8)) t.kind = Trait::Not;
  long long elems = 0;
  if (n && n->element()) for (auto* k : n->kids) elems += k->element();
  switch (t.kind) {
    case Trait::ChildCount: t.a = gen_count(r, n ? elems : -1); break;
    case Trait::AttrCount: t.a = gen_count(r, n && n->element() ? (long long)n->attrs.size() : -1); break;
    case Trait::NthChild: case Trait::NthLastChild: case Trait::NthOfType: case Trait::NthLastOfType: {
      t.form = int(r.u(5));
      long long pos = 0;
      if (n && n->parent && n->parent->element()) {
        for (int i = 0; i <= n->idx; ++i) pos += n->parent->kids[std::size_t(i)]->element();
      }
      switch (t.form) {
        case 0: t.b = r.p(50) ? int(pos) : r.in(-1, 5); break;
        case 1: t.a = 2; t.b = 0; break;
        case 2: t.a = 2; t.b = 1; break;
        case 3: t.a = r.in(-2, 4); break;
        case 4: t.a = r.in(-3, 4); t.b = r.p(50) ? int(pos) : r.in(-4, 6); break;
      }
      if (r.p(2)) { t.form = 4; t.a = r.of({ 2147483647, -2147483647 - 1, 1, -1 }); t.b = r.of({ 2147483647, -2147483647 - 1, 1 }); }
      break;
    }
    case Trait::TypeMatches: {
      std::string nm = n ? n->name : "div";
      t.rx = gen_rx(r, &nm);
      break;
    }
    case Trait::Not: {
      int c = r.in(1, 3);
      for (int i = 0; i < c; ++i) t.inner.push_back(gen_trait(r, n, depth + 1));
      break;
    }
    default: break;
  }
  return t;
}

static std::string lit(Rng& r, std::string s) {
  for (auto& c : s) if (c == '\0') c = ' ';
  if (renderable_literal(s)) return s;
  std::string o;
  for (char c : s) if (c != '"' && c != '\\') o += c;
  (void)r;
  return o;
}

Test gen_test(Rng& r, const std::string* v) {
  Test t;
  t.kind = Test::Kind(1 + r.u(6));
  t.neg = r.p(20);
  std::string s = v ? *v : word(r);
  bool wrong = !v || r.p(25);
  switch (t.kind) {
    case Test::Words: {
      std::vector<std::string> w;
      std::istringstream is(s);
      for (std::string x; is >> x;) w.push_back(x);
      if (wrong || w.empty()) { t.lit = word(r); if (!w.empty() && r.p(50)) t.lit = w[0].substr(0, w[0].size() / 2 + 1); }
      else {
        int n = r.in(1, 2);
        for (int i = 0; i < n; ++i) t.lit += (i ? " " : "") + r.pick(w);
      }
      if (r.p(5)) t.lit = " " + t.lit + "  ";
      if (r.p(3)) t.lit.clear();
      t.lit = lit(r, t.lit);
      break;
    }
    case Test::Equals: t.lit = lit(r, wrong ? (r.p(30) ? s + " " : word(r)) : s); break;
    case Test::Begins: t.lit = lit(r, wrong ? word(r) : s.substr(0, std::size_t(r.u(s.size() + 1)))); break;
    case Test::Ends: t.lit = lit(r, wrong ? word(r) : s.substr(std::size_t(r.u(s.size() + 1)))); break;
    case Test::Contains: {
      std::size_t b = std::size_t(r.u(s.size() + 1));
      t.lit = lit(r, wrong ? word(r) : s.substr(b, std::size_t(r.u(6))));
      break;
    }
    case Test::Regex: t.rx = gen_rx(r, &s); break;
    default: break;
  }
  if (r.p(2) && t.kind != Test::Regex) { t.lit = lit(r, s + s + "x"); }
  return t;
}

std::vector<Pipe> gen_pipes(Rng& r, int max) {
  static const std::vector<std::string> sets = { " ", " \t\n", "a", "xyz", "01", ".-", "", "a b", "fF", "\xc3\xa9", "aeiou" };
  static const std::vector<std::string> fmts = { "", "x", "$1", "[$&]", "$2$1", "-", "$$", "<$1>", "\\1", "$`", "\\n", "a b", "'", "\xc3\xa9" };
  std::vector<Pipe> v;
  int n = int(r.u(std::uint64_t(max + 1)));
  for (int i = 0; i < n; ++i) {
    Pipe p;
    p.kind = Pipe::Kind(r.u(9));
    switch (p.kind) {
      case Pipe::TrimSet: p.a = r.pick(sets); break;
      case Pipe::Prepend: case Pipe::Append: p.a = r.p(10) ? "" : lit(r, gen_text(r, true).substr(0, 12)); break;
      case Pipe::Filter: p.rx = gen_rx(r, nullptr); break;
      case Pipe::Replace: p.rx = gen_rx(r, nullptr); p.a = r.pick(fmts); break;
      default: break;
    }
    v.push_back(std::move(p));
  }
  return v;
}

static std::string var(Rng& r) {
  static const std::vector<std::string> v = { "x", "y", "z", "name", "a.b", "1", "_", "-", "trim", "tolower", "replace", "two words", "\xc3\xa9", "", "a:b", "it's", "x" };
  if (r.u(300) == 0) return std::string(std::size_t(big(r, 3000)), r.of({ 'n', 'm' }));
  return r.p(75) ? v[std::size_t(r.u(4))] : r.pick(v);
}

static bool attr_name_ok(const std::string& s) {
  if (s.empty() || !std::isalpha((unsigned char)s[0])) return false;
  for (unsigned char c : s) if (!(c < 128 && (std::isalnum(c) || c == '-' || c == '_'))) return false;
  return true;
}

Pattern gen_pattern(Rng& r, const RNode* n) {
  Pattern p;
  std::string val;
  bool have = false;
  p.builtin = r.p(40);
  if (p.builtin) {
    p.name = r.of<const char*>({ "text", "text", "inner-html", "strip-tags" });
    if (n) { val = ref_builtin(p.name, n); have = true; }
  } else {
    p.name = r.pick(kAttrs);
    if (n && n->element() && !n->attrs.empty() && r.p(80)) {
      auto& a = r.pick(n->attrs);
      if (attr_name_ok(a.name)) p.name = a.name;
      if (r.p(5)) for (auto& c : p.name) if (r.p(50)) c = char(std::toupper((unsigned char)c));
    }
    if (n) if (auto* a = ref_attr(n, p.name)) { val = a->value; have = true; }
  }
  p.capture = r.p(50);
  if (p.capture) {
    p.pipes = r.p(60) ? std::vector<Pipe>() : gen_pipes(r, 3);
    p.var = var(r);
    p.optional = !p.builtin && r.p(40);
  } else if (!p.builtin && r.p(30)) {
    p.test.kind = Test::None;
    p.test.neg = r.p(30);
  } else {
    if (val.size() > 200) val.resize(r.p(95) ? 200 : std::min(val.size(), std::size_t(70000)));
    p.test = gen_test(r, have ? &val : nullptr);
  }
  return p;
}

static std::string tag_for(Rng& r, const RNode* n) {
  if (!n || !n->element()) return r.p(n ? 90 : 15) ? "*" : r.of<const char*>({ "div", "a", "x-foo", "p" });
  if (r.p(12)) return "*";
  if (r.p(4)) { std::string t = r.pick(kTags); return gumbo_tag_enum(t.c_str()) == GUMBO_TAG_UNKNOWN ? t : gumbo_normalized_tagname(gumbo_tag_enum(t.c_str())); }
  if (!attr_name_ok(n->name)) return "*";
  return n->name;
}

RuleT gen_rule_cond(Rng& r, const RNode* n, const RDoc&) {
  RuleT x;
  x.tag = tag_for(r, n);
  int t = r.p(65) ? 0 : r.u(200) ? r.in(1, 2) : big(r, 40);
  for (int i = 0; i < t; ++i) {
    Trait tr = gen_trait(r, n);
    if (n && r.p(65)) for (int k = 0; k < 6 && !ref_trait(tr, n); ++k) tr = gen_trait(r, n);
    x.traits.push_back(std::move(tr));
  }
  int m = r.p(35) ? 0 : r.u(200) ? r.in(1, 3) : big(r, 70);
  for (int i = 0; i < m; ++i) {
    Pattern p = gen_pattern(r, n);
    if (n && r.p(75)) for (int k = 0; k < 6 && !ref_pattern_matches(p, n); ++k) p = gen_pattern(r, n);
    x.pats.push_back(std::move(p));
  }
  return x;
}

namespace {
struct Guided {
  Rng& r;
  const RDoc& d;
  int left;
  Pattern cap(const RNode* n) {
    for (int k = 0; k < 10; ++k) {
      Pattern p = gen_pattern(r, n);
      if (p.capture && ref_pattern_matches(p, n)) return p;
    }
    Pattern p;
    p.builtin = p.capture = true;
    p.name = "text";
    p.var = "x";
    return p;
  }
  RuleT rule(const RNode* n, int depth) {
    --left;
    RuleT x;
    if (r.p(45)) x = gen_rule_cond(r, n, d);
    else { x.tag = tag_for(r, n); if (r.p(55)) x.pats.push_back(cap(n)); }
    x.opt = r.p(depth ? 25 : 18);
    x.greedy = r.p(20);
    if (n->element() && !n->kids.empty() && left > 0 && depth < 6) {
      if (r.p(50)) x.kids = siblings(n, depth + 1);
      while (left > 0 && r.p(18)) x.nested.push_back(below(n, depth + 1));
    }
    return x;
  }
  List siblings(const RNode* parent, int depth) {
    List l;
    std::vector<const RNode*> ks;
    for (auto* k : parent->kids) if (k->element() || r.p(6)) ks.push_back(k);
    if (ks.empty()) for (auto* k : parent->kids) ks.push_back(k);
    if (ks.empty()) return l;
    std::size_t i = std::size_t(r.u(ks.size()));
    if (r.p(60)) i = 0;
    int want = r.in(1, 4);
    while (i < ks.size() && want-- > 0 && (l.empty() || left > 0)) {
      l.push_back(rule(ks[i], depth));
      if (r.p(8)) { RuleT e = rule(r.pick(ks), depth); e.opt = true; l.push_back(e); }
      i += 1 + (r.p(25) ? std::size_t(r.u(3)) : 0);
    }
    if (r.p(3)) std::reverse(l.begin(), l.end());
    return l;
  }
  List below(const RNode* n, int depth) {
    // a list of siblings somewhere below n
    const RNode* x = n;
    for (;;) {
      std::vector<const RNode*> ks;
      for (auto* k : x->kids) if (k->element() && !k->kids.empty()) ks.push_back(k);
      if (ks.empty() || r.p(50)) break;
      x = r.pick(ks);
    }
    List l = siblings(x, depth);
    if (l.empty()) { RuleT e; e.pats.push_back(cap(n)); l.push_back(e); }
    return l;
  }
};
}

// a list that is long or deep, along the document
static List scaled_list(Rng& r, const RDoc& d) {
  List l;
  auto one = [&](const RNode* n, int i) {
    RuleT x;
    x.tag = tag_for(r, n);
    if (r.p(40)) {
      Pattern p;
      p.capture = true;
      p.builtin = r.p(30) || n->attrs.empty();
      p.name = p.builtin ? "text" : r.pick(n->attrs).name;
      if (!p.builtin && !attr_name_ok(p.name)) { p.builtin = true; p.name = "strip-tags"; }
      p.var = r.p(50) ? "x" : "v" + std::to_string(i);
      x.pats.push_back(p);
    }
    return x;
  };
  const RNode *wide = d.root, *deep = d.root;
  std::size_t depth = 0;
  for (auto& n : d.all) {
    if (n->element() && n->kids.size() >= wide->kids.size()) wide = n.get();
    std::size_t k = 0;
    for (auto* p = n.get(); p; p = p->parent) ++k;
    if (n->element() && k > depth) { depth = k; deep = n.get(); }
  }
  if (r.p(65)) {          // long: as many rules as there are elements, or more
    int n = big(r, 300), i = 0;
    unsigned opt = unsigned(r.of({ 0, 10, 60, 95, 100 }));
    if (opt < 60) n = std::min(n, int(wide->kids.size()));
    while (i < n) {
      bool any = false;
      for (auto* k : wide->kids) if (k->element() && i < n) {
        any = true;
        RuleT x = one(k, i++);
        x.opt = r.p(opt);
        x.greedy = r.p(2);
        l.push_back(x);
      }
      if (!any) break;
    }
  } else {                // deep
    std::vector<const RNode*> path;
    for (auto* p = deep; p; p = p->parent) path.push_back(p);   // bottom up
    int left = big(r, 150), i = 0;
    for (auto* p : path) {
      if (left-- <= 0) break;
      RuleT x = one(p, i++);
      if (!l.empty()) { if (r.p(95)) x.kids = std::move(l); else x.nested.push_back(std::move(l)); }
      l = List{ x };
    }
  }
  return l;
}

List gen_list_for(Rng& r, const RDoc& d, int budget) {
  Guided g{ r, d, budget };
  std::vector<const RNode*> parents;
  for (auto& n : d.all) if (n->element() && !n->kids.empty()) parents.push_back(n.get());
  List l;
  if (parents.empty()) l = gen_list_free(r, budget);
  else if (r.u(120) == 0 && budget > 2) l = scaled_list(r, d);
  else for (int k = 0; k < 4 && l.empty(); ++k) l = g.siblings(r.pick(parents), 0);
  if (l.empty()) l.push_back(RuleT());
  if (!has_capture(l)) {
    Pattern p;
    p.capture = p.builtin = true;
    p.name = r.of<const char*>({ "text", "strip-tags", "inner-html" });
    p.var = "x";
    RuleT* x = &r.pick(l);
    while (!x->kids.empty() && r.p(50)) x = &r.pick(x->kids);
    x->pats.push_back(p);
  }
  return l;
}

// A template and a document that are large in one way, with a near miss beside
// what matches: a part that is dropped or cut short somewhere makes a difference.
Extreme gen_extreme(Rng& r, const char* kinds, bool small) {
  Extreme x;
  x.kind = kinds[r.u(std::strlen(kinds))];
  auto size = [&](int cap) { if (small) cap = std::min(cap, 300); return r.p(50) ? big(r, cap) : cap + r.in(-2, 2); };
  auto num = [](int i) { return std::to_string(i); };
  auto cap = [](bool builtin, const std::string& name, const std::string& var) {
    Pattern p;
    p.capture = true;
    p.builtin = builtin;
    p.name = name;
    p.var = var;
    return p;
  };
  auto is = [](const std::string& name, Test::Kind k, const std::string& lit) {
    Pattern p;
    p.name = name;
    p.test.kind = k;
    p.test.lit = lit;
    return p;
  };
  RuleT a;
  a.tag = "a";
  switch (x.kind) {
    case 'c': {   // captures of one rule
      int n = size(1200);
      x.html = "<a";
      for (int i = 0; i < n; ++i) { x.html += " a" + num(i) + "=v" + num(i); a.pats.push_back(cap(false, "a" + num(i), r.p(50) ? "n" + num(i) : "n")); }
      x.html += ">t</a><a a0=1></a>";
      a.pats.push_back(cap(true, "text", "z"));
      break;
    }
    case 'm': {   // conditions of one rule
      int n = size(1000);
      std::string attrs;
      for (int i = 0; i < n; ++i) { attrs += " a" + num(i) + "=v" + num(i); a.pats.push_back(is("a" + num(i), r.p(70) ? Test::Equals : Test::None, "v" + num(i))); }
      a.pats.push_back(is("id", Test::Equals, "1"));
      a.pats.push_back(cap(true, "text", "z"));
      x.html = "<a" + attrs + " id=1>t</a><a" + attrs + " id=2>u</a><a" + attrs + ">v</a><a id=1>w</a>";
      break;
    }
    case 't': case 'N': {   // traits
      int n = size(700);
      std::vector<Trait> ts;
      for (int i = 0; i < n; ++i) {
        Trait t;
        t.kind = x.kind == 't' ? Trait::ChildCount : r.of({ Trait::ChildCount, Trait::AttrCount });
        t.a = x.kind == 't' ? 1 : i + 2;
        ts.push_back(t);
      }
      Trait last;
      last.kind = Trait::AttrCount;
      last.a = 1;
      ts.push_back(last);
      if (x.kind == 't') a.traits = ts;
      else { Trait t; t.kind = Trait::Not; t.inner = ts; a.traits.push_back(t); }
      a.pats.push_back(cap(true, "text", "z"));
      x.html = "<a id=1><b>t</b></a><a><b>u</b></a><a id=1></a>";
      break;
    }
    case 'n': {   // nested lists
      int n = size(300);
      a.tag = "div";
      std::string in;
      for (int i = 0; i < n; ++i) {
        RuleT b;
        b.tag = "b";
        b.pats = { is("id", Test::Equals, "i" + num(i)), cap(true, "text", r.p(50) ? "x" : "x" + num(i)) };
        a.nested.push_back({ b });
        in += "<b id=i" + num(i) + ">" + num(i % 10) + "</b>";
      }
      x.html = "<div>" + in + "</div><div>" + in.substr(0, in.rfind("<b ")) + "</div>";
      break;
    }
    case 's': case 'o': {   // siblings
      int n = size(x.kind == 's' ? 2500 : 600);
      std::string in;
      for (int i = 0; i < n; ++i) {
        RuleT b;
        b.tag = "b";
        b.opt = x.kind == 'o';
        if (r.p(60) || i > n - 3) b.pats.push_back(cap(false, "id", r.p(80) ? "x" : "x" + num(i)));
        x.l.push_back(b);
        in += "<b id=" + num(i) + "></b>";
      }
      RuleT e;
      e.tag = "i";
      e.pats.push_back(cap(true, "text", "end"));
      x.l.push_back(e);
      x.html = "<p>" + in + "<i>1</i></p>" + (small ? "" : "<p>" + in.substr(0, in.rfind("<b ")) + "<i>2</i></p>") + "<p>" + in + "</p>";
      return x;
    }
    case 'd': {   // depth
      int n = size(250);
      List in;
      int deep = r.u(std::uint64_t(n));   // one list that is searched for at any depth; more take exponential time
      for (int i = 0; i < n; ++i) {
        RuleT d;
        d.tag = "div";
        if (r.p(50) || i < 2) d.pats.push_back(cap(false, "id", "x"));
        if (i != deep) d.kids = std::move(in); else if (!in.empty()) d.nested.push_back(std::move(in));
        in = List{ d };
      }
      for (int i = 0; i < n + 2; ++i) x.html += "<div id=" + num(i) + ">";
      x.l = in;
      return x;
    }
    case 'p': {   // pipes of one capture
      int n = size(500);
      Pattern p = cap(false, "href", "x");
      for (int i = 0; i < n; ++i) {
        Pipe q;
        q.kind = r.of({ Pipe::Append, Pipe::Append, Pipe::Prepend, Pipe::Lower, Pipe::Upper, Pipe::Trim, Pipe::Collapse });
        if (q.kind == Pipe::Append || q.kind == Pipe::Prepend) q.a = r.of<const char*>({ "1", "b ", " c", "-" });
        p.pipes.push_back(q);
      }
      Pipe q;
      q.kind = Pipe::Append;
      q.a = "last";
      p.pipes.push_back(q);
      a.pats.push_back(p);
      x.html = "<a href=v></a><a></a>";
      break;
    }
    case 'l': {   // long names and literals, which differ at the end
      std::string base = r.of<const char*>({ "x-", "q", "data-" }) + std::string(std::size_t(size(r.p(60) ? 5000 : 140000)), r.of({ 'a', 'n', '0' }));
      std::string b = base + "b", c = base + "c";
      switch (r.u(6)) {
        case 0: a.tag = b; a.pats.push_back(cap(true, "text", "x")); x.html = "<" + b + ">1</" + b + "><" + c + ">2</" + c + "><" + base + ">3</" + base + ">"; break;
        case 1: a.pats.push_back(r.p(50) ? cap(false, b, "x") : is(b, Test::Equals, "1")); a.pats.push_back(cap(true, "text", "y")); x.html = "<a " + b + "=1>s</a><a " + c + "=1>t</a><a " + base + "=1>u</a>"; break;
        case 2: a.pats = { cap(false, "href", b), cap(false, "id", c), cap(true, "text", base) }; x.html = "<a href=1 id=2>3</a>"; break;
        case 3: {
          Pattern p = is("href", r.of({ Test::Equals, Test::Begins, Test::Contains, Test::Ends, Test::Words }), b);
          p.test.neg = r.p(20);
          if (r.p(30)) { p.builtin = true; p.name = "text"; }
          a.pats = { p, cap(false, "id", "x") };
          x.html = "<a id=1 href='" + b + "'>" + b + "</a><a id=2 href='" + c + "'>" + c + "</a><a id=3 href='" + base + "'>" + base + "</a><a id=4 href='" + b + "b'>" + b + "b</a>";
          break;
        }
        case 4: {
          Pattern p = cap(false, "href", "x");
          Pipe q;
          q.kind = r.of({ Pipe::Append, Pipe::Prepend });
          q.a = b;
          p.pipes = { q };
          q.a = c;
          p.pipes.push_back(q);
          a.pats.push_back(p);
          x.html = "<a href=1></a>";
          break;
        }
        default: a.pats = { cap(false, "href", "x"), cap(true, r.of<const char*>({ "text", "strip-tags", "inner-html" }), "y") }; x.html = "<a href='" + b + "'>" + c + "<i>" + b + "</i></a><a href='" + c + "'></a>";
      }
      break;
    }
    case 'r': {   // regular expressions
      std::string base = std::string(std::size_t(size(1500)), 'a');
      Rx rx;
      rx.src = r.p(50) ? base + "b" : "^(?:x|" + base + "b|y)$";
      rx.i = r.p(30);
      if (r.p(60)) { Pattern p = is("href", Test::Regex, ""); p.test.rx = rx; a.pats.push_back(p); }
      else { Trait t; t.kind = Trait::TypeMatches; t.rx = rx; a.tag = "*"; a.traits.push_back(t); }
      a.pats.push_back(cap(true, "text", "x"));
      for (auto& e : { base + "b", base + "c", base }) x.html += "<a href='" + e + "'>1</a><" + e + ">2</" + e + ">";
      break;
    }
    case 'w': {   // words
      int n = size(1500);
      std::string w;
      for (int i = 0; i < n; ++i) w += "w" + num(i) + " ";
      a.pats = { is("class", Test::Words, w + "last"), cap(false, "id", "x") };
      x.html = "<a id=1 class='" + w + "last'></a><a id=2 class='" + w + "'></a><a id=3 class='last " + w + "'></a><a id=4 class='last'></a>";
      break;
    }
    case 'g': {   // groups
      int n = size(70000);
      a.tag = "li";
      a.pats.push_back(cap(false, "id", "x"));
      if (r.p(30)) a.pats.push_back(cap(true, "text", "y"));
      x.html = "<ul>";
      for (int i = 0; i < n; ++i) x.html += "<li id=" + num(i) + ">";
      break;
    }
    case 'G': {   // values of one group
      int n = size(70000);
      a.tag = "b";
      a.greedy = true;
      a.pats.push_back(cap(false, "id", "x"));
      RuleT p;
      p.tag = "p";
      p.kids.push_back(a);
      if (r.p(50)) { RuleT e; e.tag = "i"; e.pats.push_back(cap(true, "text", "end")); p.kids.push_back(e); }
      x.html = "<p>";
      for (int i = 0; i < n; ++i) x.html += "<b id=" + num(i) + "></b>";
      x.html += "<i>e</i></p><p><i></i></p>";
      x.l.push_back(p);
      return x;
    }
    default: throw HarnessError("gen_extreme");
  }
  x.l.push_back(a);
  return x;
}

static RuleT free_rule(Rng& r, int& left, int depth) {
  --left;
  RuleT x;
  x.tag = r.p(15) ? "*" : r.pick(kTags);
  if (gumbo_tag_enum(x.tag.c_str()) != GUMBO_TAG_UNKNOWN && x.tag != "*") x.tag = gumbo_normalized_tagname(gumbo_tag_enum(x.tag.c_str()));
  x.opt = r.p(25);
  x.greedy = r.p(25);
  int t = int(r.u(4)), m = int(r.u(4));
  for (int i = 0; i < t; ++i) x.traits.push_back(gen_trait(r, nullptr));
  for (int i = 0; i < m; ++i) x.pats.push_back(gen_pattern(r, nullptr));
  if (depth < 6) {
    while (left > 0 && r.p(45)) x.kids.push_back(free_rule(r, left, depth + 1));
    while (left > 0 && r.p(20)) {
      List l;
      do l.push_back(free_rule(r, left, depth + 1)); while (left > 0 && r.p(30));
      x.nested.push_back(std::move(l));
    }
  }
  return x;
}
List gen_list_free(Rng& r, int budget) {
  List l;
  int left = budget;
  do l.push_back(free_rule(r, left, 0)); while (left > 0 && r.p(40));
  return l;
}

std::string gen_template_bytes(Rng& r) {
  unsigned k = unsigned(r.u(100));
  if (k < 6) {
    std::string s;
    int n = int(r.u(40));
    for (int i = 0; i < n; ++i) s += char(r.u(256));
    return s;
  }
  if (k < 30) {
    std::string s;
    int n = int(r.u(16));
    for (int i = 0; i < n; ++i) s += r.pick(kTemplateDict);
    return s;
  }
  std::string s;
  if (k < 50) s = r.pick(corpus_templates());
  else s = render(gen_list_free(r, r.in(1, 6)), r, int(r.u(3)));
  if (s.size() > 600 && r.p(80)) s = s.substr(std::size_t(r.u(s.size())), 600);
  unsigned q = unsigned(r.u(100));
  if (q < 10) return s;
  if (q < 20) {   // another name in some tag
    std::vector<std::size_t> at;
    bool close = r.p(75);
    for (std::size_t i = 0; i + 1 < s.size(); ++i) if (s[i] == '<' && (s[i + 1] == '/') == close) at.push_back(i + 1 + close);
    if (at.empty()) return s;
    std::size_t b = r.pick(at), e = b;
    while (e < s.size() && (std::isalnum(static_cast<unsigned char>(s[e])) || std::strchr("-_*", s[e]))) ++e;
    std::string name = s.substr(b, e - b);
    switch (r.u(5)) {
      case 0: s.replace(b, e - b, "*"); break;
      case 1: s.replace(b, e - b, r.pick(kTags)); break;
      case 2: for (auto& ch : name) ch = char(r.p(50) ? std::toupper(static_cast<unsigned char>(ch)) : ch); s.replace(b, e - b, name); break;
      case 3: s.replace(b, e - b, name + r.of<const char*>({ "x", "-", "_", "1", " " })); break;
      case 4: if (!name.empty()) s.erase(e - 1, 1); break;
    }
    return s;
  }
  if (q < 35) { s.resize(std::size_t(r.u(s.size() + 1))); return s; }
  return mutate_bytes(r, std::move(s), kTemplateDict);
}

} // namespace vh
