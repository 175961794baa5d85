// Template model: rendering to text and lowering to the public API.
#include "core.h"

namespace vh {

std::string esc(std::string_view s, std::size_t max) {
  std::string o;
  for (unsigned char c : s) {
    if (o.size() > max) { o += "..."; break; }
    if (c == '\\') o += "\\\\";
    else if (c == '\n') o += "\\n";
    else if (c >= 32 && c < 127) o += char(c);
    else { char b[8]; std::snprintf(b, sizeof b, "\\x%02x", c); o += b; }
  }
  return o;
}

boost::regex compile(const Rx& r) {
  boost::regex::flag_type f = boost::regex::perl;
  if (r.i) f |= boost::regex::icase;
  if (r.c) f |= boost::regex::collate;
  return boost::regex(r.src, f);
}

std::size_t count_rules(const List& l) {
  std::size_t n = 0;
  for (auto& r : l) {
    n += 1 + count_rules(r.kids);
    for (auto& x : r.nested) n += count_rules(x);
  }
  return n;
}

bool has_capture(const List& l) {
  for (auto& r : l) {
    for (auto& p : r.pats) if (p.capture) return true;
    if (has_capture(r.kids)) return true;
    for (auto& x : r.nested) if (has_capture(x)) return true;
  }
  return false;
}

// ------------------------------------------------------------------- dump
static const char* trait_names[] = {
  "empty", "child-count", "attribute-count", "nth-child", "nth-last-child",
  "nth-of-type", "nth-last-of-type", "first-child", "first-of-type",
  "last-child", "last-of-type", "only-child", "only-of-type", "type-matches", "not" };

static std::string nth_text(const Trait& t) {
  switch (t.form) {
    case 1: return "even";
    case 2: return "odd";
    case 3: return std::to_string(t.a) + "n";
    case 4: return std::to_string(t.a) + "n" + (t.b < 0 ? "" : "+") + std::to_string(t.b);
    default: return std::to_string(t.b);
  }
}

static std::string rx_dump(const Rx& r) {
  return "/" + esc(r.src) + "/" + (r.i ? "i" : "") + (r.c ? "c" : "");
}

static std::string trait_dump(const Trait& t) {
  std::string s = std::string(":") + trait_names[t.kind];
  switch (t.kind) {
    case Trait::ChildCount: case Trait::AttrCount: s += "(" + std::to_string(t.a) + ")"; break;
    case Trait::NthChild: case Trait::NthLastChild: case Trait::NthOfType: case Trait::NthLastOfType:
      s += "(" + nth_text(t) + ")"; break;
    case Trait::TypeMatches: s += "(" + rx_dump(t.rx) + ")"; break;
    case Trait::Not:
      s += "(";
      for (auto& x : t.inner) s += trait_dump(x);
      s += ")"; break;
    default: break;
  }
  return s;
}

static const char* test_ops[] = { "", "=", "==", "^=", "*=", "$=", "=~" };
static const char* pipe_names[] = { "trim", "trim", "collapsews", "tolower", "toupper",
  "prepend", "append", "filter", "replace" };

static std::string pat_dump(const Pattern& p) {
  if (p.user) return std::string(p.user == Pattern::UserMatch ? "usermatch" : p.user == Pattern::UserCapture ? "usercapture" : "uservalue") + std::to_string(p.salt) + "/" + std::to_string(p.density) + (p.capture ? "(" + std::to_string(p.pipes.size()) + ")->" + esc(p.var) : "");
  std::string s = (p.builtin ? "@" : "") + p.name;
  if (p.capture) {
    for (auto& q : p.pipes) {
      s += std::string(":") + pipe_names[q.kind];
      switch (q.kind) {
        case Pipe::TrimSet: case Pipe::Prepend: case Pipe::Append: s += "('" + esc(q.a) + "')"; break;
        case Pipe::Filter: s += "(" + rx_dump(q.rx) + ")"; break;
        case Pipe::Replace: s += "(" + rx_dump(q.rx) + ",'" + esc(q.a) + "')"; break;
        default: break;
      }
    }
    s += ":'" + esc(p.var) + "'";
    if (p.optional) s += "?";
  } else {
    s += test_ops[p.test.kind];
    if (p.test.kind == Test::Regex) s += rx_dump(p.test.rx);
    else if (p.test.kind != Test::None) s += "'" + esc(p.test.lit) + "'";
    if (p.test.neg) s += "!";
  }
  return s;
}

std::string dump(const List& l) {
  std::string s;
  for (auto& r : l) {
    s += "<";
    if (r.opt) s += "?";
    if (r.greedy) s += "+";
    s += r.tag;
    for (auto& t : r.traits) s += trait_dump(t);
    for (auto& p : r.pats) s += " " + pat_dump(p);
    if (r.kids.empty() && r.nested.empty()) { s += "/>"; continue; }
    s += ">" + dump(r.kids);
    for (auto& x : r.nested) s += "{" + dump(x) + "}";
    s += "</" + r.tag + ">";
  }
  return s;
}

// ----------------------------------------------------------------- render
static bool quotable(const std::string& s, char q) {
  for (std::size_t i = 0; i < s.size(); ++i)
    if (s[i] == q && !(i && s[i - 1] == '\\')) return false;
  return s.empty() || s.back() != '\\';
}
bool renderable_literal(const std::string& s, bool allow_empty) {
  if (s.empty()) return allow_empty;
  return quotable(s, '"') || quotable(s, '\'');
}
static std::string quote(const std::string& s, Rng& r) {
  bool d = quotable(s, '"'), a = quotable(s, '\'');
  if (!d && !a) throw HarnessError("unrenderable literal " + s);
  char q = (d && a) ? (r.p(50) ? '"' : '\'') : (d ? '"' : '\'');
  return q + s + q;
}
static std::string rx_text(const Rx& x, Rng& r) {
  std::vector<char> qs;
  for (char q : { '/', '"', '\'' }) if (quotable(x.src, q)) qs.push_back(q);
  if (qs.empty()) throw HarnessError("unrenderable regex " + x.src);
  char q = r.p(60) ? qs[0] : r.pick(qs);
  std::string s = q + x.src + q;
  std::string f;
  if (x.i) f += "i";
  if (x.c) f += "c";
  if (f.size() == 2 && r.p(50)) std::swap(f[0], f[1]);
  if (!f.empty() && r.p(10)) f += r.pick(f);
  return s + f;
}
static std::string recase(const std::string& t, Rng& r, int fancy) {
  if (!fancy || t == "*" || gumbo_tag_enum(t.c_str()) == GUMBO_TAG_UNKNOWN || r.p(70)) return t;
  std::string o = t;
  for (auto& c : o) if (r.p(50)) c = char(std::toupper((unsigned char)c));
  return o;
}
static std::string sp(Rng& r, int fancy, bool atleast1) {
  if (!fancy) return atleast1 ? " " : "";
  static const std::string ws = " \t\n\v\f\r";
  std::string s;
  int n = int(r.u(3)) + (atleast1 ? 1 : 0);
  for (int i = 0; i < n; ++i) s += r.p(60) ? ' ' : r.pick(ws);
  return s;
}
static std::string gap(Rng& r, int fancy) {   // between rules: comments allowed
  if (!fancy) return "";
  std::string s = sp(r, fancy, false);
  if (fancy > 1 && r.p(20)) {
    static const std::vector<std::string> cs = { "#\n", "# <div>\n", "#{ </a> \" ' /\n", "# x # y\n",
      "#\t\r}\n", "#<!-- -->\n", "#\xc3\xa4\n" };
    s += r.pick(cs) + sp(r, fancy, false);
  }
  return s;
}
static std::string trait_text(const Trait& t, Rng& r) {
  std::string s = std::string(":") + trait_names[t.kind];
  auto num = [&](int v) {
    std::string x = std::to_string(v);
    if (r.p(5)) x.insert(x[0] == '-' ? 1 : 0, "0");
    return x;
  };
  switch (t.kind) {
    case Trait::ChildCount: case Trait::AttrCount: s += "(" + num(t.a) + ")"; break;
    case Trait::NthChild: case Trait::NthLastChild: case Trait::NthOfType: case Trait::NthLastOfType:
      s += "(" + nth_text(t) + ")"; break;
    case Trait::TypeMatches: s += "(" + rx_text(t.rx, r) + ")"; break;
    case Trait::Not:
      s += "(";
      for (auto& x : t.inner) s += trait_text(x, r);
      s += ")"; break;
    default: break;
  }
  return s;
}
static bool bare(const std::string& v) {
  if (v.empty()) return false;
  for (unsigned char c : v) if (!(c < 128 && (std::isalnum(c) || c == '-' || c == '_' || c == '.'))) return false;
  return true;
}
static std::string pat_text(const Pattern& p, Rng& r, int fancy) {
  std::string s = (p.builtin ? "@" : "") + p.name;
  if (p.capture) {
    for (auto& q : p.pipes) {
      s += std::string(":") + pipe_names[q.kind];
      switch (q.kind) {
        case Pipe::TrimSet: case Pipe::Prepend: case Pipe::Append: s += "(" + quote(q.a, r) + ")"; break;
        case Pipe::Filter: s += "(" + rx_text(q.rx, r) + ")"; break;
        case Pipe::Replace:
          s += "(" + rx_text(q.rx, r) + sp(r, fancy, false) + "," + sp(r, fancy, false) + quote(q.a, r) + ")"; break;
        default: break;
      }
    }
    s += ":";
    s += (bare(p.var) && r.p(fancy ? 70 : 100)) ? p.var : quote(p.var, r);
    if (p.optional) s += "?";
  } else {
    s += test_ops[p.test.kind];
    if (p.test.kind == Test::Regex) s += rx_text(p.test.rx, r);
    else if (p.test.kind != Test::None) s += quote(p.test.lit, r);
    if (p.test.neg) s += "!";
  }
  return s;
}

std::string render(const List& l, Rng& r, int fancy) {
  std::string s = gap(r, fancy);
  for (auto& x : l) {
    s += "<";
    std::string m;
    if (x.opt) m += "?";
    if (x.greedy) m += "+";
    if (m.size() == 2 && r.p(50)) std::swap(m[0], m[1]);
    if (!m.empty() && fancy > 1 && r.p(5)) m += r.pick(m);
    s += m + recase(x.tag, r, fancy);
    for (auto& t : x.traits) s += trait_text(t, r);
    for (auto& p : x.pats) s += sp(r, fancy, true) + pat_text(p, r, fancy);
    s += sp(r, fancy, false);
    if (x.kids.empty() && x.nested.empty() && r.p(fancy ? 60 : 100)) {
      s += "/>" + gap(r, fancy);
      continue;
    }
    s += ">" + gap(r, fancy);
    std::size_t k = 0, n = 0;
    while (k < x.kids.size() || n < x.nested.size()) {
      bool kid = n >= x.nested.size() || (k < x.kids.size() && r.p(50));
      if (kid) { s += render({ x.kids[k++] }, r, fancy); }
      else { s += "{" + render(x.nested[n++], r, fancy) + "}" + gap(r, fancy); }
    }
    s += "</" + recase(x.tag, r, fancy) + ">" + gap(r, fancy);
  }
  return s;
}

// ------------------------------------------------------------------- user
UserEnv* g_user = nullptr;
bool user_bit(int salt, const std::string& what, unsigned density) {
  return fnv(what, 0x1234567ULL + std::uint64_t(salt) * 0x9e3779b97f4a7c15ULL) / 7 % 100 < density;
}
std::string user_value(int salt, const RNode* n) {
  std::string s = std::to_string(salt) + "@" + std::to_string(n->order);
  switch ((salt * 31 + n->order * 7) % 11) {
    case 0: return "";
    case 1: return s + std::string(1, '\0') + "tail";
    case 2: return " " + s + "\xff";
    default: return s;
  }
}
static const RNode* user_seen(int salt, const GumboNode* n) {
  if (!g_user || !g_user->doc) throw HarnessError("no user environment");
  auto it = g_user->doc->by_lib.find(n);
  if (it == g_user->doc->by_lib.end()) { g_user->stray = "user function " + std::to_string(salt) + " called with something that is not a node of the document"; return g_user->doc->root; }
  if (g_user->inside) return it->second;
  g_user->calls.emplace_back(salt, it->second);
  g_user->tick();
  g_user->run_hook();
  return it->second;
}
hext::MatchFunction user_match(int salt, unsigned density) {
  return [salt, density](const GumboNode* n) { return user_bit(salt, std::to_string(user_seen(salt, n)->order), density); };
}
hext::CaptureFunction user_capture(int salt) {
  return [salt](const GumboNode* n) { return user_value(salt, user_seen(salt, n)); };
}
namespace {
struct UserTest : hext::ValueTest {
  int salt; unsigned density;
  UserTest(int s, unsigned d) : salt(s), density(d) {}
  std::unique_ptr<hext::ValueTest> clone() const override { return std::make_unique<UserTest>(*this); }
  bool test(const char* s) const override {
    if (!s) return false;
    const bool b = user_bit(salt, s, density);
    if (g_user) g_user->run_hook();
    return b && user_bit(salt, s, density);   // the string is still there
  }
};
}
std::unique_ptr<hext::ValueTest> user_test(int salt, unsigned density) { return std::make_unique<UserTest>(salt, density); }

// ------------------------------------------------------------------ lower
const hext::CaptureFunction& builtin_fn(const std::string& n) {
  if (n == "text") return hext::TextBuiltin;
  if (n == "inner-html") return hext::InnerHtmlBuiltin;
  if (n == "strip-tags") return hext::StripTagsBuiltin;
  throw HarnessError("builtin " + n);
}

// The same part can be built in several ways; which one is taken depends on
// the part only, so that a case can be repeated.
static unsigned way(std::uint64_t x, unsigned n) { x ^= x >> 31; x *= 0x9e3779b97f4a7c15ULL; return unsigned((x >> 33) % n); }

std::unique_ptr<hext::Match> lower_trait(const Trait& t) {
  using N = hext::NthChildMatch;
  const std::uint64_t h = std::uint64_t(t.kind) * 1000003 + std::uint64_t(unsigned(t.a)) * 1009 + unsigned(t.b) * 31 + t.inner.size() + t.rx.src.size();
  auto nth = [&](N::Option o) {
    if (way(h, 3) == 0) return std::make_unique<N>(std::pair<int, int>(t.a, t.b), o);
    if (o == N::First && way(h, 3) == 1) return std::make_unique<N>(t.a, t.b);
    if ((o & N::OfType) && way(h, 2)) return std::make_unique<N>(t.a, t.b, N::OfType | (o & N::Last ? N::Last : N::First));
    return std::make_unique<N>(t.a, t.b, o);
  };
  switch (t.kind) {
    case Trait::Empty: return std::make_unique<hext::ChildCountMatch>(0u);
    case Trait::ChildCount: return std::make_unique<hext::ChildCountMatch>(unsigned(t.a));
    case Trait::AttrCount: return std::make_unique<hext::AttributeCountMatch>(unsigned(t.a));
    case Trait::NthChild: return nth(N::First);
    case Trait::NthLastChild: return nth(N::Last);
    case Trait::NthOfType: return nth(N::First | N::OfType);
    case Trait::NthLastOfType: return nth(N::Last | N::OfType);
    case Trait::FirstChild: return std::make_unique<N>(0, 1);
    case Trait::FirstOfType: return std::make_unique<N>(0, 1, N::First | N::OfType);
    case Trait::LastChild: return std::make_unique<N>(0, 1, N::Last);
    case Trait::LastOfType: return std::make_unique<N>(0, 1, N::Last | N::OfType);
    case Trait::OnlyChild: return std::make_unique<hext::OnlyChildMatch>();
    case Trait::OnlyOfType: return std::make_unique<hext::OnlyChildMatch>(hext::OnlyChildMatch::OfType | hext::OnlyChildMatch::OfType);
    case Trait::TypeMatches: return std::make_unique<hext::TypeRegexMatch>(compile(t.rx));
    case Trait::Not: {
      if (way(h + t.inner.size(), 3) == 0) {
        std::vector<std::unique_ptr<hext::Match>> v;
        for (auto& x : t.inner) v.push_back(lower_trait(x));
        return std::make_unique<hext::NegateMatch>(std::move(v));
      }
      if (t.inner.size() == 1) return std::make_unique<hext::NegateMatch>(lower_trait(t.inner[0]));
      auto m = std::make_unique<hext::NegateMatch>();
      for (auto& x : t.inner) m->append_match(lower_trait(x));
      return m;
    }
  }
  throw HarnessError("trait");
}

std::unique_ptr<hext::ValueTest> lower_test(const Test& t) {
  std::unique_ptr<hext::ValueTest> v;
  switch (t.kind) {
    case Test::None: break;
    case Test::Words:
      if (way(t.lit.size() + t.lit.find(' '), 3) == 0) {
        std::vector<std::string> ws(1);
        for (char ch : t.lit) { if (ch == ' ') ws.emplace_back(); else ws.back() += ch; }
        ws.erase(std::remove(ws.begin(), ws.end(), ""), ws.end());
        v = std::make_unique<hext::ContainsWordsTest>(ws);
        break;
      }
      v = std::make_unique<hext::ContainsWordsTest>(t.lit); break;
    case Test::Equals: v = std::make_unique<hext::EqualsTest>(t.lit); break;
    case Test::Begins: v = std::make_unique<hext::BeginsWithTest>(t.lit); break;
    case Test::Contains: v = std::make_unique<hext::ContainsTest>(t.lit); break;
    case Test::Ends: v = std::make_unique<hext::EndsWithTest>(t.lit); break;
    case Test::Regex: v = std::make_unique<hext::RegexTest>(compile(t.rx)); break;
  }
  if (t.neg) v = std::make_unique<hext::NegateTest>(std::move(v));
  return v;
}

std::unique_ptr<hext::StringPipe> lower_pipe(const Pipe& p) {
  switch (p.kind) {
    case Pipe::Trim: return std::make_unique<hext::TrimPipe>();
    case Pipe::TrimSet: return std::make_unique<hext::TrimPipe>(p.a);
    case Pipe::Collapse: return std::make_unique<hext::CollapseWsPipe>();
    case Pipe::Lower: return std::make_unique<hext::CasePipe>();
    case Pipe::Upper: return std::make_unique<hext::CasePipe>(hext::CasePipe::ToUpper);
    case Pipe::Prepend: return std::make_unique<hext::PrependPipe>(p.a);
    case Pipe::Append: return std::make_unique<hext::AppendPipe>(p.a);
    case Pipe::Filter: return std::make_unique<hext::RegexPipe>(compile(p.rx));
    case Pipe::Replace: return std::make_unique<hext::RegexReplacePipe>(compile(p.rx), p.a);
  }
  throw HarnessError("pipe");
}

std::unique_ptr<hext::StringPipe> lower_pipes(const std::vector<Pipe>& ps) {
  std::unique_ptr<hext::StringPipe> head;
  for (auto& p : ps) {
    auto x = lower_pipe(p);
    if (head) head->append(std::move(x)); else head = std::move(x);
  }
  return head;
}

hext::Rule lower_single(const RuleT& r) {
  const unsigned h = way(r.tag.size() * 7 + r.opt * 3 + r.greedy + r.traits.size() * 11 + r.pats.size() * 13 + r.kids.size(), 4);
  hext::Rule out = r.tag == "*" ? hext::Rule(hext::HtmlTag::ANY, r.opt, r.greedy)
                                : hext::Rule(r.tag, r.opt, r.greedy);
  if (h == 1) {       // with setters, over other values
    hext::Rule x(h % 2 ? hext::HtmlTag::DIV : hext::HtmlTag::ANY, !r.opt, !r.greedy);
    x.set_tag(out.get_tag()).set_greedy(r.greedy).set_optional(r.opt);
    if (out.get_tagname()) x.set_tagname(*out.get_tagname());
    out = std::move(x);
  }
  if (!r.kept_name.empty()) out.set_tagname(r.kept_name);
  for (auto& t : r.traits) out.append_match(lower_trait(t));
  for (auto& p : r.pats) {
    if (p.user == Pattern::UserMatch) { out.append_match<hext::FunctionMatch>(user_match(p.salt, p.density)); continue; }
    if (p.user == Pattern::UserCapture) { out.append_capture<hext::FunctionCapture>(user_capture(p.salt), p.var, lower_pipes(p.pipes)); continue; }
    if (p.user == Pattern::UserValue) { out.append_match<hext::FunctionValueMatch>(user_capture(p.salt), user_test(p.salt, p.density)); continue; }
    if (p.capture) {
      if (p.builtin)
        out.append_capture<hext::FunctionCapture>(builtin_fn(p.name), p.var, lower_pipes(p.pipes));
      else {
        out.append_capture<hext::AttributeCapture>(p.name, p.var, lower_pipes(p.pipes));
        if (!p.optional) out.append_match<hext::AttributeMatch>(p.name);
      }
    } else if (p.builtin)
      out.append_match<hext::FunctionValueMatch>(builtin_fn(p.name), lower_test(p.test));
    else
      out.append_match<hext::AttributeMatch>(p.name, lower_test(p.test));
  }
  return out;
}

static hext::Rule lower_rule(const RuleT& r) {
  hext::Rule out = lower_single(r);
  const unsigned h = way(r.kids.size() * 5 + r.nested.size() + r.pats.size() * 3, 3);
  if (h == 0 && !r.kids.empty()) out.append_child(lower(r.kids));   // the list at once
  else for (auto& k : r.kids) out.append_child(lower_rule(k));
  for (auto& n : r.nested) out.append_nested(lower(n));
  return out;
}

hext::Rule lower(const List& l) {
  if (l.empty()) return hext::Rule();
  if (l.size() > 1 && way(l.size() * 3 + l[0].pats.size(), 3) == 0) {   // from the end
    hext::Rule tail = lower_rule(l.back());
    for (std::size_t i = l.size() - 1; i-- > 0;) {
      hext::Rule x = lower_rule(l[i]);
      x.append_next(std::move(tail));
      tail = std::move(x);
    }
    return tail;
  }
  hext::Rule first = lower_rule(l[0]);
  for (std::size_t i = 1; i < l.size(); ++i) first.append_next(lower_rule(l[i]));
  return first;
}

} // namespace vh
