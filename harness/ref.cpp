// Reference semantics, written against RNode trees only.
#include "core.h"
#include <algorithm>

namespace vh {

// ---------------------------------------------------------------- documents
static std::string original_name(const GumboStringPiece& p) {
  // "<name attr...>" -> name, without using the library's helper
  if (!p.data || !p.length) return "";
  std::size_t i = 0;
  if (p.data[i] == '<') ++i;
  // the HTML parser's tag text of an element after a stray "</>" begins there: everything up to the last byte is the name
  if (i < p.length && p.data[i] == '/') return p.length > 3 ? std::string(p.data + 2, p.length - 3) : "";
  std::size_t b = i;
  while (i < p.length && !std::isspace((unsigned char)p.data[i]) && p.data[i] != '/' && p.data[i] != '>') ++i;
  return std::string(p.data + b, i - b);
}

RDoc::RDoc(const GumboNode* r) {
  struct Rec {
    RDoc& d;
    RNode* go(const GumboNode* n, RNode* parent, int idx) {
      d.all.push_back(std::make_unique<RNode>());
      RNode* x = d.all.back().get();
      x->type = n->type;
      x->parent = parent;
      x->idx = idx;
      x->order = int(d.all.size()) - 1;
      x->lib = n;
      d.by_lib[n] = x;
      if (n->type == GUMBO_NODE_ELEMENT || n->type == GUMBO_NODE_TEMPLATE) {
        const GumboElement& e = n->v.element;
        x->tag = e.tag;
        x->name = e.tag == GUMBO_TAG_UNKNOWN ? original_name(e.original_tag)
                                             : std::string(gumbo_normalized_tagname(e.tag));
        for (unsigned i = 0; i < e.attributes.length; ++i) {
          auto a = static_cast<const GumboAttribute*>(e.attributes.data[i]);
          x->attrs.push_back({ a->name ? a->name : "", a->value ? a->value : "", int(a->attr_namespace) });
        }
        for (unsigned i = 0; i < e.children.length; ++i)
          x->kids.push_back(go(static_cast<const GumboNode*>(e.children.data[i]), x, int(i)));
      } else if (n->type != GUMBO_NODE_DOCUMENT) {
        x->text = n->v.text.text ? n->v.text.text : "";
      }
      return x;
    }
  };
  if (r) root = Rec{ *this }.go(r, nullptr, 0);
}

std::string RDoc::dump() const {
  std::string s;
  for (auto& n : all) {
    int d = 0;
    for (auto* p = n->parent; p; p = p->parent) ++d;
    s += std::to_string(d) + ":" + std::to_string(n->type) + ":" + std::to_string(n->element() ? n->tag : 0) + ":" + n->name;
    for (auto& a : n->attrs) s += "|" + std::to_string(a.ns) + esc(a.name) + "=" + esc(a.value);
    s += "|" + esc(n->text) + "\n";
  }
  return s;
}

// --------------------------------------------------------------- conditions
static bool ieq(const std::string& a, const std::string& b) {
  if (a.size() != b.size()) return false;
  for (std::size_t i = 0; i < a.size(); ++i) {
    auto l = [](char c) { return c >= 'A' && c <= 'Z' ? char(c + 32) : c; };
    if (l(a[i]) != l(b[i])) return false;
  }
  return true;
}

const RAttr* ref_attr(const RNode* n, const std::string& name) {
  if (!n->element()) return nullptr;
  for (auto& a : n->attrs) if (ieq(a.name, name)) return &a;
  return nullptr;
}

bool ref_tag(const std::string& tag, const RNode* n) {
  if (tag == "*") return true;
  if (!n->element()) return false;
  GumboTag t = gumbo_tag_enum(tag.c_str());
  if (t != n->tag) return false;
  if (t != GUMBO_TAG_UNKNOWN) return true;
  return !n->name.empty() && ieq(tag, n->name);
}

static bool same_type(const RNode* a, const RNode* b) {
  return a->tag == b->tag && (a->tag != GUMBO_TAG_UNKNOWN || ieq(a->name, b->name));
}

static long long position(const RNode* n, bool from_end, bool of_type) {
  if (!n->parent || !n->parent->element()) return 0;
  auto& k = n->parent->kids;
  long long c = 0;
  for (int i = n->idx; i >= 0 && i < int(k.size()); i += from_end ? 1 : -1)
    if (k[std::size_t(i)]->element() && (!of_type || same_type(k[std::size_t(i)], n))) ++c;
  return c;
}

static bool nth(const RNode* n, long long step, long long shift, bool from_end, bool of_type) {
  if (!n->element()) return false;
  long long pos = position(n, from_end, of_type);
  // exists k >= 0: pos == k*step + shift
  if (step == 0) return pos == shift;
  long long d = pos - shift;
  return d % step == 0 && d / step >= 0;
}

bool ref_trait(const Trait& t, const RNode* n) {
  switch (t.kind) {
    case Trait::Empty: case Trait::ChildCount: {
      if (!n->element()) return false;
      long long c = 0;
      for (auto* k : n->kids) c += k->element();
      return c == (t.kind == Trait::Empty ? 0 : t.a);
    }
    case Trait::AttrCount: return n->element() && (long long)n->attrs.size() == t.a;
    case Trait::NthChild: return nth(n, t.a, t.b, false, false);
    case Trait::NthLastChild: return nth(n, t.a, t.b, true, false);
    case Trait::NthOfType: return nth(n, t.a, t.b, false, true);
    case Trait::NthLastOfType: return nth(n, t.a, t.b, true, true);
    case Trait::FirstChild: return nth(n, 0, 1, false, false);
    case Trait::FirstOfType: return nth(n, 0, 1, false, true);
    case Trait::LastChild: return nth(n, 0, 1, true, false);
    case Trait::LastOfType: return nth(n, 0, 1, true, true);
    case Trait::OnlyChild: case Trait::OnlyOfType: {
      if (!n->element() || !n->parent || !n->parent->element()) return false;
      for (auto* k : n->parent->kids)
        if (k != n && k->element() && (t.kind == Trait::OnlyChild || same_type(k, n))) return false;
      return true;
    }
    case Trait::TypeMatches:
      return boost::regex_search(n->element() ? n->name : std::string(), compile(t.rx));
    case Trait::Not:
      for (auto& x : t.inner) if (ref_trait(x, n)) return false;
      return true;
  }
  throw HarnessError("trait");
}

bool ref_test(const Test& t, const char* subject) {
  bool r = false;
  if (t.kind == Test::None) {
    if (!t.neg) throw HarnessError("presence is not a value test");
    return subject == nullptr;
  }
  if (subject) {
    std::string s = subject;
    switch (t.kind) {
      case Test::Words: {
        auto split = [](const std::string& x) {
          std::vector<std::string> v(1);
          for (char c : x) { if (c == ' ') v.emplace_back(); else v.back() += c; }
          std::vector<std::string> w;
          for (auto& y : v) if (!y.empty()) w.push_back(y);
          return w;
        };
        auto have = split(s), want = split(t.lit);
        r = !want.empty();
        for (auto& w : want) if (std::find(have.begin(), have.end(), w) == have.end()) r = false;
        break;
      }
      case Test::Equals: r = s == t.lit; break;
      case Test::Begins: r = s.size() >= t.lit.size() && s.substr(0, t.lit.size()) == t.lit; break;
      case Test::Ends: r = s.size() >= t.lit.size() && s.substr(s.size() - t.lit.size()) == t.lit; break;
      case Test::Contains: {
        for (std::size_t i = 0; !r && i + t.lit.size() <= s.size(); ++i) r = s.compare(i, t.lit.size(), t.lit) == 0;
        break;
      }
      case Test::Regex: r = boost::regex_search(s, compile(t.rx)); break;
      default: break;
    }
  }
  return t.neg ? !r : r;
}

// ------------------------------------------------------------------- values
static const std::set<std::string>& inline_tags() {
  static const std::set<std::string> s = { "a", "abbr", "acronym", "b", "bdo", "big", "cite", "code",
    "del", "dfn", "em", "fieldset", "font", "i", "img", "ins", "kbd", "label", "legend", "map", "object",
    "q", "s", "samp", "small", "span", "strike", "strong", "sub", "sup", "tt", "u", "var" };
  return s;
}
static const std::set<std::string>& void_tags() {
  static const std::set<std::string> s = { "area", "base", "br", "col", "embed", "hr", "img", "input",
    "keygen", "link", "meta", "param", "source", "track", "wbr" };
  return s;
}

static void strip_into(const RNode* n, bool wrap, std::string& o) {
  if (n->element()) {
    for (auto* k : n->kids) {
      bool w = wrap && k->element() && (k->tag == GUMBO_TAG_UNKNOWN || !inline_tags().count(k->name));
      if (w) o += '\n';
      strip_into(k, wrap, o);
      if (w) o += '\n';
    }
  } else if (n->type == GUMBO_NODE_TEXT || n->type == GUMBO_NODE_WHITESPACE)
    o += n->text;
}

static std::string collapse(const std::string& s) {
  std::string o, word;
  auto flush = [&] { if (!word.empty()) { if (!o.empty()) o += ' '; o += word; word.clear(); } };
  for (char c : s) { if (c == ' ' || c == '\t' || c == '\n' || c == '\f' || c == '\r') flush(); else word += c; }
  flush();
  return o;
}

std::string ref_strip(const RNode* n) { std::string o; strip_into(n, false, o); return o; }
std::string ref_text(const RNode* n) { std::string o; strip_into(n, true, o); return collapse(o); }

static void markup(const RNode* n, std::string& o) {
  switch (n->type) {
    case GUMBO_NODE_TEXT: case GUMBO_NODE_WHITESPACE: o += n->text; break;
    case GUMBO_NODE_COMMENT: o += "<!--" + n->text + "-->"; break;
    case GUMBO_NODE_ELEMENT: case GUMBO_NODE_TEMPLATE: {
      o += "<" + n->name;
      for (auto& a : n->attrs) {
        o += ' ';
        if (a.ns == GUMBO_ATTR_NAMESPACE_XLINK) o += "xlink:";
        if (a.ns == GUMBO_ATTR_NAMESPACE_XML) o += "xml:";
        if (a.ns == GUMBO_ATTR_NAMESPACE_XMLNS) o += "xmlns:";
        o += a.name + "=\"";
        for (char c : a.value) { if (c == '"' || c == '\\') o += '\\'; o += c; }
        o += '"';
      }
      if (n->tag != GUMBO_TAG_UNKNOWN && void_tags().count(n->name)) { o += "/>"; break; }
      o += ">";
      for (auto* k : n->kids) markup(k, o);
      o += "</" + n->name + ">";
      break;
    }
    default: break;
  }
}
std::string ref_inner(const RNode* n) {
  std::string o;
  if (n->element()) for (auto* k : n->kids) markup(k, o);
  return o;
}

std::string ref_builtin(const std::string& name, const RNode* n) {
  if (name == "text") return ref_text(n);
  if (name == "strip-tags") return ref_strip(n);
  if (name == "inner-html") return ref_inner(n);
  throw HarnessError("builtin " + name);
}

// -------------------------------------------------------------------- pipes
std::string ref_pipe1(const Pipe& p, std::string s) {
  switch (p.kind) {
    case Pipe::Trim: case Pipe::TrimSet: {
      std::string set = p.kind == Pipe::Trim ? " " : p.a;
      std::size_t b = 0, e = s.size();
      while (b < e && set.find(s[b]) != std::string::npos) ++b;
      while (e > b && set.find(s[e - 1]) != std::string::npos) --e;
      return s.substr(b, e - b);
    }
    case Pipe::Collapse: return collapse(s);
    case Pipe::Lower: for (auto& c : s) if (c >= 'A' && c <= 'Z') c = char(c + 32); return s;
    case Pipe::Upper: for (auto& c : s) if (c >= 'a' && c <= 'z') c = char(c - 32); return s;
    case Pipe::Prepend: return p.a + s;
    case Pipe::Append: return s + p.a;
    case Pipe::Filter: {
      boost::regex rx = compile(p.rx);
      boost::sregex_iterator it(s.begin(), s.end(), rx), end;
      if (it == end) return "";
      return it->size() > 1 ? (*it)[1].str() : (*it)[0].str();
    }
    case Pipe::Replace: {
      boost::regex rx = compile(p.rx);
      std::string o;
      auto last = s.cbegin();
      for (boost::sregex_iterator it(s.cbegin(), s.cend(), rx), end; it != end; ++it) {
        o.append(last, (*it)[0].first);
        o += it->format(p.a);
        last = (*it)[0].second;
      }
      o.append(last, s.cend());
      return o;
    }
  }
  throw HarnessError("pipe");
}
std::string ref_pipes(const std::vector<Pipe>& ps, std::string s) {
  for (auto& p : ps) s = ref_pipe1(p, std::move(s));
  return s;
}

// ----------------------------------------------------------------- one rule
bool ref_pattern_matches(const Pattern& p, const RNode* n) {
  if (p.user == Pattern::UserMatch) return user_bit(p.salt, std::to_string(n->order), p.density);
  if (p.user == Pattern::UserCapture) return true;
  if (p.user == Pattern::UserValue) return user_bit(p.salt, user_value(p.salt, n).c_str(), p.density);
  if (p.capture) return p.builtin || p.optional || ref_attr(n, p.name);
  if (p.builtin) return ref_test(p.test, ref_builtin(p.name, n).c_str());
  if (!n->element()) return false;
  const RAttr* a = ref_attr(n, p.name);
  if (p.test.kind == Test::None && !p.test.neg) return a != nullptr;
  return ref_test(p.test, a ? a->value.c_str() : nullptr);
}

bool ref_matches(const RuleT& r, const RNode* n) {
  if (!ref_tag(r.tag, n)) return false;
  for (auto& t : r.traits) if (!ref_trait(t, n)) return false;
  for (auto& p : r.pats) if (!ref_pattern_matches(p, n)) return false;
  return true;
}

std::vector<hext::ResultPair> ref_capture(const RuleT& r, const RNode* n) {
  std::vector<hext::ResultPair> v;
  for (auto& p : r.pats) {
    if (p.user == Pattern::UserCapture) { v.emplace_back(p.var, ref_pipes(p.pipes, user_value(p.salt, n))); continue; }
    if (!p.capture || p.user) continue;
    if (p.builtin) v.emplace_back(p.var, ref_pipes(p.pipes, ref_builtin(p.name, n)));
    else if (auto* a = ref_attr(n, p.name)) v.emplace_back(p.var, ref_pipes(p.pipes, a->value));
  }
  return v;
}

// --------------------------------------------------------------- extraction
static const RNode* next(const RNode* n) {
  if (!n || !n->parent || !n->parent->element()) return nullptr;
  auto& k = n->parent->kids;
  return std::size_t(n->idx) + 1 < k.size() ? k[std::size_t(n->idx) + 1] : nullptr;
}
static const RNode* first_kid(const RNode* n) {
  return n->element() && !n->kids.empty() ? n->kids[0] : nullptr;
}
static bool has_mandatory(const List& l) {
  for (auto& r : l) if (!r.opt) return true;
  return false;
}

const RNode* RefExtract::once(const RuleT& r, const RNode* n, const RNode* end, std::vector<Match>& out) {
  for (; n && n != end; n = next(n))
    if (deep(r, n, out)) return n;
  return end;
}

const RNode* RefExtract::range(const List& l, std::size_t r, std::size_t rend, const RNode* n,
                               const RNode* nend, std::vector<Match>& out) {
  const RNode* m = nend;
  while (r < rend) {
    m = once(l[r], n, nend, out);
    bool hit = m && m != nend;
    if (hit) { out.push_back({ &l[r], m }); n = next(m); }
    if (!(l[r].greedy && hit)) ++r;
  }
  return m;
}

const RNode* RefExtract::group(const List& l, const RNode* n, std::vector<Match>& out) {
  std::vector<Match> sub;
  std::size_t i = 0;
  auto repeated = [&](std::size_t k) { return l[k].greedy && !sub.empty() && sub.back().first == &l[k]; };
  auto emit = [&] { out.insert(out.end(), sub.begin(), sub.end()); };
  while (i < l.size() && n) {
    if (!l[i].opt && !repeated(i)) {
      n = once(l[i], n, nullptr, sub);
      if (!n) return nullptr;
      sub.push_back({ &l[i], n });
      if (!l[i].greedy) ++i;
      n = next(n);
      continue;
    }
    std::size_t stop = i + 1;
    while (stop < l.size() && l[stop].opt) ++stop;
    if (stop < l.size()) {                       // up to the next mandatory rule
      const RNode* s = once(l[stop], n, nullptr, sub);
      if (!s) return nullptr;
      range(l, i, stop, n, s, sub);
      sub.push_back({ &l[stop], s });
      i = stop + 1;
      n = next(s);
      continue;
    }
    for (stop = 0; stop < i && l[stop].opt; ++stop) {}
    if (stop == i) {                             // nothing mandatory at all
      n = range(l, i, l.size(), n, nullptr, sub);
      emit();
      return n ? next(n) : nullptr;
    }
    // up to where the next occurrence would begin
    std::vector<Match> discard;
    auto before = searches;
    const RNode* s = once(l[stop], n, nullptr, discard);
    if (searches != before) rematched = true;
    range(l, i, l.size(), n, s, sub);
    emit();
    return s;
  }
  if (i < l.size() && repeated(i)) ++i;
  while (i < l.size() && l[i].opt) ++i;
  if (i < l.size()) return nullptr;
  emit();
  return n;
}

bool RefExtract::deep(const RuleT& r, const RNode* n, std::vector<Match>& out) {
  if (max_steps && ++steps > max_steps) throw TooExpensive{};
  if (!ref_matches(r, n)) return false;
  if (r.kids.empty() && r.nested.empty()) return true;
  const RNode* k = first_kid(n);
  if (!k) return false;
  std::vector<Match> sub;
  if (!r.kids.empty()) {
    bool matched = false;
    for (const RNode* x = k; x; ) {
      std::vector<Match> g;
      x = group(r.kids, x, g);
      if (!g.empty()) { sub.insert(sub.end(), g.begin(), g.end()); matched = true; }
      else if (!has_mandatory(r.kids)) matched = true;
    }
    if (!matched) return false;
  }
  for (auto& l : r.nested) {
    std::vector<std::vector<Match>> gs;
    search_into(l, k, gs);
    if (gs.empty() && has_mandatory(l)) return false;
    for (auto& g : gs) sub.insert(sub.end(), g.begin(), g.end());
  }
  out.insert(out.end(), sub.begin(), sub.end());
  return true;
}

void RefExtract::search_into(const List& l, const RNode* n, std::vector<std::vector<Match>>& out) {
  ++searches;
  if (limit && searches >= limit) throw LimitReached{};
  for (const RNode* x = n; x; ) {
    std::vector<Match> g;
    x = group(l, x, g);
    if (!g.empty()) out.push_back(std::move(g));
  }
  for (const RNode* x = n; x; x = next(x))
    if (auto* k = first_kid(x)) search_into(l, k, out);
}

hext::Result RefExtract::run(const List& l, const RNode* start) {
  static const List any(1);
  groups.clear();
  searches = steps = 0;
  rematched = false;
  search_into(l.empty() ? any : l, start, groups);
  hext::Result res;
  for (auto& g : groups) {
    hext::ResultMap m;
    for (auto& x : g)
      for (auto& pr : ref_capture(*x.first, x.second)) m.insert(pr);
    if (!m.empty()) res.push_back(std::move(m));
  }
  return res;
}

} // namespace vh
