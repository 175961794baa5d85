// Observations of library objects through the public API.
#include "core.h"

#include <sys/mman.h>
#include <unistd.h>

extern "C" __attribute__((weak)) std::size_t __sanitizer_get_current_allocated_bytes();

namespace vh {

std::string show(const hext::Result& res) {
  std::string s;
  for (auto& m : res) {
    s += "{";
    for (auto& p : m) s += std::to_string(p.first.size()) + ":" + p.first + "=" + std::to_string(p.second.size()) + ":" + p.second + ";";
    s += "}";
  }
  return s;
}
std::string show_pairs(const std::vector<hext::ResultPair>& v) {
  std::string s;
  for (auto& p : v) s += std::to_string(p.first.size()) + ":" + p.first + "=" + std::to_string(p.second.size()) + ":" + p.second + ";";
  return s;
}

static std::string tag_text(const hext::Rule& r) {
  if (r.get_tag() == hext::HtmlTag::ANY) return "*";
  GumboTag t = static_cast<GumboTag>(r.get_tag());
  if (t == GUMBO_TAG_UNKNOWN) { auto n = r.get_tagname(); return n ? *n : std::string("(unnamed)"); }
  return gumbo_normalized_tagname(t);
}
std::string structure(const hext::Rule& rule) {
  std::string s;
  for (const hext::Rule* r = &rule; r; r = r->next()) {
    s += "<";
    if (r->is_optional()) s += "?";
    if (r->is_greedy()) s += "+";
    s += tag_text(*r) + ">";
    if (r->get_tag() != hext::HtmlTag::UNKNOWN && r->get_tagname()) s += "[" + *r->get_tagname() + "]";
    if (r->child()) s += "(" + structure(*r->child()) + ")";
    for (auto& n : r->nested()) s += "{" + structure(n) + "}";
  }
  return s;
}
std::string structure(const List& l) {
  if (l.empty()) return "<*>";
  std::string s;
  for (auto& r : l) {
    s += "<";
    if (r.opt) s += "?";
    if (r.greedy) s += "+";
    s += r.tag + ">";
    if (!r.kept_name.empty()) s += "[" + r.kept_name + "]";
    if (!r.kids.empty()) s += "(" + structure(r.kids) + ")";
    for (auto& n : r.nested) s += "{" + structure(n) + "}";
  }
  return s;
}
void all_rules(const hext::Rule& rule, std::vector<const hext::Rule*>& v) {
  for (const hext::Rule* r = &rule; r; r = r->next()) {
    v.push_back(r);
    if (r->child()) all_rules(*r->child(), v);
    for (auto& n : r->nested()) all_rules(n, v);
  }
}
void all_rules(const List& l, std::vector<const RuleT*>& v) {
  for (auto& r : l) {
    v.push_back(&r);
    all_rules(r.kids, v);
    for (auto& n : r.nested) all_rules(n, v);
  }
}

std::string extract_sig(const hext::Rule& r, const GumboNode* n, std::uint64_t limit) {
  try { return show(r.extract(n, limit)); }
  catch (const hext::MaxSearchError& e) { return std::string("!limit ") + e.what(); }
  catch (const Violation&) { throw; }
  catch (const std::exception& e) { return std::string("!") + e.what(); }
}
std::string ref_extract_sig(const List& l, const RNode* n, std::uint64_t limit, RefExtract* x) {
  RefExtract own;
  RefExtract& e = x ? *x : own;
  e.limit = limit;
  try { return show(e.run(l, n)); }
  catch (const LimitReached&) { return "!limit"; }
}

std::string rule_sig(const hext::Rule& r) {
  static const char* docs[] = {
    "<div class='a b' id=foo><a href='x y'>A <b>foo</b> 1</a><a href=q>bar</a> t <!-- c --><x-foo title=T>Z</x-foo></div><p>foo<br>bar</p>",
    "<ul><li>1<li class=item>2 <i>price 12</i><li><span>3</span></ul><X-Foo a=1><x-bar/></X-Foo><h1 data-x='Foo'>FOO</h1><img src=a alt=''>",
  };
  static std::vector<std::unique_ptr<hext::Html>> loaded = [] {
    std::vector<std::unique_ptr<hext::Html>> v;
    for (auto d : docs) v.push_back(std::make_unique<hext::Html>(d));
    return v;
  }();
  std::string s = structure(r) + "|";
  std::vector<const hext::Rule*> rs;
  all_rules(r, rs);
  for (auto& h : loaded) {
    s += extract_sig(r, h->root(), 300) + "|";
    // every node against every rule
    std::vector<const GumboNode*> st = { h->root() };
    while (!st.empty()) {
      auto n = st.back();
      st.pop_back();
      for (auto* x : rs) if (x->matches(n)) s += "+" + show_pairs(x->capture(n)); else s += "-";
      if (n->type == GUMBO_NODE_ELEMENT)
        for (unsigned i = 0; i < n->v.element.children.length; ++i) st.push_back(static_cast<const GumboNode*>(n->v.element.children.data[i]));
    }
    s += "|";
  }
  return s;
}

std::size_t live_bytes() {
  return __sanitizer_get_current_allocated_bytes ? __sanitizer_get_current_allocated_bytes() : 0;
}

std::size_t html_slack(std::string_view s) {
  std::size_t i = s.size();
  while (i && std::isalnum(static_cast<unsigned char>(s[i - 1]))) --i;
  return i && i < s.size() && s[i - 1] == '&' ? 1 : 0;
}

Exact::Exact(std::string_view s, bool guard, bool at_start, std::size_t slack) : n_(s.size()), map_(0) {
  if (!guard) {
    base_ = static_cast<char*>(std::malloc(n_ ? n_ : 1));
    if (!base_) throw HarnessError("malloc");
    p_ = n_ ? base_ : base_ + 1;
    if (n_) std::memcpy(p_, s.data(), n_);
    return;
  }
  const std::size_t pg = std::size_t(sysconf(_SC_PAGESIZE));
  std::size_t inner = (n_ + slack + pg - 1) / pg * pg;
  if (!inner) inner = pg;
  map_ = inner + 2 * pg;
  void* m = mmap(nullptr, map_, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
  if (m == MAP_FAILED) throw HarnessError("mmap");
  base_ = static_cast<char*>(m);
  if (mprotect(base_ + pg, inner, PROT_READ | PROT_WRITE)) throw HarnessError("mprotect");
  p_ = at_start ? base_ + pg : base_ + pg + inner - n_ - slack;
  if (n_) std::memcpy(p_, s.data(), n_);
  mprotect(base_ + pg, inner, PROT_READ);
}
Exact::~Exact() {
  if (map_) munmap(base_, map_);
  else std::free(base_);
}

} // namespace vh
