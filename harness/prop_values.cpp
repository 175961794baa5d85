// C12: value semantics of rules, conditions, tests, captures, pipes, documents.
#include "values.h"

#include <type_traits>

namespace vh {

[[gnu::noinline]] static void same(const std::string& got, const std::string& want, const char* what, const std::string& log) {
  VH_CHECK(got == want, what << ": behaves differently\n " << esc(got) << "\n instead of\n " << esc(want) << "\n " << log);
}
#define SAME(got, want, what) same(got, want, what, log)

// what the base class promises for every part: clones are equal and independent
template <class Base>
static void check_clone(Rng& r, const std::unique_ptr<Base>& p, const std::string& want, const std::string& log) {
  SAME(sig(*p), want, "original");
  auto a = p->clone();
  auto b = a->clone();
  SAME(sig(*a), want, "clone");
  if (r.p(50)) a.reset();
  SAME(sig(*b), want, "clone of a clone, the first one destroyed");
  SAME(sig(*p), want, "original after cloning");
}

// (many instantiations: optimising them only costs build time)
#ifdef __clang__
#pragma clang optimize off
#endif
// the full set of special members, on two objects of the concrete type
template <class Base, class T>
static void exercise(Rng& r, T a, T b, const char* what, Ctx& c) {
  std::string log = std::string(what) + ":";
  const std::string sa = sig(a), sb = sig(b);
  std::unique_ptr<T> spare;
  for (int i = 0; i < 6; ++i) {
    SAME(sig(a), sa, "first");
    SAME(sig(b), sb, "second");
    switch (r.u(9)) {
      case 0: { log += " copy-construct"; T x(a); SAME(sig(x), sa, "copy"); x = b; SAME(sig(x), sb, "copy assigned over"); break; }
      case 1: { log += " move-construct"; T x(a); T y(std::move(x)); SAME(sig(y), sa, "moved"); x = b; SAME(sig(x), sb, "moved-from object assigned to"); SAME(sig(y), sa, "moved, source reused"); break; }
      case 2: { log += " copy-assign"; T x(b); x = a; SAME(sig(x), sa, "assigned"); { T y(a); x = y; } SAME(sig(x), sa, "assigned, source destroyed"); break; }
      case 3: { log += " self-assign"; T& x = a; a = x; SAME(sig(a), sa, "self-assigned"); break; }
      case 4: { log += " move-assign"; T x(b), y(a); y = std::move(x); SAME(sig(y), sb, "move-assigned"); x = a; SAME(sig(x), sa, "moved-from object assigned to"); break; }
      case 5: { log += " swap"; using std::swap; swap(a, b); SAME(sig(a), sb, "swapped"); swap(a, b); break; }
      case 6: { log += " clone"; std::unique_ptr<Base> x = a.clone(); { T y(a); a = b; a = y; } SAME(sig(*x), sa, "clone after assignments"); auto z = x->clone(); x.reset(); SAME(sig(*z), sa, "clone of a destroyed clone"); break; }
      case 7: { log += " vector"; std::vector<T> v; for (int k = 0; k < 5; ++k) v.push_back(k % 2 ? b : a); v.erase(v.begin()); for (std::size_t k = 0; k < v.size(); ++k) SAME(sig(v[k]), k % 2 ? sa : sb, "in a vector"); break; }
      case 8: { log += " outlive"; if (spare) SAME(sig(*spare), sa, "kept copy"); spare = std::make_unique<T>(a); break; }
    }
    c.count("part_operations");
  }
  SAME(sig(a), sa, "first at last");
  SAME(sig(b), sb, "second at last");
  c.count(what);
}

template <class T> static void chain(Rng& r, T& p) { for (auto& x : gen_pipes(r, 3)) p.append(lower_pipe(x)); }
static boost::regex rx(Rng& r) { return compile(gen_rx(r, nullptr)); }
static std::string word(Rng& r) { return r.of<const char*>({ "a", "foo", "b", "x", "item", "1", "", "class", "Foo", "o" }); }
static std::string attr(Rng& r) { return r.of<const char*>({ "class", "id", "href", "title", "none" }); }
static std::unique_ptr<hext::ValueTest> some_test(Rng& r) { std::string v = word(r); return r.p(15) ? nullptr : lower_test(gen_test(r, &v)); }
static std::unique_ptr<hext::StringPipe> some_pipes(Rng& r) { return r.p(35) ? nullptr : lower_pipes(gen_pipes(r, 3)); }

static void parts(Rng& r, Ctx& c) {
  using namespace hext;
  auto nth = [&] { return NthChildMatch(r.in(-2, 3), r.in(-2, 4), r.p(50) ? NthChildMatch::First : NthChildMatch::Last | NthChildMatch::OfType); };
  auto am = [&] { return AttributeMatch(attr(r), some_test(r)); };
  auto fvm = [&] { return FunctionValueMatch(r.p(50) ? TextBuiltin : StripTagsBuiltin, std::make_unique<ContainsTest>(word(r))); };
  auto neg = [&] { NegateMatch m; int n = int(r.u(4)); for (int i = 0; i < n; ++i) m.append_match(r.p(10) ? std::unique_ptr<Match>() : r.p(50) ? lower_trait(gen_trait(r, nullptr)) : std::unique_ptr<Match>(std::make_unique<AttributeMatch>(attr(r)))); return m; };
  auto fc = [&] { return FunctionCapture(r.p(50) ? TextBuiltin : InnerHtmlBuiltin, word(r), some_pipes(r)); };
  auto ac = [&] { return AttributeCapture(attr(r), word(r), some_pipes(r)); };
#define PIPE(T, ...) { auto mk = [&] { T p = T(__VA_ARGS__); chain(r, p); return p; }; exercise<StringPipe>(r, mk(), mk(), #T, c); break; }
#define TEST(T, ...) { exercise<ValueTest>(r, T(__VA_ARGS__), T(__VA_ARGS__), #T, c); break; }
  switch (r.u(25)) {
    case 0: exercise<Match>(r, am(), am(), "AttributeMatch", c); break;
    case 1: exercise<Match>(r, fvm(), fvm(), "FunctionValueMatch", c); break;
    case 2: exercise<Match>(r, neg(), neg(), "NegateMatch", c); break;
    case 3: exercise<Match>(r, nth(), nth(), "NthChildMatch", c); break;
    case 4: exercise<Match>(r, OnlyChildMatch(), OnlyChildMatch(OnlyChildMatch::OfType), "OnlyChildMatch", c); break;
    case 5: exercise<Match>(r, ChildCountMatch(unsigned(r.u(3))), ChildCountMatch(unsigned(r.u(4))), "ChildCountMatch", c); break;
    case 6: exercise<Match>(r, AttributeCountMatch(unsigned(r.u(3))), AttributeCountMatch(unsigned(r.u(4))), "AttributeCountMatch", c); break;
    case 7: exercise<Match>(r, TypeRegexMatch(rx(r)), TypeRegexMatch(rx(r)), "TypeRegexMatch", c); break;
    case 8: { int k = r.in(1, 4); exercise<Match>(r, FunctionMatch([k](const GumboNode* n) { return int(n->index_within_parent) % k == 0; }), FunctionMatch([](const GumboNode* n) { return n->type == GUMBO_NODE_TEXT; }), "FunctionMatch", c); break; }
    case 9: exercise<Capture>(r, fc(), fc(), "FunctionCapture", c); break;
    case 10: exercise<Capture>(r, ac(), ac(), "AttributeCapture", c); break;
    case 11: TEST(EqualsTest, word(r))
    case 12: TEST(BeginsWithTest, word(r))
    case 13: TEST(ContainsTest, word(r))
    case 14: TEST(EndsWithTest, word(r))
    case 15: TEST(ContainsWordsTest, word(r))
    case 16: TEST(RegexTest, rx(r))
    case 17: TEST(NegateTest, some_test(r))
    case 18: PIPE(TrimPipe, word(r))
    case 19: PIPE(CollapseWsPipe)
    case 20: PIPE(CasePipe, r.p(50) ? CasePipe::ToLower : CasePipe::ToUpper)
    case 21: PIPE(PrependPipe, word(r))
    case 22: PIPE(AppendPipe, word(r))
    case 23: PIPE(RegexPipe, rx(r))
    case 24: PIPE(RegexReplacePipe, rx(r), "[$&]")
  }
  // mutation of a copy: appended pipes and conditions
  {
    const std::string log = "append to a copy";
    TrimPipe p(" ");
    chain(r, p);
    std::string s0 = sig(p);
    TrimPipe q(p);
    auto cl = p.clone();
    q.append(std::make_unique<PrependPipe>("Q"));
    cl->emplace<AppendPipe>("C");
    SAME(sig(p), s0, "pipe whose copy and clone were appended to");
    std::string sq = sig(q), sc = sig(*cl);
    p.emplace<PrependPipe>("P");
    SAME(sig(q), sq, "copy of a pipe that was appended to");
    SAME(sig(*cl), sc, "clone of a pipe that was appended to");
    VH_CHECK(sq != s0 && sc != s0, "a pipe appended to a chain has no effect");
    NegateMatch m = neg();
    std::string m0 = sig(m);
    NegateMatch m2(m);
    auto mc = m.clone();
    m2.append_match(std::make_unique<FunctionMatch>([](const GumboNode*) { return true; }));
    SAME(sig(m), m0, "negation whose copy was appended to");
    SAME(sig(*mc), m0, "clone of a negation whose copy was appended to");
    VH_CHECK(sig(m2).find('1') == std::string::npos, "a condition appended to a negation has no effect");
  }
  // everything through the base classes
  for (int i = 0; i < 3; ++i) {
    Trait t = gen_trait(r, nullptr);
    auto m = lower_trait(t);
    check_clone(r, m, sig(*m), "trait");
    std::string v = word(r);
    auto vt = lower_test(gen_test(r, &v));
    check_clone(r, vt, sig(*vt), "value test");
    auto ps = gen_pipes(r, 6);
    if (!ps.empty()) {
      auto p = lower_pipes(ps);
      std::string want;
      for (auto& x : strings()) { auto y = ref_pipes(ps, x); want += std::to_string(y.size()) + ":" + y + ";"; }
      check_clone(r, p, want, "pipes");
    }
    Pattern pt = gen_pattern(r, nullptr);
    while (!pt.capture) pt = gen_pattern(r, nullptr);
    std::unique_ptr<Capture> cp;
    if (pt.builtin) cp = std::make_unique<FunctionCapture>(builtin_fn(pt.name), pt.var, lower_pipes(pt.pipes));
    else cp = std::make_unique<AttributeCapture>(pt.name, pt.var, lower_pipes(pt.pipes));
    check_clone(r, cp, sig(*cp), "capture");
    c.count("clones", 4);
  }
}

// --------------------------------------------------------------- whole rules
// A list model stands for a rule: the first rule and those that follow it.
// A rule object within a tree is the tail of the list it is in.
namespace {
#ifdef __clang__
#pragma clang optimize on
#endif
struct Slot { std::unique_ptr<hext::Rule> r; List l; };   // r null: none
struct Where { hext::Rule* r; List* l; std::size_t i; };
}
static void places(hext::Rule* rule, List& l, std::vector<Where>& v) {
  std::size_t i = 0;
  for (hext::Rule* r = rule; r; r = r->next(), ++i) {
    if (i >= l.size()) throw HarnessError("places");
    v.push_back({ r, &l, i });
    if (r->child()) places(r->child(), l[i].kids, v);
    std::size_t k = 0;
    for (auto& n : r->nested()) places(&n, l[i].nested[k++], v);
  }
}
static List tail(const Where& w) { return List(w.l->begin() + long(w.i), w.l->end()); }
static void assign(const Where& w, List t) {
  List h(w.l->begin(), w.l->begin() + long(w.i));
  h.insert(h.end(), t.begin(), t.end());
  *w.l = std::move(h);
}
static std::string check_slot(const Slot& s, const std::string& log) {
  if (!s.r) return "";
  std::string want_s = structure(s.l), got_s = structure(*s.r);
  VH_CHECK(want_s == got_s, "the rule has the structure " << got_s << " instead of " << want_s << "\n history " << log);
  std::string want = rule_sig(lower(s.l)), got = rule_sig(*s.r);
  VH_CHECK(want == got, "the rule " << dump(s.l) << " behaves differently:\n " << esc(got, 1500) << "\n instead of\n " << esc(want, 1500) << "\n history " << log);
  return got;
}
static List small(Rng& r) {
  List l = gen_list_free(r, r.in(1, 3));
  return l;
}
static void c12(Rng& r, Ctx& c) {
  parts(r, c);
  std::vector<Slot> s(4);
  std::string log;
  int ops = r.in(6, 26);
  std::size_t kinds = 0;
  std::set<std::string> used;
  for (int i = 0; i < ops; ++i) {
    Slot& a = r.pick(s);
    Slot& b = r.pick(s);
    unsigned k = unsigned(r.u(22));
    std::string op;
    if (!a.r && k > 2) k = unsigned(r.u(3));
    if (!b.r && (k == 1 || k == 2)) k = 0;
    std::vector<Where> v, w;
    if (a.r) places(a.r.get(), a.l, v);
    if (b.r) places(b.r.get(), b.l, w);
    auto total = [&] { return count_rules(a.l) + (b.r ? count_rules(b.l) : 0) > 40; };
    switch (k) {
      case 0: op = "construct"; a.l = small(r); a.r = std::make_unique<hext::Rule>(lower(a.l)); break;
      case 1: op = "copy-construct"; { auto n = std::make_unique<hext::Rule>(*b.r); List bl = b.l; a.r = std::move(n); a.l = bl; } break;
      case 2: op = "move-construct"; {
        if (&a == &b) break;
        a.r = std::make_unique<hext::Rule>(std::move(*b.r));
        a.l = b.l;
        if (r.p(50)) { b.l = small(r); *b.r = lower(b.l); op += "+reassign"; } else { b.r.reset(); b.l.clear(); }
        break; }
      case 3: op = "destroy"; a.r.reset(); a.l.clear(); break;
      case 4: op = "copy-assign"; if (b.r) { *a.r = *b.r; List x = b.l; a.l = x; } break;
      case 5: op = "self-assign"; { hext::Rule& x = *a.r; if (r.p(50)) *a.r = x; else *a.r = std::move(x); } break;
      case 6: op = "move-assign"; if (b.r && &a != &b) { *a.r = std::move(*b.r); a.l = b.l; if (r.p(50)) { b.r.reset(); b.l.clear(); } else { b.l = small(r); *b.r = lower(b.l); } } break;
      case 7: op = "swap"; if (b.r && &a != &b) { std::swap(*a.r, *b.r); std::swap(a.l, b.l); } break;
      case 8: case 9: {   // a rule becomes one of its subrules (or of those after it)
        Where x = r.pick(v);
        std::vector<Where> u;
        List sub = tail(x);
        places(x.r, sub, u);
        Where y = r.pick(u);
        List t(y.l->begin() + long(y.i), y.l->end());
        bool mv = r.p(50);
        op = mv ? "move-subrule-up" : "copy-subrule-up";
        if (x.r == y.r) op += "(self)";
        if (mv) *x.r = std::move(*y.r); else *x.r = *y.r;
        assign(x, t);
        break; }
      case 10: {   // a subrule becomes a copy of a rule above or beside it
        op = "copy-down";
        if (total()) break;
        Where x = r.pick(v), y = r.pick(v);
        List t = tail(y);
        *x.r = *y.r;
        assign(x, t);
        break; }
      case 11: {
        op = "copy-across";
        if (!b.r || total()) break;
        Where x = r.pick(v), y = r.pick(w);
        List t = tail(y);
        *x.r = *y.r;
        assign(x, t);
        break; }
      case 12: { op = "append-child"; if (total()) break; Where x = r.pick(v); List t = r.p(50) ? small(r) : tail(r.pick(v)); x.r->append_child(lower(t)); auto& kd = (*x.l)[x.i].kids; kd.insert(kd.end(), t.begin(), t.end()); break; }
      case 13: { op = "append-next"; if (total()) break; Where x = r.pick(v); List t = small(r); x.r->append_next(lower(t)); x.l->insert(x.l->end(), t.begin(), t.end()); break; }
      case 14: { op = "append-nested"; if (total()) break; Where x = r.pick(v); List t = small(r); x.r->append_nested(lower(t)); (*x.l)[x.i].nested.push_back(t); break; }
      case 15: {   // a rule appended to itself
        op = "append-self";
        if (total()) break;
        Where x = r.pick(v);
        List t = tail(x);
        int how = int(r.u(3));
        if (how == 0) { x.r->append_child(*x.r); auto& kd = (*x.l)[x.i].kids; kd.insert(kd.end(), t.begin(), t.end()); }
        if (how == 1) { x.r->append_next(*x.r); x.l->insert(x.l->end(), t.begin(), t.end()); }
        if (how == 2) { x.r->append_nested(*x.r); (*x.l)[x.i].nested.push_back(t); }
        break; }
      case 16: { op = "append-match"; Where x = r.pick(v); Trait t = gen_trait(r, nullptr); x.r->append_match(lower_trait(t)); (*x.l)[x.i].traits.push_back(t); break; }
      case 17: {
        op = "append-capture";
        Where x = r.pick(v);
        Pattern p;
        p.capture = p.builtin = true;
        p.name = "text";
        p.var = "k" + std::to_string(i);
        p.pipes = gen_pipes(r, 2);
        x.r->append_capture<hext::FunctionCapture>(builtin_fn(p.name), p.var, lower_pipes(p.pipes));
        (*x.l)[x.i].pats.push_back(p);
        break; }
      case 18: { op = "set-flags"; Where x = r.pick(v); auto& m = (*x.l)[x.i]; m.opt = r.p(50); m.greedy = r.p(50); x.r->set_optional(m.opt).set_greedy(m.greedy); break; }
      case 19: {
        op = "set-tag";
        Where x = r.pick(v);
        auto& m = (*x.l)[x.i];
        const bool custom = m.tag != "*" && gumbo_tag_enum(m.tag.c_str()) == GUMBO_TAG_UNKNOWN;
        switch (r.u(5)) {
          case 0: if (custom) m.kept_name = m.tag; m.tag = "div"; x.r->set_tag(hext::HtmlTag::DIV); break;
          case 1: if (custom) m.kept_name = m.tag; m.tag = "*"; x.r->set_tag(hext::HtmlTag::ANY); break;
          case 2: m.kept_name.clear(); m.tag = "x-foo"; x.r->set_tagname("x-foo").set_tag(hext::HtmlTag::UNKNOWN); break;
          case 3: (custom ? m.tag : m.kept_name) = "x-kept"; x.r->set_tagname("x-kept"); break;
          case 4: if (m.kept_name.empty()) break; m.tag = m.kept_name; m.kept_name.clear(); x.r->set_tag(hext::HtmlTag::UNKNOWN); break;
        }
        break; }
      case 20: {
        op = "nested-vector";
        Where x = r.pick(v);
        auto& nv = x.r->nested();
        auto& ml = (*x.l)[x.i].nested;
        if (nv.empty()) break;
        std::size_t p = std::size_t(r.u(nv.size())), q = std::size_t(r.u(nv.size()));
        switch (r.u(4)) {
          case 0: nv.erase(nv.begin() + long(p)); ml.erase(ml.begin() + long(p)); break;
          case 1: std::swap(nv[p], nv[q]); std::swap(ml[p], ml[q]); break;
          case 2: { if (total()) break; auto copy = nv; List m2 = ml[q]; nv.insert(nv.begin() + long(p), copy[q]); ml.insert(ml.begin() + long(p), m2); break; }
          case 3: { auto copy = nv; nv.clear(); nv = std::move(copy); break; }
        }
        break; }
      case 21: { op = "clone-chain"; std::vector<hext::Rule> rs(3, *a.r); rs.erase(rs.begin()); *a.r = rs[1]; break; }
    }
    log += op + " ";
    used.insert(op);
    c.count("rule_operations");
    check_slot(a, log);
    if (r.p(30)) check_slot(b, log);
  }
  for (auto& x : s) check_slot(x, log);
  kinds = used.size();
  // documents
  {
    std::vector<hext::Html> hs;
    std::vector<std::string> want;
    static const char* texts[] = { "<p>1", "<div a=b>2<i>x</i></div>", "", "<x-y>3" };
    auto d = [](const hext::Html& h) { return RDoc(h.root()).dump(); };
    auto add = [&] { hs.emplace_back(r.of<const char*>({ texts[0], texts[1], texts[2], texts[3] })); want.push_back(d(hs.back())); };
    add();
    add();
    int n = r.in(3, 14);
    for (int i = 0; i < n; ++i) {
      std::size_t p = std::size_t(r.u(hs.size())), q = std::size_t(r.u(hs.size()));
      switch (r.u(6)) {
        case 0: add(); log += "doc+ "; break;
        case 1: if (hs.size() > 2) { hs.erase(hs.begin() + long(p)); want.erase(want.begin() + long(p)); log += "doc- "; } break;
        case 2: std::swap(hs[p], hs[q]); std::swap(want[p], want[q]); log += "doc-swap "; break;
        case 3: if (p != q) { hs[p] = std::move(hs[q]); want[p] = want[q]; hs[q] = hext::Html(texts[1]); want[q] = d(hs[q]); log += "doc-move "; } break;
        case 4: { auto& self = hs[p]; hs[p] = std::move(self); log += "doc-self-move "; break; }
        case 5: { hext::Html t(std::move(hs[p])); VH_CHECK(d(t) == want[p], "a moved document differs, history " << log); hs[p] = std::move(t); log += "doc-through "; break; }
      }
      for (std::size_t x = 0; x < hs.size(); ++x) VH_CHECK(hs[x].root() && d(hs[x]) == want[x], "document " << x << " changed, history " << log);
      c.count("document_operations");
    }
    if (r.p(50)) { hext::Html t(std::move(hs[0])); }   // hs[0] is left moved-from and destroyed
  }
  c.max("distinct_operations_in_a_history", kinds);
  c.nontrivial(log);
  c.sample(log);
}

extern const Prop kValueProps[] = { { "C12", c12, true } };
extern const int kValuePropsN = 1;

} // namespace vh
