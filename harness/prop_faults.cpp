// C19: exceptions from user code, at every call.
#include "values.h"

#include <type_traits>

namespace vh {

// ----------------------------------------------------------------------- C19
namespace {
struct Odd { std::uint64_t k; };   // not derived from std::exception
struct Env {
  std::uint64_t count = 0, fail_at = 0;
  int kind = 0;
  std::map<std::string, std::uint64_t> where;
  void tick(const char* w) {
    ++count;
    if (count != fail_at) return;
    ++where[w];
    switch (kind) {
      case 0: throw UserError(count);
      case 1: throw Odd{ count };
      case 2: throw int(count);
      default: throw std::bad_alloc();
    }
  }
};
Env g_env;

struct Fn {       // a function object with throwing copies
  int salt;
  bool capture;
  explicit Fn(int s) : salt(s), capture(true) {}
  Fn(const Fn& o) : salt(o.salt), capture(o.capture) { g_env.tick("function copy"); }
  Fn(Fn&& o) noexcept : salt(o.salt), capture(o.capture) {}
  std::string operator()(const GumboNode* n) const {
    g_env.tick("capture function");
    return std::to_string(salt) + "/" + std::to_string(int(n->type)) + "/" + std::to_string(n->index_within_parent);
  }
};
struct Pred {
  int salt; unsigned density;
  Pred(int s, unsigned d) : salt(s), density(d) {}
  Pred(const Pred& o) : salt(o.salt), density(o.density) { g_env.tick("predicate copy"); }
  Pred(Pred&& o) noexcept : salt(o.salt), density(o.density) {}
  bool operator()(const GumboNode* n) const {
    g_env.tick("match function");
    return user_bit(salt, std::to_string(n->index_within_parent) + "." + std::to_string(int(n->type)), density);
  }
};
struct TMatch : hext::Cloneable<TMatch, hext::Match> {
  int salt; unsigned density;
  TMatch(int s, unsigned d) : salt(s), density(d) {}
  TMatch(const TMatch& o) : hext::Cloneable<TMatch, hext::Match>(o), salt(o.salt), density(o.density) { g_env.tick("condition clone"); }
  bool matches(const GumboNode* n) const override { g_env.tick("condition"); return user_bit(salt, std::to_string(n->index_within_parent), density); }
};
struct TTest : hext::Cloneable<TTest, hext::ValueTest> {
  int salt; unsigned density;
  TTest(int s, unsigned d) : salt(s), density(d) {}
  TTest(const TTest& o) : hext::Cloneable<TTest, hext::ValueTest>(o), salt(o.salt), density(o.density) { g_env.tick("value test clone"); }
  bool test(const char* s) const override { g_env.tick("value test"); return user_bit(salt, s ? s : "(none)", density); }
};
struct TPipe : hext::Cloneable<TPipe, hext::StringPipe> {
  std::string mark;
  explicit TPipe(std::string m) : mark(std::move(m)) {}
  TPipe(const TPipe& o) : hext::Cloneable<TPipe, hext::StringPipe>(o), mark(o.mark) { g_env.tick("pipe clone"); }
  TPipe& operator=(const TPipe& o) { hext::StringPipe::operator=(o); mark = o.mark; return *this; }
  std::string transform(std::string s) const override { g_env.tick("pipe"); return mark + s; }
};
struct TCapture : hext::Cloneable<TCapture, hext::Capture> {
  int salt;
  explicit TCapture(int s) : salt(s) {}
  TCapture(const TCapture& o) : hext::Cloneable<TCapture, hext::Capture>(o), salt(o.salt) { g_env.tick("capture clone"); }
  std::optional<hext::ResultPair> capture(const GumboNode* n) const override {
    g_env.tick("capture");
    if (n->type != GUMBO_NODE_ELEMENT) return {};
    return hext::ResultPair("t" + std::to_string(salt), std::to_string(n->index_within_parent));
  }
};

struct Builder {
  Rng& r;
  int salt = 0;
  unsigned den() { return unsigned(r.of({ 100, 95, 80, 60 })); }
  std::unique_ptr<hext::ValueTest> test() {
    std::unique_ptr<hext::ValueTest> t;
    switch (r.u(4)) {
      case 0: case 1: t = std::make_unique<TTest>(++salt, den()); break;
      case 2: t = std::make_unique<hext::ContainsTest>(""); break;
      default: return nullptr;
    }
    if (r.p(20)) t = std::make_unique<hext::NegateTest>(std::move(t));
    return t;
  }
  std::unique_ptr<hext::ValueTest> test1() { auto t = test(); return t ? std::move(t) : std::make_unique<TTest>(++salt, 90); }
  std::unique_ptr<hext::StringPipe> pipes() {
    std::unique_ptr<hext::StringPipe> h;
    int n = int(r.u(4));
    for (int i = 0; i < n; ++i) {
      std::unique_ptr<hext::StringPipe> p;
      switch (r.u(4)) {
        case 0: p = std::make_unique<hext::TrimPipe>("0"); break;
        case 1: p = std::make_unique<hext::AppendPipe>("z"); break;
        default: p = std::make_unique<TPipe>(std::string(1, char('a' + i))); break;
      }
      if (h) h->append(std::move(p)); else h = std::move(p);
    }
    return h;
  }
  std::unique_ptr<hext::Match> match(int depth = 0) {
    switch (r.u(depth > 1 ? 5 : 6)) {
      case 0: return std::make_unique<TMatch>(++salt, den());
      case 1: return std::make_unique<hext::FunctionMatch>(Pred(++salt, den()));
      case 2: return std::make_unique<hext::FunctionValueMatch>(r.p(50) ? hext::CaptureFunction(Fn(++salt)) : hext::TextBuiltin, test1());
      case 3: return std::make_unique<hext::AttributeMatch>(r.of<const char*>({ "n", "m" }), test());
      case 4: return std::make_unique<hext::OnlyChildMatch>();
      default: {
        auto m = std::make_unique<hext::NegateMatch>();
        int n = int(r.u(3));
        for (int i = 0; i < n; ++i) { auto x = match(depth + 1); auto nn = std::make_unique<hext::NegateMatch>(); nn->append_match(std::move(x)); m->append_match(std::move(nn)); }
        return m;
      }
    }
  }
  std::unique_ptr<hext::Capture> capture() {
    switch (r.u(4)) {
      case 0: return std::make_unique<TCapture>(++salt);
      case 1: return std::make_unique<hext::AttributeCapture>("n", "n" + std::to_string(++salt), pipes());
      default:
        salt += 2;
        return std::make_unique<hext::FunctionCapture>(r.p(70) ? hext::CaptureFunction(Fn(salt - 1)) : hext::TextBuiltin, "f" + std::to_string(salt), pipes());
    }
  }
  hext::Rule rule(int depth) {
    hext::Rule x(r.p(60) ? hext::HtmlTag::ANY : r.of({ hext::HtmlTag::B, hext::HtmlTag::U, hext::HtmlTag::I }), r.p(25), r.p(25));
    int n = int(r.u(3)), m = r.in(depth ? 0 : 1, 3);
    for (int i = 0; i < n; ++i) x.append_match(match());
    for (int i = 0; i < m; ++i) x.append_capture(capture());
    if (depth < 2) {
      if (r.p(35)) x.append_child(rule(depth + 1));
      if (r.p(20)) x.append_child(rule(depth + 1));
      if (r.p(25)) x.append_nested(rule(depth + 1));
    }
    if (r.p(25)) x.append_next(rule(depth + 1));
    return x;
  }
};

// behaviour with no failure planned
std::string esig(const hext::Rule& r, const hext::Html& h) {
  auto f = g_env.fail_at;
  auto n = g_env.count;
  g_env.fail_at = 0;
  std::string s = structure(r) + extract_sig(r, h.root());
  std::vector<const hext::Rule*> rs;
  all_rules(r, rs);
  auto& ns = nodes();
  for (auto* x : rs) for (std::size_t i = 0; i < ns.size(); i += 5) s += x->matches(ns[i]) ? show_pairs(x->capture(ns[i])) : "-";
  g_env.fail_at = f;
  g_env.count = n;
  return s;
}
template <class T> std::string psig(const T& t) {
  auto f = g_env.fail_at;
  auto n = g_env.count;
  g_env.fail_at = 0;
  std::string s = sig(t);
  g_env.fail_at = f;
  g_env.count = n;
  return s;
}
} // namespace

// Runs op with a failure at each of its calls into user code. `ok` checks the
// state after a failure, `full` after the last, successful run.
static void enumerate(Rng& r, Ctx& c, const std::string& what, const std::function<std::string()>& op, const std::function<void()>& ok, std::uint64_t max_points = 40) {
  g_env.fail_at = 0;
  g_env.count = 0;
  std::string full = op();
  const std::uint64_t n = g_env.count;
  c.max("most_user_calls_in_one_operation", n);
  std::vector<std::uint64_t> at;
  if (n <= max_points) for (std::uint64_t k = 1; k <= n; ++k) at.push_back(k);
  else {
    for (std::uint64_t k = 1; k <= max_points / 4; ++k) { at.push_back(k); at.push_back(n - k + 1); }
    while (at.size() < max_points) at.push_back(1 + r.u(n));
    c.count("operations_sampled");
  }
  for (auto k : at) {
    int kind = int(r.u(4));
    g_env.kind = kind;
    g_env.fail_at = k;
    g_env.count = 0;
    std::string got;
    std::uint64_t id = 0;
    try { op(); got = "no exception"; }
    catch (const UserError& e) { got = "UserError"; id = e.k; }
    catch (const Odd& e) { got = "Odd"; id = e.k; }
    catch (int e) { got = "int"; id = std::uint64_t(e); }
    catch (const std::bad_alloc&) { got = "bad_alloc"; id = k; }
    catch (const Violation&) { g_env.fail_at = 0; throw; }
    catch (const HarnessError&) { g_env.fail_at = 0; throw; }
    catch (const std::exception& e) { got = std::string("another exception: ") + e.what(); }
    g_env.fail_at = 0;
    static const char* names[] = { "UserError", "Odd", "int", "bad_alloc" };
    VH_CHECK(got == names[kind] && id == k, what << ": user code threw " << names[kind] << " from call " << k << " of " << n << ", but the caller got " << got << " " << id);
    ok();
    c.count("failure_points");
  }
  g_env.count = 0;
  std::string again = op();
  VH_CHECK(again == full, what << ": used again after failures gives\n " << esc(again) << "\n instead of\n " << esc(full));
  VH_CHECK(g_env.count == n, what << ": used again after failures makes " << g_env.count << " calls into user code instead of " << n);
  c.count("operations_enumerated");
}

static void c19(Rng& r, Ctx& c) {
  Builder b{ r };
  std::string html;
  int id = 0;
  std::function<std::string(int)> el = [&](int d) {
    std::string s;
    int n = r.in(1, d ? 2 : 4);
    for (int i = 0; i < n; ++i) { const char* t = r.of<const char*>({ "b", "u", "i" }); s += std::string("<") + t + " n=" + std::to_string(++id) + (r.p(30) ? " m=x" : "") + ">" + (r.p(50) && d < 3 ? el(d + 1) : "t") + "</" + t + ">"; }
    return s;
  };
  html = el(0);
  hext::Html h(html.data(), html.size());
  struct Reset { ~Reset() { g_env.fail_at = 0; } } reset;
  g_env = Env();
  hext::Rule rule = b.rule(0), other = b.rule(0);
  const std::string s0 = esig(rule, h), s1 = esig(other, h);
  RDoc d(h.root());
  const std::string d0 = d.dump();
  auto same = [&] {
    VH_CHECK(esig(rule, h) == s0, "a failed operation changed the rule " << structure(rule));
    VH_CHECK(esig(other, h) == s1, "a failed operation changed the other rule " << structure(other));
  };
  auto cheap = [&] { if (r.p(30)) same(); };
  // matching, capturing, extracting
  std::uint64_t lim = r.p(60) ? 0 : 100000;
  enumerate(r, c, "extract", [&] { return show(rule.extract(h, lim)); }, cheap, 60);
  VH_CHECK(RDoc(h.root()).dump() == d0, "extraction changed the document");
  const GumboNode* n = r.pick(d.all)->lib;
  enumerate(r, c, "matches", [&] { return std::string(rule.matches(n) ? "1" : "0"); }, cheap);
  enumerate(r, c, "capture", [&] { return show_pairs(rule.capture(n)); }, cheap);
  // copies and assignments of rules
  enumerate(r, c, "copy construction", [&] { hext::Rule x(rule); return esig(x, h); }, cheap);
  {
    hext::Rule x(other);
    std::string first;
    enumerate(r, c, "copy assignment", [&] { x = rule; std::string s = esig(x, h); { auto f = g_env.fail_at; g_env.fail_at = 0; auto cn = g_env.count; x = other; g_env.count = cn; g_env.fail_at = f; } return s; },
              [&] { VH_CHECK(esig(x, h) == s1, "a failed copy assignment changed its target " << structure(other) << " (source " << structure(rule) << ")"); same(); });
  }
  {
    std::vector<hext::Rule> v;
    v.reserve(1);
    v.push_back(other);
    auto undo = [&](auto f) { auto fa = g_env.fail_at; auto cn = g_env.count; g_env.fail_at = 0; f(); g_env.fail_at = fa; g_env.count = cn; };
    hext::Rule x(other);
    int how = int(r.u(4));
    static const char* names[] = { "append_child of a copy", "append_next of a copy", "append_nested of a copy", "nested().push_back of a copy" };
    enumerate(r, c, names[how], [&] {
      switch (how) {
        case 0: x.append_child(rule); break;
        case 1: x.append_next(rule); break;
        case 2: x.append_nested(rule); break;
        case 3: x.nested().push_back(rule); break;
      }
      std::string s = esig(x, h);
      undo([&] { x = hext::Rule(other); });
      return s;
    }, [&] { VH_CHECK(esig(x, h) == s1, "a failed " << names[how] << " changed its target"); cheap(); });
    if (rule.child()) {
      hext::Rule y(rule);
      enumerate(r, c, "assigning a subrule", [&] { y = *y.child(); std::string s = esig(y, h); undo([&] { y = hext::Rule(rule); }); return s; },
                [&] { VH_CHECK(esig(y, h) == s0, "a failed assignment of a subrule changed its target"); });
    }
    auto m = b.match();
    enumerate(r, c, "append_match of a clone", [&] { x.append_match(m->clone()); std::string s = esig(x, h); undo([&] { x = hext::Rule(other); }); return s; },
              [&] { VH_CHECK(esig(x, h) == s1, "a failed append_match changed its target"); });
    auto cp = b.capture();
    enumerate(r, c, "append_capture of a clone", [&] { x.append_capture(cp->clone()); std::string s = esig(x, h); undo([&] { x = hext::Rule(other); }); return s; },
              [&] { VH_CHECK(esig(x, h) == s1, "a failed append_capture changed its target"); });
  }
  // parts: clone, copy, assign
  auto undo = [&](auto f) { auto fa = g_env.fail_at; auto cn = g_env.count; g_env.fail_at = 0; f(); g_env.fail_at = fa; g_env.count = cn; };
  auto part = [&](const char* what, auto a, auto z) {
    using T = decltype(a);
    const std::string sa = psig(a), sz = psig(z);
    T x(z);
    enumerate(r, c, std::string(what) + " clone", [&] { auto k = a.clone(); return psig(*k); }, [&] { VH_CHECK(psig(a) == sa, "a failed clone changed the " << what); });
    enumerate(r, c, std::string(what) + " assignment", [&] { x = a; std::string s = psig(x); undo([&] { T y(z); x = std::move(y); }); return s; },
              [&] { VH_CHECK(psig(x) == sz, "a failed assignment changed its target, a " << what); VH_CHECK(psig(a) == sa, "a failed assignment changed its source, a " << what); });
    c.count(what);
  };
  switch (r.u(8)) {
    case 0: part("FunctionCapture", hext::FunctionCapture(Fn(1), "a", b.pipes()), hext::FunctionCapture(Fn(2), "b", b.pipes())); break;
    case 1: part("AttributeCapture", hext::AttributeCapture("n", "a", b.pipes()), hext::AttributeCapture("class", "b", b.pipes())); break;
    case 2: part("FunctionMatch", hext::FunctionMatch(Pred(1, 50)), hext::FunctionMatch(Pred(2, 50))); break;
    case 3: part("FunctionValueMatch", hext::FunctionValueMatch(Fn(1), b.test1()), hext::FunctionValueMatch(Fn(2), b.test1())); break;
    case 4: part("AttributeMatch", hext::AttributeMatch("class", b.test()), hext::AttributeMatch("id", b.test1())); break;
    case 5: {
      auto neg = [&] { hext::NegateMatch m; int k = r.in(0, 3); for (int i = 0; i < k; ++i) m.append_match(b.match()); return m; };
      part("NegateMatch", neg(), neg());
      break; }
    case 6: part("NegateTest", hext::NegateTest(b.test()), hext::NegateTest(b.test1())); break;
    case 7: {
      auto tp = [&](const char* m) { hext::TrimPipe p(m); int k = r.in(0, 3); for (int i = 0; i < k; ++i) p.append(r.p(70) ? std::unique_ptr<hext::StringPipe>(std::make_unique<TPipe>(m)) : std::make_unique<hext::AppendPipe>("q")); return p; };
      part("StringPipe chain", tp("a"), tp("1"));
      break; }
  }
  same();
  for (auto& w : g_env.where) c.count(("failed_in_" + w.first).c_str(), w.second);
  c.nontrivial(s0 + html);
  c.sample(structure(rule) + " on " + html.substr(0, 200));
}

extern const Prop kFaultProps[] = { { "C19", c19, true } };
extern const int kFaultPropsN = 1;

} // namespace vh
