// C22: every allocation of the library fails once, in a build in which
// operator new can be told to (VH_OOM).
#include "values.h"

#include <cstdlib>
#include <new>

namespace vh {
namespace oom {
bool armed = false;
bool all_from = false;          // everything from the failure on fails
std::uint64_t count = 0, fail_at = 0, failed = 0;
static bool fails() {
  if (!armed) return false;
  ++count;
  if (!fail_at || (all_from ? count < fail_at : count != fail_at)) return false;
  ++failed;
  return true;
}
} // namespace oom
} // namespace vh

#ifdef VH_OOM
static void* get(std::size_t n, std::size_t al = 0) {
  if (vh::oom::fails()) return nullptr;
  if (!n) n = 1;
  void* p = nullptr;
  if (al) { if (posix_memalign(&p, al, n)) p = nullptr; } else p = std::malloc(n);
  return p;
}
void* operator new(std::size_t n) { if (void* p = get(n)) return p; throw std::bad_alloc(); }
void* operator new[](std::size_t n) { if (void* p = get(n)) return p; throw std::bad_alloc(); }
void* operator new(std::size_t n, const std::nothrow_t&) noexcept { return get(n); }
void* operator new[](std::size_t n, const std::nothrow_t&) noexcept { return get(n); }
void* operator new(std::size_t n, std::align_val_t a) { if (void* p = get(n, std::size_t(a))) return p; throw std::bad_alloc(); }
void* operator new[](std::size_t n, std::align_val_t a) { if (void* p = get(n, std::size_t(a))) return p; throw std::bad_alloc(); }
void operator delete(void* p) noexcept { std::free(p); }
void operator delete[](void* p) noexcept { std::free(p); }
void operator delete(void* p, std::size_t) noexcept { std::free(p); }
void operator delete[](void* p, std::size_t) noexcept { std::free(p); }
void operator delete(void* p, const std::nothrow_t&) noexcept { std::free(p); }
void operator delete[](void* p, const std::nothrow_t&) noexcept { std::free(p); }
void operator delete(void* p, std::align_val_t) noexcept { std::free(p); }
void operator delete[](void* p, std::align_val_t) noexcept { std::free(p); }
void operator delete(void* p, std::size_t, std::align_val_t) noexcept { std::free(p); }
void operator delete[](void* p, std::size_t, std::align_val_t) noexcept { std::free(p); }
#endif

namespace vh {

struct Op {
  std::string what;
  std::function<void()> call;          // only calls of the library, the result is kept
  std::function<std::string()> sig;    // what call() gave
  std::function<void()> clear;         // drops it
  std::function<void()> same;          // checks that nothing has changed
};

// One run of op.call with the k-th allocation failing; "" or what went wrong
struct Outcome { std::string text; bool threw = false; };
static Outcome attempt(const Op& op, std::uint64_t k, bool all) {
  Outcome o;
  int kind = 0;
  std::string other;
  oom::count = oom::failed = 0;
  oom::fail_at = k;
  oom::all_from = all;
  struct Off { ~Off() { oom::armed = false; } } off;
  try { oom::armed = true; op.call(); oom::armed = false; }
  catch (const std::bad_alloc&) { oom::armed = false; kind = 1; }
  catch (const hext::SyntaxError& e) { oom::armed = false; kind = 2; other = e.what(); }
  catch (const hext::MaxSearchError& e) { oom::armed = false; kind = 3; other = e.what(); }
  catch (const std::exception& e) { oom::armed = false; kind = 4; other = e.what(); }
  switch (kind) {
    case 0: o.text = op.sig(); break;
    case 1: o.text = "std::bad_alloc"; o.threw = true; break;
    case 2: o.text = "!syntax " + other; break;
    case 3: o.text = "!limit " + other; break;
    default: o.text = "!exception " + other;
  }
  op.clear();
  return o;
}

static void exhaust(Rng& r, Ctx& c, const Op& op, std::uint64_t most = 60) {
  Outcome full = attempt(op, 0, false);
  if (full.text.find("complexity of matching") != std::string::npos) { c.count("skipped_regex_limit"); return; }
  const std::uint64_t n = oom::count;
  c.max("most_allocations_in_one_operation", n);
  if (!n) { c.count("operations_without_allocation"); return; }
  std::vector<std::uint64_t> at;
  if (n <= most) for (std::uint64_t k = 1; k <= n; ++k) at.push_back(k);
  else {
    for (std::uint64_t k = 1; k <= most / 4; ++k) { at.push_back(k); at.push_back(n - k + 1); }
    while (at.size() < most) at.push_back(1 + r.u(n));
    c.count("operations_sampled");
  }
  for (auto k : at) {
    const bool all = r.p(30);
    const std::string ctx = "\n when allocation " + std::to_string(k) + " of " + std::to_string(n) + (all ? " and those after it fail" : " fails");
    std::size_t b0 = live_bytes();
    std::uint64_t failed = 0;
    {
      Outcome o = attempt(op, k, all);
      failed = oom::failed;
      if (o.threw) VH_CHECK(failed, op.what << ": std::bad_alloc though no allocation failed" << ctx);
      // a message may be cut short: streams hide that an insertion failed
      else VH_CHECK(o.text == full.text || (o.text[0] == '!' && o.text.substr(0, 7) == full.text.substr(0, 7)), op.what << ": gives\n " << esc(o.text, 2500) << "\n instead of std::bad_alloc or\n " << esc(full.text, 2500) << ctx);
      c.count(o.threw ? "reported_failures" : failed ? "completed_in_spite_of_failure" : "failure_not_reached");
    }
    if (op.same && r.p(25)) op.same();
    if (b0 && r.p(30)) {
      std::size_t b[5];
      for (auto& x : b) { attempt(op, k, all); x = live_bytes(); }
      bool grows = true;
      for (int i = 1; i < 5; ++i) grows = grows && b[i] > b[i - 1];
      VH_CHECK(!grows, op.what << ": memory is leaked by every failure: live heap bytes " << b[0] << " " << b[1] << " " << b[2] << " " << b[3] << " " << b[4] << ctx);
      c.count("leak_repeats");
    }
    c.count("failure_points");
  }
  if (op.same) op.same();
  Outcome again = attempt(op, 0, false);
  VH_CHECK(again.text == full.text, op.what << ": used again after failures gives\n " << esc(again.text, 2500) << "\n instead of\n " << esc(full.text, 2500));
  c.count("operations_enumerated");
}

static void c22(Rng& r, Ctx& c) {
  std::string html = r.p(70) ? gen_html(r, r.in(3, 14), r.p(30)) : "<div class='a b'><x-a-long-custom-element-name id=1>text <b>that is longer than fifteen bytes</b></x-a-long-custom-element-name></div>";
  hext::Html h(html.data(), html.size());
  RDoc d(h.root());
  if (d.all.size() > 300) return;
  List l = r.p(70) ? gen_list_for(r, d, r.in(1, 5)) : gen_list_free(r, r.in(1, 4));
  List m = gen_list_for(r, d, r.in(1, 3));
  const std::string ctx = "\n rule " + dump(l) + "\n document " + esc(html, 1500);
  hext::Rule rule = lower(l), other = lower(m);
  const std::string s0 = extract_sig(rule, h.root(), 100), t0 = structure(rule), s1 = structure(other) + extract_sig(other, h.root(), 100), d0 = d.dump();
  auto same = [&] {
    VH_CHECK(structure(rule) == t0 && extract_sig(rule, h.root(), 100) == s0, "the rule changed" << ctx);
    VH_CHECK(structure(other) + extract_sig(other, h.root(), 100) == s1, "the other rule changed: " << dump(m) << ctx);
  };
  std::optional<hext::Rule> out;
  auto none = [&] { out.reset(); };
  auto osig = [&] { return structure(*out) + extract_sig(*out, h.root(), 100); };
  switch (r.u(5)) {
    case 0: {   // compiling
      std::string text;
      if (r.p(60)) try { text = render(l, r, int(r.u(2))); } catch (const HarnessError&) {}
      if (text.empty()) { text = gen_template_bytes(r); if (text.size() > 600) text.resize(600); }
      exhaust(r, c, { "compiling " + esc(text, 1500), [&] { out.emplace(hext::ParseHext(text.data(), text.size())); }, osig, none, nullptr });
      c.count("templates");
      c.nontrivial(text);
      break;
    }
    case 1: {   // searching
      std::uint64_t lim = r.p(60) ? 0 : r.u(12);
      std::optional<hext::Result> res;
      if (d.all.size() > 60) lim = 1 + r.u(40);
      exhaust(r, c, { "extracting with limit " + std::to_string(lim) + ctx, [&] { res.emplace(rule.extract(h, lim)); }, [&] { return show(*res); }, [&] { res.reset(); }, same });
      VH_CHECK(RDoc(h.root()).dump() == d0, "extraction changed the document" << ctx);
      c.count("extractions");
      c.nontrivial(t0 + html);
      break;
    }
    case 2: {   // conditions and captures of single nodes
      std::vector<const hext::Rule*> rs;
      all_rules(rule, rs);
      for (int i = 0; i < 3; ++i) {
        const hext::Rule* x = r.pick(rs);
        const GumboNode* n = r.pick(d.all)->lib;
        bool b = false;
        exhaust(r, c, { "matching" + ctx, [&] { b = x->matches(n); }, [&] { return std::string(b ? "1" : "0"); }, [] {}, nullptr }, 25);
        std::vector<hext::ResultPair> v;
        exhaust(r, c, { "capturing" + ctx, [&] { v = x->capture(n); }, [&] { return show_pairs(v); }, [&] { std::vector<hext::ResultPair>().swap(v); }, nullptr }, 40);
      }
      same();
      c.count("matches_and_captures");
      c.nontrivial(t0 + html + "m");
      break;
    }
    case 3: {   // copies and changes of rules
      exhaust(r, c, { "copying a rule" + ctx, [&] { out.emplace(rule); }, osig, none, same });
      {
        hext::Rule x(other);
        auto back = [&] { x = hext::Rule(other); };
        auto xsig = [&] { return structure(x) + extract_sig(x, h.root(), 100); };
        // assignments leave their target as it is
        auto kept = [&] { VH_CHECK(xsig() == s1, "a failed operation changed its target " << dump(m) << ctx); };
        bool threw = false;
        // clear() runs after the outcome is known: only what went wrong must not show
        auto guarded = [&](auto f) { return [&, f] { threw = true; f(); threw = false; }; };
        auto clear = [&] { if (threw) kept(); back(); };
        exhaust(r, c, { "assigning a rule" + ctx, guarded([&] { x = rule; }), xsig, clear, same }, 40);
        exhaust(r, c, { "appending a child" + ctx, guarded([&] { x.append_child(rule); }), xsig, clear, same }, 40);
        exhaust(r, c, { "appending a sibling" + ctx, guarded([&] { x.append_next(rule); }), xsig, clear, same }, 40);
        exhaust(r, c, { "appending a nested rule" + ctx, guarded([&] { x.append_nested(rule); }), xsig, clear, same }, 40);
        std::string name = r.of<const char*>({ "x-foo", "a-custom-element-of-a-long-name", "b", "" });
        exhaust(r, c, { "setting a tag name", guarded([&] { x.set_tagname(name); }), xsig, clear, same });
      }
      c.count("copies_and_changes");
      c.nontrivial(t0 + html + "c");
      break;
    }
    default: {   // parts
      std::string name = r.of<const char*>({ "x-foo", "a-custom-element-of-a-long-name", "li", "*", "another-name-which-is-long" });
      exhaust(r, c, { "constructing a rule for <" + name + ">", [&] { out.emplace(name); }, osig, none, nullptr });
      for (int i = 0; i < 3; ++i) {
        std::unique_ptr<hext::Match> k;
        std::unique_ptr<hext::Match> t = lower_trait(gen_trait(r, r.pick(d.all).get()));
        exhaust(r, c, { "cloning a condition", [&] { k = t->clone(); }, [&] { return sig(*k); }, [&] { k.reset(); }, nullptr }, 25);
        std::string v = gen_text(r);
        std::unique_ptr<hext::ValueTest> q = lower_test(gen_test(r, &v)), q2;
        exhaust(r, c, { "cloning a value test", [&] { q2 = q->clone(); }, [&] { return sig(*q2); }, [&] { q2.reset(); }, nullptr }, 25);
        bool b = false;
        exhaust(r, c, { "testing a value", [&] { b = q->test(v.c_str()); }, [&] { return std::string(b ? "1" : "0"); }, [] {}, nullptr }, 25);
        std::unique_ptr<hext::StringPipe> p, p2;
        std::vector<Pipe> ps = gen_pipes(r, 4);
        for (auto& x : ps) { auto y = lower_pipe(x); if (p) p->append(std::move(y)); else p = std::move(y); }
        if (!p) continue;
        const std::string before = sig(*p);
        std::string got;
        exhaust(r, c, { "cloning pipes", [&] { p2 = p->clone(); }, [&] { return sig(*p2); }, [&] { p2.reset(); }, [&] { VH_CHECK(sig(*p) == before, "cloning changed the pipes"); } }, 25);
        exhaust(r, c, { "piping", [&] { got = p->pipe(v); }, [&] { return got; }, [&] { std::string().swap(got); }, [&] { VH_CHECK(sig(*p) == before, "piping changed the pipes"); } }, 25);
      }
      c.count("parts");
      c.nontrivial(t0 + html + "p");
    }
  }
  c.sample(dump(l) + " on " + html.substr(0, 200));
}

extern const Prop kOomProps[] = { { "C22", c22, true } };
extern const int kOomPropsN = 1;

} // namespace vh
