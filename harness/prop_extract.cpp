// C08 C09 C10 C13 C18: extraction, limits, histories, hostile documents, loading.
#include "core.h"

#include <functional>
#include <limits>

namespace vh {

// ------------------------------------------------- small dense extraction cases
// Documents over few tags in which every element carries a number, and rules
// that capture it: every way of choosing nodes shows up in the result.
static std::string dense_html(Rng& r, int& id, int depth, int width) {
  std::string s;
  int n = r.in(depth ? 0 : 1, width);
  for (int i = 0; i < n; ++i) {
    const char* t = r.of<const char*>({ "u", "b", "b", "i", "x-y" });
    s += std::string("<") + t + " n=" + std::to_string(++id) + (r.p(15) ? " m" : "") + ">";
    if (depth < 3 && r.p(depth ? 40 : 55)) s += dense_html(r, id, depth + 1, width > 2 ? width - 1 : 2);
    s += std::string("</") + t + ">";
    if (r.p(5)) s += " t ";
  }
  return s;
}
static RuleT dense_rule(Rng& r, int depth, int& left) {
  --left;
  RuleT x;
  x.tag = r.of<const char*>({ "u", "b", "b", "i", "x-y", "*" });
  x.opt = r.p(35);
  x.greedy = r.p(30);
  if (r.p(80) || depth == 0) {
    Pattern p;
    p.capture = true;
    p.name = "n";
    p.var = r.of<const char*>({ "x", "x", "y", "z" });
    p.optional = r.p(15);
    x.pats.push_back(p);
  }
  if (r.p(8)) {
    Pattern p;
    p.name = "m";
    p.test.kind = Test::None;
    p.test.neg = r.p(60);
    if (p.test.neg) { p.test.kind = Test::Equals; p.test.lit = "q"; }
    x.pats.push_back(p);
  }
  if (depth < 3) {
    while (left > 0 && r.p(depth ? 25 : 35)) x.kids.push_back(dense_rule(r, depth + 1, left));
    while (left > 0 && r.p(18)) {
      List l;
      do l.push_back(dense_rule(r, depth + 1, left)); while (left > 0 && r.p(40));
      x.nested.push_back(std::move(l));
    }
  }
  return x;
}
static List dense_list(Rng& r, int budget) {
  List l;
  int left = budget;
  do l.push_back(dense_rule(r, 0, left)); while (left > 0 && r.p(70) && l.size() < 5);
  return l;
}

static bool any_opt(const List& l) { std::vector<const RuleT*> v; all_rules(l, v); for (auto* x : v) if (x->opt) return true; return false; }
static bool any_greedy(const List& l) { std::vector<const RuleT*> v; all_rules(l, v); for (auto* x : v) if (x->greedy) return true; return false; }
static bool any_nested(const List& l) { std::vector<const RuleT*> v; all_rules(l, v); for (auto* x : v) if (!x->nested.empty()) return true; return false; }

static std::string some_html(Rng& r) {
  unsigned k = unsigned(r.u(100));
  if (k < 6) { std::string h = r.pick(corpus_pairs()).second; if (h.size() > 8000) h.resize(8000); return h; }
  if (k < 14) return gen_html_bytes(r);
  return gen_html(r, r.in(3, 45), r.p(12));
}

struct Made { std::string html; List l; };
static Made make_case(Rng& r, bool& dense) {
  Made m;
  dense = r.p(50);
  if (dense) {
    int id = 0;
    m.html = dense_html(r, id, 0, r.in(2, 7));
    m.l = dense_list(r, r.in(1, 7));
  } else {
    m.html = some_html(r);
    hext::Html h(m.html.data(), m.html.size());
    RDoc d(h.root());
    m.l = d.all.size() > 1500 ? gen_list_free(r, 4) : gen_list_for(r, d, r.in(1, 9));
  }
  return m;
}

// ----------------------------------------------------------------------- C08
static void c08_extreme(Rng& r, Ctx& c) {
  Extreme x = gen_extreme(r, "csodnnggGGss", r.p(60));
  hext::Html h(x.html.data(), x.html.size());
  RDoc d(h.root());
  RefExtract e;
  std::string want = ref_extract_sig(x.l, d.root, 0, &e), got = show(lower(x.l).extract(h));
  const std::string ctx = "\n template (" + std::string(1, x.kind) + ") " + dump(x.l).substr(0, 1500) + "\n document " + esc(x.html, 1500);
  if (want != got) {
    std::size_t i = std::size_t(std::mismatch(want.begin(), want.begin() + long(std::min(want.size(), got.size())), got.begin()).first - want.begin());
    std::size_t f = i < 200 ? 0 : i - 200;
    VH_FAIL("extraction gives (from byte " << f << " of " << got.size() << " on)\n " << esc(got.substr(f), 1500) << "\n instead of (of " << want.size() << ")\n " << esc(want.substr(f), 1500) << ctx);
  }
  c.count("large_cases");
  std::uint64_t values = 0, groups = 0;
  for (auto& g : e.groups) { groups += !g.empty(); values += g.size(); c.max("largest_group", g.size()); }
  c.max("most_groups", groups);
  c.count("groups", groups);
  c.count("matched_nodes", values);
  c.nontrivial(dump(x.l) + x.html);
}
static void c08(Rng& r, Ctx& c) {
  if (r.u(350) == 0) { c08_extreme(r, c); return; }
  bool dense;
  Made m = make_case(r, dense);
  hext::Html h(m.html.data(), m.html.size());
  RDoc d(h.root());
  if (d.all.size() > 1500) { c.count("skipped_large"); return; }
  RefExtract e;
  e.max_steps = 200000;
  std::string want;
  try { want = ref_extract_sig(m.l, d.root, 0, &e); } catch (const TooExpensive&) { c.count("too_expensive"); return; }
  std::string text;
  try { text = render(m.l, r, 1); } catch (const HarnessError&) {}
  const std::string ctx = "\n template " + (text.empty() ? dump(m.l) : esc(text)) + "\n document " + esc(m.html);
  hext::Rule api = lower(m.l);
  std::string got = show(api.extract(h));
  VH_CHECK(got == want, "extraction with the rule assembled through the API gives\n " << esc(got) << "\n instead of\n " << esc(want) << ctx);
  if (!text.empty()) {
    hext::Rule rule = hext::ParseHext(text.data(), text.size());
    got = show(rule.extract(h));
    VH_CHECK(got == want, "extraction gives\n " << esc(got) << "\n instead of\n " << esc(want) << ctx);
    c.count("compiled_templates");
  }
  // a subtree: from some node on
  const RNode* s = r.pick(d.all).get();
  std::string sw;
  bool ok = true;
  try { RefExtract e2; e2.max_steps = 200000; sw = ref_extract_sig(m.l, s, 0, &e2); } catch (const TooExpensive&) { ok = false; }
  if (ok) {
    got = show(api.extract(s->lib));
    VH_CHECK(got == sw, "extraction from node " << s->order << " on gives\n " << esc(got) << "\n instead of\n " << esc(sw) << ctx);
    c.count("subtree_extractions");
  }
  std::uint64_t values = 0, groups = 0;
  for (auto& g : e.groups) { groups += !g.empty(); values += g.size(); }
  c.count("groups", groups);
  c.count("matched_nodes", values);
  c.count("searched_sibling_lists", e.searches);
  if (dense) c.count("dense_cases");
  if (!want.empty()) {
    c.count("nonempty_results");
    if (any_opt(m.l)) c.count("nonempty_with_optional");
    if (any_greedy(m.l)) c.count("nonempty_with_greedy");
    if (any_nested(m.l)) c.count("nonempty_with_nested");
    if (m.l.size() > 1) c.count("nonempty_with_siblings");
    c.nontrivial(dump(m.l) + "|" + m.html);
  }
  if (!want.empty()) c.sample(dump(m.l) + " on " + esc(m.html, 200) + " -> " + esc(want, 200));
}

// ----------------------------------------------------------------------- C09
static std::string limited(const hext::Rule& r, const GumboNode* n, std::uint64_t lim, const std::string& ctx) {
  try { return show(r.extract(n, lim)); }
  catch (const hext::MaxSearchError& e) {
    VH_CHECK(e.what() && *e.what(), "a search-limit error without a message" << ctx);
    const std::runtime_error* re = &e;
    (void)re;
    return "!limit";
  }
}
// Every nested list of a single mandatory rule gets a condition that sees each
// node it is tried on. A search of such a list tries the list's first node, so
// the calls with first nodes count the searches that are really made.
static void add_probes(Rng& r, List& l, int& salt) {
  for (auto& x : l) {
    for (auto& n : x.nested) {
      if (n.size() == 1 && !n[0].opt && !n[0].greedy && r.p(85)) {
        Pattern p;
        p.user = Pattern::UserMatch;
        p.salt = ++salt;
        p.density = 100;
        n[0].tag = "*";
        n[0].traits.clear();
        n[0].pats.insert(n[0].pats.begin(), p);
      }
      add_probes(r, n, salt);
    }
    add_probes(r, x.kids, salt);
  }
}
static void c09(Rng& r, Ctx& c) {
  bool dense;
  Made m = make_case(r, dense);
  int probes = 0;
  if (r.p(30)) {     // more nested blocks
    RuleT w;
    w.nested.push_back(m.l);
    if (r.p(50)) w.nested.push_back(dense_list(r, 2));
    w.opt = r.p(20);
    m.l.insert(m.l.begin() + long(r.u(m.l.size() + 1)), w);
  }
  if (r.p(50)) {
    if (r.p(60)) {   // a search in each occurrence of a mandatory rule that is looked ahead for
      RuleT w;
      w.tag = r.of<const char*>({ "*", "b", "u" });
      w.nested.push_back({ RuleT() });
      List& at = r.p(50) || m.l.empty() ? m.l : m.l[std::size_t(r.u(m.l.size()))].kids;
      at.insert(at.begin(), w);
      if (r.p(70)) { RuleT o; o.tag = r.of<const char*>({ "i", "x-y", "b", "*" }); o.opt = true; at.insert(at.begin() + 1, o); }
    }
    add_probes(r, m.l, probes);
  }
  hext::Html h(m.html.data(), m.html.size());
  RDoc d(h.root());
  if (d.all.size() > 600) { c.count("skipped_large"); return; }
  UserEnv env;
  env.doc = &d;
  struct Guard { ~Guard() { g_user = nullptr; } } guard;
  g_user = &env;
  RefExtract e;
  e.max_steps = 40000;
  std::string want;
  try { want = ref_extract_sig(m.l, d.root, 0, &e); } catch (const TooExpensive&) { c.count("too_expensive"); return; }
  if (e.searches > 3000) { c.count("too_expensive"); return; }
  const std::uint64_t T = e.searches;
  const bool exact = !e.rematched;
  hext::Rule rule = lower(m.l);
  const std::string ctx = "\n rule " + dump(m.l) + "\n document " + esc(m.html);
  auto unl = [&](const char* when) {
    std::string g = limited(rule, d.root->lib, 0, ctx);
    VH_CHECK(g == want, "unlimited extraction " << when << " gives\n " << esc(g) << "\n instead of\n " << esc(want) << ctx);
  };
  unl("at first");
  // number of sibling lists in the document: a lower bound for the threshold
  std::uint64_t lists = 1;
  // (the contents of template elements are not searched)
  std::function<void(const RNode*)> walk = [&](const RNode* n) {
    if (!n->element() || n->kids.empty()) return;
    ++lists;
    for (auto* k : n->kids) walk(k);
  };
  walk(d.root);
  std::vector<std::uint64_t> lim = { 1, 2, 3, T, T + 1, T + 2, 2 * T, ~0ULL, 1ULL << 32, (1ULL << 32) + 1, 1ULL << 63, (1ULL << 63) - 1 };
  if (T > 1) lim.push_back(T - 1);
  for (int i = 0; i < 6; ++i) lim.push_back(1 + r.u(T + 3));
  for (std::size_t i = lim.size(); i > 1; --i) std::swap(lim[i - 1], lim[std::size_t(r.u(i))]);
  std::uint64_t lowest_ok = ~0ULL, highest_bad = 0;
  for (auto L : lim) {
    if (!L) continue;
    bool via = r.p(30);
    std::string g;
    env.calls.clear();
    if (via) { try { g = show(rule.extract(h, L)); } catch (const hext::MaxSearchError&) { g = "!limit"; } }
    else g = limited(rule, d.root->lib, L, ctx);
    if (probes) {
      std::uint64_t made = 0;
      for (auto& k : env.calls) made += k.second->idx == 0 || !k.second->parent;
      VH_CHECK(made < L, "an extraction with the search limit " << L << " searches " << made << " sibling lists of nested blocks" << ctx);
      c.count("searches_seen_by_probes", made);
    }
    if (g == "!limit") highest_bad = std::max(highest_bad, L);
    else {
      lowest_ok = std::min(lowest_ok, L);
      VH_CHECK(g == want, "extraction with the search limit " << L << " gives\n " << esc(g) << "\n instead of\n " << esc(want) << ctx);
    }
    if (exact) {
      VH_CHECK((g == "!limit") == (L <= T), "extraction that searches " << T << " sibling lists " << (g == "!limit" ? "is aborted" : "is not aborted") << " by the search limit " << L << ctx);
      c.count(g == "!limit" ? "limits_hit" : "limits_not_hit");
    } else {
      if (L > T) VH_CHECK(g != "!limit", "the search limit " << L << " aborts an extraction of at most " << T << " searches" << ctx);
      if (L <= lists) VH_CHECK(g == "!limit", "the search limit " << L << " does not abort an extraction which searches at least " << lists << " sibling lists" << ctx);
      c.count("inexact_limits");
    }
    if (r.p(25)) unl("after limited ones");
  }
  VH_CHECK(highest_bad < lowest_ok, "the search limit " << highest_bad << " aborts extraction, but " << lowest_ok << " does not" << ctx);
  // a sub-document has its own count
  const RNode* s = r.pick(d.all).get();
  RefExtract e2;
  std::string sw = ref_extract_sig(m.l, s, 0, &e2);
  if (!e2.rematched) {
    VH_CHECK(limited(rule, s->lib, e2.searches, ctx) == "!limit", "the search limit " << e2.searches << " does not abort the extraction from node " << s->order << ctx);
    VH_CHECK(limited(rule, s->lib, e2.searches + 1, ctx) == sw, "the search limit " << e2.searches + 1 << " changes the extraction from node " << s->order << ctx);
    c.count("subtree_limits");
  }
  unl("at last");
  c.max("largest_threshold", T);
  if (T > lists) c.count("thresholds_above_list_count");
  c.nontrivial(dump(m.l) + "|" + m.html);
  c.sample(dump(m.l) + " threshold " + std::to_string(T) + " on " + esc(m.html, 150));
}

// ----------------------------------------------------------------------- C10
namespace {
struct Doc {
  std::unique_ptr<char[]> bytes;
  std::size_t size;
  std::unique_ptr<hext::Html> html;
  std::unique_ptr<RDoc> d;
  std::string dump0, text;
};
struct Rl {
  std::unique_ptr<hext::Rule> rule;
  List l;
  std::string sig;
};
struct Kept { hext::Result res; std::string sig; };
}
static std::string words_variant(Rng& r, const std::string& h) {
  // same structure and length, other letters in texts and attribute values
  std::string o = h;
  bool tag = false, quoted = false;
  char shift = char(1 + r.u(5));
  for (auto& c : o) {
    if (c == '<') tag = true;
    if (c == '"' && tag) quoted = !quoted;
    if (c == '>') { tag = quoted = false; }
    if ((!tag || quoted) && c >= 'a' && c <= 'z') c = char('a' + (c - 'a' + shift) % 26);
  }
  return o;
}
static std::string names_variant(Rng& r, const std::string& h) {
  // same length, other names of custom elements and of b and i
  std::string o = h;
  char shift = char(1 + r.u(5));
  bool both = r.p(50), last = r.p(50);
  for (std::size_t i = 0; i + 1 < o.size(); ++i) {
    if (o[i] != '<') continue;
    std::size_t b = i + 1 + (o[i + 1] == '/'), e = b;
    while (e < o.size() && (std::isalnum(static_cast<unsigned char>(o[e])) || o[e] == '-')) ++e;
    std::string name = o.substr(b, e - b);
    if (name.find('-') != std::string::npos && std::isalpha(static_cast<unsigned char>(name[0]))) {
      std::size_t at = last ? e - 1 : b + name.size() / 2;
      if (o[at] >= 'a' && o[at] <= 'z') o[at] = char('a' + (o[at] - 'a' + shift) % 26);
    }
    else if (both && (name == "b" || name == "i")) o[b] = name == "b" ? 'i' : 'b';
  }
  return o;
}
static std::string hide_variant(Rng& r, const std::string& h) {
  // same length, with some of the tags turned into comments
  std::string o = h;
  for (std::size_t i = 0; i + 2 < o.size(); ++i) {
    if (o[i] != '<' || o[i + 1] == '!' || !r.p(12)) continue;
    std::size_t b = i + 1 + (o[i + 1] == '/'), e = b;
    while (e < o.size() && (std::isalnum(static_cast<unsigned char>(o[e])) || o[e] == '-')) ++e;
    if (e > b) o[i + 1] = '!';
  }
  return o;
}
static void c10(Rng& r, Ctx& c) {
  std::vector<Doc> docs;
  std::vector<Rl> rules;
  std::vector<Kept> kept;
  std::vector<std::pair<std::vector<hext::ResultPair>, std::string>> pairs;
  std::vector<std::pair<hext::SyntaxError, std::string>> errors;
  std::string log, base;
  auto load = [&](std::string t) {
    Doc x;
    x.size = t.size();
    x.bytes.reset(new char[t.size() + 1]);
    std::memcpy(x.bytes.get(), t.data(), t.size());
    x.bytes[t.size()] = '<';
    x.html = std::make_unique<hext::Html>(x.bytes.get(), x.size);
    x.d = std::make_unique<RDoc>(x.html->root());
    x.dump0 = x.d->dump();
    x.text = t;
    docs.push_back(std::move(x));
  };
  auto drop_doc = [&](std::size_t i) {
    Doc x = std::move(docs[i]);
    docs.erase(docs.begin() + long(i));
    x.d.reset();
    x.html.reset();
    std::memset(x.bytes.get(), 'Z', x.size);
  };
  auto verify_doc = [&](Doc& x, const char* op) {
    VH_CHECK(RDoc(x.html->root()).dump() == x.dump0, op << " changed the document " << esc(x.text) << "\n history " << log);
    VH_CHECK(std::memcmp(x.bytes.get(), x.text.data(), x.size) == 0, op << " changed the bytes of the document\n history " << log);
  };
  base = gen_html(r, r.p(25) ? r.in(1, 3) : r.in(3, 18));
  load(base);
  int ops = r.in(8, 30);
  std::vector<char> arena(base.size() + 1);
  // one node of one document after another in the same memory
  auto twins = [&] {
    Rl* x = &r.pick(rules);
    std::vector<const hext::Rule*> rs;
    std::vector<const RuleT*> ms;
    all_rules(*x->rule, rs);
    all_rules(x->l, ms);
    if (rs.size() != ms.size()) throw HarnessError("rules differ");
    std::size_t which = std::size_t(r.u(rs.size())), at = std::size_t(r.u(1000));
    int n = r.in(2, 4);
    std::string t = base;
    for (int i = 0; i < n; ++i) {
      std::memcpy(arena.data(), t.data(), t.size());
      hext::Html h(arena.data(), t.size());
      const std::string ctx = "\n document " + esc(t) + " in place of others\n history " + log;
      RDoc d(h.root());
      // the node at the given position, of those with a custom name if there are any
      std::vector<const RNode*> ns;
      for (auto& q : d.all) if (q->element() && q->name.find('-') != std::string::npos) ns.push_back(q.get());
      if (ns.empty()) for (auto& q : d.all) ns.push_back(q.get());
      const RNode* q = ns[at % ns.size()];
      if (comparable(*ms[which], q)) {
        VH_CHECK(rs[which]->matches(q->lib) == ref_matches(*ms[which], q), "rule " << dump({ *ms[which] }) << " on node " << q->order << ctx);
        std::string w = show_pairs(ref_capture(*ms[which], q)), g = show_pairs(rs[which]->capture(q->lib));
        VH_CHECK(g == w, "captured values " << esc(g) << " instead of " << esc(w) << " from node " << q->order << ctx);
        c.count("replaced_documents");
      }
      if (r.p(40)) {
        RefExtract e;
        e.max_steps = 30000;
        try {
          std::string w = ref_extract_sig(x->l, d.root, 0, &e), g = show(x->rule->extract(h));
          VH_CHECK(g == w, "extraction gives\n " << esc(g) << "\n instead of\n " << esc(w) << "\n rule " << dump(x->l) << ctx);
        } catch (const TooExpensive&) {}
      }
      t = r.p(60) ? names_variant(r, t) : words_variant(r, t);
      if (t.size() > base.size()) throw HarnessError("variant");
    }
  };
  // conditions and captures that differ between two documents at the same place
  auto stale = [&] {
    std::string t1 = base, t2;
    for (int i = r.in(0, 1); i > 0; --i) t1 = r.p(50) ? names_variant(r, t1) : words_variant(r, t1);
    switch (r.u(4)) {
    case 0: t2 = names_variant(r, t1); break;
    case 1: t2 = words_variant(r, t1); break;
    case 2: t2 = hide_variant(r, t1); break;
    default: t2 = words_variant(r, names_variant(r, t1));
    }
    const std::string* text[2] = { &t1, &t2 };
    std::unique_ptr<hext::Html> h[2];
    std::unique_ptr<RDoc> d[2];
    for (int i = 0; i < 2; ++i) {
      h[i] = std::make_unique<hext::Html>(text[i]->data(), text[i]->size());
      d[i] = std::make_unique<RDoc>(h[i]->root());
    }
    // elements at the same place
    std::vector<std::pair<std::size_t, std::size_t>> at;
    for (std::size_t i = 0, j = 0; i < d[0]->all.size(); ++i) {
      if (!d[0]->all[i]->element()) continue;
      while (j < d[1]->all.size() && !d[1]->all[j]->element()) ++j;
      if (j == d[1]->all.size()) break;
      at.emplace_back(i, j++);
    }
    if (at.empty()) return;
    std::vector<std::pair<RuleT, std::size_t>> pick;
    for (int tries = 0; tries < 60 && pick.size() < 4; ++tries) {
      std::size_t a = std::size_t(r.u(at.size()));
      const RNode* q[2] = { d[0]->all[at[a].first].get(), d[1]->all[at[a].second].get() };
      if (q[0]->name == q[1]->name && r.p(50)) {   // rather where the names differ
        for (std::size_t k = 0; k < at.size(); ++k)
          if (d[0]->all[at[k].first]->name != d[1]->all[at[k].second]->name) { a = k; break; }
        q[0] = d[0]->all[at[a].first].get();
        q[1] = d[1]->all[at[a].second].get();
      }
      RuleT x;
      x.tag = r.p(80) ? "*" : q[0]->name;
      if (r.p(60)) x.traits.push_back(gen_trait(r, q[r.u(2)]));
      else x.pats.push_back(gen_pattern(r, q[r.u(2)]));
      if (!comparable(x, q[0]) || !comparable(x, q[1])) continue;
      bool m0 = ref_matches(x, q[0]), m1 = ref_matches(x, q[1]);
      if (m0 == m1 && (x.pats.empty() || show_pairs(ref_capture(x, q[0])) == show_pairs(ref_capture(x, q[1])))) continue;
      pick.emplace_back(std::move(x), a);
    }
    h[0].reset();
    h[1].reset();
    if (pick.empty()) return;
    bool together = r.p(30);
    std::vector<std::unique_ptr<hext::Rule>> rule;
    for (auto& p : pick) rule.push_back(std::make_unique<hext::Rule>(lower_single(p.first)));
    auto look = [&](std::size_t k, const RDoc& real, int i) {
      const RuleT& x = pick[k].first;
      std::size_t o = i ? at[pick[k].second].second : at[pick[k].second].first;
      const RNode* lib = real.all[o].get();
      const std::string ctx = " node " + std::to_string(o) + " of\n " + esc(*text[i]) + "\n where\n " + esc(*text[1 - i]) + "\n was, rule " + dump({ x }) + "\n history " + log;
      VH_CHECK(rule[k]->matches(lib->lib) == ref_matches(x, lib), "the rule should " << (ref_matches(x, lib) ? "" : "not ") << "match" << ctx);
      std::string g = show_pairs(rule[k]->capture(lib->lib)), w = show_pairs(ref_capture(x, lib));
      VH_CHECK(g == w, "captured values " << esc(g) << " instead of " << esc(w) << " from" << ctx);
      c.count("replaced_documents_that_differ");
    };
    auto load1 = [&](int i, auto f) {
      std::memcpy(arena.data(), text[i]->data(), text[i]->size());
      hext::Html x(arena.data(), text[i]->size());
      RDoc real(x.root());
      if (real.all.size() != d[i]->all.size()) throw HarnessError("documents differ");
      f(real, i);
    };
    int turn = int(r.u(2));
    if (together) {
      for (int n = r.in(2, 4); n > 0; --n, turn = r.p(85) ? 1 - turn : turn)
        load1(turn, [&](const RDoc& real, int i) { for (std::size_t k = 0; k < pick.size(); ++k) look(k, real, i); });
    } else {
      for (std::size_t k = 0; k < pick.size(); ++k)
        for (int n = r.in(2, 3); n > 0; --n, turn = r.p(85) ? 1 - turn : turn)
          load1(turn, [&](const RDoc& real, int i) { look(k, real, i); });
    }
  };
  for (int i = 0; i < ops; ++i) {
    unsigned k = unsigned(r.u(100));
    if (r.p(12)) {
      log += "stale ";
      stale();
      continue;
    }
    if (k < 12 || docs.empty()) {
      log += "load ";
      if (docs.size() > 4) drop_doc(std::size_t(r.u(docs.size())));
      load(r.p(60) ? words_variant(r, base) : gen_html(r, r.in(2, 18), r.p(10)));
    } else if (k < 20) {   // replaced by another document at, quite likely, the same place
      log += "replace ";
      drop_doc(docs.size() - 1);
      load(r.p(50) ? words_variant(r, base) : names_variant(r, base));
    } else if (k < 25) {
      log += "destroy-document ";
      drop_doc(std::size_t(r.u(docs.size())));
    } else if (k < 40 || rules.empty()) {
      Rl x;
      x.l = r.p(80) ? gen_list_for(r, *r.pick(docs).d, r.in(1, 5)) : gen_list_free(r, 3);
      std::string t;
      try { t = render(x.l, r, int(r.u(3))); } catch (const HarnessError&) {}
      if (r.p(20)) {   // a template that does not compile, then its message outlives it
        std::string bad = t + r.of<const char*>({ "<", "<a", "</b>", "{", "<a b=~/(/ />", "<a><b>" });
        std::unique_ptr<char[]> p(new char[bad.size()]);
        std::memcpy(p.get(), bad.data(), bad.size());
        try { hext::ParseHext(p.get(), bad.size()); }
        catch (const hext::SyntaxError& e) { errors.emplace_back(e, e.what()); }
        std::memset(p.get(), '?', bad.size());
        RefParse q = ref_parse(bad);
        if (!q.ok) VH_CHECK(!errors.empty() && errors.back().second == q.message, "wrong error for " << esc(bad) << "\n history " << log);
        log += "bad-template ";
      }
      if (t.empty() || r.p(30)) {
        hext::Rule tmp = lower(x.l);
        x.rule = std::make_unique<hext::Rule>(r.p(50) ? hext::Rule(tmp) : std::move(tmp));
        log += "build ";
      } else {
        std::unique_ptr<char[]> p(new char[t.size()]);
        std::memcpy(p.get(), t.data(), t.size());
        x.rule = std::make_unique<hext::Rule>(hext::ParseHext(p.get(), t.size()));
        std::memset(p.get(), '>', t.size());
        log += "compile ";
      }
      x.sig = rule_sig(*x.rule);
      if (rules.size() > 4) rules.erase(rules.begin() + long(r.u(rules.size())));
      rules.push_back(std::move(x));
    } else if (k < 45) {
      log += "copy-rule ";
      auto& s = r.pick(rules);
      Rl x;
      x.rule = std::make_unique<hext::Rule>(*s.rule);
      x.l = s.l;
      x.sig = s.sig;
      if (r.p(50) && rules.size() > 1) rules.erase(rules.begin() + long(r.u(rules.size())));
      rules.push_back(std::move(x));
    } else if (k < 50) {
      log += "destroy-rule ";
      rules.erase(rules.begin() + long(r.u(rules.size())));
    } else if (k < 57) {
      log += "twins ";
      twins();
    } else if (k < 90) {
      auto& x = r.pick(rules);
      auto& d = r.pick(docs);
      const RNode* s = r.p(75) ? d.d->root : r.pick(d.d->all).get();
      RefExtract e;
      e.max_steps = 30000;
      std::string want;
      try { want = ref_extract_sig(x.l, s, 0, &e); } catch (const TooExpensive&) { c.count("too_expensive"); continue; }
      if (r.p(20)) {
        log += "limited-extract ";
        try { show(x.rule->extract(s->lib, 1 + r.u(e.searches))); } catch (const hext::MaxSearchError&) { c.count("limit_errors"); }
      }
      log += "extract ";
      hext::Result res = x.rule->extract(s->lib);
      std::string got = show(res);
      VH_CHECK(got == want, "extraction gives\n " << esc(got) << "\n instead of\n " << esc(want) << "\n rule " << dump(x.l) << "\n document " << esc(d.text) << "\n history " << log);
      c.unit();
      if (!want.empty()) { c.nontrivial(want + dump(x.l)); c.count("nonempty_results"); }
      c.count("extractions");
      if (kept.size() > 12) kept.erase(kept.begin() + long(r.u(kept.size())));
      kept.push_back({ std::move(res), want });
      verify_doc(d, "extraction");
      if (r.p(30)) VH_CHECK(rule_sig(*x.rule) == x.sig, "extraction changed the rule " << dump(x.l) << "\n history " << log);
    } else {
      log += "match-and-capture ";
      auto& x = r.pick(rules);
      auto& d = r.pick(docs);
      for (auto& n : d.d->all) {
        if (!r.p(40) || !comparable(x.l[0], n.get())) continue;
        VH_CHECK(x.rule->matches(n->lib) == ref_matches(x.l[0], n.get()), "rule " << dump({ x.l[0] }) << " on node " << n->order << " of " << esc(d.text) << "\n history " << log);
        auto v = x.rule->capture(n->lib);
        std::string w = show_pairs(ref_capture(x.l[0], n.get()));
        VH_CHECK(show_pairs(v) == w, "captured values differ from " << esc(w) << "\n history " << log);
        if (!v.empty() && r.p(20)) pairs.emplace_back(std::move(v), w);
      }
      verify_doc(d, "matching");
    }
    c.count("operations");
  }
  while (!docs.empty()) { verify_doc(docs.back(), "the history"); drop_doc(docs.size() - 1); }
  for (auto& x : rules) VH_CHECK(rule_sig(*x.rule) == x.sig, "a rule changed: " << dump(x.l) << "\n history " << log);
  rules.clear();
  for (auto& x : kept) VH_CHECK(show(x.res) == x.sig, "a result changed after its document and rule were destroyed: " << esc(x.sig) << "\n history " << log);
  for (auto& x : pairs) VH_CHECK(show_pairs(x.first) == x.second, "captured values changed after their document was destroyed\n history " << log);
  for (auto& x : errors) VH_CHECK(x.second == x.first.what(), "a syntax error's message changed\n history " << log);
  c.count("results_kept", kept.size());
  c.sample(log);
}

// ----------------------------------------------------------------------- C13
static void c13(Rng& r, Ctx& c) {
  std::string html = r.p(75) ? gen_html_bytes(r) : gen_html(r, r.in(1, 30), true);
  if (r.p(4)) {   // nul bytes and broken encodings everywhere
    for (int i = 0; i < 8 && !html.empty(); ++i) html[std::size_t(r.u(html.size()))] = r.of({ '\0', '\xff', '\x80', '\xc3', '\xed' });
  }
  const bool guard = r.p(60);
  Exact buf(html, guard, r.p(40), html_slack(html));
  hext::Html h(buf.data(), buf.size());
  RDoc d(h.root());
  const std::string ctx = "\n document " + esc(html);
  c.max("largest_document_nodes", d.all.size());
  if (d.all.size() > 4000) { c.count("skipped_large"); return; }
  int n = d.all.size() > 300 ? 1 : 3;
  for (int i = 0; i < n; ++i) {
    List l = r.p(60) && d.all.size() < 1000 ? gen_list_for(r, d, r.in(1, 6)) : gen_list_free(r, r.in(1, 4));
    hext::Rule rule = lower(l);
    // each node, including text, comments and the contents of templates
    std::vector<const hext::Rule*> rs;
    all_rules(rule, rs);
    std::uint64_t hits = 0;
    for (auto& x : d.all)
      for (auto* q : rs) if (q->matches(x->lib)) { ++hits; for (auto& v : q->capture(x->lib)) c.count("captured_bytes", v.second.size()); }
    c.count("node_rule_pairs", d.all.size() * rs.size());
    c.count("node_rule_matches", hits);
    RefExtract e;
    e.max_steps = 60000;
    std::string want;
    try { want = ref_extract_sig(l, d.root, 0, &e); } catch (const TooExpensive&) { c.count("too_expensive"); continue; }
    std::string got;
    try { got = show(rule.extract(h)); }
    catch (const hext::MaxSearchError&) { VH_FAIL("an unlimited extraction raised the search-limit error for " << dump(l) << ctx); }
    VH_CHECK(got == want, "extraction with " << dump(l) << " gives\n " << esc(got) << "\n instead of\n " << esc(want) << ctx);
    if (e.searches > 1) {
      try { rule.extract(h, 1 + r.u(e.searches)); } catch (const hext::MaxSearchError&) { c.count("limit_errors"); }
    }
    if (!want.empty()) c.count("nonempty_results");
    c.count("extractions");
  }
  bool bad = html.find('\0') != std::string::npos;
  for (unsigned char ch : html) bad = bad || ch >= 0x80;
  if (bad) c.count("non_ascii_or_nul");
  if (d.all.size() > 3) c.nontrivial(html);
  c.sample(esc(html, 300));
}

// ----------------------------------------------------------------------- C18
static std::string gumbo_dump(const std::string& s) {
  GumboOutput* o = gumbo_parse_with_options(&kGumboDefaultOptions, s.data(), s.size());
  std::string t = RDoc(o->root).dump();
  gumbo_destroy_output(&kGumboDefaultOptions, o);
  return t;
}
static void inside(const RDoc& d, const char* p, std::size_t n, const std::string& ctx) {
  for (auto& x : d.all) {
    if (!x->element() && x->type != GUMBO_NODE_TEMPLATE) continue;
    auto& t = x->lib->v.element.original_tag;
    if (t.data && t.length) VH_CHECK(t.data >= p && t.data + t.length <= p + n, "a tag of the tree refers to memory outside the document" << ctx);
  }
}
static void c18(Rng& r, Ctx& c) {
  std::string html = r.p(40) ? gen_html_bytes(r) : some_html(r);
  if (r.p(25)) {   // ends in the middle of something
    static const std::vector<std::string> open = { "<title>a", "<textarea>a", "<script>a", "<style>a", "<!--a", "<a b", "<a b='c", "<a b=c", "<p>&am", "<p>&#6", "<svg><![CDATA[a", "<xmp>a", "<plaintext>a", "<", "</", "</b", "<!doc", "<!DOCTYPE html PUBLIC \"a", "<svg>a", "<table>a", "<select><option>a", "<pre>\n" };
    static const std::vector<std::string> last = { std::string(1, '\0'), std::string(2, '\0'), "\r", "\n", " ", "\xef", "\xef\xbb\xbf", "\xf0\x9f", "-", "-->", "&", "]]>", "\x1a" };
    if (r.p(70)) { if (html.size() > 200) html.resize(std::size_t(r.u(200))); html += r.pick(open); }
    html += r.pick(last);
    c.count("unfinished_documents");
  }
  if (r.p(5)) html = r.of<const char*>({ "\xef\xbb\xbf", "\xff\xfe", "\xef\xbb", "\n", "\r\n" }) + html;
  if (html.size() > 5000) html.resize(r.p(97) ? 5000 : 9000);   // deep trees take gumbo quadratic time
  const std::string ctx = "\n document " + esc(html);
  const std::string want = gumbo_dump(html);
  auto check = [&](const hext::Html& h, const char* p, std::size_t n, const char* how) {
    VH_CHECK(h.root(), "no root node " << how << ctx);
    VH_CHECK(h.root()->type == GUMBO_NODE_ELEMENT && h.root()->v.element.tag == GUMBO_TAG_HTML, "the root is not the html element " << how << ctx);
    VH_CHECK(h.root()->parent && h.root()->parent->type == GUMBO_NODE_DOCUMENT, "the root is not the document's element " << how << ctx);
    RDoc d(h.root());
    VH_CHECK(d.dump() == want, "the tree is not that of the given bytes, " << how << "\n" << esc(d.dump()) << "\n instead of\n" << esc(want) << ctx);
    if (p) inside(d, p, n, ctx);
    VH_CHECK(d.all.size() == d.by_lib.size(), "a node occurs twice " << how << ctx);
    c.count("trees_compared");
    c.count("nodes", d.all.size());
    return d.all.size();
  };
  std::size_t nodes;
  {
    Exact buf(html, true, r.p(50), html_slack(html));   // read-only, unreadable pages around
    hext::Html h(buf.data(), buf.size());
    nodes = check(h, buf.data(), buf.size(), "at the edge of readable memory");
    hext::Html m(std::move(h));
    VH_CHECK(m.root(), "moved document has no root");
    check(m, buf.data(), buf.size(), "after move construction");
    hext::Html o("<p>other");
    const GumboNode* before = m.root();
    o = std::move(m);
    VH_CHECK(o.root() == before, "moving a document replaced its tree" << ctx);
    check(o, buf.data(), buf.size(), "after move assignment");
    auto& self = o;
    o = std::move(self);
    check(o, buf.data(), buf.size(), "after move assignment to itself");
    if (r.p(50)) { m = hext::Html("<b>again"); h = std::move(m); VH_CHECK(h.root(), "a moved-from document cannot be reused"); }
    // extraction works on the moved document
    static const hext::Rule all = hext::ParseHext("<* @strip-tags:x/>");
    std::string e1 = extract_sig(all, o.root()), e2;
    { hext::Html f(html.data(), html.size()); e2 = extract_sig(all, f.root()); }
    VH_CHECK(e1 == e2, "a moved document extracts differently" << ctx);
  }
  {
    Exact buf(html, false);
    hext::Html h(buf.data(), buf.size());
    check(h, buf.data(), buf.size(), "in an exactly sized block");
    VH_CHECK(std::memcmp(buf.data(), html.data(), html.size()) == 0, "loading modified the bytes" << ctx);
  }
  {   // within other bytes that would change the tree
    static const std::vector<std::string> around = { "<b id=out>", "</div></b>", "-->", "\"'>", "<!--", "x", "<p>", std::string(1, '\0'), "\xc3\x28", "</html><x>", "&amp;" };
    std::string pre = r.pick(around), post = r.pick(around);
    std::string whole = pre + html + post;
    const bool guard = r.p(50);
    Exact buf(whole, guard, r.p(50));
    hext::Html h(buf.data() + pre.size(), html.size());
    check(h, buf.data() + pre.size(), html.size(), "between other bytes");
    VH_CHECK(std::string_view(buf.data(), buf.size()) == whole, "loading modified the bytes" << ctx);
    // and a part of it
    std::size_t cut = std::size_t(r.u(html.size() + 1));
    hext::Html part(buf.data() + pre.size(), cut);
    std::string pd = RDoc(part.root()).dump();
    VH_CHECK(pd == gumbo_dump(html.substr(0, cut)), "the tree of the first " << cut << " bytes is " << esc(pd) << ctx);
    c.count("truncations");
  }
  {   // up to the terminating nul
    std::string z = html.substr(0, html.find('\0'));
    std::string withnul = z + '\0' + (r.p(50) ? "" : "<i>after</i>");
    Exact buf(withnul, true, r.p(50));
    hext::Html h(buf.data());
    std::string zd = RDoc(h.root()).dump();
    VH_CHECK(zd == gumbo_dump(z), "the tree of a NUL-terminated document is " << esc(zd) << "\n document " << esc(z));
    c.count("nul_terminated");
  }
  {   // a lot of documents at once, destroyed in any order
    std::vector<hext::Html> v;
    for (int i = 0; i < 4; ++i) v.emplace_back(html.data(), html.size());
    v.erase(v.begin() + long(r.u(v.size())));
    v.insert(v.begin(), hext::Html("<u>1"));
    std::swap(v[0], v[2]);
    check(v[0], html.data(), html.size(), "in a vector");
  }
  if (nodes > 3) c.nontrivial(html);
  c.sample(esc(html, 300));
}

extern const Prop kExtractProps[] = { { "C08", c08, true }, { "C09", c09, true }, { "C10", c10, true }, { "C13", c13, true }, { "C18", c18, true } };
extern const int kExtractPropsN = 5;

} // namespace vh
