// C05 C06 C07 C20: conditions, captured values, pipes, user functions.
#include "core.h"

namespace vh {

static std::string any_html(Rng& r, int lo, int hi) {
  if (r.p(8)) { std::string h = r.pick(corpus_pairs()).second; if (h.size() > 8000) h.resize(8000); return h; }
  return r.p(15) ? gen_html_bytes(r) : gen_html(r, r.in(lo, hi), r.p(15));
}

// ----------------------------------------------------------------------- C05
struct TagRow { hext::HtmlTag tag; const char* name; };
static const TagRow tag_rows[] = {
#define T(e, n) { hext::HtmlTag::e, #n },
#include "tags.inc"
#undef T
};

static std::string tag_name(const TagRow& t) {
  std::string n = t.name;
  for (auto& x : n) { x = char(std::tolower((unsigned char)x)); if (x == '_') x = '-'; }
  return n;
}

static bool positional(const Trait& t) { RuleT x; x.traits.push_back(t); RNode n; n.type = GUMBO_NODE_ELEMENT; return !comparable(x, &n); }

// very long lists of siblings: counts beyond 8 and 16 bits
static void c05_huge(Rng& r, Ctx& c) {
  int n = r.p(60) ? r.of({ 65535, 65536, 65537 }) : r.of({ 256, 257, 255, 512, 1024, 32768, 32769, 66000, 70000, 131072 });
  unsigned q = unsigned(r.of({ 0, 0, 1, 30 }));
  std::string html = "<div>", a = r.of<const char*>({ "b", "x-y", "i" });
  for (int i = 0; i < n; ++i) html += r.p(q) ? "<u></u>" : "<" + a + "></" + a + ">";
  html += "</div>";
  hext::Html h(html.data(), html.size());
  RDoc d(h.root());
  const RNode* div = nullptr;
  for (auto& x : d.all) if (x->name == "div") { div = x.get(); break; }
  if (!div || int(div->kids.size()) != n) throw HarnessError("c05_huge");
  const std::string ctx = "\n document: <div> with " + std::to_string(n) + " children, most of them <" + a + ">";
  auto check = [&](const Trait& t, const RNode* x) {
    RuleT m;
    m.traits = { t };
    bool e = ref_trait(t, x);
    VH_CHECK(lower_trait(t)->matches(x->lib) == e, "trait " << dump({ m }) << " should " << (e ? "" : "not ") << "hold for <" << x->name << "> number " << x->idx + 1 << " of its siblings" << ctx);
    c.count("huge_list_checks");
    if (e) c.count("huge_list_matches");
    c.max("longest_sibling_list", std::uint64_t(n));
  };
  Trait t;
  for (int v : { n, n % 65536, n % 256, n - 65536, 0, 65535, 255 }) { if (v < 0) continue; t.kind = Trait::ChildCount; t.a = v; check(t, div); }
  t = Trait();
  check(t, div);
  for (int i : { 0, 127, 254, 255, 256, 32767, 32768, 65534, 65535, 65536, n - 257, n - 256, n - 255, n - 1, int(r.u(std::uint64_t(n))) }) {
    if (i < 0 || i >= n) continue;
    const RNode* x = div->kids[std::size_t(i)];
    for (int k = 0; k < 3; ++k) {
      t = Trait();
      t.kind = r.of({ Trait::NthChild, Trait::NthLastChild, Trait::NthOfType, Trait::NthLastOfType });
      int pos = t.kind == Trait::NthChild || t.kind == Trait::NthOfType ? i + 1 : n - i;
      t.form = 4;
      t.a = r.of({ 0, 1, 2, 256, 65536, -1 });
      t.b = r.of({ pos, pos, pos % 65536, pos % 256, pos - 65536, pos - 256 });
      if (!t.a) t.form = 0;
      check(t, x);
    }
    t = Trait();
    t.kind = Trait::Kind(Trait::FirstChild + int(r.u(6)));
    check(t, x);
  }
}

// rules and captures that are large in one way; conditions (C05) or values (C06, C07)
static void extreme(Rng& r, Ctx& c, const char* kinds) {
  Extreme x = gen_extreme(r, kinds, r.p(60));
  hext::Html h(x.html.data(), x.html.size());
  RDoc d(h.root());
  compare_rules(lower(x.l), x.l, d, "the document " + esc(x.html, 1500), c);
  c.count("large_cases");
  c.nontrivial(dump(x.l));
}
static void c05_counts(Rng& r, Ctx& c) {
  int n = big(r, 1100);
  std::string html = "<p";
  for (int i = 0; i < n; ++i) html += " a" + std::to_string(i);
  html += "></p>";
  hext::Html h(html.data(), html.size());
  RDoc d(h.root());
  const RNode* p = nullptr;
  for (auto& x : d.all) if (x->name == "p") p = x.get();
  if (!p || int(p->attrs.size()) != n) throw HarnessError("c05_counts");
  for (int v : { n, n + 1, n - 1, n % 256, n + 256, n % 128, n + 65536, 0 }) {
    Trait t;
    t.kind = Trait::AttrCount;
    t.a = v;
    VH_CHECK(lower_trait(t)->matches(p->lib) == ref_trait(t, p), "attribute-count(" << v << ") on an element with " << n << " attributes");
    c.count("many_attributes_checks");
  }
}

static void c05(Rng& r, Ctx& c) {
  if (r.u(900) == 0) { c05_huge(r, c); return; }
  if (r.u(300) == 0) { extreme(r, c, "mtNlrw"); return; }
  if (r.u(500) == 0) { c05_counts(r, c); return; }
  std::string html = any_html(r, 3, 40);
  if (r.p(10)) {     // an element of every standard type
    auto& t = tag_rows[r.u(sizeof tag_rows / sizeof *tag_rows)];
    std::string n = tag_name(t);
    html = "<div><p>a</p><" + n + " a=b>x</" + n + "><x-y></x-y></div><svg><" + n + "/></svg><table><tr><" + n + "></table>";
  }
  hext::Html h(html.data(), html.size());
  RDoc d(h.root());
  if (d.all.size() > 1500) { c.count("skipped_large"); return; }
  const std::string ctx = "\n document " + esc(html);

  // tags, by enumerator and by name
  for (int i = 0; i < 4; ++i) {
    auto& t = tag_rows[r.u(sizeof tag_rows / sizeof *tag_rows)];
    std::string n = tag_name(t);
    if (n == "annotation-xml" || gumbo_tag_enum(n.c_str()) != GUMBO_TAG_UNKNOWN) {
      hext::Rule a(t.tag), b(n);
      for (auto& x : d.all) {
        bool e = ref_tag(n, x.get());
        VH_CHECK(a.matches(x->lib) == e, "rule for the tag enumerator " << t.name << (e ? " does not match" : " matches") << " node " << x->order << " <" << x->name << ">" << ctx);
        VH_CHECK(b.matches(x->lib) == e, "rule for the tag name " << n << (e ? " does not match" : " matches") << " node " << x->order << " <" << x->name << ">" << ctx);
      }
      c.count("tag_checks", d.all.size());
    }
  }
  // whole rules
  std::set<std::string> seen;
  for (int i = 0; i < 10; ++i) {
    RuleT x = gen_rule_cond(r, r.p(90) ? r.pick(d.all).get() : nullptr, d);
    if (x.traits.empty() && x.pats.empty()) x.traits.push_back(gen_trait(r, r.pick(d.all).get()));
    compare_rules(lower_single(x), { x }, d, "the rule assembled through the API" + ctx, c);
    if (r.p(40)) {
      std::string t = render({ x }, r, 1);
      compare_rules(hext::ParseHext(t.data(), t.size()), { x }, d, "template " + esc(t) + ctx, c);
    }
    c.unit();
    std::size_t hit = 0;
    for (auto& n : d.all) hit += ref_matches(x, n.get());
    if (hit) c.count("rules_matching_a_node");
    if (hit && hit < d.all.size()) seen.insert(dump({ x }));
  }
  // every kind of trait on its own, on every node
  for (int k = 0; k <= int(Trait::Not); ++k) {
    Trait t;
    for (int i = 0; i < 200 && (i == 0 || t.kind != Trait::Kind(k)); ++i) t = gen_trait(r, r.pick(d.all).get());
    auto m = lower_trait(t);
    RuleT x;
    x.traits = { t };
    bool pos = positional(t);
    std::uint64_t yes = 0;
    for (auto& n : d.all) {
      if (pos && !(n->parent && n->parent->element())) continue;
      bool e = ref_trait(t, n.get());
      yes += e;
      VH_CHECK(m->matches(n->lib) == e, "trait " << dump({ x }) << " should " << (e ? "" : "not ") << "hold for node " << n->order << " <" << n->name << ">" << ctx);
    }
    c.count("trait_node_pairs", d.all.size());
    c.count("trait_matches", yes);
  }
  // value tests on arbitrary strings, and on a missing value
  for (int i = 0; i < 12; ++i) {
    std::string v = gen_text(r, true);
    v = v.substr(0, v.find('\0'));
    Test t = gen_test(r, r.p(80) ? &v : nullptr);
    auto m = lower_test(t);
    RuleT x;
    Pattern p;
    p.name = "a";
    p.test = t;
    x.pats.push_back(p);
    VH_CHECK(m->test(v.c_str()) == ref_test(t, v.c_str()), "value test " << dump({ x }) << " on \"" << esc(v) << "\" should " << (ref_test(t, v.c_str()) ? "" : "not ") << "hold");
    VH_CHECK(m->test(nullptr) == ref_test(t, nullptr), "value test " << dump({ x }) << " on a missing value");
    c.count("value_tests");
  }
  {   // words given one by one
    std::vector<std::string> w;
    int n = int(r.u(3));
    for (int i = 0; i <= n; ++i) w.push_back(r.of<const char*>({ "a", "b", "foo", "ab", "aa" }));
    std::string joined, s;
    for (auto& x : w) joined += (joined.empty() ? "" : " ") + x;
    int m = int(r.u(6));
    for (int i = 0; i < m; ++i) s += std::string(r.of<const char*>({ "a", "b", "foo", "ab", "aa", "aaa", "afoo", "foob", "" })) + r.of<const char*>({ " ", " ", "  ", "-" });
    Test t;
    t.kind = Test::Words;
    t.lit = joined;
    VH_CHECK(hext::ContainsWordsTest(w).test(s.c_str()) == ref_test(t, s.c_str()), "contains-words list '" << joined << "' on '" << s << "'");
    VH_CHECK(hext::ContainsWordsTest(joined).test(s.c_str()) == ref_test(t, s.c_str()), "contains-words '" << joined << "' on '" << s << "'");
  }
  c.count("nodes", d.all.size());
  for (auto& s : seen) c.nontrivial(s);
  if (!seen.empty()) c.sample(*seen.begin() + " on " + esc(html, 200));
}

// ----------------------------------------------------------------------- C06
static void c06(Rng& r, Ctx& c) {
  if (r.u(350) == 0) { extreme(r, c, "cl"); return; }
  std::string html = any_html(r, 3, 60);
  if (r.p(8)) {     // elements of every standard type, within and around others
    html = r.p(50) ? "<!DOCTYPE html>" : "";
    for (int i = r.in(1, 4); i > 0; --i) {
      std::string n = tag_name(tag_rows[r.u(sizeof tag_rows / sizeof *tag_rows)]), m = tag_name(tag_rows[r.u(sizeof tag_rows / sizeof *tag_rows)]);
      switch (r.u(6)) {
        case 0: html += "<div>a<" + n + " id=b>c</" + n + ">d <" + m + " href=x></" + m + "></div>"; break;
        case 1: html += "<p>a<b>x</b><" + n + ">y<" + m + ">z"; break;
        case 2: html += "<" + n + " class='q'><" + m + " id=1>t</" + m + "><i>u</i></" + n + ">"; break;
        case 3: html += "<svg><" + n + " id=b><" + m + "/>t</" + n + "></svg>"; break;
        case 4: html += "<math><" + n + ">x<" + m + " a=b></math>"; break;
        case 5: html += "<head><" + n + " a=b></head><table><colgroup><" + m + "><tr><td><" + n + ">w</table>"; break;
      }
    }
    c.count("documents_of_any_element_types");
  }
  const bool guard = r.p(30);
  Exact buf(html, guard, r.p(50), html_slack(html));
  hext::Html h(buf.data(), buf.size());
  RDoc d(h.root());
  if (d.all.size() > 2500) { c.count("skipped_large"); return; }
  const std::string ctx = "\n document " + esc(html);
  bool all = d.all.size() < 120;
  for (auto& n : d.all) {
    if (!all && !r.p(30)) continue;
    for (const char* b : { "text", "strip-tags", "inner-html" }) {
      std::string e = ref_builtin(b, n.get());
      std::string g = builtin_fn(b)(n->lib);
      VH_CHECK(e == g, "@" << b << " of node " << n->order << " <" << n->name << "> is\n " << esc(g) << "\n instead of\n " << esc(e) << ctx);
      hext::FunctionCapture fc(builtin_fn(b), "n");
      auto p = fc.capture(n->lib);
      VH_CHECK(p && p->first == "n" && p->second == e, "capture of @" << b << " of node " << n->order << " <" << n->name << ">" << ctx);
      c.unit();
      if (!e.empty()) c.nontrivial(std::string(b) + e);
      c.count("builtin_values");
    }
    std::vector<std::string> names = { "id", "class", "href" };
    for (auto& a : n->attrs) names.push_back(a.name);
    for (auto& nm : names) {
      auto* a = ref_attr(n.get(), nm);
      auto p = hext::AttributeCapture(nm, "v").capture(n->lib);
      VH_CHECK(bool(a) == bool(p), "attribute " << nm << " of node " << n->order << " <" << n->name << "> " << (a ? "is not captured" : "is captured, but missing") << ctx);
      c.unit();
      if (a) {
        VH_CHECK(p->first == "v" && p->second == a->value, "attribute " << nm << " of node " << n->order << " is captured as " << esc(p->second) << " instead of " << esc(a->value) << ctx);
        c.nontrivial("attr" + a->value);
        c.count("attribute_values");
      }
    }
  }
  // the same through templates and extraction
  static const hext::Rule all_values = hext::ParseHext("<* @text:t @strip-tags:s @inner-html:i id:a? class:b? href:c?/>");
  RuleT m;
  for (auto& x : { std::make_pair("text", "t"), std::make_pair("strip-tags", "s"), std::make_pair("inner-html", "i") }) {
    Pattern p;
    p.builtin = p.capture = true;
    p.name = x.first;
    p.var = x.second;
    m.pats.push_back(p);
  }
  for (auto& x : { std::make_pair("id", "a"), std::make_pair("class", "b"), std::make_pair("href", "c") }) {
    Pattern p;
    p.capture = p.optional = true;
    p.name = x.first;
    p.var = x.second;
    m.pats.push_back(p);
  }
  if (all) {
    std::string e = ref_extract_sig({ m }, d.root), g = extract_sig(all_values, d.root->lib);
    VH_CHECK(e == g, "values of all nodes extracted together are\n " << esc(g) << "\n instead of\n " << esc(e) << ctx);
    c.count("extractions");
  }
  c.count("nodes", d.all.size());
  c.sample(esc(html, 300));
}

// ----------------------------------------------------------------------- C07
static std::string gen_value(Rng& r) {
  unsigned k = unsigned(r.u(100));
  if (k < 5) return "";
  if (k < 60) return gen_text(r, true);
  if (k < 75) {
    std::string s;
    int n = int(r.u(30));
    for (int i = 0; i < n; ++i) s += char(r.u(256));
    return s;
  }
  if (k < 90) {
    std::string s;
    int n = int(r.u(12));
    for (int i = 0; i < n; ++i) s += r.of<const char*>({ " ", "\t", "\n", "\v", "\f", "\r", "a", "B", "z", "Z", "[", "@", "`", "{", "\xc3\x80", "\xe0", "\xdf", "1", "-", "x" });
    return s;
  }
  if (r.u(400) == 0) {   // long
    std::string s, u = r.of<const char*>({ "a", "foo ", "12-", " ", "A", "x y", "ab\n", "\xc3\xa9" });
    for (int i = big(r, 70000 / int(u.size())); i > 0; --i) s += u;
    return (r.p(50) ? " " : "") + s + (r.p(50) ? "  " : "");
  }
  if (k < 98) return std::string(std::size_t(r.u(5)), ' ') + gen_text(r, true) + std::string(1, '\0') + gen_text(r, true) + "  ";
  std::string s;
  int n = int(r.u(400));
  for (int i = 0; i < n; ++i) s += r.of<const char*>({ "foo ", "  ", "12-", "a", "\n" });
  return s;
}
static void c07(Rng& r, Ctx& c) {
  if (r.u(1200) == 0) { extreme(r, c, "p"); return; }
  std::vector<Pipe> ps;
  while (ps.empty()) ps = gen_pipes(r, r.p(5) ? 60 : 5);
  Pattern pat;
  pat.builtin = pat.capture = true;
  pat.name = "text";
  pat.var = "x";
  pat.pipes = ps;
  RuleT rt;
  rt.pats.push_back(pat);
  std::string text;
  try { text = render({ rt }, r, 1); } catch (const HarnessError&) { text.clear(); }
  auto chain = lower_pipes(ps);
  auto copy = chain->clone();
  c.max("longest_chain", ps.size());
  for (int i = 0; i < 6; ++i) {
    std::string v = gen_value(r);
    std::string e;
    if (ps.size() > 8) v = v.substr(0, 40);
    {   // doubling replacements explode in long chains
      std::string x = v;
      bool big = false;
      for (auto& p : ps) { x = ref_pipe1(p, std::move(x)); if (x.size() > 200000) { big = true; break; } }
      if (big) { c.count("skipped_large"); continue; }
      e = x;
    }
    auto check = [&](const std::string& g, const char* how) {
      VH_CHECK(g == e, "pipes " << dump({ rt }) << " (" << how << ") turn \"" << esc(v) << "\" into \"" << esc(g) << "\" instead of \"" << esc(e) << "\"");
    };
    check(chain->pipe(v), "chain");
    check(copy->pipe(v), "cloned chain");
    hext::Html h("<p>");
    hext::FunctionCapture fc([&v](const GumboNode*) { return v; }, "x", chain->clone());
    check(fc.capture(h.root())->second, "capture");
    if (!text.empty() && v.find('\0') == std::string::npos && v.find('"') == std::string::npos && v.find('&') == std::string::npos && v.find('\r') == std::string::npos) {
      // through a document: the attribute value as the HTML parser delivers it
      std::string html = "<p a=\"" + v + "\">";
      hext::Html dh(html.data(), html.size());
      RDoc d(dh.root());
      RuleT at = rt;
      at.tag = "p";
      at.pats[0].builtin = false;
      at.pats[0].name = "a";
      std::string t = render({ at }, r, 1);
      hext::Rule rule = hext::ParseHext(t.data(), t.size());
      std::string want = ref_extract_sig({ at }, d.root), got = extract_sig(rule, d.root->lib);
      VH_CHECK(want == got, "template " << esc(t) << " on " << esc(html) << " gives " << esc(got) << " instead of " << esc(want));
      c.count("through_documents");
    }
    if (ps.size() == 1) VH_CHECK(chain->transform(v) == e, "transform of " << dump({ rt }) << " on " << esc(v));
    c.count("values");
    c.count("pipes_applied", ps.size());
    c.unit();
    if (v != e) { c.count("values_changed"); c.nontrivial(dump({ rt }) + v); }
    if (v.find('\0') != std::string::npos) c.count("values_with_nul");
  }
  c.sample(dump({ rt }));
}

// ----------------------------------------------------------------------- C20
static Pattern user_pattern(Rng& r, int salt) {
  Pattern p;
  p.user = r.of({ Pattern::UserMatch, Pattern::UserMatch, Pattern::UserCapture, Pattern::UserCapture, Pattern::UserValue });
  p.salt = salt;
  p.density = unsigned(r.of({ 100, 90, 60, 30 }));
  if (p.user == Pattern::UserCapture) {
    p.capture = true;
    p.var = r.of<const char*>({ "x", "x", "y", "z" });
    if (r.p(30)) p.pipes = gen_pipes(r, 2);
  }
  return p;
}
static void add_user(Rng& r, List& l, int& salt) {
  for (auto& x : l) {
    if (r.p(50)) { x.traits.clear(); x.pats.clear(); if (r.p(70)) x.tag = "*"; }
    int n = int(r.u(3));
    for (int i = 0; i < n; ++i) x.pats.insert(x.pats.begin() + long(r.u(x.pats.size() + 1)), user_pattern(r, ++salt));
    add_user(r, x.kids, salt);
    for (auto& y : x.nested) add_user(r, y, salt);
  }
}
static void c20(Rng& r, Ctx& c) {
  std::string html = any_html(r, 3, 25);
  hext::Html h(html.data(), html.size());
  RDoc d(h.root());
  if (d.all.size() > 600) { c.count("skipped_large"); return; }
  const std::string ctx = "\n document " + esc(html);
  List l;
  int salt = 0;
  bool plain = r.p(35);
  if (plain) { l.push_back(RuleT()); if (r.p(30)) l[0].tag = r.of<const char*>({ "div", "span", "a", "x-foo" }); l[0].greedy = false; }
  else l = gen_list_for(r, d, r.in(1, 5));
  add_user(r, l, salt);
  bool have = false;
  for (auto& x : l) for (auto& p : x.pats) have = have || p.user == Pattern::UserCapture;
  if (!have) {
    Pattern p;
    p.user = Pattern::UserCapture;
    p.capture = true;
    p.salt = ++salt;
    p.var = "u";
    r.pick(l).pats.push_back(p);
  }
  hext::Rule rule = lower(l);
  if (r.p(30)) { hext::Rule copy(rule); rule = std::move(copy); }
  UserEnv env;
  env.doc = &d;
  struct Guard { ~Guard() { g_user = nullptr; } } guard;
  g_user = &env;

  // every node against every rule of the tree
  compare_rules(rule, l, d, "user-defined rule " + dump(l) + ctx, c);

  // extraction from the root or from some node on
  const RNode* start = r.p(40) ? d.root : r.pick(d.all).get();
  RefExtract e;
  e.max_steps = 60000;
  std::string want;
  try { want = ref_extract_sig(l, start, 0, &e); } catch (const TooExpensive&) { c.count("too_expensive"); return; }
  env.calls.clear();
  std::string got = extract_sig(rule, start->lib);
  VH_CHECK(env.stray.empty(), env.stray << " rule " << dump(l) << ctx);
  VH_CHECK(want == got, "extraction from node " << start->order << " with " << dump(l) << " gives\n " << esc(got) << "\n instead of\n " << esc(want) << ctx);
  if (start == d.root) {
    std::string viah;
    try { viah = show(rule.extract(h)); } catch (const std::runtime_error& x) { viah = std::string("!") + x.what(); }
    VH_CHECK(viah == got, "extraction from the document and from its root differ for " << dump(l) << ctx);
  }
  // only nodes of the searched part are shown to user functions
  auto inside = [&](const RNode* n) {
    for (const RNode* x = n; x; x = x->parent) if (x->parent == start->parent) return x->idx >= start->idx;
    return false;
  };
  std::vector<const RuleT*> ms;
  all_rules(l, ms);
  std::map<int, const RuleT*> cap_of, rule_of;
  for (auto* m : ms) for (auto& p : m->pats) {
    if (p.user == Pattern::UserCapture) cap_of[p.salt] = m;
    if (p.user) rule_of[p.salt] = m;
  }
  std::size_t visited = 0;
  for (auto& k : env.calls) {
    ++visited;
    VH_CHECK(inside(k.second), "user function " << k.first << " was called with node " << k.second->order << ", which is not in the part of the document to be searched (from node " << start->order << " on), rule " << dump(l) << ctx);
    auto of = rule_of.find(k.first);
    if (of != rule_of.end())
      VH_CHECK(ref_tag(of->second->tag, k.second), "user function " << k.first << " of the rule <" << of->second->tag << "> was called with node " << k.second->order << ", which is not of this type, rule " << dump(l) << ctx);
    auto it = cap_of.find(k.first);
    if (it != cap_of.end())
      VH_CHECK(ref_matches(*it->second, k.second), "capture function " << k.first << " was called with node " << k.second->order << ", which does not match its rule " << dump(l) << ctx);
  }
  // user functions that use the library themselves
  if (r.p(50)) {
    const std::string html2 = any_html(r, 2, 8);
    hext::Html h2(html2.data(), html2.size());
    RDoc d2(h2.root());
    List l2 = gen_list_for(r, d2, r.in(1, 3));
    hext::Rule rule2 = lower(l2);
    std::string text2;
    try { text2 = render(l2, r, 0); } catch (const HarnessError&) { text2 = "<a href:link/>"; }
    const std::string sig2 = extract_sig(rule2, d2.root->lib, 60), shape2 = structure(hext::ParseHext(text2.c_str()));
    const int every = r.in(1, 9);
    int calls = 0, runs = 0, cuts = 0;
    std::vector<const hext::Rule*> rs;
    std::vector<const RuleT*> own;
    all_rules(rule, rs);
    all_rules(l, own);
    env.hook = [&] {
      if (++calls % every || runs > 12) return;
      ++runs;
      switch (r.u(6)) {
        case 0: { std::string g = extract_sig(rule, start->lib); VH_CHECK(g == want, "extraction within a user function of the same extraction gives\n " << esc(g) << "\n instead of\n " << esc(want) << "\n rule " << dump(l) << ctx); break; }
        case 1: { std::string g = extract_sig(rule2, d2.root->lib, 60); VH_CHECK(g == sig2, "extraction within a user function gives\n " << esc(g) << "\n instead of\n " << esc(sig2) << "\n rule " << dump(l2) << "\n document " << esc(html2)); break; }
        case 2: { std::string g = structure(hext::ParseHext(text2.c_str())); VH_CHECK(g == shape2, "a template compiled within a user function differs: " << esc(text2)); break; }
        case 3: { hext::Rule copy(rule), other(rule2); VH_CHECK(structure(copy) == structure(rule), "a rule copied within a user function differs, rule " << dump(l) << ctx); other = std::move(copy); break; }
        case 4: try { rule.extract(start->lib, 1); VH_CHECK(false, "limit 1 is not observed within a user function, rule " << dump(l) << ctx); } catch (const hext::MaxSearchError&) { ++cuts; } break;
        default: {
          const std::size_t i = std::size_t(r.u(rs.size()));
          const RNode* n = r.pick(d.all).get();
          if (!comparable(*own[i], n)) break;
          VH_CHECK(rs[i]->matches(n->lib) == ref_matches(*own[i], n), "matching node " << n->order << " within a user function, rule " << dump({ *own[i] }) << ctx);
          std::string w = show_pairs(ref_capture(*own[i], n)), g = show_pairs(rs[i]->capture(n->lib));
          VH_CHECK(g == w, "captured " << esc(g) << " instead of " << esc(w) << " from node " << n->order << " within a user function, rule " << dump({ *own[i] }) << ctx);
        }
      }
    };
    std::string again = extract_sig(rule, start->lib);
    env.hook = nullptr;
    VH_CHECK(again == want, "extraction whose user functions use the library gives\n " << esc(again) << "\n instead of\n " << esc(want) << "\n rule " << dump(l) << ctx);
    if (runs) c.count("extractions_with_reentrant_calls");
    c.count("reentrant_calls", std::uint64_t(runs));
    c.count("reentrant_limit_errors", std::uint64_t(cuts));
  }
  if (plain) {
    // list of siblings by list of siblings, in document pre-order
    std::string naive;
    std::uint64_t groups = 0;
    std::function<void(const RNode*)> walk = [&](const RNode* n) {
      std::vector<const RNode*> list;
      if (n->parent) for (std::size_t i = std::size_t(n->idx); i < n->parent->kids.size(); ++i) list.push_back(n->parent->kids[i]);
      else list.push_back(n);
      for (auto* x : list) if (ref_matches(l[0], x)) {
        hext::ResultMap m;
        for (auto& p : ref_capture(l[0], x)) m.insert(p);
        if (!m.empty()) { naive += show({ m }); ++groups; }
      }
      for (auto* x : list) if (x->element() && !x->kids.empty()) walk(x->kids[0]);
    };
    // (contents of template elements are not searched)
    if (!l[0].opt && (!start->parent || start->parent->element())) {
      walk(start);
      VH_CHECK(naive == got, "plain rule " << dump(l) << " gives\n " << esc(got) << "\n visiting every node gives\n " << esc(naive) << ctx);
      c.count("plain_rules");
      c.count("plain_groups", groups);
    }
  }
  c.count("user_calls", visited);
  if (start != d.root) c.count("subtree_starts");
  if (!want.empty()) { c.count("nonempty_results"); c.nontrivial(dump(l) + html + std::to_string(start->order)); }
  c.sample(dump(l) + " from node " + std::to_string(start->order) + " of " + esc(html, 200));
}

extern const Prop kMatchProps[] = { { "C05", c05, true }, { "C06", c06, true }, { "C07", c07, true }, { "C20", c20, true } };
extern const int kMatchPropsN = 4;

} // namespace vh
