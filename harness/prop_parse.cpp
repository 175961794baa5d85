// C01 C02 C03 C04: the template compiler.
#include "core.h"

namespace vh {

// compiled outcome: behaviour, or the message
static std::string outcome(const char* p, std::size_t n, bool nul_form = false) {
  try {
    hext::Rule r = nul_form ? hext::ParseHext(p) : hext::ParseHext(p, n);
    try { return "ok:" + rule_sig(r); }
    catch (const std::runtime_error& e) { return std::string("ok-regex-limit:") + e.what() + structure(r); }
  } catch (const hext::SyntaxError& e) {
    return std::string("error:") + e.what();
  } catch (const std::exception& e) {
    VH_FAIL("compiling raised something other than a syntax error: " << e.what() << " for template " << esc(std::string_view(p, n)));
  } catch (...) {
    VH_FAIL("compiling raised a non-standard exception for template " << esc(std::string_view(p, n)));
  }
}

static std::string regex_soup(Rng& r) {
  static const std::vector<std::string> a = { "(", ")", "[", "]", "{", "}", "*", "+", "?", "|", "^", "$", "\\", ".", "a", "b", "1", ",", "-",
    "(?:", "(?=", "(?!", "(?<=", "(?<", "(?P<n>", "(?i)", "(?#", "(?1)", "(?R)", "(?>", "(?(1)", "\\1", "\\2", "\\k<n>", "\\b", "\\x{", "\\x41", "\\c", "\\Q", "\\E", "\\N{",
    "[[:alpha:]]", "[[:foo:]]", "[[.", "[[=a=]]", "[z-a]", "[^", "{2}", "{2,", "{,3}", "{3,2}", "{99999}", "{999999999999}", "*?", "+?", "++", "\\p{", "\\pL", "\\u", "\\l", "\\<", "\\`", "\xc3\xa9", "\xff", "\n",
    std::string(1, '\0'), "(*ACCEPT)", "(*FAIL)", "(?|", "\\G", "\\K", "\\X", "\\C", "\\R", "\\Z", "\\A" };
  std::string s;
  int n = 1 + int(r.u(8));
  for (int i = 0; i < n; ++i) s += r.pick(a);
  return s;
}
static std::string regex_template(Rng& r) {
  std::string rx = regex_soup(r);
  std::string q(1, r.of({ '/', '/', '"', '\'' }));
  std::string f = r.of<const char*>({ "", "", "i", "c", "ic", "ii" });
  std::string lit = q + rx + q + f;
  switch (r.u(5)) {
    case 0: return "<a b=~" + lit + "/>";
    case 1: return "<a @text=~" + lit + "!><b c:x/></a>";
    case 2: return "<a b:filter(" + lit + "):x />";
    case 3: return "<a:type-matches(" + lit + ")/>";
    default: return "<a @text:replace(" + lit + " , 'z'):trim:y\n />";
  }
}
static std::string number_template(Rng& r) {
  static const std::vector<std::string> n = { "0", "1", "2147483647", "2147483648", "2147483646", "-2147483648", "-2147483649", "00000000000001", "99999999999999999999999",
    "", "-", "-1", "-0", "4294967295", "4294967296", "9223372036854775808", "000000000000000000000000000000002147483648" };
  std::string a = r.pick(n), b = r.pick(n);
  std::string pos = a.size() > 1 && a[0] == '-' ? a.substr(1) : a;
  switch (r.u(4)) {
    case 0: return "<a:child-count(" + pos + ")/>";
    case 1: return "<a:attribute-count(" + pos + ") x/>";
    case 2: return std::string("<a:nth-") + r.of<const char*>({ "child", "last-child", "of-type", "last-of-type" }) + "(" + a + ") @text:x/>";
    default: return "<a:not(:nth-child(" + a + "n" + (b.size() && b[0] == '-' ? b : "+" + b) + "))/>";
  }
}
static std::string deep_template(Rng& r) {
  int n = int(r.u(r.p(5) ? 1200 : 80)) + 1;
  std::string s;
  unsigned k = unsigned(r.u(6));
  for (int i = 0; i < n; ++i) s += k == 0 ? "<a>" : k == 1 ? "<a>{" : k == 2 ? "<a/>" : k == 3 ? "<?+*>{<b x:y/>" : k == 4 ? "<a:not(:empty:empty) b c d:e>" : "\n<a>#\n";
  for (int i = 0; i < n; ++i) s += k == 0 ? "</a>" : k == 1 ? (i ? "}</a>" : "<b/>}</a>") : k == 2 ? "" : k == 3 ? "}</*>" : "</a>";
  if (r.p(30)) s = mutate_bytes(r, std::move(s), kTemplateDict);
  return s;
}
static std::string pieces(Rng&);
// one pair of delimiters with nothing, or something else, in between
static std::string without_argument(Rng& r, std::string t) {
  static const std::vector<std::pair<char, char>> d = { { '(', ')' }, { '(', ')' }, { '"', '"' }, { '\'', '\'' }, { '/', '/' }, { '<', '>' }, { '{', '}' } };
  for (int k = 0; k < 6; ++k) {
    auto p = r.pick(d);
    std::vector<std::size_t> at;
    for (std::size_t i = 0; i < t.size(); ++i) if (t[i] == p.first) at.push_back(i);
    if (at.empty()) continue;
    std::size_t b = r.pick(at) + 1, e = t.find(p.second, b);
    if (e == std::string::npos) continue;
    t.replace(b, e - b, r.of<const char*>({ "", "", "", " ", "0", "-", "+", "n", "a", "\\", "\n", ":", "()" }));
    break;
  }
  return t;
}
static std::string hostile(Rng& r) {
  unsigned k = unsigned(r.u(100));
  if (k < 8) return regex_template(r);
  if (k < 12) return number_template(r);
  if (k < 15) return deep_template(r);
  if (k < 18) return mutate_bytes(r, r.p(50) ? regex_template(r) : number_template(r), kTemplateDict);
  if (k < 22) return pieces(r);
  if (k < 27) return without_argument(r, r.p(50) ? pieces(r) : gen_template_bytes(r));
  if (k < 32) return r.pick(grid_templates(r, r.u(grid_states())));
  return gen_template_bytes(r);
}

// ----------------------------------------------------------------------- C01
static void c01(Rng& r, Ctx& c) {
  std::string t = hostile(r);
  std::string where;
  auto same = [&](const std::string& a, const std::string& b, const char* what) {
    VH_CHECK(a == b, "the outcome depends on " << what << ": template " << esc(t) << "\n first " << esc(a, 1500) << "\n then " << esc(b, 1500));
  };
  std::string first;
  {
    Exact e(t, false);
    first = outcome(e.data(), e.size());
  }
  { Exact e(t, true); same(first, outcome(e.data(), e.size()), "what follows the template (inaccessible page)"); }
  { Exact e(t, true, true); same(first, outcome(e.data(), e.size()), "what precedes the template (inaccessible page)"); }
  {
    static const std::vector<std::string> after = { "/>", ">", "\"/>", "'", "\n", "}", "</a>", "x", "\"", "i/>", "?", "!", "+1)/>", "0", std::string(1, '\0') };
    static const std::vector<std::string> before = { "\n\n", "<a>", "#", "\"", "\xff", "{" };
    std::string pre = r.pick(before), b = pre + t + r.pick(after);
    same(first, outcome(b.data() + pre.size(), t.size()), "the bytes around the template");
  }
  // other compilations, failing ones included, must leave nothing behind
  for (int i = int(r.u(3)); i >= 0; --i) {
    std::string o = r.p(50) ? "<a b=~/x(/ic" : hostile(r);
    try { hext::ParseHext(o.data(), o.size()); c.count("history_ok"); } catch (const hext::SyntaxError&) { c.count("history_errors"); }
  }
  { Exact e(t, false); same(first, outcome(e.data(), e.size()), "what was compiled before"); }
  if (t.find('\0') == std::string::npos) {
    std::string z = t;
    same(first, outcome(z.c_str(), t.size(), true), "the way the template is passed (NUL-terminated form)");
    c.count("nul_form");
  }
  bool ok = first.compare(0, 3, "ok:") == 0;
  c.count(ok ? "accepted" : "rejected");
  c.max("longest_template", t.size());
  if (!t.empty()) c.nontrivial(t);
  c.sample(esc(t, 300) + " -> " + esc(first, 120));
}

// ----------------------------------------------------------------------- C02
struct Seen { bool ok; std::string msg; bool at_end = false; long long pos = -1; };
static Seen compile_seen(const std::string& t) {
  Seen s{ false, "" };
  try { hext::ParseHext(t.data(), t.size()); s.ok = true; return s; }
  catch (const hext::SyntaxError& e) { s.msg = e.what(); }
  if (s.msg.find(" at end of input:\n") != std::string::npos && s.msg.find(" at line ") > s.msg.find(" at end of input:\n")) { s.at_end = true; s.pos = (long long)t.size(); return s; }
  auto p = s.msg.find(" at line ");
  unsigned long long line = 0, col = 0;
  if (p == std::string::npos || std::sscanf(s.msg.c_str() + p, " at line %llu, char %llu:", &line, &col) != 2) return s;
  std::size_t i = 0;
  for (unsigned long long l = 1; l < line; ++l) {
    i = t.find('\n', i);
    if (i == std::string::npos) return s;
    ++i;
  }
  s.pos = (long long)(i + col - 1);
  return s;
}

// valid templates with one small edit, where the boundary of the language lies
static std::string near_valid(Rng& r) {
  std::string t = r.p(25) ? r.pick(corpus_templates()) : render(gen_list_free(r, r.in(1, 5)), r, int(r.u(3)));
  if (t.empty()) return t;
  std::size_t at = std::size_t(r.u(t.size()));
  static const std::string special = "<>/?+*:{}#=~^$!@\"'\\,()-_.0n \n\ta";
  switch (r.u(6)) {
    case 0: break;
    case 1: t.erase(at, 1); break;
    case 2: t.insert(at, 1, r.pick(special)); break;
    case 3: t[at] = r.pick(special); break;
    case 4: t.resize(at); break;
    case 5: std::swap(t[at], t[std::size_t(r.u(t.size()))]); break;
  }
  return t;
}
// shuffled pieces of the grammar: exercises every order of constructs
static std::string pieces(Rng& r) {
  static const std::vector<std::string> open = { "<a", "<*", "<?b", "<+x-y", "<?+c", "<+?+c", "<a-", "<a_1", "<?", "<", "<1", "<-a" };
  static const std::vector<std::string> mid = { ":empty", ":first-child", ":nth-child(2n+1)", ":nth-child( 2)", ":nth-child(even)", ":nth-child(evn)", ":nth-child(+2)", ":nth-child(-2n-3)", ":nth-child(n)", ":nth-child(2n+)",
    ":not(:empty)", ":not()", ":not(:not(:empty))", ":not(:empty:only-child)", ":child-count(1)", ":child-count()", ":attribute-count()", ":nth-child()", ":nth-last-of-type()", ":type-matches()", ":type-matches(//)", ":child-count(-1)", ":attribute-count(2)", ":type-matches(/a/)", ":type-matches(a)", ":only-of-type", ":last-child", ":last", ":first", ":nth-last-of-type(odd)",
    " ", "\n", " a", " a!", " a!!", " a='x'", " a=\"x\"!", " a==''", " a^='b'", " a*=\"c\"", " a$='d'", " a~='d'", " a=~/x/i", " a=~/x/!", " a=~/x/ci!", " a=~x", " a=x", " a=", " a:b", " a:b?", " a:b??", " a:b!", " a:trim:b", " a:trim", " a:trim?", " a:trim!", " a:trim('x'):b",
    " a:trim('x')", " a:prepend(''):b", " a:prepend:b", " a:append(\"q\"):b", " a:filter(/x/):b", " a:filter:b", " a:replace(/x/,'y'):b", " a:replace(/x/ , \n'y'):b", " a:replace(/x/'y'):b", " a:tolower:toupper:collapsews:b", " a::b", " a:'n m'", " a:\"\"", " a:b.c-d_e", " a:b:c", " a :b", " a= 'x'", " a ='x'",
    " @text", " @text:x", " @text:x?", " @text!", " @text=='y'", " @text=~/y/", " @inner-html:x", " @strip-tags:x", " @texts:x", " @ text:x", " @html:x", " a-b_c", " -a", " 1a", " a\"b\"", " a='it\\'s'", " a=~/a\\/b/" };
  static const std::vector<std::string> close = { "/>", ">", "></a>", "></*>", "></b>", ">\n</a >", "></ a>", ">{<b/>}</a>", ">{}</a>", ">{<b/></a>", ">}</a>", "/ >", "//>", ">{<b/>}{<c/>}<d/></a>", ">#x\n</a>", ">x</a>", "></A>", ">#", "> # </a>" };
  std::string t;
  int n = 1 + int(r.u(2));
  for (int i = 0; i < n; ++i) {
    t += r.p(75) ? open[std::size_t(r.u(5))] : r.pick(open);
    int m = int(r.u(4));
    for (int k = 0; k < m; ++k) t += r.pick(mid);
    t += r.p(50) ? "/>" : r.pick(close);
  }
  return t;
}

// whether this case walks through the states of the language, and which
static bool grid_case(const Ctx& c, std::uint64_t& state) {
  if (c.idx % 11 != 5) return false;
  state = c.idx / 11;
  return true;
}
static void c02(Rng& r, Ctx& c) {
  std::uint64_t state;
  if (grid_case(c, state)) {
    for (auto& t : grid_templates(r, state)) {
      RefParse e = ref_parse(t);
      Seen s = compile_seen(t);
      VH_CHECK(s.ok == e.ok, (s.ok ? "accepted a text that is not a template" : "rejected a valid template") << ": " << esc(t)
        << (e.ok ? "\n says " : "\n expected ") << esc(e.ok ? s.msg : e.message, 800));
      if (!s.ok)
        VH_CHECK(s.pos == (long long)e.pos, "rejected at the wrong place: " << esc(t) << "\n expected byte " << e.pos << " (" << kind_name(e.kind) << "), reported byte " << s.pos << "\n " << esc(s.msg, 800));
      c.count(e.ok ? "grid_accepted" : "grid_rejected");
      if (t.size() > 2) c.nontrivial(t);
    }
    c.count("grid_states_visited");
    return;
  }
  unsigned k = unsigned(r.u(100));
  std::string t = k < 35 ? near_valid(r) : k < 62 ? pieces(r) : k < 66 ? without_argument(r, near_valid(r)) : k < 75 ? mutate_bytes(r, pieces(r), kTemplateDict) : hostile(r);
  RefParse e = ref_parse(t);
  Seen s = compile_seen(t);
  VH_CHECK(s.ok == e.ok, (s.ok ? "accepted a text that is not a template" : "rejected a valid template") << ": " << esc(t)
    << (e.ok ? "\n says " : "\n expected ") << esc(e.ok ? s.msg : e.message, 800));
  if (!s.ok)
    VH_CHECK(s.pos == (long long)e.pos, "rejected at the wrong place: " << esc(t) << "\n expected byte " << e.pos << " (" << kind_name(e.kind) << "), reported byte " << s.pos << "\n " << esc(s.msg, 800));
  c.count(e.ok ? "accepted" : "rejected");
  if (!e.ok) c.count((std::string("rejected_") + kind_name(e.kind)).c_str());
  if (t.size() > 2) c.nontrivial(t);
  c.sample(esc(t, 300) + " -> " + (e.ok ? "template" : kind_name(e.kind)));
  // every prefix of short texts
  if (t.size() < 120 && r.p(20)) {
    for (std::size_t n = 0; n <= t.size(); ++n) {
      std::string q = t.substr(0, n);
      RefParse qe = ref_parse(q);
      Seen qs = compile_seen(q);
      VH_CHECK(qs.ok == qe.ok && (qs.ok || qs.pos == (long long)qe.pos), "wrong verdict or place for the prefix " << esc(q) << "\n expected " << (qe.ok ? "accept" : esc(qe.message, 600)) << "\n got " << (qs.ok ? "accept" : esc(qs.msg, 600)));
      c.count("prefixes");
    }
  }
}

// ----------------------------------------------------------------------- C03
static bool positional(const Trait& t) {
  if (t.kind == Trait::Not) { for (auto& x : t.inner) if (positional(x)) return true; return false; }
  return t.kind >= Trait::NthChild && t.kind <= Trait::OnlyOfType;
}
bool comparable(const RuleT& m, const RNode* n) {
  if (n->parent && n->parent->element()) return true;
  for (auto& t : m.traits) if (positional(t)) return false;
  return true;
}

// own conditions and captures of every rule of the tree, on every node
void compare_rules(const hext::Rule& rule, const List& model, const RDoc& d, const std::string& what, Ctx& c) {
  std::vector<const hext::Rule*> rs;
  std::vector<const RuleT*> ms;
  static const RuleT any;
  all_rules(rule, rs);
  if (model.empty()) ms.push_back(&any);
  else all_rules(model, ms);
  VH_CHECK(rs.size() == ms.size(), "number of rules differs: " << what);
  for (std::size_t i = 0; i < rs.size(); ++i)
    for (auto& n : d.all) {
      if (!comparable(*ms[i], n.get())) continue;
      bool e = ref_matches(*ms[i], n.get()), g = rs[i]->matches(n->lib);
      c.count("rule_node_pairs");
      VH_CHECK(e == g, "rule " << dump({ *ms[i] }) << " should " << (e ? "" : "not ") << "match node " << n->order << " <" << n->name << "> of " << what);
      if (!e) continue;
      c.count("rule_node_matches");
      std::string ev = show_pairs(ref_capture(*ms[i], n.get())), gv = show_pairs(rs[i]->capture(n->lib));
      VH_CHECK(ev == gv, "rule " << dump({ *ms[i] }) << " captures\n " << esc(gv) << "\n instead of\n " << esc(ev) << "\n from node " << n->order << " of " << what);
    }
}

// templates that are large in one way
static void c03_extreme(Rng& r, Ctx& c) {
  Extreme x = gen_extreme(r, "cmtNnsodplrw", r.p(60));
  hext::Html h(x.html.data(), x.html.size());
  RDoc d(h.root());
  std::string want = ref_extract_sig(x.l, d.root);
  const bool all = count_rules(x.l) * d.all.size() < 20000;
  const std::string ctx = "\n template (" + std::string(1, x.kind) + ") " + dump(x.l).substr(0, 1500) + "\n document " + esc(x.html, 1500);
  auto check = [&](const hext::Rule& rule, const std::string& how) {
    VH_CHECK(structure(rule) == structure(x.l), how << " has another structure than it should have" << ctx);
    if (all) compare_rules(rule, x.l, d, how + ctx, c);
    std::string got = extract_sig(rule, d.root->lib);
    VH_CHECK(got == want, how << " extracts\n " << esc(got, 1500) << "\n instead of\n " << esc(want, 1500) << ctx);
  };
  for (int k = 0; k < 2; ++k) {
    std::string t = render(x.l, r, k);
    if (k && dump(ref_parse(t).ast) != dump(x.l)) throw HarnessError("render and ref_parse disagree on a large template: " + esc(t, 1000));
    try { check(hext::ParseHext(t.data(), t.size()), "template text " + esc(t, 1500)); }
    catch (const hext::SyntaxError& e) { VH_FAIL("valid template rejected: " << esc(t, 1500) << "\n " << esc(e.what(), 1500)); }
    c.max("longest_template", t.size());
  }
  check(lower(x.l), "the rule assembled through the API");
  c.count("large_templates");
  c.max("most_rules", count_rules(x.l));
  if (want.empty()) throw HarnessError(std::string("gen_extreme gives nothing for ") + x.kind + " " + dump(x.l).substr(0, 1000) + " on " + esc(x.html, 1000));
  c.count("nonempty_results");
  c.nontrivial(dump(x.l));
}

static void c03(Rng& r, Ctx& c) {
  std::uint64_t state;
  if (grid_case(c, state)) {
    for (auto& t : grid_templates(r, state)) {
      RefParse p = ref_parse(t);
      if (!p.ok) continue;
      std::string html = html_for(r, p.ast);
      hext::Html h(html.data(), html.size());
      RDoc d(h.root());
      const std::string ctx = "template text " + esc(t) + "\n document " + esc(html);
      RefExtract e;
      e.max_steps = 20000;
      std::string want;
      bool cheap = true;
      try { want = ref_extract_sig(p.ast, d.root, 0, &e); } catch (const TooExpensive&) { cheap = false; }
      try {
        hext::Rule rule = hext::ParseHext(t.data(), t.size());
        VH_CHECK(structure(rule) == structure(p.ast), ctx << "\n has structure " << structure(rule) << " instead of " << structure(p.ast));
        compare_rules(rule, p.ast, d, ctx, c);
        if (cheap) {
          std::string got = extract_sig(rule, d.root->lib);
          VH_CHECK(got == want, ctx << "\n extracts\n " << esc(got) << "\n instead of\n " << esc(want));
        }
      } catch (const hext::SyntaxError& x) { VH_FAIL("valid template rejected: " << esc(t) << "\n " << esc(x.what())); }
      c.count("grid_templates");
      if (!want.empty()) c.count("grid_nonempty_results");
      c.nontrivial(t);
    }
    c.count("grid_states_visited");
    return;
  }
  if (r.u(350) == 0) { c03_extreme(r, c); return; }
  std::string html = r.p(20) && !corpus_pairs().empty() ? r.pick(corpus_pairs()).second : gen_html(r, r.in(3, 25));
  if (html.size() > 6000) html.resize(6000);
  hext::Html h(html.data(), html.size());
  RDoc d(h.root());
  List model;
  unsigned k = unsigned(r.u(100));
  std::vector<std::string> texts;
  if (k < 50) model = gen_list_for(r, d, r.in(1, 7));
  else if (k < 80) model = gen_list_free(r, r.in(1, 7));
  else {
    // whatever text is accepted, in whatever form it is written
    RefParse p;
    for (int i = 0; i < 20 && !p.ok; ++i) { texts = { r.p(50) ? pieces(r) : gen_template_bytes(r) }; if (texts[0].size() < 800) p = ref_parse(texts[0]); }
    if (!p.ok) return;
    model = p.ast;
    c.count("from_text");
  }
  if (k < 80) {
    texts = { render(model, r, 0), render(model, r, 1), render(model, r, 2) };
    RefParse p = ref_parse(texts[2]);
    if (!p.ok || dump(p.ast) != dump(model)) throw HarnessError("render and ref_parse disagree: " + esc(texts[2]) + "\n" + esc(p.message) + "\n" + dump(model) + "\n" + dump(p.ast));
  }
  RefExtract e;
  e.max_steps = 100000;
  std::string want;
  bool cheap = true;
  try { want = ref_extract_sig(model, d.root, 0, &e); } catch (const TooExpensive&) { cheap = false; c.count("too_expensive"); }
  std::string ctx = "\n template " + dump(model) + "\n document " + esc(html);
  auto check = [&](const hext::Rule& rule, const std::string& how) {
    VH_CHECK(structure(rule) == structure(model), how << " has structure " << structure(rule) << " instead of " << structure(model) << ctx);
    compare_rules(rule, model, d, how + ctx, c);
    if (cheap) {
      std::string got = extract_sig(rule, d.root->lib);
      VH_CHECK(got == want, how << " extracts\n " << esc(got) << "\n instead of\n " << esc(want) << ctx);
    }
  };
  for (auto& t : texts) {
    try { check(hext::ParseHext(t.data(), t.size()), "template text " + esc(t)); }
    catch (const hext::SyntaxError& x) { VH_FAIL("valid template rejected: " << esc(t) << "\n " << esc(x.what())); }
    c.count("layouts");
  }
  check(lower(model), "the rule assembled through the API");
  c.count("rules", count_rules(model));
  if (!want.empty()) c.count("nonempty_results");
  if (count_rules(model) > 0) c.nontrivial(dump(model));
  c.sample(texts.back());
}

// ----------------------------------------------------------------------- C04
static void c04(Rng& r, Ctx& c) {
  std::uint64_t state;
  if (grid_case(c, state)) {
    for (auto& t : grid_templates(r, state)) {
      RefParse e = ref_parse(t);
      if (e.ok) continue;
      std::string got;
      try { hext::ParseHext(t.data(), t.size()); VH_FAIL("invalid template accepted: " << esc(t) << "\n expected " << esc(e.message, 800)); }
      catch (const hext::SyntaxError& x) { got = x.what(); }
      std::string want = e.message.substr(0, e.message.find('\0'));
      VH_CHECK(got == want, "wrong error message for " << esc(t) << "\n expected:\n" << esc(want, 2500) << "\n got:\n" << esc(got, 2500));
      c.count("grid_messages");
      c.nontrivial(t);
    }
    c.count("grid_states_visited");
    return;
  }
  std::string t;
  RefParse e;
  for (int i = 0; i < 40; ++i) {
    unsigned k = unsigned(r.u(100));
    t = k < 30 ? near_valid(r) : k < 55 ? pieces(r) : k < 70 ? hostile(r) : k < 85 ? regex_template(r) : mutate_bytes(r, near_valid(r), kTemplateDict);
    // spread over lines, so that line and column matter
    if (r.p(70)) {
      std::string pre;
      int lines = r.p(80) ? int(r.u(14)) : r.u(70) ? int(r.u(1100)) : r.of({ 9990, 10000, 10050, 65540, 99998, 100003 });
      for (int l = 0; l < lines; ++l) {
        if (r.p(40)) pre += r.of<const char*>({ "", " ", "<a/>", "  \t", "# comment", "<b x:y/>", "\r" });
        if (!pre.empty() && pre.back() != '\n' && pre.find('#') != std::string::npos && r.p(0)) pre += "\n";
        pre += "\n";
      }
      if (r.u(60) == 0) pre += r.p(50) ? std::string(std::size_t(big(r, 70000)), ' ') : "# " + std::string(std::size_t(big(r, 70000)), 'c') + "\n";
      t = pre + r.of<const char*>({ "", "  ", "<x/>\t", "<long-tag-name attribute=\"value\"/> " }) + t;
      if (r.p(30)) t += r.of<const char*>({ "\n", "\n\n<a/>\n", "\r\n", "  ", "\n#" });
      if (r.p(10)) t += r.of<const char*>({ "\xc3\xa9", "\x80", "# \xc3\xa9\n" });
    }
    if (r.p(25)) { for (auto& x : t) if (x == ' ' && r.p(30)) x = r.of({ '\n', '\t', '\r', '\v' }); }
    e = ref_parse(t);
    if (!e.ok) break;
  }
  if (e.ok) { c.count("no_invalid_text_found"); return; }
  std::string got;
  try { hext::ParseHext(t.data(), t.size()); VH_FAIL("invalid template accepted: " << esc(t) << "\n expected " << esc(e.message, 800)); }
  catch (const hext::SyntaxError& x) { got = x.what(); }
  // what() ends at the first NUL of the message; the quoted lines may hold one
  std::string want = e.message.substr(0, e.message.find('\0'));
  VH_CHECK(got == want, "wrong error message for " << esc(t) << "\n expected:\n" << esc(want, 2500) << "\n got:\n" << esc(got, 2500));
  c.count(kind_name(e.kind));
  std::size_t lines = std::size_t(std::count(t.begin(), t.begin() + long(std::min(e.pos, t.size())), '\n'));
  c.max("max_line", lines + 1);
  if (lines >= 9) c.count("line_10_or_later");
  if (lines >= 99) c.count("line_100_or_later");
  if (got.find("^ here") != std::string::npos) c.count("with_caret");
  c.nontrivial(t);
  c.sample(esc(t, 200) + " -> " + esc(got, 200));
}

extern const Prop kParseProps[] = { { "C01", c01, true }, { "C02", c02, false }, { "C03", c03, false }, { "C04", c04, false } };
extern const int kParsePropsN = 4;

} // namespace vh
