// Shared declarations of the verification harness.
#pragma once

#include "hext/Hext.h"

#include <boost/regex.hpp>
#include <gumbo.h>

#include <algorithm>
#include <cctype>
#include <cstdint>
#include <cstdio>
#include <cstring>
#include <functional>
#include <map>
#include <memory>
#include <optional>
#include <set>
#include <sstream>
#include <stdexcept>
#include <string>
#include <string_view>
#include <unordered_map>
#include <unordered_set>
#include <utility>
#include <vector>

namespace vh {

// ---------------------------------------------------------------- randomness
struct Rng {
  std::uint64_t s;
  explicit Rng(std::uint64_t seed) : s(seed) { next(); next(); }
  std::uint64_t next() {
    std::uint64_t z = (s += 0x9e3779b97f4a7c15ULL);
    z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ULL;
    z = (z ^ (z >> 27)) * 0x94d049bb133111ebULL;
    return z ^ (z >> 31);
  }
  std::uint64_t u(std::uint64_t n) { return n ? next() % n : 0; }        // [0,n)
  int in(int lo, int hi) { return lo + int(u(std::uint64_t(hi - lo + 1))); }
  bool p(unsigned percent) { return u(100) < percent; }
  template <class C> auto& pick(C& c) { return c[std::size_t(u(c.size()))]; }
  template <class C> const auto& pick(const C& c) { return c[std::size_t(u(c.size()))]; }
  template <class T> T of(std::initializer_list<T> l) { return *(l.begin() + u(l.size())); }
};

inline std::uint64_t fnv(std::string_view s, std::uint64_t h = 1469598103934665603ULL) {
  for (unsigned char c : s) { h ^= c; h *= 1099511628211ULL; }
  return h;
}

// ---------------------------------------------------------------- violations
struct Violation : std::runtime_error { using std::runtime_error::runtime_error; };
// an internal inconsistency of the harness itself (never a verdict on hext)
struct HarnessError : std::logic_error { using std::logic_error::logic_error; };

#define VH_FAIL(stream_expr)                                                   \
  do { std::ostringstream vh_os_; vh_os_ << stream_expr;                       \
       throw vh::Violation(vh_os_.str()); } while (0)
#define VH_CHECK(cond, stream_expr) do { if (!(cond)) VH_FAIL(stream_expr); } while (0)

std::string esc(std::string_view s, std::size_t max = 4000);

// ------------------------------------------------------------ template model
struct Rx {
  std::string src;
  bool i = false, c = false;
};
boost::regex compile(const Rx&);

struct Trait {
  enum Kind { Empty, ChildCount, AttrCount, NthChild, NthLastChild, NthOfType,
              NthLastOfType, FirstChild, FirstOfType, LastChild, LastOfType,
              OnlyChild, OnlyOfType, TypeMatches, Not } kind = Empty;
  int a = 0, b = 0;      // nth: step, shift; counts: a
  int form = 0;          // nth: 0 number, 1 even, 2 odd, 3 "an", 4 "an+b"
  Rx rx;
  std::vector<Trait> inner;
};

struct Test {
  enum Kind { None, Words, Equals, Begins, Contains, Ends, Regex } kind = None;
  std::string lit;
  Rx rx;
  bool neg = false;
};

struct Pipe {
  enum Kind { Trim, TrimSet, Collapse, Lower, Upper, Prepend, Append, Filter, Replace } kind = Trim;
  std::string a;
  Rx rx;
};

struct Pattern {
  bool builtin = false;
  std::string name;        // attribute name, or text|inner-html|strip-tags
  bool capture = false;
  Test test;               // !capture
  std::vector<Pipe> pipes; // capture
  std::string var;         // capture
  bool optional = false;   // capture of an attribute
  // user-supplied function, deciding by a hash of salt and node
  enum User { NoUser, UserMatch, UserCapture, UserValue } user = NoUser;
  int salt = 0;
  unsigned density = 50;
};

struct RuleT;
using List = std::vector<RuleT>;
struct RuleT {
  bool opt = false, greedy = false;
  std::string tag = "*";
  std::string kept_name;      // name set besides a tag that is not custom
  std::vector<Trait> traits;
  std::vector<Pattern> pats;
  List kids;
  std::vector<List> nested;
};

std::size_t count_rules(const List&);
bool has_capture(const List&);
std::string dump(const List&);           // canonical text of the model
std::string render(const List&, Rng&, int fancy);  // template text, random layout
bool renderable_literal(const std::string&, bool allow_empty = true);

// builds the rule tree with the public API only
hext::Rule lower(const List&);
std::unique_ptr<hext::Match> lower_trait(const Trait&);
std::unique_ptr<hext::ValueTest> lower_test(const Test&);
std::unique_ptr<hext::StringPipe> lower_pipe(const Pipe&);
std::unique_ptr<hext::StringPipe> lower_pipes(const std::vector<Pipe>&);
hext::Rule lower_single(const RuleT&);   // own conditions and captures only
const hext::CaptureFunction& builtin_fn(const std::string& name);

// ------------------------------------------------------------ document model
struct RAttr { std::string name, value; int ns; };
struct RNode {
  GumboNodeType type;
  GumboTag tag = GUMBO_TAG_UNKNOWN;   // element, template
  std::string name;                   // normalized name, or the original custom name
  std::vector<RAttr> attrs;
  std::string text;
  std::vector<RNode*> kids;
  RNode* parent = nullptr;            // null for the root
  int idx = 0;
  int order = 0;
  const GumboNode* lib = nullptr;
  bool element() const { return type == GUMBO_NODE_ELEMENT; }
};
struct RDoc {
  std::vector<std::unique_ptr<RNode>> all;
  RNode* root = nullptr;
  std::unordered_map<const GumboNode*, RNode*> by_lib;
  explicit RDoc(const GumboNode* root);
  std::string dump() const;
};

// ----------------------------------------------------- reference semantics
bool ref_trait(const Trait&, const RNode*);
bool ref_test(const Test&, const char* subject);
std::string ref_builtin(const std::string& name, const RNode*);
std::string ref_text(const RNode*);
std::string ref_strip(const RNode*);
std::string ref_inner(const RNode*);
std::string ref_pipe1(const Pipe&, std::string);
std::string ref_pipes(const std::vector<Pipe>&, std::string);
bool ref_tag(const std::string& tag, const RNode*);
bool ref_pattern_matches(const Pattern&, const RNode*);
bool ref_matches(const RuleT&, const RNode*);
std::vector<hext::ResultPair> ref_capture(const RuleT&, const RNode*);
const RAttr* ref_attr(const RNode*, const std::string& name);

struct LimitReached {};
struct TooExpensive {};
using Group = std::vector<hext::ResultPair>;     // in capture order
struct RefExtract {
  std::uint64_t limit = 0;      // as max_searches
  std::uint64_t searches = 0;   // sibling lists searched
  std::uint64_t steps = 0;      // node/rule comparisons
  std::uint64_t max_steps = 0;  // 0: unlimited; else throws TooExpensive
  bool rematched = false;       // some search was made whose result is discarded
  using Match = std::pair<const RuleT*, const RNode*>;
  std::vector<std::vector<Match>> groups;
  hext::Result run(const List&, const RNode* start);
private:
  void search_into(const List&, const RNode* node, std::vector<std::vector<Match>>&);
  const RNode* group(const List&, const RNode* node, std::vector<Match>&);
  const RNode* range(const List&, std::size_t r, std::size_t rend, const RNode* n,
                     const RNode* nend, std::vector<Match>&);
  const RNode* once(const RuleT&, const RNode* n, const RNode* nend, std::vector<Match>&);
  bool deep(const RuleT&, const RNode*, std::vector<Match>&);
};

// ------------------------------------------------- reference template parser
struct RefParse {
  bool ok = false;
  List ast;                 // if ok (empty: no rules)
  std::string message;      // if !ok: the full expected message
  std::size_t pos = 0;      // byte offset of the error, or size for end of input
  bool at_end = false;
  enum Kind { Unexpected, Premature, BadNumber, BadRegex, WrongClose, StrayClose,
              MissingClose, NoParent, CloseWithoutOpen, EmptyNested, Unclosed } kind = Unexpected;
};
RefParse ref_parse(std::string_view);
const char* kind_name(RefParse::Kind);

// ---------------------------------------------------------------- generators
extern const std::vector<std::string> kTags;
int big(Rng&, int cap);     // sizes around the usual thresholds, from 7 up to cap
std::string gen_scaled(Rng&, int cap);   // a document that is large in one way
std::string gen_html(Rng&, int size, bool wild = false);
std::string gen_text(Rng&, bool raw = false);
std::string mutate_bytes(Rng&, std::string, const std::vector<std::string>& dict);
extern const std::vector<std::string> kTemplateDict, kHtmlDict;
List gen_list_for(Rng&, const RDoc&, int budget);         // guided by the document
List gen_list_free(Rng&, int budget);                     // unguided, full language
RuleT gen_rule_cond(Rng&, const RNode*, const RDoc&);     // conditions for a node
Trait gen_trait(Rng&, const RNode*, int depth = 0);
Test gen_test(Rng&, const std::string* value);
struct Extreme { char kind = 0; List l; std::string html; };
Extreme gen_extreme(Rng&, const char* kinds, bool small);
std::vector<Pipe> gen_pipes(Rng&, int max);
Pattern gen_pattern(Rng&, const RNode*);
Rx gen_rx(Rng&, const std::string* value);
std::string gen_template_bytes(Rng&);                     // hostile template text
// templates that visit the k-th state of the language with every kind of byte
std::vector<std::string> grid_templates(Rng&, std::uint64_t k);
std::size_t grid_states();
std::string html_for(Rng&, const List&, int depth = 0);   // nodes that nearly match
std::string gen_html_bytes(Rng&);                         // hostile HTML
void load_corpus(const std::string& dir);
const std::vector<std::string>& corpus_templates();
const std::vector<std::pair<std::string, std::string>>& corpus_pairs();   // template, html

// ------------------------------------------------------- user-supplied parts
struct UserError : std::runtime_error {
  std::uint64_t k;
  explicit UserError(std::uint64_t n) : std::runtime_error("user error " + std::to_string(n)), k(n) {}
};
struct UserEnv {
  const RDoc* doc = nullptr;
  std::vector<std::pair<int, const RNode*>> calls;
  std::string stray;                  // a call with something else than a node of the document
  std::uint64_t count = 0, fail_at = 0;
  void tick() { if (++count == fail_at) throw UserError(count); }
  std::function<void()> hook;         // called from within user functions
  bool inside = false;
  void run_hook() {
    if (!hook || inside) return;
    inside = true;
    struct Out { bool& b; ~Out() { b = false; } } out{ inside };
    hook();
  }
};
extern UserEnv* g_user;
bool user_bit(int salt, const std::string& what, unsigned density);
std::string user_value(int salt, const RNode*);
hext::MatchFunction user_match(int salt, unsigned density);
hext::CaptureFunction user_capture(int salt);
std::unique_ptr<hext::ValueTest> user_test(int salt, unsigned density);

// own conditions and captures of every rule of the tree, on every node
bool comparable(const RuleT&, const RNode*);
struct Ctx;
void compare_rules(const hext::Rule&, const List&, const RDoc&, const std::string& what, Ctx&);

// --------------------------------------------------------------- observation
std::string show(const hext::Result&);
std::string show_pairs(const std::vector<hext::ResultPair>&);
std::string structure(const hext::Rule&);
std::string structure(const List&);
void all_rules(const hext::Rule&, std::vector<const hext::Rule*>&);
void all_rules(const List&, std::vector<const RuleT*>&);
// result of extraction or "!<exception>"
std::string extract_sig(const hext::Rule&, const GumboNode*, std::uint64_t limit = 0);
std::string ref_extract_sig(const List&, const RNode*, std::uint64_t limit = 0, RefExtract* = nullptr);
std::string rule_sig(const hext::Rule&);   // behaviour over fixed documents
std::size_t live_bytes();                  // allocated bytes (sanitizer builds), else 0

// bytes in an exactly sized heap block, or between inaccessible pages
class Exact {
public:
  // slack: readable bytes after the end, in the guarded form
  Exact(std::string_view, bool guard_pages, bool at_start = false, std::size_t slack = 0);
  ~Exact();
  const char* data() const { return p_; }
  std::size_t size() const { return n_; }
private:
  Exact(const Exact&) = delete;
  char *base_, *p_;
  std::size_t n_, map_;
};

// 1 if a document ends within a named character reference: gumbo then looks at
// the byte after the document (a known finding; probes.py checks it on its own)
std::size_t html_slack(std::string_view);
int edge_main(const std::string& hex, bool guard);

// ---------------------------------------------------------------------- run
struct Ctx {
  std::string prop, tier;
  std::uint64_t seed = 1, idx = 0;
  bool quiet = false;   // set while a case is repeated for leak accounting
  std::uint64_t evaluations = 0;
  std::uint64_t units = 0;   // where one case makes several evaluations
  void unit() { if (!quiet) ++units; }
  std::map<std::string, std::uint64_t> n;
  std::unordered_set<std::uint64_t> distinct;
  std::vector<std::string> samples;
  void count(const char* k, std::uint64_t by = 1) { if (!quiet) n[k] += by; }
  void max(const char* k, std::uint64_t v) { if (!quiet && n[k] < v) n[k] = v; }
  void nontrivial(std::string_view key) { if (!quiet) distinct.insert(fnv(key)); }
  void sample(const std::string& s) { if (!quiet && samples.size() < 3) samples.push_back(s); }
};

using CaseFn = void (*)(Rng&, Ctx&);
struct Prop { const char* id; CaseFn fn; bool leak_repeat; };
const std::vector<Prop>& props();

} // namespace vh
