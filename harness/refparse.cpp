// An independent recogniser of the template language. It first determines how
// far the text is a prefix of some template (characters only), then replays the
// constructs in order to find the first construct that is wrong.
#include "core.h"

#include <array>
#include <locale>

namespace vh {
namespace {

bool is_alpha(char c) { return (c >= 'a' && c <= 'z') || (c >= 'A' && c <= 'Z'); }
bool is_digit(char c) { return c >= '0' && c <= '9'; }
bool is_alnum(char c) { return is_alpha(c) || is_digit(c); }
bool is_ws(char c) { return c == ' ' || (c >= '\t' && c <= '\r'); }

struct Stop {};                              // no template continues like this
struct Fail { RefParse::Kind kind; std::string text; std::size_t mark; bool at_end_of_input; };

struct Parser {
  std::string_view s;
  std::size_t p = 0;
  struct Event { std::size_t at; std::function<void()> run; };
  std::vector<Event> events;

  // ---------------------------------------------------------- construct state
  struct Frame { List done; std::vector<RuleT> open; };
  std::vector<Frame> frames = std::vector<Frame>(1);
  std::size_t at = 0;                        // trigger of the event being run

  RuleT& cur() { return frames.back().open.back(); }
  [[noreturn]] void fail(RefParse::Kind k, const std::string& t, std::size_t mark) { throw Fail{ k, t, mark, false }; }
  void close_rule() {
    auto& f = frames.back();
    RuleT r = std::move(f.open.back());
    f.open.pop_back();
    (f.open.empty() ? f.done : f.open.back().kids).push_back(std::move(r));
  }
  static std::string shown_tag(const std::string& t) {
    GumboTag g = t == "*" ? GUMBO_TAG_UNKNOWN : gumbo_tag_enum(t.c_str());
    return g == GUMBO_TAG_UNKNOWN ? t : std::string(gumbo_normalized_tagname(g));
  }
  int number(const std::string& n) {
    bool neg = false;
    std::size_t i = 0;
    if (i < n.size() && (n[i] == '-' || n[i] == '+')) neg = n[i++] == '-';
    std::uint64_t v = 0;
    const std::uint64_t max = 2147483647ULL + (neg ? 1 : 0);
    for (; i < n.size(); ++i) {
      v = v * 10 + std::uint64_t(n[i] - '0');
      if (v > max) fail(RefParse::BadNumber, "Number '" + n + "' is out of range ", 1);
    }
    return neg ? int(-std::int64_t(v)) : int(v);
  }
  void check_rx(const Rx& rx, std::size_t content_begin) {
    try { compile(rx); }
    catch (const boost::regex_error& e) {
      boost::regex_traits<char> t;
      rx_error = "\nError: " + t.error_string(e.code());
      fail(RefParse::BadRegex, "In regular expression ", at - content_begin + 1);
    }
  }
  std::string rx_error;

  // --------------------------------------------------------------- characters
  bool end() const { return p >= s.size(); }
  char c() const { if (end()) throw Stop{}; return s[p]; }
  bool peek(char x) const { return !end() && s[p] == x; }
  void need(char x) { if (c() != x) throw Stop{}; ++p; }
  void ev(std::function<void()> f) { events.push_back({ p, std::move(f) }); }
  void spaces() { while (!end() && is_ws(s[p])) ++p; }

  // reads exactly one of the words, stops at the first character that none has
  std::string word(std::vector<std::string> ws) {
    std::string got;
    for (;;) {
      std::vector<std::string> longer;
      bool complete = false;
      for (auto& w : ws) {
        if (w == got) complete = true;
        if (!end() && w.size() > got.size() && w.compare(0, got.size(), got) == 0 && w[got.size()] == s[p])
          longer.push_back(w);
      }
      if (longer.empty()) {
        if (complete) return got;
        throw Stop{};
      }
      got += s[p++];
      ws = longer;
    }
  }
  std::string name() {
    if (!is_alpha(c())) throw Stop{};
    std::size_t b = p;
    while (!end() && (is_alnum(s[p]) || s[p] == '-' || s[p] == '_')) ++p;
    return std::string(s.substr(b, p - b));
  }
  // after the opening quote; leaves p behind the closing one
  std::string until(char q) {
    std::size_t b = p;
    bool back = false;
    for (;; ++p) {
      char x = c();
      if (x == q && !back) break;
      back = x == '\\';
    }
    std::string v(s.substr(b, p - b));
    ++p;
    return v;
  }
  std::string quoted() {
    char q = c();
    if (q != '"' && q != '\'') throw Stop{};
    ++p;
    return until(q);
  }
  std::shared_ptr<Rx> regex() {
    char q = c();
    if (q != '/' && q != '"' && q != '\'') throw Stop{};
    ++p;
    std::size_t b = p;
    auto rx = std::make_shared<Rx>();
    rx->src = until(q);
    while (!end() && (s[p] == 'i' || s[p] == 'c')) {
      (s[p] == 'i' ? rx->i : rx->c) = true;
      ++p;
    }
    ev([this, rx, b] { check_rx(*rx, b); });
    return rx;
  }
  std::string digits(bool sign) {
    std::size_t b = p;
    if (sign && peek('-')) ++p;
    if (!is_digit(c())) throw Stop{};
    while (!end() && is_digit(s[p])) ++p;
    return std::string(s.substr(b, p - b));
  }

  // --------------------------------------------------------------- constructs
  using TraitP = std::shared_ptr<Trait>;
  void nth(TraitP t) {
    char x = c();
    if (x == 'e') { word({ "even" }); t->form = 1; t->a = 2; t->b = 0; }
    else if (x == 'o') { word({ "odd" }); t->form = 2; t->a = 2; t->b = 1; }
    else {
      std::string n = digits(true);
      ev([this, t, n] { t->form = 0; t->a = 0; t->b = number(n); });
      if (peek('n')) {
        ++p;
        ev([t] { t->form = 3; t->a = t->b; t->b = 0; });
        if (!end() && (s[p] == '+' || s[p] == '-')) {
          std::size_t b = p++;
          digits(false);
          std::string m(s.substr(b, p - b));
          ev([this, t, m] { t->form = 4; t->b = number(m); });
        }
      }
    }
  }
  // after the ':'
  TraitP trait(bool allow_not) {
    auto t = std::make_shared<Trait>();
    std::vector<std::string> ws = { "empty", "child-count(", "attribute-count(", "nth-child(", "nth-last-child(",
      "nth-of-type(", "nth-last-of-type(", "first-child", "first-of-type", "last-child", "last-of-type",
      "only-child", "only-of-type", "type-matches(" };
    if (allow_not) ws.push_back("not(");
    static const std::map<std::string, Trait::Kind> kinds = {
      { "empty", Trait::Empty }, { "child-count(", Trait::ChildCount }, { "attribute-count(", Trait::AttrCount },
      { "nth-child(", Trait::NthChild }, { "nth-last-child(", Trait::NthLastChild },
      { "nth-of-type(", Trait::NthOfType }, { "nth-last-of-type(", Trait::NthLastOfType },
      { "first-child", Trait::FirstChild }, { "first-of-type", Trait::FirstOfType },
      { "last-child", Trait::LastChild }, { "last-of-type", Trait::LastOfType },
      { "only-child", Trait::OnlyChild }, { "only-of-type", Trait::OnlyOfType },
      { "type-matches(", Trait::TypeMatches }, { "not(", Trait::Not } };
    t->kind = kinds.at(word(ws));
    switch (t->kind) {
      case Trait::ChildCount: case Trait::AttrCount: {
        std::string n = digits(false);
        ev([this, t, n] { t->a = number(n); });
        need(')');
        break;
      }
      case Trait::NthChild: case Trait::NthLastChild: case Trait::NthOfType: case Trait::NthLastOfType:
        nth(t); need(')'); break;
      case Trait::TypeMatches: {
        auto rx = regex();
        ev([t, rx] { t->rx = *rx; });
        need(')');
        break;
      }
      case Trait::Not:
        do {
          need(':');
          auto x = trait(false);
          ev([t, x] { t->inner.push_back(*x); });
        } while (c() == ':');
        need(')');
        break;
      default: break;
    }
    return t;
  }

  void pattern() {
    auto pt = std::make_shared<Pattern>();
    if (peek('@')) {
      ++p;
      pt->builtin = true;
      pt->name = word({ "text", "inner-html", "strip-tags" });
    } else
      pt->name = name();
    if (!end() && s[p] == ':') {
      pt->capture = true;
      capture(pt);
      if (!pt->builtin && peek('?')) { ++p; ev([pt] { pt->optional = true; }); }
    } else if (!end() && std::string_view("=^*$").find(s[p]) != std::string_view::npos) {
      std::string op = word({ "=", "==", "^=", "*=", "$=", "=~" });
      static const std::map<std::string, Test::Kind> kinds = { { "=", Test::Words }, { "==", Test::Equals },
        { "^=", Test::Begins }, { "*=", Test::Contains }, { "$=", Test::Ends }, { "=~", Test::Regex } };
      Test::Kind k = kinds.at(op);
      if (k == Test::Regex) {
        auto rx = regex();
        ev([pt, rx] { pt->test.kind = Test::Regex; pt->test.rx = *rx; });
      } else {
        pt->test.kind = k;
        pt->test.lit = quoted();
      }
      if (peek('!')) { ++p; pt->test.neg = true; }
    } else if (!pt->builtin) {
      if (peek('!')) { ++p; pt->test.neg = true; }
    } else
      throw Stop{};
    ev([this, pt] { cur().pats.push_back(*pt); });
  }

  void capture(std::shared_ptr<Pattern> pt) {
    for (;;) {
      need(':');
      std::size_t b = p;
      while (!end() && (is_alnum(s[p]) || s[p] == '-' || s[p] == '_' || s[p] == '.')) ++p;
      std::string w(s.substr(b, p - b));
      if (w.empty()) { pt->var = quoted(); return; }
      auto pipe = std::make_shared<Pipe>();
      bool simple = true;
      if (w == "trim") pipe->kind = Pipe::Trim;
      else if (w == "collapsews") pipe->kind = Pipe::Collapse;
      else if (w == "tolower") pipe->kind = Pipe::Lower;
      else if (w == "toupper") pipe->kind = Pipe::Upper;
      else simple = false;
      if (simple && peek(':')) {
        ev([pt, pipe] { pt->pipes.push_back(*pipe); });
        continue;
      }
      bool args = true;
      if (w == "trim") pipe->kind = Pipe::TrimSet;
      else if (w == "prepend") pipe->kind = Pipe::Prepend;
      else if (w == "append") pipe->kind = Pipe::Append;
      else if (w == "filter") pipe->kind = Pipe::Filter;
      else if (w == "replace") pipe->kind = Pipe::Replace;
      else args = false;
      if (!(args && peek('('))) { pt->var = w; return; }
      ++p;
      if (pipe->kind == Pipe::Filter || pipe->kind == Pipe::Replace) {
        auto rx = regex();
        ev([pipe, rx] { pipe->rx = *rx; });
        if (pipe->kind == Pipe::Replace) {
          spaces(); need(','); spaces();
          pipe->a = quoted();
        }
      } else
        pipe->a = quoted();
      need(')');
      ev([pt, pipe] { pt->pipes.push_back(*pipe); });
    }
  }

  void item() {
    char x = c();
    if (is_ws(x)) { ++p; return; }
    if (x == '#') {
      while (c() != '\n') ++p;
      ++p;
      return;
    }
    if (x == '{') {
      ++p;
      ev([this] {
        if (frames.back().open.empty()) fail(RefParse::NoParent, "Nested rules must have a parent ", 1);
        frames.emplace_back();
      });
      return;
    }
    if (x == '}') {
      ++p;
      ev([this] {
        auto& f = frames.back();
        if (!f.open.empty()) fail(RefParse::CloseWithoutOpen, "Closing nested rule without open ", 1);
        if (f.done.empty()) fail(RefParse::EmptyNested, "Nested rules cannot be empty ", 1);
        if (frames.size() == 1) fail(RefParse::CloseWithoutOpen, "Closing nested rule without open ", 1);
        List l = std::move(f.done);
        frames.pop_back();
        cur().nested.push_back(std::move(l));
      });
      return;
    }
    if (x != '<') throw Stop{};
    ++p;
    if (peek('/')) {
      ++p;
      std::string t;
      if (peek('*')) { ++p; t = "*"; } else t = name();
      ev([this, t] {
        if (frames.back().open.empty())
          fail(RefParse::StrayClose, "Unexpected closing tag '</" + t + ">' ", t.size() + 2);
        const std::string& want = cur().tag;
        GumboTag g = want == "*" ? GUMBO_TAG_UNKNOWN : gumbo_tag_enum(want.c_str());
        bool ok = g == GUMBO_TAG_UNKNOWN ? t == want : (t != "*" && gumbo_tag_enum(t.c_str()) == g);
        if (!ok)
          fail(RefParse::WrongClose, "Unexpected closing tag '</" + t + ">', expected '</" + shown_tag(want) + ">' ", t.size() + 2);
        close_rule();
      });
      need('>');
      return;
    }
    ev([this] { frames.back().open.emplace_back(); });
    while (!end() && (s[p] == '?' || s[p] == '+')) {
      bool q = s[p] == '?';
      ++p;
      ev([this, q] { (q ? cur().opt : cur().greedy) = true; });
    }
    std::string t;
    if (peek('*')) { ++p; t = "*"; } else t = name();
    ev([this, t] { cur().tag = shown_tag(t); });
    while (peek(':')) {
      ++p;
      auto tr = trait(true);
      ev([this, tr] { cur().traits.push_back(*tr); });
    }
    while (!end() && is_ws(s[p])) {
      spaces();
      if (end() || s[p] == '/' || s[p] == '>') break;
      pattern();
      if (!end() && !is_ws(s[p]) && s[p] != '/' && s[p] != '>') throw Stop{};
    }
    if (c() == '/') {
      ++p;
      need('>');
      ev([this] { close_rule(); });
    } else
      need('>');
  }

  bool scan() {       // true: the characters form a sentence
    try { while (!end()) item(); return true; }
    catch (const Stop&) { return false; }
  }
};

std::string char_name(char c) {
  switch (c) {
    case '\n': return "[newline]";
    case '\t': return "[tab]";
    case '\r': return "[carriage-return]";
    case ' ': return "[space]";
    case '\0': return "[nullbyte]";
    default: break;
  }
  if (c > 32 && c < 127) return std::string(1, c);
  return "[ascii: " + std::to_string(int(c)) + "]";
}

// uc: byte the message points at, or s.size() for the end of input
std::string location(std::string_view s, std::size_t uc, std::size_t mark) {
  std::size_t line = 1, col = 1;
  for (std::size_t i = 0; i < uc; ++i) {
    if (s[i] == '\n') { ++line; col = 1; }
    else ++col;
  }
  std::ostringstream o;
  o.imbue(std::locale::classic());
  if (uc == s.size()) o << "at end of input:\n\n";
  else o << "at line " << line << ", char " << col << ":\n\n";
  std::string num = std::to_string(line);
  std::size_t b = 0;
  for (std::size_t l = 1; l <= line; ++l) {
    std::size_t e = b;
    std::size_t last = (uc == s.size() || s[uc] == '\n') ? uc : uc + 1;
    while (e < last && s[e] != '\n') ++e;
    std::string n = std::to_string(l);
    o << std::string(num.size() - n.size(), ' ') << n << ": " << s.substr(b, e - b) << "\n";
    b = e + 1;
  }
  if (!mark) return o.str();
  for (char c : s) if ((unsigned char)c >= 128) return o.str();
  mark = std::min(mark, col);
  o << std::string(num.size() + 2 + col - mark, ' ') << std::string(mark, '^') << " here\n";
  return o.str();
}

} // namespace

RefParse ref_parse(std::string_view s) {
  Parser ps;
  ps.s = s;
  RefParse r;
  bool whole = ps.scan();
  std::size_t stop = whole ? s.size() : ps.p;
  try {
    for (auto& e : ps.events)
      if (e.at < stop || (whole && e.at == s.size())) { ps.at = e.at; e.run(); }
  } catch (const Fail& f) {
    r.kind = f.kind;
    r.pos = ps.at - 1;
    r.message = f.text + location(s, r.pos, f.mark) + ps.rx_error;
    return r;
  }
  if (!whole) {
    r.pos = stop;
    r.at_end = stop == s.size();
    r.kind = r.at_end ? RefParse::Premature : RefParse::Unexpected;
    r.message = (r.at_end ? std::string("Premature termination ")
                          : "Unexpected character '" + char_name(s[stop]) + "' ") + location(s, stop, 1);
    return r;
  }
  if (ps.frames.size() > 1) {
    r.kind = RefParse::Unclosed;
    r.pos = s.size() - 1;
    r.message = "Unclosed nested rule " + location(s, r.pos, 1);
    return r;
  }
  if (!ps.frames[0].open.empty()) {
    r.kind = RefParse::MissingClose;
    r.pos = s.size();
    r.at_end = true;
    r.message = "Missing closing tag '</" + ps.cur().tag + ">' " + location(s, r.pos, 0);
    return r;
  }
  r.ok = true;
  r.ast = std::move(ps.frames[0].done);
  return r;
}

const char* kind_name(RefParse::Kind k) {
  static const char* n[] = { "unexpected", "premature", "bad-number", "bad-regex", "wrong-close", "stray-close",
    "missing-close", "no-parent", "close-without-open", "empty-nested", "unclosed-nested" };
  return n[k];
}

} // namespace vh
