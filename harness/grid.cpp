// Templates chosen so that every state of the language's automaton is visited
// with every kind of byte. What they mean is for refparse to say.
#include "core.h"
#include <algorithm>
#include <cctype>
#include <cstring>
#include <deque>

namespace vh {

#include "grid.inc"

namespace {
struct Reach {
  std::vector<std::vector<unsigned>> in;   // predecessors
  std::vector<unsigned> from_start;        // states that can be reached
  std::vector<unsigned> to_final;          // steps to an accepting state
  std::vector<unsigned> steps_to(const std::vector<unsigned>& goals) const {
    std::vector<unsigned> d(kGridStates, ~0u);
    std::deque<unsigned> q;
    for (unsigned g : goals) { d[g] = 0; q.push_back(g); }
    while (!q.empty()) {
      unsigned s = q.front();
      q.pop_front();
      for (unsigned p : in[s]) if (d[p] == ~0u) { d[p] = d[s] + 1; q.push_back(p); }
    }
    return d;
  }
  Reach() : in(kGridStates) {
    for (int s = 1; s < kGridStates; ++s)
      for (int e = kGridOff[s]; e < kGridOff[s + 1]; ++e)
        if (unsigned t = kGridEdges[e].to) if (in[t].empty() || in[t].back() != unsigned(s)) in[t].push_back(unsigned(s));
    std::vector<bool> seen(kGridStates, false);
    std::deque<unsigned> q{ unsigned(kGridStart) };
    seen[kGridStart] = true;
    while (!q.empty()) {
      unsigned s = q.front();
      q.pop_front();
      from_start.push_back(s);
      for (int e = kGridOff[s]; e < kGridOff[s + 1]; ++e)
        if (unsigned t = kGridEdges[e].to) if (!seen[t]) { seen[t] = true; q.push_back(t); }
    }
    std::vector<unsigned> fin;
    for (int s = kGridFinal; s < kGridStates; ++s) fin.push_back(unsigned(s));
    to_final = steps_to(fin);
  }
};
const Reach& reach() { static const Reach r; return r; }

unsigned char byte_in(Rng& r, const GridEdge& e) {
  if (e.lo <= 'a' && 'a' <= e.hi && r.p(60)) return 'a';
  if (e.lo <= '2' && '2' <= e.hi && r.p(60)) return r.p(70) ? '2' : '1';
  if (e.lo <= ' ' && ' ' <= e.hi && r.p(40)) return ' ';
  if (e.hi - e.lo > 40 && r.p(70)) return (unsigned char)r.in(std::max<int>(e.lo, 32), std::max<int>(32, std::min<int>(e.hi, 126)));
  return (unsigned char)r.in(e.lo, e.hi);
}
// a walk from one state to a state with distance 0
void walk(Rng& r, std::string& t, unsigned s, const std::vector<unsigned>& d, int detours) {
  std::vector<const GridEdge*> good, any;
  for (int n = 0; d[s] && n < 300; ++n) {
    good.clear();
    any.clear();
    const GridEdge* slash = nullptr;
    for (int e = kGridOff[s]; e < kGridOff[s + 1]; ++e) {
      const GridEdge& g = kGridEdges[e];
      if (!g.to || d[g.to] == ~0u) continue;
      any.push_back(&g);
      if (d[g.to] < d[s]) good.push_back(&g);
      if (g.lo == '/' && g.hi == '/') slash = &g;
    }
    if (any.empty()) return;
    const GridEdge* g;
    if (detours > 0 && r.p(25)) { g = r.pick(any); --detours; }
    else if (!good.empty()) {
      g = r.pick(good);
      if (g->lo == '>' && (t.empty() || t.back() != '/') && slash && r.p(60)) g = slash;
    } else g = r.pick(any);
    t += char(byte_in(r, *g));
    s = g->to;
  }
}
}

std::size_t grid_states() { return reach().from_start.size(); }

std::vector<std::string> grid_templates(Rng& r, std::uint64_t k) {
  const Reach& a = reach();
  const unsigned s = a.from_start[k % a.from_start.size()];
  const std::vector<unsigned> d = a.steps_to({ s });
  std::vector<int> bytes;
  for (int e = kGridOff[s]; e < kGridOff[s + 1]; ++e) {
    const GridEdge& g = kGridEdges[e];
    bytes.push_back(g.lo);
    if (g.hi != g.lo) bytes.push_back(g.hi);
    if (g.hi - g.lo > 1) bytes.push_back(byte_in(r, g));
  }
  bytes.push_back(-1);   // the end of the input
  for (int i = 0; i < 3; ++i) bytes.push_back(int(r.u(256)));
  std::sort(bytes.begin(), bytes.end());
  bytes.erase(std::unique(bytes.begin(), bytes.end()), bytes.end());
  std::vector<std::string> out;
  for (int b : bytes) {
    std::string t;
    walk(r, t, unsigned(kGridStart), d, int(r.u(4)));
    if (t.find("</") != std::string::npos || (b == '/' && !t.empty() && t.back() == '<')) if (r.p(80)) t = "<a>" + t;
    if (b >= 0) {
      t += char(b);
      unsigned n = 0;
      for (int e = kGridOff[s]; e < kGridOff[s + 1]; ++e) if (kGridEdges[e].lo <= b && b <= kGridEdges[e].hi) n = kGridEdges[e].to;
      if (n) walk(r, t, n, a.to_final, int(r.u(3)));
      else if (r.p(50)) t += r.of<const char*>({ "/>", ">", "", "\n", "a", "'/>" });
      // close what is open
      for (int i = 0; i < 3; ++i) {
        RefParse p = ref_parse(t);
        if (p.ok || p.pos < t.size()) break;
        std::string u = t + r.of<const char*>({ "</a>", "</a>", "}", "}</a>" });
        RefParse q = ref_parse(u);
        if (q.ok || q.pos >= u.size()) t = u;
      }
    }
    out.push_back(t);
  }
  return out;
}

// A document in which the rules of a template find nodes that nearly match.
static std::string escaped(const std::string& v) {
  std::string o;
  for (char x : v) o += x == '&' ? "&amp;" : x == '<' ? "&lt;" : x == '"' ? "&quot;" : x == '\0' ? "0" : std::string(1, x);
  return o;
}
static std::string value_for(Rng& r, const Test& t) {
  std::string v = t.lit;
  if (t.kind == Test::Regex) for (char x : t.rx.src) if (!std::strchr("\\^$.*+?()[]{}|", x)) v += x;
  switch (r.u(9)) {
    case 0: return v + "x";
    case 1: return "x" + v;
    case 2: return "p " + v + " q";
    case 3: return "";
    case 4: for (auto& x : v) x = char(std::isupper((unsigned char)x) ? std::tolower((unsigned char)x) : std::toupper((unsigned char)x)); return v;
    case 5: return v.substr(0, v.size() / 2);
    default: return v;
  }
}
std::string html_for(Rng& r, const List& l, int depth) {
  std::string o;
  if (depth > 12) return o;
  for (int rep = r.in(1, depth ? 2 : 3); rep > 0; --rep) {
    for (auto& u : l) {
      std::string tag = u.tag == "*" ? r.of<const char*>({ "i", "b", "a" }) : u.tag;
      if (r.p(10)) tag = r.of<const char*>({ "i", "aa", "u" });
      std::string at, text;
      for (auto& p : u.pats) {
        if (p.builtin) { text += value_for(r, p.test); continue; }
        if (r.p(15)) continue;
        std::string v = p.capture ? gen_text(r) : value_for(r, p.test);
        at += " " + p.name + "=\"" + escaped(v) + "\"";
      }
      for (int i = int(r.u(5)); i > 2; --i) at += r.of<const char*>({ " z", " y=1", " x='' " });
      o += "<" + tag + at + ">";
      if (!text.empty() || r.p(30)) o += escaped(text);
      if (r.p(30)) for (int i = int(r.u(4)); i > 0; --i) o += r.of<const char*>({ "<u></u>", "<a></a>", "x", "<i>y</i>" });
      o += html_for(r, u.kids, depth + 1);
      for (auto& n : u.nested) o += html_for(r, n, depth + 1);
      o += "</" + tag + ">";
      if (o.size() > 8000) return o;
      if (r.p(20)) o += r.of<const char*>({ " ", "text", "<u>z</u>", "<a>w</a>" });
    }
  }
  return o;
}

} // namespace vh
