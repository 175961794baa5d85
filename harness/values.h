// What a part does, as a string: shared by C12 and C19.
#pragma once
#include "core.h"

namespace vh {

// ----------------------------------------------------------------- behaviour
static const std::vector<std::unique_ptr<hext::Html>>& docs() {
  static const std::vector<std::unique_ptr<hext::Html>> v = [] {
    std::vector<std::unique_ptr<hext::Html>> d;
    for (const char* t : { "<div class='a b' id=foo><a href='x y' class=foo>A <b>foo</b> 1</a><a href=q>bar</a> t <!-- c --><x-foo title=T>Z</x-foo></div><p>foo<br>bar</p>",
                           "<ul class=item><li>1<li class=item id=1>2 <i>price 12</i><li title=x><span>3</span></ul><X-Foo a=1><x-bar/></X-Foo><h1 data-x='Foo'>FOO</h1><img src=a alt=''>" })
      d.push_back(std::make_unique<hext::Html>(t));
    return d;
  }();
  return v;
}
static const std::vector<const GumboNode*>& nodes() {
  static const std::vector<const GumboNode*> v = [] {
    std::vector<const GumboNode*> n;
    for (auto& h : docs()) { RDoc d(h->root()); for (auto& x : d.all) n.push_back(x->lib); }
    return n;
  }();
  return v;
}
static const std::vector<std::string>& strings() {
  static const std::vector<std::string> v = { "", "a", "foo", "Foo bar", " a b  c ", "item-1", "12", "x y", "FOO", "aaa", "price 12", std::string("a\0b", 3), "\xc3\xa9t\xc3\xa9" };
  return v;
}
static std::string sig(const hext::Match& m) { std::string s; for (auto* n : nodes()) s += m.matches(n) ? '1' : '0'; return s; }
static std::string sig(const hext::ValueTest& t) { std::string s; for (auto& x : strings()) s += t.test(x.c_str()) ? '1' : '0'; s += t.test(nullptr) ? '1' : '0'; return s; }
static std::string sig(const hext::Capture& c) { std::string s; for (auto* n : nodes()) { auto p = c.capture(n); s += p ? show_pairs({ *p }) : "-"; } return s; }
static std::string sig(const hext::StringPipe& p) { std::string s; for (auto& x : strings()) { auto y = p.pipe(x); s += std::to_string(y.size()) + ":" + y + ";"; } return s; }
static std::string sig(const hext::Rule& r) { return rule_sig(r); }

} // namespace vh
