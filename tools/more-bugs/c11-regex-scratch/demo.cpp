#include <hext/Hext.h>
#include <hext/Builtins.h>
#include <hext/FunctionMatch.h>
#include <hext/FunctionCapture.h>
#include <hext/AttributeCapture.h>
#include <gumbo.h>
#include <iostream>
#include <cstdlib>
#include <cstring>
#include <string>
#include <vector>
#include <memory>
#include <thread>
#include <atomic>
using namespace hext;
#define CHECK(x) do { if( !(x) ) { std::cerr << "failed: " #x << "\n"; return 1; } } while(0)
static std::string all(const Result& r) { std::string s; for(auto& g : r) { s += "{"; for(auto& p : g) s += p.first + "=" + p.second + ";"; s += "}"; } return s; }
[[maybe_unused]] static std::string run(const std::string& t, const std::string& d, std::uint64_t m = 0) { Html h(d.data(), d.size()); return all(ParseHext(t.data(), t.size()).extract(h, m)); }
int main() { Rule r = ParseHext("<b @text:filter(/([a-z]+)/):x/>"); std::string d; for(int i = 0; i < 60; ++i) d += "<b>" + std::to_string(i) + std::string(std::size_t(i), char('a' + i % 26)) + "</b>"; Html h(d.data(), d.size()); std::string want = all(r.extract(h)); std::atomic<int> bad{0}; std::vector<std::thread> ts; for(int i = 0; i < 8; ++i) ts.emplace_back([&]{ for(int k = 0; k < 500; ++k) if(all(r.extract(h)) != want) ++bad; }); for(auto& t : ts) t.join(); CHECK(!bad); }