#include <hext/Hext.h>
#include <hext/Builtins.h>
#include <hext/FunctionMatch.h>
#include <hext/FunctionCapture.h>
#include <hext/AttributeCapture.h>
#include <gumbo.h>
#include <iostream>
#include <cstdlib>
#include <cstring>
#include <string>
#include <vector>
#include <memory>
#include <thread>
#include <atomic>
using namespace hext;
#define CHECK(x) do { if( !(x) ) { std::cerr << "failed: " #x << "\n"; return 1; } } while(0)
static std::string all(const Result& r) { std::string s; for(auto& g : r) { s += "{"; for(auto& p : g) s += p.first + "=" + p.second + ";"; s += "}"; } return s; }
[[maybe_unused]] static std::string run(const std::string& t, const std::string& d, std::uint64_t m = 0) { Html h(d.data(), d.size()); return all(ParseHext(t.data(), t.size()).extract(h, m)); }
int main() { CHECK(run("<a href:filter(/(x)|(y)/):v/>", "<a href=y>") == "{v=;}"); CHECK(run("<a href:filter(/(x)|(y)/):v/>", "<a href=x>") == "{v=x;}"); }