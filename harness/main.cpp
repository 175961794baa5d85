// vh <prop> --seed S --cases N [--shard i/n] [--time T] [--only IDX] [--corpus DIR] [--state FILE]
#include "core.h"

#include <cerrno>
#include <chrono>
#include <clocale>
#include <fcntl.h>
#include <fstream>
#include <iostream>
#include <locale>
#include <sys/mman.h>
#include <unistd.h>

using namespace vh;
namespace vh { int dump_main(); int gen_main(std::uint64_t, std::uint64_t, std::uint64_t, bool); }

static std::string json(const std::string& s) {
  std::string o = "\"";
  for (unsigned char c : s) {
    if (c == '"' || c == '\\') { o += '\\'; o += char(c); }
    else if (c >= 32 && c < 127) o += char(c);
    else { char b[8]; std::snprintf(b, sizeof b, "\\u%04x", c); o += b; }
  }
  return o + "\"";
}

// Some cases run in a program that has set a locale in which digits are grouped,
// and with errno set. (Case pipes and regular expressions use the locale's
// letters, so these are left alone.)
namespace {
struct Grouped : std::numpunct<char> {
  char do_decimal_point() const override { return ','; }
  char do_thousands_sep() const override { return '.'; }
  std::string do_grouping() const override { return "\1"; }
  std::string do_truename() const override { return "wahr"; }
};
struct Surroundings {
  std::locale old;
  bool c = false;
  explicit Surroundings(std::uint64_t i, Ctx& ctx) {
    static const std::locale hostile(std::locale::classic(), new Grouped);
    if (i % 7 == 3 && ctx.prop != "C22") {   // (there, streams allocate on first use)
      std::locale::global(hostile); ctx.count("cases_in_other_locale"); }
    if (i % 11 == 5) c = std::setlocale(LC_ALL, "C.UTF-8") != nullptr;
    errno = i % 3 == 1 ? ERANGE : 0;
  }
  ~Surroundings() { std::locale::global(old); if (c) std::setlocale(LC_ALL, "C"); }
};
}

int main(int argc, char** argv) {
  if (argc < 2) { std::cerr << "usage: vh PROP ...\n"; return 2; }
  std::string prop = argv[1], state, corpus;
  try {
    if (prop == "dump") return dump_main();
    if (prop == "edge") return argc < 4 ? 2 : edge_main(argv[2], std::string(argv[3]) == "start");
    if (prop == "gen") {   // vh gen SEED FROM TO hostile|valid CORPUS
      if (argc < 7) return 2;
      load_corpus(argv[6]);
      return gen_main(std::stoull(argv[2]), std::stoull(argv[3]), std::stoull(argv[4]), std::string(argv[5]) == "hostile");
    }
  } catch (const std::exception& e) { std::cerr << "harness error: " << e.what() << "\n"; return 2; }
  std::uint64_t seed = 1, cases = 100, shard = 0, shards = 1;
  long long only = -1;
  double tmax = 0;
  for (int i = 2; i + 1 < argc; i += 2) {
    std::string k = argv[i], v = argv[i + 1];
    if (k == "--seed") seed = std::stoull(v);
    else if (k == "--cases") cases = std::stoull(v);
    else if (k == "--time") tmax = std::stod(v);
    else if (k == "--only") only = std::stoll(v);
    else if (k == "--corpus") corpus = v;
    else if (k == "--state") state = v;
    else if (k == "--shard") { auto s = v.find('/'); shard = std::stoull(v.substr(0, s)); shards = std::stoull(v.substr(s + 1)); }
    else { std::cerr << "unknown option " << k << "\n"; return 2; }
  }
  Ctx ctx;
  ctx.prop = prop;
  ctx.seed = seed;
  const Prop* p = nullptr;
  for (auto& x : props()) if (prop == x.id) p = &x;
  if (!p) { std::cerr << "no such property\n"; return 2; }
  // progress is kept in a shared file so that a crash or hang names its case
  static std::uint64_t dummy[2];
  volatile std::uint64_t* cur = dummy;
  if (!state.empty()) {
    int fd = open(state.c_str(), O_RDWR | O_CREAT, 0600);
    if (fd < 0 || ftruncate(fd, 16)) { std::cerr << "state file\n"; return 2; }
    void* m = mmap(nullptr, 16, PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0);
    if (m == MAP_FAILED) return 2;
    close(fd);
    cur = static_cast<std::uint64_t*>(m);
  }
  auto t0 = std::chrono::steady_clock::now();
  bool capped = false;
  try {
    load_corpus(corpus);
    for (std::uint64_t i = shard; i < cases; i += shards) {
      if (only >= 0) i = std::uint64_t(only);
      if (tmax > 0 && std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count() > tmax) { capped = true; break; }
      cur[0] = i;
      cur[1] = cur[1] + 1;
      ctx.idx = i;
      auto once = [&] {
        Rng r(fnv(prop, seed * 0x9e3779b97f4a7c15ULL + i * 0xd1b54a32d192ed03ULL + 12345));
        p->fn(r, ctx);
      };
      const auto c0 = std::chrono::steady_clock::now();
      struct Slow { decltype(c0) c; std::uint64_t i; ~Slow() { double t = std::chrono::duration<double>(std::chrono::steady_clock::now() - c).count(); if (t > 5) std::cerr << "slow case " << i << ": " << t << " s\n"; } } slow{ c0, i };
      try {
        Surroundings around(i, ctx);
        once();
        ++ctx.evaluations;
        if (p->leak_repeat && live_bytes() && (i / shards) % 4 == 0) {
          ctx.quiet = true;
          std::size_t b[6];
          once();
          for (auto& x : b) { once(); x = live_bytes(); }
          bool grows = true;
          for (int k = 1; k < 6; ++k) grows = grows && b[k] > b[k - 1];
          ctx.quiet = false;
          ctx.count("leak_repeats");
          if (grows) VH_FAIL("memory is leaked: live heap bytes grow on every repetition of the same case: " << b[0] << " " << b[1] << " " << b[2] << " " << b[3]);
        }
      } catch (const Violation& e) {
        std::cout << "FAIL " << i << " " << esc(e.what(), 6000) << std::endl;
        return 1;
      } catch (const HarnessError&) { throw; }
      catch (const std::exception& e) {
        ctx.quiet = false;
        // boost's bound on the work of a single regular expression match
        if (std::strstr(e.what(), "complexity of matching") || std::strstr(e.what(), "stack space")) { ctx.count("skipped_regex_limit"); continue; }
        std::cout << "FAIL " << i << " unexpected exception: " << esc(e.what(), 3000) << std::endl;
        return 1;
      }
      if (only >= 0) break;
    }
  } catch (const std::exception& e) {
    std::cerr << "harness error in case " << ctx.idx << ": " << e.what() << "\n";
    return 2;
  }
  std::cout << "DISTINCT";
  bool f = true;
  for (auto d : ctx.distinct) std::cout << " " << d;
  std::cout << "\nSTATS {\"evaluations\":" << (ctx.units ? ctx.units : ctx.evaluations) << ",\"cases\":" << ctx.evaluations << ",\"counters\":{";
  f = true;
  for (auto& k : ctx.n) { std::cout << (f ? "" : ",") << json(k.first) << ":" << k.second; f = false; }
  std::cout << "},\"samples\":[";
  f = true;
  for (auto& s : ctx.samples) { std::cout << (f ? "" : ",") << json(s); f = false; }
  std::cout << "],\"capped\":" << (capped ? "true" : "false") << "}" << std::endl;
  return 0;
}
