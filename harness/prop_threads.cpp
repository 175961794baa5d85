// C11: concurrent use of shared rules and documents.
#include "core.h"

#include <atomic>
#include <chrono>
#include <thread>

namespace vh {

namespace {
// No lock and no shared write in here: they would order the threads and hide races.
struct Event { std::uint64_t t0, t1; int thread, op, object; };
thread_local Rng* t_rng = nullptr;
thread_local std::uint64_t t_calls = 0, t_delays = 0;

void delay() {
  ++t_calls;
  if (!t_rng) return;
  unsigned k = unsigned(t_rng->u(64));
  if (k == 0) { ++t_delays; std::this_thread::yield(); }
  else if (k == 1) { ++t_delays; for (volatile int i = 0; i < 300; i = i + 1) {} }
  else if (k == 2 && t_rng->p(10)) { ++t_delays; std::this_thread::sleep_for(std::chrono::microseconds(1 + t_rng->u(30))); }
}
std::uint64_t now() { return std::uint64_t(std::chrono::steady_clock::now().time_since_epoch().count()); }

struct Shared {
  std::string html;
  Exact buf;
  hext::Html doc;
  RDoc d;
  explicit Shared(const std::string& h) : html(h), buf(h, false), doc(buf.data(), buf.size()), d(doc.root()) {}
};
struct Want { std::string all; std::uint64_t threshold; bool exact; };
struct Job {
  List l;
  std::string text;
  std::unique_ptr<hext::Rule> rule;
  std::vector<const hext::Rule*> flat;
  std::vector<const RuleT*> models;
  bool delays = false;
};
} // namespace

static void add_delays(hext::Rule& rule) {
  for (hext::Rule* r = &rule; r; r = r->next()) {
    r->append_match<hext::FunctionMatch>([](const GumboNode*) { delay(); return true; });
    if (r->child()) add_delays(*r->child());
    for (auto& n : r->nested()) add_delays(n);
  }
}

static void c11(Rng& r, Ctx& c) {
  const int nthreads = r.in(2, 8), nops = r.in(4, 24);
  std::vector<std::unique_ptr<Shared>> docs;
  std::vector<Job> jobs;
  for (int i = r.in(1, 2); i > 0; --i) docs.push_back(std::make_unique<Shared>(r.p(8) ? gen_scaled(r, 200) : r.p(80) ? gen_html(r, r.in(3, 25)) : gen_html_bytes(r)));
  for (auto& d : docs) if (d->d.all.size() > 500) { c.count("skipped_large"); return; }
  for (int i = r.in(1, 3); i > 0; --i) {
    Job j;
    j.l = r.p(90) ? gen_list_for(r, r.pick(docs)->d, r.in(1, 5)) : gen_list_free(r, 3);
    if (r.p(15)) {
      Trait t;
      t.kind = r.of({ Trait::NthChild, Trait::NthLastChild, Trait::NthOfType, Trait::NthLastOfType });
      t.form = 4;
      t.a = r.in(1, 4);
      t.b = r.in(0, 3);
      j.l[0].traits.push_back(t);
    }
    try { j.text = render(j.l, r, 1); } catch (const HarnessError&) {}
    jobs.push_back(std::move(j));
  }
  std::vector<std::vector<Want>> want(jobs.size());
  for (std::size_t i = 0; i < jobs.size(); ++i)
    for (auto& d : docs) {
      RefExtract e;
      e.max_steps = 30000;
      Want w;
      try { w.all = ref_extract_sig(jobs[i].l, d->d.root, 0, &e); } catch (const TooExpensive&) { c.count("too_expensive"); return; }
      w.threshold = e.searches;
      w.exact = !e.rematched;
      want[i].push_back(w);
      if (!w.all.empty()) c.count("nonempty_expectations");
    }
  // the expected results come from the reference: the library itself is used
  // for the first time by the threads, apart from building the shared rules
  for (auto& j : jobs) {
    if (!j.text.empty() && r.p(60)) j.rule = std::make_unique<hext::Rule>(hext::ParseHext(j.text.data(), j.text.size()));
    else j.rule = std::make_unique<hext::Rule>(lower(j.l));
    if (r.p(60)) { add_delays(*j.rule); j.delays = true; }
    all_rules(*j.rule, j.flat);
    all_rules(j.l, j.models);
  }
  struct Own { std::string html, tmpl, error; bool ok; List l; std::string want; };
  std::vector<std::vector<Own>> own(static_cast<std::size_t>(nthreads));
  for (auto& o : own)
    for (int i = 0; i < 3; ++i) {
      Own w;
      w.html = gen_html(r, r.in(1, 10));
      hext::Html h(w.html.data(), w.html.size());
      RDoc d(h.root());
      w.l = gen_list_for(r, d, r.in(1, 3));
      try { w.tmpl = render(w.l, r, 1); } catch (const HarnessError&) { w.l = List(1); w.tmpl = "<*/>"; }
      RefExtract e;
      e.max_steps = 20000;
      try { w.want = ref_extract_sig(w.l, d.root, 0, &e); } catch (const TooExpensive&) { w.l = List(1); w.tmpl = "<*/>"; w.want = ""; }
      RefParse q = ref_parse(w.tmpl);
      w.ok = q.ok;
      if (r.p(35)) {
        w.tmpl = mutate_bytes(r, w.tmpl, kTemplateDict);
        q = ref_parse(w.tmpl);
        w.ok = q.ok;
        w.error = q.message.c_str();   // what() ends at a NUL
        w.l.clear();
        w.want.clear();
      }
      o.push_back(std::move(w));
    }
  std::vector<std::vector<Event>> log(static_cast<std::size_t>(nthreads));
  std::vector<std::string> fail(static_cast<std::size_t>(nthreads));
  std::vector<std::uint64_t> seeds, calls(static_cast<std::size_t>(nthreads)), delays(static_cast<std::size_t>(nthreads));
  for (int i = 0; i < nthreads; ++i) seeds.push_back(r.next());
  std::atomic<int> ready{ 0 };
  std::atomic<bool> go{ false };
  auto work = [&](int id) {
    Rng g(seeds[std::size_t(id)]);
    t_rng = &g;
    t_calls = t_delays = 0;
    auto& L = log[std::size_t(id)];
    ready.fetch_add(1, std::memory_order_relaxed);
    while (!go.load(std::memory_order_acquire)) {}
    try {
      for (int k = 0; k < nops; ++k) {
        std::size_t ji = std::size_t(g.u(jobs.size())), di = std::size_t(g.u(docs.size()));
        const Job& j = jobs[ji];
        const Shared& d = *docs[di];
        const Want& w = want[ji][di];
        int op = int(g.u(12));
        Event e{ now(), 0, id, op, int(ji * 4 + di) };
        const std::string where = " in thread " + std::to_string(id) + "\n rule " + dump(j.l) + "\n document " + esc(d.html, 800);
        switch (op) {
          case 0: case 1: case 2: {
            std::string got = show(j.rule->extract(d.doc));
            VH_CHECK(got == w.all, "concurrent extraction gives\n " << esc(got) << "\n instead of\n " << esc(w.all) << where);
            break; }
          case 3: {
            std::uint64_t lim = w.threshold + 1 - g.u(2);
            bool hit = false;
            std::string got;
            try { got = show(j.rule->extract(d.doc, lim)); } catch (const hext::MaxSearchError&) { hit = true; }
            if (w.exact) VH_CHECK(hit == (lim <= w.threshold), "the search limit " << lim << (hit ? " aborts" : " does not abort") << " a concurrent extraction of " << w.threshold << " searches" << where);
            if (!hit) VH_CHECK(got == w.all, "concurrent extraction with a limit gives\n " << esc(got) << where);
            break; }
          case 4: case 5: {
            std::size_t m = std::size_t(g.u(j.flat.size()));
            for (auto& n : d.d.all) {
              if (!g.p(30) || !comparable(*j.models[m], n.get())) continue;
              VH_CHECK(j.flat[m]->matches(n->lib) == ref_matches(*j.models[m], n.get()), "concurrent matching of node " << n->order << " differs" << where);
              VH_CHECK(show_pairs(j.flat[m]->capture(n->lib)) == show_pairs(ref_capture(*j.models[m], n.get())), "concurrent capture of node " << n->order << " differs" << where);
            }
            break; }
          case 6: {
            hext::Rule copy(*j.rule);
            std::string got = show(copy.extract(d.doc));
            VH_CHECK(got == w.all, "extraction with a concurrent copy gives\n " << esc(got) << "\n instead of\n " << esc(w.all) << where);
            break; }
          case 7: {
            hext::Rule copy;
            copy = *j.rule;
            hext::Rule c2(copy);
            copy = hext::Rule();
            std::string got = show(c2.extract(d.doc.root()));
            VH_CHECK(got == w.all, "extraction with an assigned copy gives\n " << esc(got) << where);
            break; }
          case 8: case 9: {
            const Own& o = own[std::size_t(id)][std::size_t(g.u(3))];
            std::string err;
            bool ok = true;
            std::unique_ptr<hext::Rule> mine;
            try { mine = std::make_unique<hext::Rule>(hext::ParseHext(o.tmpl.data(), o.tmpl.size())); }
            catch (const hext::SyntaxError& x) { ok = false; err = x.what(); }
            VH_CHECK(ok == o.ok, "template " << esc(o.tmpl) << (ok ? " is accepted" : " is rejected") << " when compiled concurrently: " << err);
            if (!ok) { VH_CHECK(err == o.error, "concurrent compilation of " << esc(o.tmpl) << " reports\n" << err << "\n instead of\n" << o.error); break; }
            hext::Html h(o.html.data(), o.html.size());
            if (!o.l.empty()) {
              std::string got = show(mine->extract(h));
              VH_CHECK(got == o.want, "own template " << esc(o.tmpl) << " on own document " << esc(o.html) << " gives\n " << esc(got) << "\n instead of\n " << esc(o.want));
            }
            break; }
          case 10: {
            hext::Html h(d.html.data(), d.html.size());
            std::string got = show(j.rule->extract(h));
            VH_CHECK(got == w.all, "extraction from a document of its own gives\n " << esc(got) << "\n instead of\n " << esc(w.all) << where);
            break; }
          case 11: {
            if (j.text.empty()) break;
            hext::Rule mine = hext::ParseHext(j.text.data(), j.text.size());
            std::string got = show(mine.extract(d.doc));
            VH_CHECK(got == w.all, "extraction with a rule of its own gives\n " << esc(got) << "\n instead of\n " << esc(w.all) << where);
            break; }
        }
        e.t1 = now();
        L.push_back(e);
      }
    } catch (const Violation& x) { fail[std::size_t(id)] = x.what(); }
    catch (const std::exception& x) { fail[std::size_t(id)] = std::string("unexpected exception in a thread: ") + x.what(); }
    calls[std::size_t(id)] = t_calls;
    delays[std::size_t(id)] = t_delays;
    t_rng = nullptr;
  };
  std::vector<std::thread> th;
  for (int i = 0; i < nthreads; ++i) th.emplace_back(work, i);
  while (ready.load() < nthreads) std::this_thread::yield();
  go.store(true, std::memory_order_release);
  for (auto& t : th) t.join();
  for (auto& f : fail) if (!f.empty()) {
    if (f.find("complexity of matching") != std::string::npos) { c.count("skipped_regex_limit"); return; }
    VH_FAIL(f);
  }
  // what was really concurrent
  std::vector<Event> ev;
  for (auto& l : log) ev.insert(ev.end(), l.begin(), l.end());
  std::uint64_t overlaps = 0, shared = 0;
  for (std::size_t i = 0; i < ev.size(); ++i)
    for (std::size_t k = i + 1; k < ev.size(); ++k)
      if (ev[i].thread != ev[k].thread && ev[i].t0 < ev[k].t1 && ev[k].t0 < ev[i].t1) { ++overlaps; shared += ev[i].object == ev[k].object; }
  std::vector<std::pair<std::uint64_t, std::string>> order;
  for (auto& e : ev) {
    std::string n = std::to_string(e.thread) + ":" + std::to_string(e.op) + ":" + std::to_string(e.object);
    order.emplace_back(e.t0, "+" + n);
    order.emplace_back(e.t1, "-" + n);
  }
  std::sort(order.begin(), order.end());
  std::string il;
  for (auto& o : order) il += o.second + " ";
  if (overlaps) c.nontrivial(il + jobs[0].text);
  c.count("operations", ev.size());
  c.count("threads", std::uint64_t(nthreads));
  c.count("overlapping_operation_pairs", overlaps);
  c.count("overlapping_on_same_rule_and_document", shared);
  for (int i = 0; i < nthreads; ++i) { c.count("calls_into_delaying_conditions", calls[std::size_t(i)]); c.count("delays_injected", delays[std::size_t(i)]); }
  c.sample(std::to_string(nthreads) + " threads, order of begins(+) and ends(-) as thread:operation:object " + il.substr(0, 400));
}

extern const Prop kThreadProps[] = { { "C11", c11, false } };
extern const int kThreadPropsN = 1;

} // namespace vh
