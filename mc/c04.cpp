// C04: concurrent encode and decode on one tokenizer are safe.
// Every schedule of small multi-threaded programs up to a preemption bound, under happens-before race detection.
#include <pthread.h>
#include <unistd.h>

#include "fam.h"
#include "ctlsched.h"
using namespace ref;

struct Op { int tok; char kind; std::wstring text; std::vector<int> ids; bool flag; std::string name; std::string js; };   // kind 'c': construct another tokenizer and encode with it
struct Sys { std::string name; std::string js; std::vector<Op> ops; bool random = false; };   // random: results vary (dropout), only races and deadlocks are judged
static std::vector<Sys> S;
static std::string run(Tokenizer &t, const Op &o) {
  try {
    if (o.kind == 'c') { auto n = impl::make_json(o.js); Encoding e = n->encode(o.text, o.flag); return show(impl::from(e)) + n->decode(e.ids, false); }
    return o.kind == 'e' ? show(impl::from(t.encode(o.text, o.flag))) : "'" + t.decode(o.ids, o.flag) + "'"; }
  catch (const std::exception &e) { return std::string("threw"); }
}
struct Prog { int sys; std::vector<std::vector<int>> threads; bool two; };   // two: odd threads use a second tokenizer of the same configuration
static std::string text(const Prog &p) {
  std::string r = "configuration " + S[p.sys].name + (p.two ? ", two tokenizers" : "");
  for (size_t i = 0; i < p.threads.size(); i++) { r += ", thread " + std::to_string(i) + ":"; for (int o : p.threads[i]) r += " " + S[p.sys].ops[o].name; }
  return r;
}
struct Arg { const Prog *p; int me; Tokenizer *t; std::vector<std::string> res; };
static void *body(void *v) {
  Arg &a = *(Arg *)v; sched_enter(a.me);
  bool first = true;
  for (int o : a.p->threads[a.me]) { if (!first) sched_step(); first = false; a.res.push_back(run(*a.t, S[a.p->sys].ops[o])); }
  sched_leave();
  return nullptr;
}
static std::string schedule(const std::vector<unsigned char> &pre) { std::string r; for (auto c : pre) r += std::to_string(c); return r; }
// one execution; "" or what went wrong.  res: the results per thread
static std::string execute(const Prog &p, const std::vector<unsigned char> &prefix, std::vector<std::vector<std::string>> &res, std::string &probe) {
  bool none = true; for (auto &th : p.threads) for (int o : th) none &= S[p.sys].ops[o].kind == 'c';   // only constructions: nothing is built beforehand
  auto t1 = none ? nullptr : impl::make_json(S[p.sys].js), t2 = p.two ? impl::make_json(S[p.sys].js) : nullptr;
  int n = p.threads.size();
  std::vector<Arg> a(n); std::vector<pthread_t> th(n);
  sched_begin(n, prefix.data(), prefix.size());
  for (int i = 0; i < n; i++) { a[i].p = &p; a[i].me = i; a[i].t = p.two && i % 2 ? t2.get() : t1.get(); if (pthread_create(&th[i], nullptr, body, &a[i])) _exit(3); }
  sched_wait();
  if (sched_deadlock) { t1.release(); t2.release(); new std::vector<Arg>(std::move(a)); return "deadlock"; }
  for (int i = 0; i < n; i++) pthread_join(th[i], nullptr);
  if (none) t1 = impl::make_json(S[p.sys].js);
  res.clear(); for (auto &q : a) res.push_back(q.res);
  probe.clear(); for (auto &o : S[p.sys].ops) if (o.kind != 'c') { probe += run(*t1, o); if (t2) probe += run(*t2, o); }
  return "";
}
static std::string solo(int s, int o) { static std::map<std::pair<int, int>, std::string> m; auto &w = m[{s, o}]; if (w.empty()) { auto t = impl::make_json(S[s].js); w = run(*t, S[s].ops[o]); } return w; }
static std::string judge(const Prog &p, const std::vector<std::vector<std::string>> &res, const std::string &probe) {
  if (S[p.sys].random) return "";
  for (size_t i = 0; i < res.size(); i++) for (size_t k = 0; k < res[i].size(); k++) { auto w = solo(p.sys, p.threads[i][k]); if (res[i][k] != w) return "thread " + std::to_string(i) + " " + S[p.sys].ops[p.threads[i][k]].name + " returned " + res[i][k].substr(0, 500) + "\n  instead of " + w.substr(0, 500); }
  std::string w; for (size_t o = 0; o < S[p.sys].ops.size(); o++) if (S[p.sys].ops[o].kind != 'c') for (int k = 0; k < 1 + p.two; k++) w += solo(p.sys, o);
  return probe == w ? "" : "afterwards calls return " + probe.substr(0, 500) + "\n  instead of " + w.substr(0, 500);
}
// the next schedule in depth-first order within the bound; false when there is none
static bool next(std::vector<unsigned char> &pre, int bound) {
  int n = sched_len;
  std::vector<int> used(n + 1, 0);
  auto cost = [](const SchedDecision &d, int c) { return d.cur_enabled && !d.voluntary && c != d.cur ? 1 : 0; };
  for (int i = 0; i < n; i++) used[i + 1] = used[i] + cost(sched_trace[i], sched_trace[i].chosen);
  auto order = [](const SchedDecision &d) {   // the default first, then the others in order
    std::vector<int> r; int def = -1;
    if (d.cur_enabled && !d.voluntary) def = d.cur;
    int c = d.cur == 255 ? 7 : d.cur;
    for (int k = def >= 0 ? 0 : 1; k <= 8; k++) { int t = (c + k) % 8; if ((d.enabled >> t & 1) && std::find(r.begin(), r.end(), t) == r.end()) r.push_back(t); }
    if (def >= 0) { r.erase(std::find(r.begin(), r.end(), def)); r.insert(r.begin(), def); }
    return r;
  };
  for (int i = n - 1; i >= 0; i--) {
    auto &d = sched_trace[i]; auto o = order(d);
    size_t at = std::find(o.begin(), o.end(), (int)d.chosen) - o.begin();
    for (size_t k = at + 1; k < o.size(); k++) if (used[i] + cost(d, o[k]) <= bound) {
      pre.clear(); for (int q = 0; q < i; q++) pre.push_back(sched_trace[q].chosen);
      pre.push_back(o[k]);
      return true;
    }
  }
  return false;
}
static std::string explore(const Prog &p, int bound, mc::Ctx &x, long cap) {
  std::vector<unsigned char> pre; std::vector<std::vector<std::string>> res; std::string probe;
  for (long n = 0; n < cap; n++) {
    std::string d = execute(p, pre, res, probe);
    std::vector<unsigned char> all; for (int i = 0; i < sched_len; i++) all.push_back(sched_trace[i].chosen);
    x.transitions += sched_points; x.impl_traces++;
    x.nontrivial++;
    x.state(text(p) + schedule(all));
    if (d.empty()) d = judge(p, res, probe);
    if (!d.empty()) return "schedule " + schedule(all) + " (the thread chosen at each point where several could run): " + d;
    if (!next(pre, bound)) return "";
  }
  return "";   // cap: only reachable when a change multiplies the scheduling points
}
static mc::Family programs(const std::string &name, std::vector<Prog> ps, int bound, const std::string &what, int chunk) {
  auto p = std::make_shared<std::vector<Prog>>(ps);
  mc::Family f; f.name = name; f.count = p->size(); f.chunk = chunk; f.limit_s = 120;
  f.bound = what + "; all schedules with at most " + std::to_string(bound) + " preemptions, every execution checked for data races (happens-before), deadlock and results";
  f.run = [=](uint64_t i, mc::Ctx &x) { std::string d = explore((*p)[i], bound, x, 20000); if (!d.empty()) x.fail(d); };
  f.describe = [=](uint64_t i) { return text((*p)[i]); };
  return f;
}
int main(int argc, char **argv) {
  bool T = mc::thorough();
  std::vector<mc::Family> f;
  auto E = [](const U &u, bool add) { return Op{0, 'e', toW(u), {}, add, "encode('" + mc::esc(u) + "')"}; };
  auto D = [](std::vector<int> i, bool s) { return Op{0, 'd', L"", i, s, "decode(" + impl::ints(i) + ")"}; };
  for (auto &n : cfgs::all()) {
    if (n.name == "nothing") continue;
    S.push_back({n.name, json(n.c), {E(U"ab aba", true), E(U"aba", false), E(U"ab", true), D({0, 999, 1, 5, 6, 7, 8, -1}, false), E(U"éa <n>[MASK] 中ab", true)}});
  }
  { Cfg c = cfgs::bare(); c.mod.dropout = 0; c.mod.merges.clear(); c.pre = cfgs::p_bert(); S.push_back({"bpe without merges", json(c), {E(U"ab aba", true), E(U"aba", false), E(U"ab", true), D({0, 999, 1, 5, -1}, true), E(U"a", true)}}); }
  { Cfg c = cfgs::gpt2(); c.mod.dropout = 0.5; S.push_back({"gpt2 with dropout", json(c), {E(U"ab aba", true), E(U"aba", false)}, true}); }
  for (auto &y : S) if (!y.random) { Op o = y.ops[4]; o.kind = 'c'; o.name = "construct and " + o.name; o.js = y.js; y.ops.push_back(o); }
  auto isbpe = [](const Sys &s) { return s.js.find("\"BPE\"") != std::string::npos; };
  // 1. the very first calls of a process: each program once per schedule prefix, in a process of its own
  {
    struct It { Prog p; int at; };
    static std::vector<It> it;
    for (int s = 0; s < (int)S.size(); s++) for (int o : S[s].random ? std::vector<int>{0} : std::vector<int>{0, 4, 3}) for (int two = 0; two < 2; two++) for (int at = -1; at < (T ? 24 : 8); at++) it.push_back({{s, {{o}, {o == 3 ? 0 : o}}, (bool)two}, at});
    for (int s = 0; s < (int)S.size(); s++) if (!S[s].random) for (int at = -1; at < (T ? 24 : 8); at++) it.push_back({{s, {{5}, {5}}, false}, at});
    mc::Family a; a.name = "first-calls"; a.count = it.size(); a.chunk = 1; a.limit_s = 60;
    a.bound = "two threads making the first calls of the process (encoding, decoding, or constructing), on one or two tokenizers of " + std::to_string(S.size()) + " configurations, the second thread running from each of the first " + std::to_string(T ? 24 : 8) + " scheduling points on; a fresh process each";
    a.run = [](uint64_t i, mc::Ctx &x) {
      auto &q = it[i]; std::vector<unsigned char> pre; std::vector<std::vector<std::string>> res; std::string probe;
      if (q.at >= 0) { pre.assign(q.at + 1, 0); pre[q.at] = 1; }
      std::string d = execute(q.p, pre, res, probe);
      x.impl_traces++; x.transitions += sched_points; x.nontrivial++; x.state(text(q.p) + std::to_string(q.at));
      if (d.empty()) d = judge(q.p, res, probe);
      if (!d.empty()) x.fail(d);
    };
    a.describe = [](uint64_t i) { return text(it[i].p) + ", the other thread runs from scheduling point " + std::to_string(it[i].at) + " on"; };
    f.push_back(a);
  }
  // a tokenizer constructed while another thread uses or constructs one
  {
    std::vector<Prog> ps;
    for (int s = 0; s < (int)S.size(); s++) if (!S[s].random) {
      for (int o : {5, 4, 0, 3}) ps.push_back({s, {{5}, {o}}, false});
      ps.push_back({s, {{5, 0}, {1, 5}}, false}); ps.push_back({s, {{5}, {5}, {4}}, false});
    }
    f.push_back(programs("construction", ps, T ? 2 : 1, "one thread constructing a tokenizer and using it while another constructs or uses one (" + std::to_string(ps.size()) + " programs)", 2));
  }
  // 2. two threads, every pair of short operation lists
  {
    std::vector<Prog> ps;
    for (int s = 0; s < (int)S.size(); s++) {
      int nops = isbpe(S[s]) && !S[s].random ? 5 : 2;
      std::vector<std::vector<int>> l; for (int a = 0; a < nops; a++) l.push_back({a});
      bool deep = T || S[s].name == "gpt2" || S[s].name == "bpe-affix" || S[s].name == "llama2";
      for (int a = 0; a < nops; a++) for (int b = 0; b < nops; b++) if (deep && (a < 3 || b < 3 || T)) l.push_back({a, b});
      for (size_t a = 0; a < l.size(); a++) for (size_t b = a; b < l.size(); b++) {
        if (!T && l[a].size() + l[b].size() > 3 && S[s].name != "bpe-affix") continue;
        ps.push_back({s, {l[a], l[b]}, false});
      }
      if (S[s].random) continue;
      ps.push_back({s, {{0}, {0}}, true}); ps.push_back({s, {{4, 0}, {0, 4}}, true});
    }
    f.push_back(programs("two-threads", ps, T ? 3 : 2, "two threads with one or two operations each (" + std::to_string(ps.size()) + " programs)", 4));
  }
  // 3. three threads
  {
    std::vector<Prog> ps;
    for (int s = 0; s < (int)S.size(); s++) if (!S[s].random) for (int a = 0; a < 5; a++) for (int b = a; b < 5; b++) for (int c = b; c < 5; c++) if (isbpe(S[s]) ? (T || c < 3 || (a + b + c) % 3 == 0) : (a == b && b == c)) ps.push_back({s, {{a}, {b}, {c}}, false});
    f.push_back(programs("three-threads", ps, T ? 2 : 1, "three threads with one operation each (" + std::to_string(ps.size()) + " programs)", 4));
  }
  return mc::main_(argc, argv, "C04", f, "executions of at least two threads");
}
