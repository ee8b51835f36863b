#include "pbt.hpp"
#include <unordered_set>
#include <map>
#include <algorithm>
#include <unistd.h>
#include <fcntl.h>
#include <sys/mman.h>
#include <sys/time.h>
#include <fstream>
#include <chrono>
#include <exception>

namespace pbt {
std::vector<Prop> &registry() { static std::vector<Prop> r; return r; }
sigjmp_buf *trap_buf = nullptr;
}
using namespace pbt;

static volatile sig_atomic_t last_sig = 0;
static void on_signal(int s) {
  last_sig = s;
  if (trap_buf) siglongjmp(*trap_buf, s);
  signal(s, SIG_DFL); raise(s);
}
static char altstack[1 << 16];
static void install() {
  stack_t ss{}; ss.ss_sp = altstack; ss.ss_size = sizeof altstack; sigaltstack(&ss, nullptr);
  for (int s : {SIGABRT, SIGSEGV, SIGFPE, SIGBUS, SIGILL, SIGVTALRM, SIGTRAP}) {
    struct sigaction sa{}; sa.sa_handler = on_signal; sa.sa_flags = SA_ONSTACK | SA_NODEFER; sigaction(s, &sa, nullptr);
  }
}
// CPU-time guard against endless loops: only re-armed now and then, 60 s of pure CPU time
static void arm(int sec) { itimerval t{}; t.it_value.tv_sec = sec; setitimer(ITIMER_VIRTUAL, &t, nullptr); }

struct Result { bool failed; std::string msg; };
static Result run_case(const Prop &p, Case &c) {
  sigjmp_buf b;
  int s = sigsetjmp(b, 1);
  if (s == 0) {
    trap_buf = &b;
    try { p.fn(c); trap_buf = nullptr; return {false, ""}; }
    catch (const Failure &f) { trap_buf = nullptr; return {true, f.msg}; }
    catch (const std::exception &e) { trap_buf = nullptr; return {true, std::string("unexpected exception: ") + e.what()}; }
    catch (...) { trap_buf = nullptr; return {true, "unexpected exception"}; }
  }
  trap_buf = nullptr;
  if (s == SIGVTALRM) { arm(60); return {true, "endless: used 60 s of CPU time in one case"}; }
  return {true, std::string("stopped by signal ") + strsignal(s) + (s == SIGABRT ? " (assertion failure or std::terminate)" : "")};
}

static std::string jstr(const std::string &s) {
  std::string o = "\"";
  for (unsigned char ch : s) {
    if (ch == '"' || ch == '\\') { o += '\\'; o += ch; }
    else if (ch == '\n') o += "\\n"; else if (ch < 32 || ch > 126) { char b[8]; snprintf(b, 8, "\\u%04x", ch); o += b; }
    else o += ch;
  }
  return o + "\"";
}
static std::string jlist(const std::vector<uint64_t> &v) { std::string s = "["; for (size_t i = 0; i < v.size(); ++i) { if (i) s += ","; s += std::to_string(v[i]); } return s + "]"; }

static Result replay(const Prop &p, const std::vector<uint64_t> &ch, bool verbose, std::string *log, std::vector<uint64_t> *used, bool *nt = nullptr) {
  Case c; c.mode = Case::REPLAY; c.choices = ch; c.verbose = verbose;
  Result r = run_case(p, c);
  if (log) *log = c.log;
  if (used) *used = c.used;
  if (nt) *nt = c.nontriv;
  return r;
}

static std::vector<uint64_t> shrink(const Prop &p, std::vector<uint64_t> best) {
  int budget = 6000; auto t0 = std::chrono::steady_clock::now();
  auto ok = [&] { return budget > 0 && std::chrono::steady_clock::now() - t0 < std::chrono::seconds(20); };
  auto less = [](const std::vector<uint64_t> &a, const std::vector<uint64_t> &b) { if (a.size() != b.size()) return a.size() < b.size(); return a < b; };
  auto attempt = [&](std::vector<uint64_t> v) {
    if (!ok()) return false;
    --budget;
    std::vector<uint64_t> used; Result r = replay(p, v, false, nullptr, &used);
    if (!r.failed) return false;
    while (!used.empty() && used.back() == 0) used.pop_back();
    if (!less(used, best)) return false;
    best = used; return true;
  };
  attempt(best);
  bool progress = true;
  while (progress && ok()) {
    progress = false;
    for (size_t k : {16, 8, 4, 2, 1})
      for (size_t i = best.size(); i-- > 0;) {
        if (i + k > best.size()) continue;
        auto v = best; v.erase(v.begin() + i, v.begin() + i + k);
        if (attempt(v)) { progress = true; if (i > best.size()) i = best.size(); }
      }
    for (size_t k : {8, 4, 2, 1})
      for (size_t i = 0; i + k <= best.size(); ++i) {
        auto v = best; bool any = false; for (size_t j = i; j < i + k; ++j) { any |= v[j] != 0; v[j] = 0; }
        if (any && attempt(v)) progress = true;
      }
    for (size_t i = 0; i < best.size(); ++i) {
      uint64_t lo = 0;
      while (i < best.size() && best[i] > lo && ok()) {
        auto v = best; uint64_t mid = lo + (best[i] - lo) / 2; v[i] = mid;
        if (attempt(v)) progress = true; else { if (mid == lo) break; lo = mid; }
      }
    }
  }
  return best;
}

struct Progress { char prop[96]; uint64_t idx; uint64_t active; };

int main(int argc, char **argv) {
  uint64_t seed = 1, cases = 1000; unsigned shard = 0, shards = 1; double maxsec = 0; bool quiet = false; uint64_t trace_idx = ~0ull;
  const char *only = nullptr, *out = nullptr, *hashes = nullptr, *rep = nullptr, *prog = nullptr, *exact = nullptr, *one_prop = nullptr; uint64_t one_idx = 0;
  for (int i = 1; i < argc; ++i) {
    auto arg = [&](const char *n) { return !strcmp(argv[i], n) && i + 1 < argc; };
    if (arg("--seed")) seed = strtoull(argv[++i], 0, 10);
    else if (arg("--cases")) cases = strtoull(argv[++i], 0, 10);
    else if (arg("--shard")) { sscanf(argv[++i], "%u/%u", &shard, &shards); }
    else if (arg("--only")) only = argv[++i];
    else if (arg("--exact")) exact = argv[++i];
    else if (arg("--out")) out = argv[++i];
    else if (arg("--hashes")) hashes = argv[++i];
    else if (arg("--replay")) rep = argv[++i];
    else if (arg("--progress")) prog = argv[++i];
    else if (arg("--max-seconds")) maxsec = atof(argv[++i]);
    else if (arg("--one")) { one_prop = argv[++i]; one_idx = strtoull(argv[++i], 0, 10); }
    else if (!strcmp(argv[i], "--quiet")) quiet = true;
    else if (!strcmp(argv[i], "--merge")) {                      // --merge f1 f2 ... : count distinct 64-bit hashes
      std::vector<uint64_t> all;
      for (int j = i + 1; j < argc; ++j) { std::ifstream f(argv[j], std::ios::binary); uint64_t h; while (f.read((char *)&h, 8)) all.push_back(h); }
      std::sort(all.begin(), all.end()); all.erase(std::unique(all.begin(), all.end()), all.end());
      printf("%zu\n", all.size()); return 0;
    }
    else if (!strcmp(argv[i], "--list")) { for (auto &p : registry()) printf("%s %g\n", p.name, p.weight); return 0; }
  }
  (void)trace_idx;
  auto &props = registry();
  std::sort(props.begin(), props.end(), [](const Prop &a, const Prop &b) { return strcmp(a.name, b.name) < 0; });
  install();
  int err = dup(2);
  if (quiet) { int n = open("/dev/null", O_WRONLY); dup2(n, 2); }

  if (rep) {                                                       // file: prop name, count, choices (plain text)
    std::ifstream f(rep); std::string name; size_t n = 0; f >> name >> n; std::vector<uint64_t> ch(n); for (auto &x : ch) f >> x;
    for (auto &p : props) if (name == p.name) {
      arm(60); std::string log; Result r = replay(p, ch, true, &log, nullptr);
      printf("%s%s\n", log.c_str(), r.failed ? ("FAILED: " + r.msg).c_str() : "PASSED"); return r.failed ? 1 : 0; }
    printf("no property %s\n", name.c_str()); return 2;
  }

  Progress *pg = nullptr;
  if (prog) { int fd = open(prog, O_RDWR | O_CREAT, 0600); if (ftruncate(fd, sizeof(Progress))) {} pg = (Progress *)mmap(0, sizeof(Progress), PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0); }

  struct Stat { uint64_t n = 0, nt = 0; std::map<std::string, uint64_t> labels; std::vector<std::string> samples; };
  std::map<std::string, Stat> stats;
  std::vector<uint64_t> hs; std::unordered_set<uint64_t> seen;
  std::string fails; int nfail = 0; bool timedout = false;
  auto t0 = std::chrono::steady_clock::now();

  if (one_prop) {
    for (auto &p : props) if (!strcmp(p.name, one_prop)) {
      Case c; c.rng = mix64(seed * 0x9E3779B97F4A7C15ull ^ mix64(hash_str(p.name) + one_idx)); arm(60);
      Result r = run_case(p, c); printf("%s %zu", p.name, c.choices.size()); for (auto x : c.choices) printf(" %llu", (unsigned long long)x); printf("\n%s\n", r.msg.c_str()); return r.failed;
    }
    return 2;
  }

  for (auto &p : props) {
    if (only && !strstr(p.name, only)) continue;
    if (exact && strcmp(p.name, exact)) continue;
    Stat &st = stats[p.name];
    uint64_t total = (uint64_t)(cases * p.weight); if (!total) total = 1;
    bool stop = false;
    arm(60);
    for (uint64_t idx = shard; idx < total && !stop; idx += shards) {
      if ((idx & 255) == (shard & 255)) {
        arm(60);
        if (maxsec > 0 && std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count() > maxsec) { timedout = true; break; }
      }
      Case c; c.rng = mix64(seed * 0x9E3779B97F4A7C15ull ^ mix64(hash_str(p.name) + idx));
      if (pg) { if (!pg->active || strcmp(pg->prop, p.name)) { strncpy(pg->prop, p.name, 95); } pg->idx = idx; pg->active = 1; }
      Result r = run_case(p, c);
      st.n++;
      if (c.nontriv) st.nt++;
      for (int i = 0; i < c.nlabels; ++i) st.labels[c.labels[i]]++;
      if (c.nontriv) { uint64_t h = hash_str(p.name); for (auto x : c.choices) h = mix64(h ^ x) + h; if (seen.insert(h).second) hs.push_back(h); }
      if (r.failed) {
        std::vector<uint64_t> best; std::string log; bool again = true;
        { Result r2 = replay(p, c.choices, false, nullptr, nullptr); again = r2.failed; }
        best = again ? shrink(p, c.choices) : c.choices;
        Result rr = replay(p, best, true, &log, nullptr);
        if (!rr.failed) { best = c.choices; rr = replay(p, best, true, &log, nullptr); }
        if (nfail++) fails += ",\n";
        fails += "{\"prop\":" + jstr(p.name) + ",\"idx\":" + std::to_string(idx) + ",\"message\":" + jstr(rr.failed ? rr.msg : r.msg) + ",\"log\":" + jstr(log) + ",\"choices\":" + jlist(best) + ",\"reproduced\":" + (rr.failed ? "true" : "false") + "}";
        stop = true;
      } else if (c.nontriv && (st.samples.size() < 2 || (st.samples.size() < 4 && idx > total / 2))) {
        std::string log; replay(p, c.choices, true, &log, nullptr); if (log.size() > 1200) log = log.substr(0, 1200) + "...";
        st.samples.push_back(log);
      }
    }
  }
  arm(0);
  if (pg) pg->active = 0;
  if (hashes) { std::ofstream f(hashes, std::ios::binary); f.write((const char *)hs.data(), hs.size() * 8); }
  std::string js = "{\"props\":{"; bool first = true;
  for (auto &[n, s] : stats) {
    js += (first ? "" : ",\n") + jstr(n) + ":{\"n\":" + std::to_string(s.n) + ",\"nontrivial\":" + std::to_string(s.nt) + ",\"labels\":{"; first = false;
    bool f2 = true; for (auto &[l, k] : s.labels) { js += (f2 ? "" : ",") + jstr(l) + ":" + std::to_string(k); f2 = false; }
    js += "},\"samples\":["; f2 = true; for (auto &x : s.samples) { js += (f2 ? "" : ",") + jstr(x); f2 = false; }
    js += "]}";
  }
  js += "},\"timedout\":" + std::string(timedout ? "true" : "false") + ",\"failures\":[" + fails + "]}\n";
  if (out) { std::ofstream f(out); f << js; } else fputs(js.c_str(), stdout);
  (void)err;
  return nfail ? 1 : 0;
}

