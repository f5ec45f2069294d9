// Driver: seeded search, exact replay, and minimisation.  Every simulated run is one process, so
// that nothing survives from one run to the next, and a crash or hang is just an outcome.
#include <fcntl.h>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/wait.h>
#include <unistd.h>

#include <chrono>
#include <csignal>
#include <fstream>
#include <iostream>
#include <set>
#include <sstream>
#include <unordered_set>

#include "oracle.h"
#include "world.h"

#if defined(__has_feature)
#if __has_feature(address_sanitizer)
#define SIM_ASAN 1
extern "C" const char* __asan_default_options() {
  return "detect_leaks=0:abort_on_error=0:exitcode=77:allocator_may_return_null=1:detect_stack_use_after_return=1:symbolize=0";
}
extern "C" const char* __ubsan_default_options() { return "print_stacktrace=0:exitcode=77:symbolize=0"; }
#endif
#endif

static double Now() {
  return std::chrono::duration<double>(std::chrono::steady_clock::now().time_since_epoch()).count();
}
static std::string ReadFile(const std::string& p) {
  std::ifstream f(p, std::ios::binary);
  std::stringstream s;
  s << f.rdbuf();
  return s.str();
}
static Dict LoadDict(const std::string& path) {
  Dict d;
  std::ifstream f(path);
  std::string k, v;
  while (f >> k >> v) {
    if (k == "f") d.f.push_back(strtod(v.c_str(), nullptr));
    if (k == "n") d.n.push_back(atoi(v.c_str()));
  }
  return d;
}

static int g_err_fd = -1;
static int g_cpu_limit = 8;
struct Outcome {
  bool violated = false, slow = false;
  std::string cls, msg;
};
static void ChildSetup() {
  rlimit r{static_cast<rlim_t>(g_cpu_limit), static_cast<rlim_t>(g_cpu_limit + 2)};
  setrlimit(RLIMIT_CPU, &r);
  rlimit c{0, 0};
  setrlimit(RLIMIT_CORE, &c);
#ifndef SIM_ASAN
  rlimit a{rlim_t(3) << 30, rlim_t(3) << 30};
  setrlimit(RLIMIT_AS, &a);
#endif
  alarm(240);
  if (ftruncate(g_err_fd, 0)) {}
  lseek(g_err_fd, 0, SEEK_SET);
  dup2(g_err_fd, 2);
}
static void ChildRun(const PropDef& d, const Trace& t) {
  Stats& s = *g_stats;
  s.sim_time += t.sim_span;
  s.faults[F_LOSS] += t.lost;
  s.trace_hash = TraceHash(t);
  try {
    d.check(t);
  } catch (const Violation& v) {
    s.violated = 1;
    snprintf(s.cls, sizeof s.cls, "%s", v.cls.c_str());
    snprintf(s.msg, sizeof s.msg, "%s", v.msg.c_str());
  }
}
static Outcome Wait(pid_t pid) {
  int st = 0;
  waitpid(pid, &st, 0);
  Outcome o;
  Stats& s = *g_stats;
  if (WIFEXITED(st) && WEXITSTATUS(st) == 0) {
    if (s.violated) {
      o.violated = true;
      o.cls = s.cls;
      o.msg = s.msg;
    }
    return o;
  }
  char buf[4096] = {0};
  if (pread(g_err_fd, buf, sizeof buf - 1, 0) < 0) buf[0] = 0;
  std::string err = buf;
  o.violated = true;
  if (WIFSIGNALED(st) && (WTERMSIG(st) == SIGXCPU || WTERMSIG(st) == SIGALRM || WTERMSIG(st) == SIGKILL)) {
    // Only the library's own time counts; a run that is long as a whole decides nothing.
    bool alone = s.clock.inside && (WTERMSIG(st) != SIGXCPU || s.clock.since < g_cpu_limit * .5);
    o.slow = true;
    o.violated = alone;
    o.cls = alone ? "hang" : "";
    o.msg = alone ? "the call did not return within the time limit" : "long run";
  } else if (err.find("SIM-OUT-OF-MEMORY") != std::string::npos) {
    o.slow = true;
    o.violated = false;
    o.msg = "the simulation ran out of memory";
  } else if (err.find("SIM-STEP-LIMIT") != std::string::npos) {
    o.cls = "hang";
    o.msg = "the call did not return within the step limit";
  } else if (err.find("runtime error") != std::string::npos) {
    o.cls = "undefined-behaviour";
    size_t p = err.find("runtime error"), q = err.rfind('\n', p);
    o.msg = err.substr(q == std::string::npos ? 0 : q + 1, 400);
  } else if (err.find("AddressSanitizer") != std::string::npos) {
    o.cls = "memory-error";
    size_t p = err.find("AddressSanitizer");
    o.msg = err.substr(p, 400);
  } else {
    o.cls = "crash";
    o.msg = WIFSIGNALED(st) ? std::string("killed by signal ") + strsignal(WTERMSIG(st)) : "exit status " + std::to_string(WEXITSTATUS(st));
    if (!err.empty()) o.msg += ": " + err.substr(0, 400);
  }
  for (char& c : o.msg) if (c == '\n' || static_cast<unsigned char>(c) < 32) c = ' ';
  return o;
}
static Outcome RunTrace(const PropDef& d, const Trace& t) {
  memset(g_stats, 0, sizeof(Stats));
  fflush(stdout);
  pid_t pid = fork();
  if (pid == 0) {
    ChildSetup();
    ChildRun(d, t);
    _exit(0);
  }
  return Wait(pid);
}
static Outcome RunSeed(const PropDef& d, uint64_t seed, const Dict& dict) {
  memset(g_stats, 0, sizeof(Stats));
  fflush(stdout);
  pid_t pid = fork();
  if (pid == 0) {
    ChildSetup();
    Trace t = d.gen(seed, d, dict);
    ChildRun(d, t);
    _exit(0);
  }
  return Wait(pid);
}
// Generation may execute the library (allocation faults are placed by a dry run): do it apart.
Trace GenPlain(uint64_t seed, const PropDef& d, const Dict& dict);
// If a dry run itself crashes or hangs, the trace it was running is the one that is reported.
void (*g_gen_note)(const Trace&) = nullptr;
static int g_gen_fd = -1;
static void KeepTrace(const Trace& t) {
  std::string s = TraceToText(t);
  if (ftruncate(g_gen_fd, 0)) _exit(1);
  lseek(g_gen_fd, 0, SEEK_SET);
  size_t off = 0;
  while (off < s.size()) {
    ssize_t n = write(g_gen_fd, s.data() + off, s.size() - off);
    if (n <= 0) _exit(1);
    off += n;
  }
}
static bool SafeGen(const PropDef& d, uint64_t seed, const Dict& dict, Trace* out) {
  int fd = memfd_create("gen", 0);
  fflush(stdout);
  pid_t pid = fork();
  if (pid == 0) {
    ChildSetup();
    g_gen_fd = fd;
    g_gen_note = KeepTrace;
    KeepTrace(d.gen(seed, d, dict));
    _exit(0);
  }
  int st;
  waitpid(pid, &st, 0);
  bool ok;
  {
    std::string s;
    char buf[65536];
    lseek(fd, 0, SEEK_SET);
    ssize_t n;
    while ((n = read(fd, buf, sizeof buf)) > 0) s.append(buf, n);
    ok = TraceFromText(s, out);
  }
  close(fd);
  if (!ok) *out = GenPlain(seed, d, dict);
  return ok;
}

static std::string Esc(const std::string& s) {
  std::string o;
  for (char c : s) {
    if (c == '"' || c == '\\') o += '\\';
    if (static_cast<unsigned char>(c) < 32) { o += ' '; continue; }
    o += c;
  }
  return o;
}

static int Explore(const PropDef& d, uint64_t seed0, int worker, int nworkers, double budget,
                   uint64_t maxruns, const std::string& out, const Dict& dict) {
  double t0 = Now();
  Stats tot;
  memset(&tot, 0, sizeof tot);
  uint64_t runs = 0, slow = 0, det_checks = 0, det_bad = 0, nontrivial = 0, max_ops = 0;
  std::unordered_set<uint64_t> states, traces, nt_traces;
  std::vector<std::string> samples;
  std::string viol;
  std::vector<std::pair<uint64_t, uint64_t>> curve;  // runs, distinct states
  uint64_t last_seed = 0;
  for (uint64_t k = 0; runs < maxruns; ++k) {
    if (Now() - t0 > budget) break;
    uint64_t seed = seed0 + worker + k * nworkers;
    last_seed = seed;
    Outcome o = RunSeed(d, seed, dict);
    if (o.slow || (o.violated && o.cls == "hang")) {  // a hang or just a long run?
      ++slow;
      int keep = g_cpu_limit;
      g_cpu_limit *= 12;
      o = RunSeed(d, seed, dict);
      g_cpu_limit = keep;
    }
    Stats s = *g_stats;
    ++runs;
    if (o.violated) {
      Trace t;
      SafeGen(d, seed, dict, &t);
      std::ofstream f(out + ".trace");
      f << "# class " << o.cls << "\n# " << o.msg << "\n" << TraceToText(t);
      viol = "{\"seed\":" + std::to_string(seed) + ",\"cls\":\"" + Esc(o.cls) + "\",\"msg\":\"" + Esc(o.msg) + "\"}";
    }
    tot.ops += s.ops; tot.accepted += s.accepted; tot.refused += s.refused;
    tot.predictions += s.predictions; tot.results += s.results; tot.checks += s.checks;
    tot.skipped += s.skipped; tot.twins += s.twins; tot.sim_time += std::isfinite(s.sim_time) ? s.sim_time : 0;
    for (int i = 0; i < NFAULT; ++i) tot.faults[i] += s.faults[i];
    for (int i = 0; i < NPROBE; ++i) tot.probes[i] += s.probes[i];
    max_ops = std::max<uint64_t>(max_ops, s.ops);
    if (traces.size() < 4000000) traces.insert(s.trace_hash);
    if (s.nontrivial) { ++nontrivial; if (nt_traces.size() < 4000000) nt_traces.insert(s.trace_hash); }
    if (states.size() < 4000000)
      for (uint32_t i = 0; i < s.n_states; ++i) states.insert(s.states[i]);
    if (samples.size() < 2 && s.nontrivial && runs > 3) {
      char b[300];
      snprintf(b, sizeof b, "{\"seed\":%llu,\"trace_hash\":\"%016llx\",\"calls\":%llu,\"accepted\":%llu,\"results\":%llu,\"outcome_hash\":\"%016llx\"}",
               (unsigned long long)seed, (unsigned long long)s.trace_hash, (unsigned long long)s.ops, (unsigned long long)s.accepted, (unsigned long long)s.results, (unsigned long long)s.outcome_hash);
      samples.push_back(b);
    }
    if ((runs & (runs - 1)) == 0) curve.push_back({runs, states.size()});
    if (!viol.empty()) break;
    if (k % 64 == 5) {  // the same seed again must be the same execution
      RunSeed(d, seed, dict);
      ++det_checks;
      if (g_stats->trace_hash != s.trace_hash || g_stats->outcome_hash != s.outcome_hash) ++det_bad;
    }
  }
  double el = Now() - t0;
  std::ofstream f(out + ".json");
  f << "{\"runs\":" << runs << ",\"elapsed\":" << el << ",\"ops\":" << tot.ops << ",\"accepted\":" << tot.accepted
    << ",\"refused\":" << tot.refused << ",\"predictions\":" << tot.predictions << ",\"results\":" << tot.results
    << ",\"slow\":" << slow << ",\"checks\":" << tot.checks << ",\"skipped\":" << tot.skipped << ",\"twins\":" << tot.twins
    << ",\"nontrivial\":" << nontrivial << ",\"max_ops\":" << max_ops << ",\"sim_time\":" << tot.sim_time
    << ",\"det_checks\":" << det_checks << ",\"det_bad\":" << det_bad << ",\"last_seed\":" << last_seed << ",\"faults\":{";
  bool first = true;
  for (int i = 1; i < NFAULT; ++i)
    if (tot.faults[i]) { f << (first ? "" : ",") << "\"" << kFaultNames[i] << "\":" << tot.faults[i]; first = false; }
  f << "},\"probes\":{";
  // names were registered in the children; recover them from the table kept in shared memory
  extern char (*g_probe_table)[96];
  first = true;
  for (int i = 0; i < NPROBE; ++i)
    if (tot.probes[i]) { f << (first ? "" : ",") << "\"" << Esc(g_probe_table[i]) << "\":" << tot.probes[i]; first = false; }
  f << "},\"samples\":[";
  for (size_t i = 0; i < samples.size(); ++i) f << (i ? "," : "") << samples[i];
  f << "],\"curve\":[";
  for (size_t i = 0; i < curve.size(); ++i) f << (i ? "," : "") << "[" << curve[i].first << "," << curve[i].second << "]";
  f << "],\"violation\":" << (viol.empty() ? "null" : viol) << "}\n";
  f.close();
  auto dump = [&](const char* ext, const std::unordered_set<uint64_t>& s) {
    std::ofstream b(out + ext, std::ios::binary);
    for (uint64_t h : s) b.write(reinterpret_cast<const char*>(&h), 8);
  };
  dump(".states", states);
  dump(".traces", nt_traces);
  return viol.empty() ? 0 : 1;
}

// ------------------------------------------------------------------ minimisation
static bool Still(const PropDef& d, const Trace& t, const std::string& cls) {
  Outcome o = RunTrace(d, t);
  return o.violated && o.cls == cls;
}
static Trace Shrink(const PropDef& d, Trace t, const std::string& cls, double budget) {
  double t0 = Now();
  auto late = [&] { return Now() - t0 > budget; };
  bool progress = true;
  auto attempt = [&](const Trace& c) {
    if (late()) return false;
    if (!Still(d, c, cls)) return false;
    t = c;
    progress = true;
    return true;
  };
  while (progress && !late()) {
    progress = false;
    // whole instances
    for (int k = 0; k < t.n_inst && t.n_inst > 1; ++k) {
      Trace c = t;
      c.ops.clear();
      for (const Op& o : t.ops) if (o.inst != k) c.ops.push_back(o);
      if (c.ops.size() != t.ops.size()) attempt(c);
    }
    // calls
    for (size_t chunk = std::max<size_t>(1, t.ops.size() / 2);; chunk = chunk / 2) {
      for (size_t i = 0; i < t.ops.size() && !late();) {
        Trace c = t;
        size_t e = std::min(c.ops.size(), i + chunk);
        c.ops.erase(c.ops.begin() + i, c.ops.begin() + e);
        if (!attempt(c)) i += chunk;
      }
      if (chunk <= 1) break;
    }
    // preemptions
    for (size_t chunk = std::max<size_t>(1, t.sched.size() / 4);; chunk = chunk / 2) {
      for (size_t i = 0; i + 1 < t.sched.size() && !late();) {
        Trace c = t;
        size_t e = std::min(c.sched.size(), i + 2 * chunk);
        c.sched.erase(c.sched.begin() + i, c.sched.begin() + e);
        if (!attempt(c)) i += 2 * chunk;
      }
      if (chunk <= 1) break;
    }
    // parameters
    Par def = DefaultPar();
    for (size_t i = 0; i < t.params.size(); ++i) {
      bool used = false;
      for (const Op& o : t.ops) used = used || (o.k == OP_RESETP && o.par == static_cast<int>(i));
      if (!used) { t.params[i] = def; continue; }
      for (int f = 0; f < NPF && !late(); ++f) {
        if (!SameF(t.params[i][f], def[f])) {
          Trace c = t;
          c.params[i][f] = def[f];
          // Do not leave the domain: a stable spring stays stable.
          if (StableRho(t.params[i], 1 / t.params[i][SP_RATE]) <= 1 && !(StableRho(c.params[i], 1 / c.params[i][SP_RATE]) <= 1)) continue;
          attempt(c);
        }
      }
    }
    // values
    for (size_t i = 0; i < t.ops.size() && !late(); ++i) {
      auto tweak = [&](auto fn) {
        Trace c = t;
        fn(c.ops[i]);
        if (TraceHash(c) != TraceHash(t)) attempt(c);
      };
      tweak([](Op& o) { o.buf = 0; });
      if (t.ops[i].k != OP_UPDATE) continue;
      tweak([](Op& o) { o.in.p = -1; });
      tweak([](Op& o) { o.in.ti = -1; });
      tweak([](Op& o) { o.in.o = -1; });
      tweak([](Op& o) { o.in.y = 0; });
      tweak([](Op& o) { if (std::isfinite(o.in.x)) o.in.x = std::round(o.in.x); });
      tweak([](Op& o) { if (std::isfinite(o.in.y)) o.in.y = std::round(o.in.y); });
      tweak([](Op& o) { if (std::isfinite(o.in.t)) o.in.t = std::round(o.in.t * 1000) / 1000; });
    }
  }
  return t;
}

char (*g_probe_table)[96] = nullptr;

int main(int argc, char** argv) {
  g_stats = static_cast<Stats*>(mmap(nullptr, sizeof(Stats), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0));
  g_call_clock = &g_stats->clock;
  g_probe_table = static_cast<char(*)[96]>(mmap(nullptr, NPROBE * 96, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0));
  g_err_fd = memfd_create("stderr", 0);
  if (const char* e = getenv("SIM_CPU")) g_cpu_limit = atoi(e);
  std::string mode = argc > 1 ? argv[1] : "";
  if (mode == "list") {
    for (auto& p : Props()) puts(p.id);
    return 0;
  }
  if (mode == "explore" && argc == 10) {
    const PropDef* d = FindProp(argv[2]);
    if (!d) return 2;
    return Explore(*d, strtoull(argv[3], nullptr, 10), atoi(argv[4]), atoi(argv[5]), atof(argv[6]),
                   strtoull(argv[7], nullptr, 10), argv[8], LoadDict(argv[9]));
  }
  if (mode == "gen" && argc == 5) {  // PROP seed dict
    const PropDef* d = FindProp(argv[2]);
    if (!d) return 2;
    Trace t;
    SafeGen(*d, strtoull(argv[3], nullptr, 10), LoadDict(argv[4]), &t);
    fputs(TraceToText(t).c_str(), stdout);
    return 0;
  }
  if (mode == "run" && argc >= 3) {
    Trace t;
    if (!TraceFromText(ReadFile(argv[2]), &t)) { fprintf(stderr, "bad trace\n"); return 2; }
    const PropDef* d = FindProp(argc > 3 ? argv[3] : t.prop);
    if (!d) return 2;
    Outcome o = RunTrace(*d, t);
    printf("trace %016llx outcome %016llx calls %llu\n", (unsigned long long)g_stats->trace_hash, (unsigned long long)g_stats->outcome_hash, (unsigned long long)g_stats->ops);
    if (o.violated) {
      printf("VIOLATED class=%s %s\n", o.cls.c_str(), o.msg.c_str());
      return 1;
    }
    puts("held");
    return 0;
  }
  if (mode == "show" && argc >= 3) {  // execute and print every call
    Trace t;
    if (!TraceFromText(ReadFile(argv[2]), &t)) return 2;
    Session s(t.n_inst, 0xA5);
    int i = 0;
    for (const Op& o : t.ops) {
      Call c = s.Do(o, t.params);
      printf("%d %s inst=%d %s -> code %d, %zu results\n", i++, kKindNames[o.k], o.inst, o.k == OP_UPDATE ? InStr(o.in).c_str() : "", c.code, c.out.size());
      for (auto& r : c.out) printf("      %s\n", ResStr(r).c_str());
    }
    return 0;
  }
  if (mode == "shrink" && argc == 5) {  // in out seconds
    Trace t;
    if (!TraceFromText(ReadFile(argv[2]), &t)) return 2;
    const PropDef* d = FindProp(t.prop);
    if (!d) return 2;
    Outcome o = RunTrace(*d, t);
    if (!o.violated) return 3;
    Trace m = Shrink(*d, t, o.cls, atof(argv[4]));
    o = RunTrace(*d, m);
    std::ofstream f(argv[3]);
    f << "# property " << m.prop << " violated, class " << o.cls << "\n# " << o.msg << "\n# from seed " << m.seed << ", " << t.ops.size() << " calls minimised to " << m.ops.size() << "\n"
      << TraceToText(m);
    return 0;
  }
  fprintf(stderr, "usage: sim list | explore PROP seed worker nworkers secs maxruns out dict | gen PROP seed dict | run FILE | show FILE | shrink IN OUT secs\n");
  return 2;
}
