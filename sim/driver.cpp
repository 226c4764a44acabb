// Seeded search over runs, gate, minimiser, replay and evidence.
#include "rt.h"
#include "work.h"
#include <errno.h>
#include <fcntl.h>
#include <signal.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <time.h>
#include <unistd.h>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/wait.h>
#include <sys/personality.h>
#include <algorithm>
#include <atomic>
#include <fstream>
#include <iostream>
#include <set>
#include <sstream>

using namespace sim;

static const char* counterName[] = {
#define X(n) #n,
  SIM_COUNTERS(X)
#undef X
};
static double wall() { struct timespec ts; ::syscall(SYS_clock_gettime, CLOCK_MONOTONIC, &ts); return ts.tv_sec + ts.tv_nsec * 1e-9; }
template <class T> static T* shared(size_t n = 1) {
  void* p = mmap(nullptr, sizeof(T) * n, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
  if (p == MAP_FAILED) { perror("mmap"); exit(2); }
  return (T*)p;
}
static unsigned g_cpuLimit = 20, g_wallLimit = 100;
static const Workload* g_work;
static bool g_chatty = getenv("SIM_VERBOSE") && *getenv("SIM_VERBOSE");

static void resetResult(Result* r) {
  r->status = ST_NONE; r->kind[0] = 0; r->detail[0] = 0; r->hash = 0; r->ilv = 0; r->steps = r->simns = 0;
  r->ntape = r->nsched = r->loglen = r->nontrivial = r->schedOverflow = 0; r->log[0] = 0;
  memset(r->counters, 0, sizeof r->counters);
}
// One simulated execution in a forked child.
__attribute__((noinline)) static void cleanStack() {
  char b[512 << 10];
  memset(b, 0, sizeof b);
  __asm__ volatile("" : : "r"(b) : "memory");
}
static void runChild(const RunInput& in, Result* res) {
  resetResult(res);
  fflush(nullptr);
  pid_t pid = fork();
  if (pid < 0) { perror("fork"); exit(2); }
  if (pid == 0) {
    struct rlimit rl{g_cpuLimit, g_cpuLimit + 5}; setrlimit(RLIMIT_CPU, &rl);
    struct rlimit core{0, 0}; setrlimit(RLIMIT_CORE, &core);
    if (!g_chatty) { int n = open("/dev/null", O_WRONLY); if (n >= 0) { dup2(n, 2); close(n); } }   // libtiff's warnings
    g_in = in; g_res = res;
    cleanStack();
    arm();
    g_work->run();
    if (liveThreads()) violate("thread-left", "%d threads still alive at the end of the run", liveThreads());
    res->status = ST_OK; res->steps = g_step; res->simns = now() - 1000000000ull;
    _exit(0);
  }
  double t0 = wall();
  int st = 0;
  for (useconds_t us = 200;;) {
    pid_t k = waitpid(pid, &st, WNOHANG);
    if (k == pid) break;
    if (k < 0 && errno != EINTR) break;
    if (wall() - t0 > g_wallLimit) {
      kill(pid, SIGKILL); waitpid(pid, &st, 0);
      res->status = ST_ERROR; snprintf(res->detail, sizeof res->detail, "run exceeded the wall clock watchdog");
      return;
    }
    usleep(us); if (us < 2000) us += 100;
  }
  if (res->status == ST_NONE) {
    // exit() called by the code under test, a kill, or a crash inside the crash handler
    if (WIFEXITED(st)) { res->status = ST_VIOLATION; snprintf(res->kind, sizeof res->kind, "exited"); snprintf(res->detail, sizeof res->detail, "the process ended with exit(%d) in the middle of the run", WEXITSTATUS(st)); }
    else if (WTERMSIG(st) == SIGKILL) { res->status = ST_ERROR; snprintf(res->detail, sizeof res->detail, "run was killed (memory?)"); }
    else { res->status = ST_VIOLATION; snprintf(res->kind, sizeof res->kind, "crash"); snprintf(res->detail, sizeof res->detail, "signal %d", WTERMSIG(st)); }
  }
}
static bool cpuKind(const Result* r) { return !strcmp(r->kind, "no-progress") && strstr(r->detail, "cpu budget"); }
static bool sameOutcome(const Result* a, const Result* b) {
  if (a->status != b->status || strcmp(a->kind, b->kind)) return false;
  if (cpuKind(a)) return true;
  return a->hash == b->hash;
}

// ---- known findings -----------------------------------------------------------------------------
struct Known { std::string prop, kind, match, what; };
static std::vector<Known> g_known;
static void loadKnown(const char* path) {
  std::ifstream f(path);
  std::string l;
  while (std::getline(f, l)) {
    if (l.compare(0, 6, "known:")) continue;
    Known k; auto get = [&](const char* key) { size_t p = l.find(std::string(key) + "=["); if (p == std::string::npos) return std::string(); p += strlen(key) + 2; return l.substr(p, l.find(']', p) - p); };
    k.prop = get("property"); k.kind = get("kind"); k.match = get("match"); k.what = get("what");
    g_known.push_back(k);
  }
}
static int knownIndex(const char* prop, const Result* r) {
  for (size_t i = 0; i < g_known.size(); ++i)
    if (g_known[i].prop == prop && g_known[i].kind == r->kind && strstr(r->detail, g_known[i].match.c_str())) return (int)i;
  return -1;
}

// ---- workers ------------------------------------------------------------------------------------
enum { MAXRUNS = 1 << 21, NSAMPLE = 4 };
struct Shared {
  std::atomic<uint64_t> next, done, stop, errors, nondet, repeated, nontrivial;
  std::atomic<uint64_t> knownHits[32];
  std::atomic<uint64_t> steps, simns, tapeLen, mtRuns;
  std::atomic<uint64_t> counters[COUNTER_COUNT], runsWith[COUNTER_COUNT];
  std::atomic<uint64_t> violIdx;      // lowest index with a violation
  char errText[1024];
  char sample[NSAMPLE][2600]; uint64_t sampleIdx[NSAMPLE];
};
static Shared* S;
static uint64_t* H;      // trace hash per run (0: not nontrivial)
static uint64_t* I;      // interleaving hash per run
static uint64_t runSeed(uint64_t base, const char* prop, uint64_t i) {
  uint64_t h = base * 0x9e3779b97f4a7c15ull + 12345;
  for (const char* p = prop; *p; ++p) h = mix(h ^ (unsigned char)*p);
  return mix(h ^ (i + 1) * 0xd1342543de82ef95ull);
}
static void worker(uint64_t base, const char* prop, const char* tier, uint64_t maxRuns, double deadline) {
  Result* r = shared<Result>(); Result* r2 = shared<Result>();
  for (;;) {
    if (S->stop || wall() > deadline) break;
    uint64_t i = S->next++;
    if (i >= maxRuns || i >= MAXRUNS) break;
    RunInput in; in.seed = runSeed(base, prop, i); in.tier = tier; in.index = i;
    runChild(in, r);
    if (r->status == ST_ERROR) { S->errors++; snprintf(S->errText, sizeof S->errText, "run %llu seed %llu: %s", (unsigned long long)i, (unsigned long long)in.seed, r->detail); S->stop = 1; break; }
    bool rep = i % 16 == 7;
    if (rep) {
      runChild(in, r2); S->repeated++;
      if (!sameOutcome(r, r2)) { S->nondet++; snprintf(S->errText, sizeof S->errText, "run %llu seed %llu is not repeatable: %d %s %llx / %d %s %llx", (unsigned long long)i, (unsigned long long)in.seed, r->status, r->kind, (unsigned long long)r->hash, r2->status, r2->kind, (unsigned long long)r2->hash); S->stop = 1; break; }
    }
    S->done++;
    S->steps += r->steps; S->simns += r->simns; S->tapeLen += r->ntape;
    for (int c = 0; c < COUNTER_COUNT; ++c) if (r->counters[c]) { S->counters[c] += r->counters[c]; S->runsWith[c]++; }
    if (r->nontrivial) { H[i] = r->hash | 1; S->nontrivial++; }
    if (r->ilv) { I[i] = r->ilv | 1; S->mtRuns++; }
    if (i < NSAMPLE) {
      snprintf(S->sample[i], sizeof S->sample[i], "%.2400s", r->log); S->sampleIdx[i] = in.seed;
    }
    if (r->status == ST_VIOLATION) {
      int k = knownIndex(prop, r);
      if (k >= 0) { S->knownHits[k]++; continue; }
      uint64_t cur = S->violIdx;
      while (i < cur && !S->violIdx.compare_exchange_weak(cur, i)) {}
      S->stop = 1;
      break;
    }
  }
}

// ---- minimiser ----------------------------------------------------------------------------------
struct Case { RunInput in; };
static double g_minDeadline;
static uint64_t g_minRuns;
static bool stillFails(const RunInput& in, const char* kind, Result* r) {
  if (wall() > g_minDeadline) return false;
  ++g_minRuns;
  runChild(in, r);
  return r->status == ST_VIOLATION && !strcmp(r->kind, kind) && knownIndex(g_work->id, r) < 0;
}
static void minimise(RunInput& best, const std::string& kind, Result* r) {
  const char* k = kind.c_str();
  auto adopt = [&](RunInput& c) { c.tape.assign(r->tape, r->tape + r->ntape); best = c; };
  bool progress = true;
  for (int round = 0; round < 6 && progress && wall() < g_minDeadline; ++round) {
    progress = false;
    // cut the tail, drop chunks
    for (size_t len = std::max<size_t>(best.tape.size() / 2, 1); len >= 1; len /= 2) {
      for (size_t at = 0; at < best.tape.size();) {
        RunInput c = best; c.tape.erase(c.tape.begin() + at, c.tape.begin() + std::min(c.tape.size(), at + len));
        size_t before = best.tape.size();
        if (stillFails(c, k, r) && r->ntape <= before && !(r->ntape == before && std::equal(best.tape.begin(), best.tape.end(), r->tape))) { adopt(c); progress = true; if (best.tape.size() == before) at += len; }
        else at += len;
        if (wall() > g_minDeadline) break;
      }
      if (len == 1) break;
    }
    // lower chunks and values
    for (size_t len = std::max<size_t>(best.tape.size() / 4, 1); len >= 1; len /= 2) {
      for (size_t at = 0; at < best.tape.size(); at += len) {
        RunInput c = best; bool any = false;
        for (size_t q = at; q < std::min(c.tape.size(), at + len); ++q) if (c.tape[q]) { c.tape[q] = 0; any = true; }
        if (any && stillFails(c, k, r) && r->ntape <= best.tape.size()) { adopt(c); progress = true; }
        if (wall() > g_minDeadline) break;
      }
      if (len == 1) break;
    }
    for (size_t at = 0; at < best.tape.size() && wall() < g_minDeadline; ++at) {
      uint64_t v = best.tape[at];
      uint64_t lo = 0;
      while (v > lo + 1 && wall() < g_minDeadline) {      // bisect towards the smallest failing value
        uint64_t mid = lo + (v - lo) / 2;
        RunInput c = best; c.tape[at] = mid;
        if (stillFails(c, k, r) && r->ntape <= best.tape.size() && at < r->ntape) { adopt(c); progress = true; v = mid; }
        else lo = mid;
        if (at >= best.tape.size()) break;
      }
    }
  }
  // now the schedule
  if (!stillFails(best, k, r)) { double d = g_minDeadline; g_minDeadline = wall() + 120; bool ok = stillFails(best, k, r); g_minDeadline = d; if (!ok) return; }
  if (r->schedOverflow) return;
  RunInput c = best; c.haveSched = true; c.sched.assign(r->sched, r->sched + r->nsched);
  if (!stillFails(c, k, r)) return;
  best = c;
  { RunInput e = best; e.sched.clear(); if (stillFails(e, k, r)) best = e; }
  for (size_t len = std::max<size_t>(best.sched.size() / 2, 1); len >= 1 && !best.sched.empty(); len /= 2) {
    for (size_t at = 0; at < best.sched.size();) {
      RunInput e = best; e.sched.erase(e.sched.begin() + at, e.sched.begin() + std::min(e.sched.size(), at + len));
      if (stillFails(e, k, r)) best = e; else at += len;
      if (wall() > g_minDeadline) return;
    }
    if (len == 1) break;
  }
}

// ---- replay files -------------------------------------------------------------------------------
static void writeReplay(const std::string& path, const RunInput& in, const Result* r, uint64_t origSeed, uint64_t idx) {
  std::ofstream f(path);
  f << "cuttlefish-sim-replay 1\nproperty " << g_work->id << "\nseed " << in.seed << "\ntier " << in.tier << "\nindex " << in.index << "\nkind " << r->kind << "\nhash " << std::hex << r->hash << std::dec
    << "\ntape " << in.tape.size();
  for (uint64_t v : in.tape) f << " " << v;
  f << "\nschedule " << (in.haveSched ? (long)in.sched.size() : -1);
  if (in.haveSched) for (auto& s : in.sched) f << " " << s.step << ":" << s.tid;
  f << "\nend\n# found in run " << idx << " with seed " << origSeed << "\n# violation: " << r->detail << "\n# trace of the minimised run:\n";
  std::istringstream is(r->log);
  std::string l;
  while (std::getline(is, l)) f << "#   " << l << "\n";
}
static bool readReplay(const char* path, RunInput& in, std::string& prop, std::string& kind, uint64_t& hash) {
  std::ifstream f(path);
  std::string w; int ver;
  if (!(f >> w >> ver) || w != "cuttlefish-sim-replay") return false;
  while (f >> w) {
    if (w == "property") f >> prop;
    else if (w == "seed") f >> in.seed;
    else if (w == "tier") f >> in.tier;
    else if (w == "index") f >> in.index;
    else if (w == "kind") f >> kind;
    else if (w == "hash") f >> std::hex >> hash >> std::dec;
    else if (w == "tape") { size_t n; f >> n; in.haveTape = true; in.tape.resize(n); for (auto& v : in.tape) f >> v; }
    else if (w == "schedule") {
      long n; f >> n; in.haveSched = n >= 0;
      for (long i = 0; i < n; ++i) { SchedEnt e{}; char c; f >> e.step >> c >> e.tid; in.sched.push_back(e); }
    } else if (w == "end") return true;
  }
  return false;
}
static std::string jstr(const std::string& s) {
  std::string o = "\"";
  for (unsigned char c : s) {
    if (c == '"' || c == '\\') { o += '\\'; o += c; }
    else if (c == '\n') o += "\\n";
    else if (c < 32 || c > 126) { char b[8]; snprintf(b, sizeof b, "\\u%04x", c); o += b; }
    else o += c;
  }
  return o + "\"";
}

// Confirms, minimises and reports the violation of a run: true if replaying it in a fresh process reproduces it.
static bool report(const std::string& prop, const std::string& tier, uint64_t seed, uint64_t vi, const std::string& replayDir, std::string& replayPath, int& violations) {
  Result* r = shared<Result>(); Result* r2 = shared<Result>();
  RunInput in; in.seed = runSeed(seed, prop.c_str(), vi); in.tier = tier; in.index = vi;
  runChild(in, r); runChild(in, r2);
  if (r->status != ST_VIOLATION || !sameOutcome(r, r2)) {
    printf("note: set aside: the outcome of run %llu (seed %llu) is not repeatable: %s %llx / %s %llx\n", (unsigned long long)vi, (unsigned long long)in.seed, r->kind, (unsigned long long)r->hash, r2->kind, (unsigned long long)r2->hash);
    return false;
  }
  printf("violation in run %llu seed %llu: %s: %s\n", (unsigned long long)vi, (unsigned long long)in.seed, r->kind, r->detail);
  fflush(stdout);
  RunInput whole = in; whole.haveTape = true; whole.tape.assign(r->tape, r->tape + r->ntape);
  RunInput best = whole;
  std::string kind = r->kind;
  size_t tape0 = r->ntape, sched0 = r->nsched;
  g_minDeadline = wall() + (cpuKind(r) ? 0 : 40);
  minimise(best, kind, r2);
  mkdir(replayDir.c_str(), 0755);
  replayPath = replayDir + "/" + prop + "-" + tier + "-" + std::to_string(in.seed) + ".replay";
  char self[4096]; ssize_t n = readlink("/proc/self/exe", self, sizeof self - 1); self[n > 0 ? n : 0] = 0;
  for (int attempt = 0; attempt < 2; ++attempt) {      // the minimised execution, or else the whole one
    if (attempt) best = whole;
    runChild(best, r2);
    if (r2->status != ST_VIOLATION || kind != r2->kind) continue;
    writeReplay(replayPath, best, r2, in.seed, vi);
    // fresh process
    std::string cmd = std::string("'") + self + "' --replay '" + replayPath + "' > /dev/null 2>&1";
    int st = system(cmd.c_str());
    if (!WIFEXITED(st) || WEXITSTATUS(st) != 1) continue;
    printf("minimised in %llu runs: choices %zu -> %zu, schedule switches %zu -> %zu\n%s: %s\n--- trace\n%s---\n", (unsigned long long)g_minRuns, tape0, best.tape.size(), sched0, best.haveSched ? best.sched.size() : sched0, r2->kind, r2->detail, r2->log);
    printf("VIOLATION property=%s replay=%s\n", prop.c_str(), replayPath.c_str());
    fflush(stdout);
    violations = 1;
    return true;
  }
  printf("note: set aside: a fresh process does not reproduce run %llu (seed %llu)\n", (unsigned long long)vi, (unsigned long long)in.seed);
  unlink(replayPath.c_str());
  return false;
}
int main(int argc, char** argv) {
  // the same addresses in every process, where that is allowed
  if (!getenv("SIM_FIXED_ADDRESSES")) {
    int p = personality(0xffffffff);
    setenv("SIM_FIXED_ADDRESSES", "1", 1);
    if (p >= 0 && !(p & ADDR_NO_RANDOMIZE) && personality(p | ADDR_NO_RANDOMIZE) >= 0) { execv("/proc/self/exe", argv); }
  }
  std::string prop, tier = "quick", evidence, replayDir = ".", replay, known;
  uint64_t seed = 1, runs = 0; double budget = 0; int64_t one = -1; unsigned jobs = 8; uint64_t oneSeed = 0; bool haveOneSeed = false;
  for (int i = 1; i < argc; ++i) {
    std::string a = argv[i];
    auto val = [&]() { return std::string(i + 1 < argc ? argv[++i] : ""); };
    if (a == "--property") prop = val(); else if (a == "--tier") tier = val(); else if (a == "--seed") seed = strtoull(val().c_str(), nullptr, 10);
    else if (a == "--runs") runs = strtoull(val().c_str(), nullptr, 10); else if (a == "--budget") budget = atof(val().c_str());
    else if (a == "--evidence") evidence = val(); else if (a == "--replay-dir") replayDir = val(); else if (a == "--replay") replay = val();
    else if (a == "--known") known = val(); else if (a == "--one") one = atoll(val().c_str()); else if (a == "--jobs") jobs = atoi(val().c_str());
    else if (a == "--one-seed") { oneSeed = strtoull(val().c_str(), nullptr, 10); haveOneSeed = true; }
    else { fprintf(stderr, "unknown option %s\n", a.c_str()); return 2; }
  }
  if (!known.empty()) loadKnown(known.c_str());
  RunInput rin; std::string rkind; uint64_t rhash = 0;
  if (!replay.empty() && !readReplay(replay.c_str(), rin, prop, rkind, rhash)) { fprintf(stderr, "cannot read replay file %s\n", replay.c_str()); return 2; }
  for (const Workload* w = workloads(); w->id; ++w) if (prop == w->id) g_work = w;
  if (!g_work) { fprintf(stderr, "no workload for property '%s'\n", prop.c_str()); return 2; }
  g_work->prepare();
  if (!replay.empty()) {
    Result* r = shared<Result>();
    runChild(rin, r);
    printf("replay of %s: status %d kind %s hash %llx\n%s\n--- trace\n%s", replay.c_str(), r->status, r->kind, (unsigned long long)r->hash, r->detail, r->log);
    if (r->status != ST_VIOLATION) { printf("the violation does not occur\n"); return r->status == ST_OK ? 0 : 2; }
    if (rkind != r->kind || (rhash != r->hash && !cpuKind(r))) { printf("NOT the recorded execution (recorded kind %s hash %llx)\n", rkind.c_str(), (unsigned long long)rhash); return 3; }
    printf("VIOLATION property=%s replay=%s\n", prop.c_str(), replay.c_str());
    return 1;
  }
  if (one >= 0 || haveOneSeed) {
    Result* r = shared<Result>();
    RunInput in; in.index = one >= 0 ? one : 0; in.seed = haveOneSeed ? oneSeed : runSeed(seed, prop.c_str(), one); in.tier = tier;
    double t = wall();
    runChild(in, r);
    printf("status %d kind %s hash %llx ilv %llx steps %llu tape %u sched %u nontrivial %u wall %.3f\n%s\n--- trace\n%s", r->status, r->kind, (unsigned long long)r->hash, (unsigned long long)r->ilv, (unsigned long long)r->steps, r->ntape, r->nsched, r->nontrivial, wall() - t, r->detail, r->log);
    return r->status == ST_OK ? 0 : 1;
  }
  bool thorough = tier == "thorough";
  if (!runs) runs = thorough ? MAXRUNS : g_work->quickRuns;
  if (budget <= 0) budget = thorough ? 780 : 150;
  S = shared<Shared>(); H = shared<uint64_t>(MAXRUNS); I = shared<uint64_t>(MAXRUNS);
  S->violIdx = ~0ull;
  printf("property %s tier %s VERIF_SEED %llu: up to %llu runs or %.0f s\n", prop.c_str(), tier.c_str(), (unsigned long long)seed, (unsigned long long)runs, budget);
  fflush(stdout);
  double t0 = wall(), deadline = t0 + budget;
  bool workerDied = false;
  int rc = 0, violations = 0, discarded = 0;
  std::string replayPath;
  double search = 0;
  for (;;) {
    S->stop = 0; S->violIdx = ~0ull; S->errors = 0; S->nondet = 0;
    double t1 = wall();
    std::vector<pid_t> pids;
    for (unsigned j = 0; j < jobs; ++j) {
      pid_t p = fork();
      if (p == 0) { worker(seed, prop.c_str(), tier.c_str(), runs, deadline); _exit(0); }
      if (p < 0) { perror("fork"); return 2; }
      pids.push_back(p);
    }
    for (pid_t p : pids) { int st; waitpid(p, &st, 0); if (!WIFEXITED(st) || WEXITSTATUS(st)) workerDied = true; }
    search += wall() - t1;
    if (workerDied) { fprintf(stderr, "a worker process died\n"); rc = 2; }
    // An execution that cannot be repeated proves nothing: it is reported and set aside, and the search goes on.
    bool again = false;
    if ((S->errors || S->nondet) && S->violIdx == ~0ull) { printf("note: set aside: %s\n", S->errText); again = true; }
    uint64_t vi = S->violIdx;
    if (!rc && vi != ~0ull) again = !report(prop, tier, seed, vi, replayDir, replayPath, violations);
    if (violations) rc = 1;
    if (!again || rc) break;
    if (++discarded > 20 || wall() - t0 > budget + 200) { fprintf(stderr, "error: too many executions cannot be repeated\n"); rc = 2; break; }
    deadline = std::max(deadline, wall());
    fflush(stdout);
  }
  for (size_t k = 0; k < g_known.size(); ++k) if (g_known[k].prop == prop) printf("KNOWN-FINDING: property=%s %s (hit %llu times)\n", prop.c_str(), g_known[k].what.c_str(), (unsigned long long)S->knownHits[k]);
  // ---- evidence
  uint64_t done = S->done;
  std::set<uint64_t> dh, di;
  uint64_t lim = std::min<uint64_t>(S->next, MAXRUNS);
  for (uint64_t i = 0; i < lim; ++i) { if (H[i]) dh.insert(H[i]); if (I[i]) di.insert(I[i]); }
  if (!evidence.empty()) {
    std::ofstream f(evidence);
    f << "{\n \"property\": " << jstr(prop) << ",\n \"tier\": " << jstr(tier) << ",\n \"seed\": " << seed << ",\n \"level\": " << jstr(g_work->level) << ",\n \"coverage\": {\n";
    f << "  \"evaluations\": " << done << ",\n  \"distinct_nontrivial\": " << dh.size() << ",\n  \"rule\": " << jstr(std::string(g_work->rule) + " A run is distinct by the hash of its complete event trace (choices, disk operations, faults, thread switches, results).") << ",\n";
    f << "  \"runs_per_hour\": " << (uint64_t)(search > 0 ? done / search * 3600 : 0) << ",\n  \"seeds_per_hour\": " << (uint64_t)(search > 0 ? done / search * 3600 : 0) << ",\n";
    f << "  \"simulated_seconds\": " << S->simns / 1e9 << ",\n  \"scheduling_points\": " << S->steps << ",\n";
    f << "  \"runs_with_thread_switches\": " << S->mtRuns << ",\n  \"distinct_interleavings\": " << di.size() << ",\n  \"interleaving_measure\": \"hash of the (step, chosen thread) sequence of a run\",\n";
    f << "  \"runs_executed_twice_and_compared\": " << S->repeated << ",\n  \"choices_drawn\": " << S->tapeLen << ",\n  \"executions_set_aside\": " << discarded << ",\n";
    f << "  \"faults_fired\": {"; bool first = true;
    for (int c = 0; c < COUNTER_COUNT; ++c) if (!strncmp(counterName[c], "F_", 2) && S->counters[c]) { f << (first ? "" : ", ") << jstr(counterName[c] + 2) << ": " << S->counters[c]; first = false; }
    f << "},\n  \"rare_conditions_hit\": {"; first = true;
    for (int c = 0; c < COUNTER_COUNT; ++c) if (!strncmp(counterName[c], "P_", 2) && S->counters[c]) { f << (first ? "" : ", ") << jstr(counterName[c] + 2) << ": " << S->counters[c]; first = false; }
    f << "},\n  \"real_components\": " << jstr(g_work->real) << ",\n  \"stubbed_components\": " << jstr(g_work->stub) << ",\n  \"samples\": [";
    for (int i = 0; i < NSAMPLE; ++i) if (S->sampleIdx[i]) f << (i ? ", " : "") << jstr("seed " + std::to_string(S->sampleIdx[i]) + ": " + S->sample[i]);
    f << "]\n },\n \"assumptions\": [" << jstr(g_work->assume) << "],\n \"wall_s\": " << wall() - t0 << ",\n \"violations\": " << violations << "\n}\n";
  }
  printf("%llu runs (%zu distinct nontrivial, %zu distinct interleavings), %.1f s, %llu runs/hour, %llu repeated identically\n", (unsigned long long)done, dh.size(), di.size(), search, (unsigned long long)(search > 0 ? done / search * 3600 : 0), (unsigned long long)(uint64_t)S->repeated);
  if (getenv("SIM_VERBOSE")) for (int c = 0; c < COUNTER_COUNT; ++c) if (S->counters[c]) printf("  %-28s %llu (in %llu runs)\n", counterName[c], (unsigned long long)S->counters[c], (unsigned long long)S->runsWith[c]);
  return rc;
}
