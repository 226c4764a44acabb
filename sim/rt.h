// Simulator runtime: everything nondeterministic that Cuttlefish can reach goes through here.
#pragma once
#include <cstdint>
#include <cstddef>
#include <cstdarg>
#include <string>
#include <vector>
#include <functional>
#include <memory>
#include <map>

// ---- counters ------------------------------------------------------------------------------
// Fault kinds that actually fired (F_*), probes for rare situations (P_*).
#define SIM_COUNTERS(X) \
  X(F_thread_create_eagain) X(F_new_bad_alloc) X(F_fi_null) X(F_fi_false) \
  X(F_open_error) X(F_write_enospc) X(F_write_eio) X(F_write_short) X(F_write_eintr) \
  X(F_close_error) X(F_read_eio) X(F_read_short) X(F_read_eintr) X(F_file_truncated) \
  X(F_lseek_error) X(F_mkdir_error) X(F_power_loss) X(F_mkdir_race) X(F_stat_error) X(F_sink_refused_bytes) \
  X(F_sink_bad_on_entry) X(F_sink_chunked) X(F_source_chunked) X(F_source_truncated) \
  X(F_source_error) X(F_source_nonseekable) X(F_cores_reported) X(F_fsync_error) X(F_rename_error) X(F_process_killed) X(F_write_torn) X(F_preemption) \
  X(P_threads_started) X(P_multi_thread_runs) X(P_forced_switches) X(P_convert_parallel) \
  X(P_convert_serial) X(P_convert_ok) X(P_convert_failed) X(P_convert_threw) X(P_more_threads_than_jobs) \
  X(P_partial_thread_start) X(P_no_thread_started) X(P_retry_ok) X(P_save_ok) X(P_save_write_error) \
  X(P_save_unsupported) X(P_save_unknown) X(P_save_invalid) X(P_fault_at_close) X(P_fault_in_header) \
  X(P_fault_in_data) X(P_fault_in_last_byte) X(P_decode_ok) X(P_first_use_contended) X(P_guard_blocked) X(P_shared_reads) \
  X(P_load_ok) X(P_load_failed) X(P_load_slurped) X(P_reload_ok) X(P_tool_exit0) X(P_tool_exit1) X(P_tool_exit2) \
  X(P_tool_exit3) X(P_dirs_created) X(P_dir_race_lost) X(P_mips_ok) X(P_mips_failed) X(P_mips_threw) X(P_custom_mip_once) \
  X(P_custom_mip_continue) X(P_mips_3d) X(P_refused_op) X(P_failed_op) X(P_ops_total) X(P_image_op_failed) \
  X(P_image_op_threw) X(P_unopenable_dest) X(P_existing_dest) X(P_absent_dest) X(P_huge_surface) \
  X(P_stream_exceptions) X(P_library_failed) X(P_source_corrupt) X(P_history_failed) X(P_history_threw) X(P_leak_checked) X(P_partial_output) X(P_other_property) X(P_self_assign) X(P_faultfree_runs) X(P_reference_checked) X(P_cross_surface_checked)

enum Counter {
#define X(n) n,
  SIM_COUNTERS(X)
#undef X
  COUNTER_COUNT
};

namespace sim {

inline uint64_t mix(uint64_t x) {
  x ^= x >> 30; x *= 0xbf58476d1ce4e5b9ull; x ^= x >> 27; x *= 0x94d049bb133111ebull; x ^= x >> 31; return x;
}
struct Rng {
  uint64_t s;
  explicit Rng(uint64_t seed = 0) : s(seed) {}
  uint64_t next() { s += 0x9e3779b97f4a7c15ull; return mix(s); }
  uint64_t below(uint64_t n) { return n ? next() % n : 0; }
};

struct SchedEnt { uint64_t step; uint32_t tid; uint32_t forced; };

enum { MAX_TAPE = 1 << 15, MAX_SCHED = 1 << 16, MAX_LOG = 1 << 16 };

enum Status { ST_NONE = 0, ST_OK = 1, ST_VIOLATION = 2, ST_ERROR = 3 };

struct Result {            // lives in memory shared with the parent
  int status;
  char kind[64];
  char detail[2048];
  uint64_t hash;           // hash of the complete event trace
  uint64_t ilv;            // hash of the interleaving only
  uint64_t steps;          // scheduling points passed
  uint64_t simns;          // simulated time
  uint32_t ntape, nsched, loglen;
  uint32_t nontrivial;
  uint32_t schedOverflow;
  uint64_t counters[COUNTER_COUNT];
  uint64_t tape[MAX_TAPE];
  SchedEnt sched[MAX_SCHED];
  char log[MAX_LOG];
};
extern Result* g_res;

// ---- run input ------------------------------------------------------------------------------
struct RunInput {
  uint64_t seed = 0;                 // drives the tape (when not replaying) and the scheduler
  bool haveTape = false;
  std::vector<uint64_t> tape;
  bool haveSched = false;            // replay an explicit schedule
  std::vector<SchedEnt> sched;
  std::string tier = "quick";
  uint64_t index = 0;                // number of the run in its batch (diagnostics only)
};
extern RunInput g_in;

// Draw a choice in [0,n); 0 is always the simplest alternative.
uint64_t ch(uint64_t n);
inline bool chance(uint64_t num, uint64_t den) { return ch(den) >= den - num; }   // 0 -> false
int64_t chRange(int64_t lo, int64_t hi);
// log-uniform size in [0,n)
uint64_t chLog(uint64_t n);

void count(Counter c, uint64_t n = 1);
void logf(const char* fmt, ...) __attribute__((format(printf, 1, 2)));
void ev(uint64_t v);                 // add to the event hash
void evs(const char* s);
void nontrivial();
[[noreturn]] void violate(const char* kind, const char* fmt, ...) __attribute__((format(printf, 2, 3)));
struct SoftViolation {};
extern bool g_softViolate;            // what goes wrong now is not what is being checked
extern bool g_memoryOnly;             // only violations that concern memory, races and crashes count
extern bool g_damagedInput;           // the image library is given damaged files, which it does not survive unharmed
extern size_t g_fiLimit;              // largest block the image library can allocate
extern bool g_leaksOnly;              // only violations that concern resources count
[[noreturn]] void fatal(const char* fmt, ...) __attribute__((format(printf, 1, 2)));

// ---- scopes ---------------------------------------------------------------------------------
extern thread_local int t_sut;       // >0 while real Cuttlefish code runs on this thread
extern thread_local int t_fi;        // >0 while inside FreeImage
void freshMemory();                  // what uninitialised stack and heap memory holds differs from call to call
struct Sut { int s; Sut() : s(t_sut) { if (!s) freshMemory(); t_sut = 1; } ~Sut() { t_sut = s; } };
struct Harness { int s, f; Harness() : s(t_sut), f(t_fi) { t_sut = 0; } ~Harness() { t_sut = s; t_fi = f; } };
extern bool g_armed;

// ---- scheduler ------------------------------------------------------------------------------
struct SchedCfg {
  int policy = 0;          // 0 run-to-block, 1 random preemption, 2 PCT, 3 quantum
  uint64_t denom = 64;     // preemption probability 1/denom at memory accesses
  uint64_t syncDenom = 4;  // at synchronisation operations
  int pctDepth = 3; uint64_t pctLen = 10000;
  uint64_t quantum = 50;
  uint64_t stepCap = 200000000ull;
};
extern SchedCfg g_sched;
void drawSched();                    // choose the policy of this run from the tape
void arm();                          // start simulating in this process
void startSchedule();                // call after drawSched
void memRange(const void* p, size_t n, bool write);   // access by code that is not instrumented
int liveThreads();                   // threads alive besides the calling one
uint64_t now();                      // simulated ns
void advance(uint64_t ns);
void schedPoint(int sync);           // explicit scheduling point
struct SimThread;
// Harness threads (caller threads of the scenario).
int spawn(std::function<void()> fn);
void joinAll();
extern unsigned g_cores;             // reported hardware concurrency
extern uint64_t g_step;

// ---- faults ---------------------------------------------------------------------------------
// Thread creation: fail attempts with index in [threadFailAt, threadFailAt+threadFailCount).
extern int64_t g_threadAttempts, g_threadFailAt, g_threadFailCount;
// Allocation through operator new inside Cuttlefish: same.
extern int64_t g_newAttempts, g_newFailAt, g_newFailCount;
// FreeImage calls that can run out of memory: same.
extern int64_t g_fiAttempts, g_fiFailAt, g_fiFailCount;
extern bool g_fiFallback;
extern uint64_t g_newFired, g_threadFired, g_fiFired;
void clearResourceFaults();

// ---- ledger ---------------------------------------------------------------------------------
struct Ledger { uint64_t allocs, bytes, bitmaps, memories, fds, threads; };
Ledger ledger();                     // live resources acquired by Cuttlefish code so far
uint64_t allocMark();                // serial number of the next allocation
// Live allocations made by Cuttlefish code with serial >= mark; fills sizes of the first few.
uint64_t liveSince(uint64_t mark, std::string* desc);

// ---- simulated disk -------------------------------------------------------------------------
namespace fs {
struct Node;
enum OpKind { K_OPEN_R, K_OPEN_W, K_WRITE, K_READ, K_CLOSE_W, K_CLOSE_R, K_LSEEK, K_MKDIR, K_OTHER_MUT, K_STAT, K_FSYNC, K_KINDS };
extern const char* opName[K_KINDS];
struct Rule {
  OpKind kind; int64_t nth; int64_t cnt;     // hits occurrences nth .. nth+cnt-1 of that kind
  int err;                                    // errno to deliver, 0: short transfer, -1: EINTR then retry
  uint64_t arg;                               // short: bytes let through; race: unused
  bool fired;
};
struct OpRec { OpKind kind; std::string path; int64_t result; int err; uint64_t bytes; bool injected; };
void reset();
void clearFaults();
void addRule(OpKind k, int64_t nth, int64_t cnt, int err, uint64_t arg = 0);
void setKill(int64_t nth, uint64_t torn);   // the process dies at its nth change to the disk (a write then gets through in part)
bool killed();
int64_t changes();                          // changes attempted since setKill
void setCapacity(int64_t bytes);              // ENOSPC once that many more bytes were written; <0: unlimited
void setMkdirRace(int64_t nth, bool other);   // the directory appears just before the nth mkdir
int64_t hardFaults();                         // faults fired that must surface as an error
int64_t hardWriteFaults();                    // .. on files open for writing (or opening them)
int64_t hardReadFaults();
int64_t mkdirFaults();
const std::vector<OpRec>& ops();
void clearOps();
bool exists(const std::string& p);
bool isDir(const std::string& p);
bool readFile(const std::string& p, std::vector<uint8_t>& out);
void putFile(const std::string& p, const std::vector<uint8_t>& data);
void makeDir(const std::string& p);
void removeAll(const std::string& p);
void setReadOnlyDir(const std::string& p);    // creating or opening for write below fails with EACCES
std::map<std::string, uint64_t> snapshot();   // path -> content hash (dirs: 1)
int openFds();
uint64_t mutations();                         // number of namespace or content changing operations
uint64_t closesSeen();
}

} // namespace sim
