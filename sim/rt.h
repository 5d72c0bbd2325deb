// Simulator runtime: the environment of the code under test (CUT).
#ifndef SIM_RT_H_
#define SIM_RT_H_
#include <cstddef>
#include <cstdint>
#include <string>
#include <vector>

namespace sim {

// ---- deterministic pseudo randomness -------------------------------------
inline uint64_t mix64(uint64_t x) {
  x += 0x9E3779B97F4A7C15ull;
  x = (x ^ (x >> 30)) * 0xBF58476D1CE4E5B9ull;
  x = (x ^ (x >> 27)) * 0x94D049BB133111EBull;
  return x ^ (x >> 31);
}
inline uint64_t hash2(uint64_t a, uint64_t b) { return mix64(mix64(a) ^ (b * 0xD6E8FEB86659FD93ull)); }
inline uint64_t hash3(uint64_t a, uint64_t b, uint64_t c) { return hash2(hash2(a, b), c); }

struct Rng {
  uint64_t s;
  explicit Rng(uint64_t seed = 0) : s(mix64(seed)) {}
  uint64_t next() { s += 0x9E3779B97F4A7C15ull; return mix64(s); }
  // uniform in [0, n)
  uint64_t below(uint64_t n) { return n ? next() % n : 0; }
  int64_t range(int64_t lo, int64_t hi) { return lo + (int64_t)below((uint64_t)(hi - lo + 1)); }
  bool chance(double p) { return (next() >> 11) * (1.0 / 9007199254740992.0) < p; }
  double unit() { return (next() >> 11) * (1.0 / 9007199254740992.0); }
};

// ---- vocabulary -------------------------------------------------------------
enum Role { R_REFS, R_HYPS, R_QSET, R_QGRP, R_DUMP, R_GRP, R_MRP,
            R_STDIN, R_STDOUT, R_STDERR, R_OTHER, R_HEAP, R_CB, NROLE };
enum Op { OP_OPEN, OP_READ, OP_WRITE, OP_CLOSE, OP_META, OP_ALLOC, OP_CALL, NOP };
extern const char *const kRoleName[NROLE];
extern const char *const kOpName[NOP];
int RoleByName(const std::string &s);
int OpByName(const std::string &s);

// Where a fault strikes: at the n-th call (0-based) of this (role, op), or at
// the first call that touches byte >= n of the stream.
enum Unit { U_CALL, U_BYTE };
// Action: an errno value, or one of these.
enum { ACT_CRASH = 10001, ACT_DIR = 10002, ACT_THROW = 10003 };
struct Fault {
  int role = 0, op = 0, unit = U_CALL;
  uint64_t at = 0;
  int action = 0;
  int sticky = 0;   // 1: every later matching call fails, too
};
// How transfers are cut on a role: mode 0 whole, 1 uniform in [1, maxn],
// 2 exactly maxn. eintr: chance in 1/1000 that a call is interrupted first.
struct Policy {
  int role = 0, op = OP_READ, mode = 0;
  uint64_t maxn = 0, seed = 0;
  int eintr = 0;
};
struct Switch { uint64_t at; int to; };
struct Env {
  uint64_t heap_seed = 1;
  int heap_mode = 0;       // 0 ascending+LIFO reuse, 1 gaps+random reuse, 2 no reuse, 3 descending
  int fill_mode = 0;       // 0 zero, 1 0xFF, 2 random, 3 small integers, 4 pattern
  uint64_t clock_base = 1000000000ull;
  int clock_jumps = 0;
  uint64_t entropy = 7;
  int nprocs = 1;
  uint64_t sched_seed = 0;
  int sched_mem = 0;       // preemption chance at memory accesses, per 2^20
  int sched_op = 0;        // preemption chance at other points, per 1024
  int explicit_sched = 0;  // 1: only the switches listed
  std::vector<Switch> switches;
  int stdin_pipe = 1;
};
struct FileInit { std::string name; int role; std::string data; bool exists; };

struct World {
  std::vector<FileInit> files;
  std::string stdin_data;
  std::vector<Fault> faults;
  std::vector<Policy> policies;
  Env env;
  int proc = 0;                   // which of the processes that run at the same time
  int closed = 0;                 // standard descriptors that are closed from the start (bits), free for reuse
  uint64_t max_ops = 4000000, max_steps = 3000000000ull;
  uint64_t mem_limit = 448ull << 20;
  int cpu_seconds = 20;
  bool races = false;             // look for unordered accesses of two threads to the same memory
  bool verbose = false;
};

enum Outcome { O_NONE, O_EXIT, O_TERMINATE, O_ABORT, O_ASSERT, O_SIGNAL, O_HANG, O_MEMORY,
               O_HEAP, O_CRASH, O_DEADLOCK, O_SIMERR };
extern const char *const kOutcomeName[];

struct OutFile { bool exists; std::string data; };
struct Result {
  int outcome = O_NONE, code = 0;
  std::string detail;
  std::string out, err;
  std::vector<std::pair<std::string, OutFile>> files;
  uint64_t peak = 0;               // most heap bytes in use at a time
  uint64_t ops = 0, steps = 0, allocs = 0, simtime = 0, nswitch = 0, points = 0;
  uint64_t loghash = 0, pathhash = 0;
  uint64_t calls[NROLE][NOP], bytes_in = 0, bytes_out = 0;
  uint64_t eintrs = 0, shorts = 0;
  std::vector<int> fired;         // index into World::faults, times fired
  std::vector<Switch> switches;
  std::string log;
  std::string vclass, vmsg;       // from in-child oracles (library scenarios)
  uint64_t counters[16];
  int race = 0, race_w[2] = {0, 0};   // a data race: the two accesses
  uint64_t race_pc[2] = {0, 0};
  std::string Race() const;
  bool Success() const { return outcome == O_EXIT && code == 0; }
  // An orderly report of failure: a failure status, or the language's reaction
  // to an exception nobody catches.
  bool Failed() const { return (outcome == O_EXIT && code != 0) || outcome == O_TERMINATE; }
  bool Fired() const { for (int f : fired) if (f) return true; return false; }
  const OutFile *File(const std::string &n) const {
    for (auto &f : files) if (f.first == n) return &f.second;
    return nullptr;
  }
  std::string Describe() const;
};

// Body of a run; returns the exit status. Runs in a forked child.
typedef int (*Body)(void *arg);
void InitRuntime();                        // once per process
Result Execute(const World &w, Body body, void *arg);
// Two processes that run at the same time on the same disk. Before each of their system
// calls the other takes over with a chance of rate in 1024, decided by the seed.
struct Proc { const World *w; Body body; void *arg; };
std::vector<Result> ExecuteTogether(const std::vector<Proc> &procs, uint64_t seed, uint64_t rate);

// ---- services for bodies (library scenarios) --------------------------------
struct Quiet { Quiet(); ~Quiet(); };       // oracle code: real heap, no steps, no faults
void Report(const std::string &cls, const std::string &msg);  // first one wins
bool Reported();
void Count(int counter, uint64_t n = 1);
// Fault point of a collaborator callback; true if it must throw.
bool CallPoint(int role);
void YieldPoint();
void NoteLog(const char *fmt, ...);
void Emit(const std::string &s);             // appends to the captured standard output
void ResetFaults();                        // call counters start again, faults are armed again
void SetFaults(bool on);                   // faults of the world strike only while on (default)
size_t LiveBlocks();                       // live simulated-heap blocks
size_t OpenFds();
std::string FileContents(const std::string &name);   // "" if there is no such file
uint64_t AllocCount();
// Re-arm the one-shot allocation fault `n` allocations from now (library
// histories put the fault relative to an operation). n < 0 disarms.
void ArmAlloc(int64_t n, bool sticky);
bool AllocFired();
// Simulated threads.
int SpawnThread(void (*fn)(void *), void *arg);
void JoinThread(int id);
void EnterSim();                           // used by Execute
[[noreturn]] void Finish(int outcome, int code, const char *detail);

}  // namespace sim
#endif
