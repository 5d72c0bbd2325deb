// Simulator runtime. Everything the code under test (CUT) can observe of the
// outside world is decided here, as a function of the World given to Execute.
#ifndef _GNU_SOURCE
#define _GNU_SOURCE
#endif
#include "rt.h"

#include <cxxabi.h>
#include <dirent.h>
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <limits.h>
#include <linux/futex.h>
#include <link.h>
#include <poll.h>
#include <pthread.h>
#include <semaphore.h>
#include <signal.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/file.h>
#include <sys/ioctl.h>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/time.h>
#include <sys/uio.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>

#include <exception>
#include <iostream>
#include <map>
#include <new>
#include <typeinfo>

namespace sim {

const char *const kRoleName[NROLE] = {"refs", "hyps", "qset", "qgroups", "dump", "grp", "mrp",
                                      "stdin", "stdout", "stderr", "other", "heap", "callback"};
const char *const kOpName[NOP] = {"open", "read", "write", "close", "meta", "alloc", "call"};
const char *const kOutcomeName[] = {"none", "exit", "terminate", "abort", "assert", "signal", "hang",
                                    "memory", "heap-corruption", "crash", "deadlock", "sim-error"};
int RoleByName(const std::string &s) {
  for (int i = 0; i < NROLE; ++i) if (s == kRoleName[i]) return i;
  return -1;
}
int OpByName(const std::string &s) {
  for (int i = 0; i < NOP; ++i) if (s == kOpName[i]) return i;
  return -1;
}

std::string Result::Describe() const {
  std::string s = kOutcomeName[outcome];
  s += "(" + std::to_string(code) + ")";
  if (!detail.empty()) s += " " + detail;
  return s;
}
// Where in the sources an instruction comes from.
static std::string PlaceOf(uint64_t pc) {
  static std::map<uint64_t, std::string> known;
  std::string &r = known[pc];
  if (!r.empty()) return r;
  char cmd[4400], exe[4096], line[4096];
  ssize_t n = readlink("/proc/self/exe", exe, sizeof exe - 1);
  exe[n > 0 ? n : 0] = 0;
  snprintf(cmd, sizeof cmd, "addr2line -i -e '%s' 0x%llx 2>/dev/null", exe, (unsigned long long)pc - 1);
  if (FILE *f = popen(cmd, "r")) {
    while (fgets(line, sizeof line, f)) {
      line[strcspn(line, " \n")] = 0;
      if (line[0] == '?' || strstr(line, "/include/c++/")) continue;
      const char *b = strrchr(line, '/');
      while (b && b > line && b[-1] != '/') --b;           // with the name of the directory
      r = b ? b : line;
      break;
    }
    pclose(f);
  }
  if (r.empty()) { snprintf(line, sizeof line, "0x%llx", (unsigned long long)pc); r = line; }
  return r;
}
std::string Result::Race() const {
  return std::string(race_w[0] ? "written" : "read") + " at " + PlaceOf(race_pc[0]) + " and " +
         (race_w[1] ? "written" : "read") + " at " + PlaceOf(race_pc[1]);
}

// ---------------------------------------------------------------------------
// Shared state between the worker and the child that runs the CUT.
// ---------------------------------------------------------------------------
enum { MAXFILES = 48, MAXFAULTS = 64, MAXSWITCH = 200000, LOGCAP = 4 << 20 };
static const size_t kDataCap = 256u << 20;

struct SFile {
  char name[160];
  int role, exists;
  int lock;                            // process that holds the advisory lock, plus one
  uint64_t len, cap, off;
};
struct Shm {
  int outcome, code;
  char detail[512];
  uint64_t ops, steps, allocs, simtime, nswitch, points; uint64_t peak;
  uint64_t loghash, pathhash;
  uint64_t calls[NROLE][NOP];
  uint64_t bytes_in, bytes_out, eintrs, shorts;
  int fired[MAXFAULTS];
  uint64_t nsw;
  Switch sw[MAXSWITCH];
  uint64_t loglen;
  char log[LOGCAP];
  int has_v;
  char vclass[128];
  char vmsg[8192];
  uint64_t counters[16];
  int race, race_w[2];
  uint64_t race_pc[2];
};
// The disk. Processes that run at the same time share it.
struct Fs {
  int nfiles;
  SFile files[MAXFILES];
  uint64_t data_used;
};
// Which of the processes that run at the same time may run.
struct Turn {
  int whose, alive[2], together;
  uint64_t n, seed, rate, handovers;
};
static Shm *shm, *shm_of[2];
static Fs *fs;
static Turn *turn;
static int me;
static char *shm_data;

// ---------------------------------------------------------------------------
// Globals of the child.
// ---------------------------------------------------------------------------
static bool g_on;                      // simulation active
static const World *g_w;
static thread_local int rt_depth;      // >0: runtime or oracle code is executing
static int last_path;

struct Guard { Guard() { ++rt_depth; } ~Guard() { --rt_depth; } };
#define IN_SIM() (__builtin_expect(g_on && rt_depth == 0, 0))

static long raw3(long n, long a, long b, long c) { return syscall(n, a, b, c); }

void NoteLog(const char *fmt, ...) {
  char buf[512];
  va_list ap;
  va_start(ap, fmt);
  int n = vsnprintf(buf, sizeof buf, fmt, ap);
  va_end(ap);
  if (n < 0) return;
  if (n >= (int)sizeof buf) n = sizeof buf - 1;
  uint64_t h = shm->loghash;
  for (int i = 0; i < n; ++i) h = (h ^ (unsigned char)buf[i]) * 1099511628211ull;
  shm->loghash = mix64(h + n);
  if (g_w && g_w->verbose && shm->loglen + n + 1 < LOGCAP) {
    memcpy(shm->log + shm->loglen, buf, n);
    shm->loglen += n;
    shm->log[shm->loglen++] = '\n';
  }
}

static void Path(int role, int op, int cls) {
  int code = (role * NOP + op) * 8 + cls;
  if (code == last_path) return;       // runs of the same transition count once
  last_path = code;
  shm->pathhash = mix64(shm->pathhash ^ (uint64_t)(code + 1));
}

static void PassTurn() {
  __atomic_store_n(&turn->whose, 1 - me, __ATOMIC_SEQ_CST);
  syscall(SYS_futex, &turn->whose, FUTEX_WAKE, 1, nullptr, nullptr, 0);
}
static void AwaitTurn() {
  for (;;) {
    int w = __atomic_load_n(&turn->whose, __ATOMIC_SEQ_CST);
    if (w == me) return;
    syscall(SYS_futex, &turn->whose, FUTEX_WAIT, w, nullptr, nullptr, 0);
  }
}
// Before every system call: perhaps another process goes first.
static void TurnPoint() {
  if (!turn->together || !turn->alive[1 - me]) return;
  uint64_t n = turn->n++;
  if (hash3(turn->seed, n, 0x7074) % 1024 >= turn->rate) return;
  ++turn->handovers;
  shm->pathhash = mix64(shm->pathhash ^ n);
  NoteLog("turn of the other process");
  PassTurn();
  AwaitTurn();
}

void Finish(int outcome, int code, const char *detail) {
  g_on = false;
  if (shm->outcome == O_NONE) {
    shm->outcome = outcome;
    shm->code = code;
    if (detail) {
      strncpy(shm->detail, detail, sizeof shm->detail - 1);
      shm->detail[sizeof shm->detail - 1] = 0;
    }
    NoteLog("end %s %d", kOutcomeName[outcome], code);
  }
  if (turn->together) {
    __atomic_store_n(&turn->alive[me], 0, __ATOMIC_SEQ_CST);
    if (__atomic_load_n(&turn->whose, __ATOMIC_SEQ_CST) == me) PassTurn();
  }
  syscall(SYS_exit_group, 0);
  __builtin_unreachable();
}

void Report(const std::string &cls, const std::string &msg) {
  if (shm->has_v) return;
  shm->has_v = 1;
  strncpy(shm->vclass, cls.c_str(), sizeof shm->vclass - 1);
  strncpy(shm->vmsg, msg.c_str(), sizeof shm->vmsg - 1);
}
bool Reported() { return shm->has_v; }
void Count(int c, uint64_t n) { shm->counters[c & 15] += n; }
Quiet::Quiet() { ++rt_depth; }
Quiet::~Quiet() { --rt_depth; }

// ---------------------------------------------------------------------------
// Faults.
// ---------------------------------------------------------------------------
static bool faults_on = true;
// Returns the action of a fault that fires now, or 0. For byte faults `len` is
// cut so that the transfer ends exactly where the fault will strike.
static int CheckFault(int role, int op, uint64_t callno, bool has_pos, uint64_t pos, size_t *len) {
  if (!faults_on) return 0;
  for (size_t i = 0; i < g_w->faults.size() && i < MAXFAULTS; ++i) {
    const Fault &f = g_w->faults[i];
    if (f.role != role || f.op != op) continue;
    if (shm->fired[i] && !f.sticky) continue;
    bool hit;
    if (f.unit == U_CALL) {
      hit = f.sticky ? callno >= f.at : callno == f.at;
    } else {
      if (!has_pos) continue;
      hit = pos >= f.at;
      if (!hit && len && pos + *len > f.at) *len = f.at - pos;
    }
    if (hit) {
      ++shm->fired[i];
      if (f.action == ACT_CRASH) {
        NoteLog("crash %s %s", kRoleName[role], kOpName[op]);
        Finish(O_CRASH, 0, nullptr);
      }
      return f.action;
    }
  }
  return 0;
}

static const Policy *FindPolicy(int role, int op) {
  for (auto &p : g_w->policies) if (p.role == role && p.op == op) return &p;
  return nullptr;
}

static void SchedPoint(int kind);      // 0 memory, 1 other
// >0: the C library holds a lock of a stream, which the simulator does not see; the
// thread keeps the processor until it has left the library.
static thread_local int no_switch;
static thread_local bool owed_switch;
struct NoSwitch { NoSwitch() { ++no_switch; } ~NoSwitch() { --no_switch; } };

static void OpCost(int role, int op) {
  TurnPoint();
  ++shm->ops;
  if (shm->ops > g_w->max_ops) Finish(O_HANG, 0, "system call budget exhausted");
  uint64_t h = hash3(g_w->env.entropy, shm->ops, role * NOP + op);
  uint64_t ns = 500 + h % 50000;                       // ordinary latency
  if (h >> 56 == 7) ns += 1000000 + (h >> 20) % 2000000000ull;  // a stall
  shm->simtime += ns;
}

// ---------------------------------------------------------------------------
// Simulated files.
// ---------------------------------------------------------------------------
static SFile *FindFile(const char *name) {
  while (name[0] == '.' && name[1] == '/') name += 2;
  for (int i = 0; i < fs->nfiles; ++i)
    if (!strcmp(fs->files[i].name, name)) return &fs->files[i];
  return nullptr;
}
static SFile *AddFile(const char *name, int role) {
  while (name[0] == '.' && name[1] == '/') name += 2;
  if (fs->nfiles >= MAXFILES || strlen(name) >= sizeof fs->files[0].name) return nullptr;
  SFile *f = &fs->files[fs->nfiles++];
  memset(f, 0, sizeof *f);
  strcpy(f->name, name);
  f->role = role;
  return f;
}
static bool FileReserve(SFile *f, uint64_t cap) {
  if (cap <= f->cap) return true;
  uint64_t nc = f->cap ? f->cap * 2 : 4096;
  while (nc < cap) nc *= 2;
  if (fs->data_used + nc > kDataCap) return false;
  memcpy(shm_data + fs->data_used, shm_data + f->off, f->len);
  f->off = fs->data_used;
  f->cap = nc;
  fs->data_used += nc;
  return true;
}
static bool FileWrite(SFile *f, uint64_t pos, const void *buf, size_t n) {
  if (!FileReserve(f, pos + n)) return false;
  char *d = shm_data + f->off;
  if (pos > f->len) memset(d + f->len, 0, pos - f->len);
  memcpy(d + pos, buf, n);
  if (pos + n > f->len) f->len = pos + n;
  return true;
}

enum { FD_BASE = 500000, MAXFD = 64, STD_STDIN = 0, STD_OUT = 1, STD_ERR = 2 };
struct Fd {
  bool open;
  SFile *file;
  uint64_t pos;
  int flags;
  int role;
  bool special_random;
  bool stream;                         // a standard stream, not a file
  FILE *fp;
};
static Fd g_fd[MAXFD + 3];             // [0..2] standard streams, then FD_BASE + i
static Fd *GetFd(int fd) {
  if (fd >= 0 && fd <= 2) return g_fd[fd].open ? &g_fd[fd] : nullptr;
  if (fd >= FD_BASE && fd < FD_BASE + MAXFD) return g_fd[3 + fd - FD_BASE].open ? &g_fd[3 + fd - FD_BASE] : nullptr;
  return nullptr;
}
static bool IsSimFd(int fd) { return (fd >= 0 && fd <= 2) || fd >= FD_BASE; }

size_t OpenFds() {
  size_t n = 0;
  for (int i = 0; i < MAXFD + 3; ++i) n += g_fd[i].open && !g_fd[i].stream;
  return n;
}

static int VOpen(const char *path, int flags) {
  Guard g;
  std::string p(path ? path : "");
  int role = R_OTHER;
  SFile *f = nullptr;
  int dup = -1;
  bool rnd = false;
  if (p == "/dev/stdin" || p == "/proc/self/fd/0" || p == "/dev/fd/0") dup = 0;
  else if (p == "/dev/stdout" || p == "/proc/self/fd/1" || p == "/dev/fd/1") dup = 1;
  else if (p == "/dev/stderr" || p == "/proc/self/fd/2" || p == "/dev/fd/2") dup = 2;
  else if (p == "/dev/urandom" || p == "/dev/random") rnd = true;
  else f = FindFile(p.c_str());
  if (dup >= 0) role = g_fd[dup].role;
  if (f) role = f->role;
  uint64_t n = shm->calls[role][OP_OPEN]++;
  OpCost(role, OP_OPEN);
  int act = CheckFault(role, OP_OPEN, n, false, 0, nullptr);
  int err = 0;
  if (act) err = act;
  else if (dup >= 0 && !g_fd[dup].open) err = ENOENT;
  else if (dup < 0 && !rnd) {
    if (!f || !f->exists) {
      if (!(flags & O_CREAT)) err = ENOENT;
      else {
        if (!f) f = AddFile(p.c_str(), R_OTHER);
        if (!f) err = ENFILE;
        else { f->exists = 1; f->len = 0; }
      }
    } else if ((flags & O_CREAT) && (flags & O_EXCL)) {
      err = EEXIST;
    }
  }
  int fd = -1;
  if (!err) {
    for (int i = 0; i < MAXFD + 3; ++i) if (!g_fd[i].open) { fd = i; break; }
    if (fd < 0) err = EMFILE;
  }
  if (err) {
    NoteLog("open %s = %s", kRoleName[role], strerrorname_np(err));
    Path(role, OP_OPEN, 1);
    errno = err;
    return -1;
  }
  if (f && (flags & O_TRUNC)) f->len = 0;
  Fd &d = g_fd[fd];
  d = Fd();
  d.open = true;
  d.file = dup >= 0 ? g_fd[dup].file : f;
  d.pos = dup == 0 ? g_fd[0].pos : 0;
  d.flags = flags;
  if (dup > 0) d.flags |= O_APPEND;
  d.role = role;
  d.special_random = rnd;
  d.stream = dup >= 0 && g_fd[dup].stream;
  NoteLog("open %s flags=%x = ok", kRoleName[role], flags & (O_ACCMODE | O_CREAT | O_TRUNC | O_APPEND | O_EXCL));
  Path(role, OP_OPEN, 0);
  return fd <= 2 ? fd : fd - 3 + FD_BASE;
}

static ssize_t VRead(int fd, void *buf, size_t len, int64_t at = -1) {
  ssize_t ret;
  int role, err = 0;
  {
    Guard g;
    Fd *d = GetFd(fd);
    if (!d || (d->flags & O_ACCMODE) == O_WRONLY) { OpCost(R_OTHER, OP_READ); errno = EBADF; return -1; }
    role = d->role;
    uint64_t n = shm->calls[role][OP_READ]++;
    OpCost(role, OP_READ);
    uint64_t pos = at >= 0 ? (uint64_t)at : d->pos;
    if (d->special_random) {
      for (size_t i = 0; i < len; ++i) ((char *)buf)[i] = (char)hash3(g_w->env.entropy, shm->ops, i);
      return len;
    }
    const Policy *p = FindPolicy(role, OP_READ);
    size_t want = len;
    if (p && p->eintr && hash3(p->seed, n, 0xE1) % 1000 < (uint64_t)p->eintr) {
      err = EINTR;
      ++shm->eintrs;
    } else {
      if (p && p->mode && want > 0) {
        size_t cut = p->mode == 1 ? 1 + hash3(p->seed, n, 0xC7) % p->maxn : p->maxn;
        if (cut < want) want = cut;
      }
      int act = CheckFault(role, OP_READ, n, true, pos, &want);
      if (act) err = act;
    }
    if (err) {
      ret = -1;
      NoteLog("read %s @%llu %s", kRoleName[role], (unsigned long long)pos, strerrorname_np(err));
      Path(role, OP_READ, err == EINTR ? 2 : 3);
    } else {
      uint64_t avail = d->file && pos < d->file->len ? d->file->len - pos : 0;
      size_t k = want < avail ? want : avail;
      if (k) memcpy(buf, shm_data + d->file->off + pos, k);
      if (at < 0) d->pos += k;
      shm->bytes_in += k;
      if (k && k < len && k < avail) ++shm->shorts;
      ret = k;
      NoteLog("read %s @%llu %zd", kRoleName[role], (unsigned long long)pos, k);
      Path(role, OP_READ, k == 0 ? 4 : k < len && k < avail ? 1 : 0);
    }
  }
  SchedPoint(1);
  if (err) errno = err;
  return ret;
}

static ssize_t VWrite(int fd, const void *buf, size_t len, int64_t at = -1) {
  ssize_t ret;
  int role, err = 0;
  {
    Guard g;
    Fd *d = GetFd(fd);
    if (!d || (d->flags & O_ACCMODE) == O_RDONLY) { OpCost(R_OTHER, OP_WRITE); errno = EBADF; return -1; }
    role = d->role;
    uint64_t n = shm->calls[role][OP_WRITE]++;
    OpCost(role, OP_WRITE);
    if (!d->file) { errno = EBADF; return -1; }
    uint64_t pos = at >= 0 ? (uint64_t)at : (d->flags & O_APPEND) ? d->file->len : d->pos;
    const Policy *p = FindPolicy(role, OP_WRITE);
    size_t want = len;
    if (p && p->eintr && hash3(p->seed, n, 0xE2) % 1000 < (uint64_t)p->eintr) {
      err = EINTR;
      ++shm->eintrs;
    } else {
      if (p && p->mode && want > 0) {
        size_t cut = p->mode == 1 ? 1 + hash3(p->seed, n, 0xC8) % p->maxn : p->maxn;
        if (cut < want) want = cut;
      }
      int act = CheckFault(role, OP_WRITE, n, true, pos, &want);
      if (act) err = act;
    }
    if (err) {
      ret = -1;
      NoteLog("write %s @%llu %s", kRoleName[role], (unsigned long long)pos, strerrorname_np(err));
      Path(role, OP_WRITE, err == EINTR ? 2 : 3);
    } else {
      if (!FileWrite(d->file, pos, buf, want)) Finish(O_SIMERR, 0, "simulated disk exhausted");
      if (at < 0) d->pos = pos + want;
      shm->bytes_out += want;
      if (want < len) ++shm->shorts;
      ret = want;
      uint64_t h = 14695981039346656037ull;
      for (size_t i = 0; i < want; ++i) h = (h ^ ((const unsigned char *)buf)[i]) * 1099511628211ull;
      NoteLog("write %s @%llu %zd %016llx", kRoleName[role], (unsigned long long)pos, want, (unsigned long long)h);
      Path(role, OP_WRITE, want < len ? 1 : 0);
    }
  }
  SchedPoint(1);
  if (err) errno = err;
  return ret;
}

static int VClose(int fd) {
  Guard g;
  Fd *d = GetFd(fd);
  if (!d) { OpCost(R_OTHER, OP_CLOSE); errno = EBADF; return -1; }
  int role = d->role;
  uint64_t n = shm->calls[role][OP_CLOSE]++;
  OpCost(role, OP_CLOSE);
  int act = CheckFault(role, OP_CLOSE, n, false, 0, nullptr);
  d->open = false;                     // like Linux: the descriptor is gone either way
  if (d->file && d->file->lock == me + 1) d->file->lock = 0;
  NoteLog("close %s = %s", kRoleName[role], act ? strerrorname_np(act) : "ok");
  Path(role, OP_CLOSE, act ? 1 : 0);
  if (act) { errno = act; return -1; }
  return 0;
}

static off_t VSeek(int fd, off_t off, int whence) {
  Guard g;
  Fd *d = GetFd(fd);
  OpCost(d ? d->role : R_OTHER, OP_META);
  if (!d) { errno = EBADF; return -1; }
  if (d->stream || !d->file) { errno = ESPIPE; return -1; }
  int64_t base = whence == SEEK_SET ? 0 : whence == SEEK_CUR ? (int64_t)d->pos : (int64_t)d->file->len;
  if (base + off < 0) { errno = EINVAL; return -1; }
  d->pos = base + off;
  return d->pos;
}

static void FillStat(struct stat *st, SFile *f, bool pipe) {
  memset(st, 0, sizeof *st);
  st->st_mode = pipe ? (S_IFIFO | 0600) : (S_IFREG | 0644);
  st->st_nlink = 1;
  st->st_blksize = 4096;
  if (f && !pipe) st->st_size = f->len;
  st->st_ino = f ? 1000 + (f - fs->files) : 1;
  st->st_dev = 1;
}
static int VFstat(int fd, struct stat *st) {
  Guard g;
  Fd *d = GetFd(fd);
  OpCost(d ? d->role : R_OTHER, OP_META);
  if (!d) { errno = EBADF; return -1; }
  FillStat(st, d->file, d->stream);
  return 0;
}
static int VStat(const char *path, struct stat *st) {
  Guard g;
  SFile *f = FindFile(path);
  OpCost(f ? f->role : R_OTHER, OP_META);
  if (!f || !f->exists) { errno = ENOENT; return -1; }
  FillStat(st, f, false);
  return 0;
}

// ---------------------------------------------------------------------------
// FILE objects: cookies over simulated descriptors.
// ---------------------------------------------------------------------------
struct Cookie { int fd; };
static Cookie g_std_cookie[3] = {{0}, {1}, {2}};

static ssize_t ck_read(void *c, char *buf, size_t n) {
  NoSwitch keep;
  int fd = ((Cookie *)c)->fd;
  if (g_on) return VRead(fd, buf, n);
  return raw3(SYS_read, fd, (long)buf, n);
}
// glibc's cookie protocol cannot say "error after a partial write"; retry the
// way _IO_new_file_write does and report what was written.
static ssize_t ck_write(void *c, const char *buf, size_t n) {
  NoSwitch keep;
  int fd = ((Cookie *)c)->fd;
  size_t done = 0;
  while (done < n) {
    ssize_t k = g_on ? VWrite(fd, buf + done, n - done) : raw3(SYS_write, fd, (long)(buf + done), n - done);
    if (k < 0) return done ? (ssize_t)done : 0;   // 0 signals an error to stdio
    done += k;
  }
  return done;
}
static int ck_seek(void *c, off64_t *off, int whence) {
  NoSwitch keep;
  int fd = ((Cookie *)c)->fd;
  off64_t r = g_on ? VSeek(fd, *off, whence) : raw3(SYS_lseek, fd, *off, whence);
  if (r < 0) return -1;
  *off = r;
  return 0;
}
static int ck_close(void *c) {
  NoSwitch keep;
  int fd = ((Cookie *)c)->fd;
  if (g_on) return VClose(fd);
  return (int)raw3(SYS_close, fd, 0, 0);
}
static FILE *MakeFile(int fd, const char *mode) {
  Guard g;
  Cookie *c = fd <= 2 ? &g_std_cookie[fd] : new Cookie{fd};
  cookie_io_functions_t io = {ck_read, ck_write, ck_seek, ck_close};
  return fopencookie(c, mode, io);
}
static FILE *g_std[3];
static int StdIndex(FILE *fp) {
  for (int i = 0; i < 3; ++i) if (fp == g_std[i]) return i;
  return -1;
}

// Runs before any constructor of any library: libstdc++ then builds cin, cout
// and cerr over the simulated standard streams.
static void PreInit(int, char **, char **) {
  g_std[0] = MakeFile(0, "r");
  g_std[1] = MakeFile(1, "w");
  g_std[2] = MakeFile(2, "w");
  setvbuf(g_std[2], nullptr, _IONBF, 0);
  stdin = g_std[0];
  stdout = g_std[1];
  stderr = g_std[2];
}
__attribute__((section(".preinit_array"), used)) static void (*preinit_fn)(int, char **, char **) = PreInit;

template <class F> static F Real(const char *name) {
  Guard g;
  return (F)dlsym(RTLD_NEXT, name);
}

// ---------------------------------------------------------------------------
// Simulated heap.
// ---------------------------------------------------------------------------
static char *const kHeapBase = (char *)0x10000000000ull;
static const size_t kHeapSize = 1024ull << 20;
static const uint64_t kLiveMagic = 0xA110CA7ED0B10C55ull, kDeadMagic = 0xDEADB10CDEADB10Cull;
struct Blk {
  uint64_t magic;
  uint64_t size;        // user size
  uint64_t cls;         // bytes reserved for the user
  uint64_t seq;
  uint64_t back;        // distance from block start to this header
  uint64_t pad;
};
enum { GUARD = 16 };
static char *heap_lo, *heap_hi;
static uint64_t live_blocks, live_bytes, alloc_seq;   // shm->peak: most live bytes
static const int kBins = 40 + 4096 / 16;
struct Bin { Blk **v; size_t n, cap; };
static Bin g_bin[kBins];
static int64_t arm_at = -1;
static bool arm_sticky, arm_fired;

static int BinOf(size_t need, size_t *cls) {
  if (need <= 4096) {
    size_t c = (need + 15) / 16;
    if (c == 0) c = 1;
    *cls = c * 16;
    return (int)c - 1;
  }
  int b = 0;
  size_t c = 8192;
  while (c < need) { c *= 2; ++b; }
  *cls = c;
  return 4096 / 16 + b;
}
static inline void Fill(void *p, size_t n, uint64_t salt) {
  const Env &e = g_w->env;
  switch (e.fill_mode) {
    case 0: memset(p, 0, n); break;
    case 1: memset(p, 0xFF, n); break;
    case 2: case 3: case 4: {
      uint64_t s = hash3(e.heap_seed, salt, e.fill_mode);
      unsigned char *c = (unsigned char *)p;
      if (e.fill_mode == 4) { memset(c, (int)(s & 0xFF), n); break; }
      size_t i = 0;
      for (; i + 8 <= n; i += 8) {
        s = s * 6364136223846793005ull + 1442695040888963407ull;
        uint64_t v = e.fill_mode == 2 ? s ^ (s >> 29) : (s >> 60);
        memcpy(c + i, &v, 8);
      }
      for (; i < n; ++i) c[i] = (unsigned char)(s >> (i & 7) * 8);
    }
  }
}
static void HeapInit() {
  const Env &e = g_w->env;
  uint64_t off = e.heap_mode == 0 ? 0 : (hash2(e.heap_seed, 0xA1) % 65536) * 4096;  // < 256 MB
  heap_lo = kHeapBase + 4096 + off / 2;
  heap_hi = kHeapBase + kHeapSize - 4096 - off / 2;
}
static void *HeapAlloc(size_t size, size_t align) {
  Guard g;
  uint64_t n = alloc_seq++;
  shm->allocs = alloc_seq;
  ++shm->calls[R_HEAP][OP_ALLOC];
  if (arm_at >= 0 && (n == (uint64_t)arm_at || (arm_sticky && n > (uint64_t)arm_at))) {
    arm_fired = true;
    NoteLog("alloc %zu = ENOMEM", size);
    Path(R_HEAP, OP_ALLOC, 3);
    return nullptr;
  }
  if (CheckFault(R_HEAP, OP_ALLOC, n, false, 0, nullptr)) {
    NoteLog("alloc %zu = ENOMEM", size);
    Path(R_HEAP, OP_ALLOC, 3);
    return nullptr;
  }
  if (size > (1ull << 40)) return nullptr;
  const Env &e = g_w->env;
  if (align < 16) align = 16;
  size_t cls;
  int b = BinOf(size + (align > 16 ? align : 0), &cls);
  if (live_bytes + cls > g_w->mem_limit) Finish(O_MEMORY, 0, "memory budget exhausted");
  Blk *h = nullptr;
  Bin &bin = g_bin[b];
  // mode 2 does not reuse memory as long as there is fresh memory
  if (bin.n && (e.heap_mode != 2 || heap_lo + GUARD + sizeof(Blk) + cls + GUARD > heap_hi)) {
    size_t pick = bin.n - 1;
    if (e.heap_mode == 1) pick = hash3(e.heap_seed, n, 0xF0) % bin.n;
    h = bin.v[pick];
    bin.v[pick] = bin.v[--bin.n];
    if (h->magic != kDeadMagic) Finish(O_HEAP, 0, "write to a freed block header");
  } else {
    size_t gap = 0;
    if (e.heap_mode == 1) gap = (hash3(e.heap_seed, n, 0x6A) % 8) * 16;
    size_t total = GUARD + sizeof(Blk) + cls + GUARD + gap;
    if (heap_lo + total > heap_hi) Finish(O_MEMORY, 0, "simulated heap exhausted");
    char *raw;
    if (e.heap_mode == 3 || (e.heap_mode == 1 && (hash3(e.heap_seed, n, 0xD1) & 1))) {
      heap_hi -= total;
      raw = heap_hi;
    } else {
      raw = heap_lo;
      heap_lo += total;
    }
    h = (Blk *)(raw + gap + GUARD);
    memset(raw + gap, 0xA5, GUARD);
  }
  h->magic = kLiveMagic;
  h->size = size;
  h->cls = cls;
  h->seq = n;
  char *u = (char *)(h + 1);
  if (align > 16) u = (char *)(((uintptr_t)u + align - 1) & ~(uintptr_t)(align - 1));
  if (align > 16) {
    // over-aligned blocks: remember the header just before the user pointer
    h->back = u - (char *)(h + 1);
    if (h->back) ((Blk **)u)[-1] = h;
  } else {
    h->back = 0;
  }
  Fill(u, size, n);
  memset(u + size, 0xA5, (char *)(h + 1) + cls + GUARD - (u + size));
  ++live_blocks;
  live_bytes += cls;
  if (live_bytes > shm->peak) shm->peak = live_bytes;
  return u;
}
static Blk *HeaderOf(void *p) {
  Blk *h = (Blk *)p - 1;
  if ((h->magic == kLiveMagic || h->magic == kDeadMagic) && h->back == 0) return h;
  Blk *h2 = ((Blk **)p)[-1];
  if ((char *)h2 > kHeapBase && (char *)h2 < (char *)p && h2->back && (char *)(h2 + 1) + h2->back == (char *)p) return h2;
  return nullptr;
}
static void HeapFree(void *p) {
  Guard g;
  Blk *h = HeaderOf(p);
  if (!h) Finish(O_HEAP, 0, "release of a pointer that is not a block");
  if (h->magic == kDeadMagic) Finish(O_HEAP, 0, "double release");
  unsigned char *u = (unsigned char *)p;
  unsigned char *end = (unsigned char *)(h + 1) + h->cls + GUARD;
  for (unsigned char *q = u + h->size; q < end; ++q)
    if (*q != 0xA5) Finish(O_HEAP, 0, "write past the end of a block");
  for (unsigned char *q = (unsigned char *)h - GUARD; q < (unsigned char *)h; ++q)
    if (*q != 0xA5) Finish(O_HEAP, 0, "write before the start of a block");
  Fill(u, h->size, h->seq ^ 0xF4EEull);
  size_t cls;
  int b = BinOf(h->cls, &cls);
  h->magic = kDeadMagic;
  --live_blocks;
  live_bytes -= h->cls;
  Bin &bin = g_bin[b];
  if (bin.n == bin.cap) {
    bin.cap = bin.cap ? bin.cap * 2 : 64;
    bin.v = (Blk **)realloc(bin.v, bin.cap * sizeof(Blk *));
  }
  bin.v[bin.n++] = h;
}
static inline bool InHeap(void *p) { return (char *)p >= kHeapBase && (char *)p < kHeapBase + kHeapSize; }

size_t LiveBlocks() { return live_blocks; }
uint64_t AllocCount() { return alloc_seq; }
void ArmAlloc(int64_t n, bool sticky) {
  arm_at = n < 0 ? -1 : (int64_t)alloc_seq + n;
  arm_sticky = sticky;
  arm_fired = false;
}
bool AllocFired() { return arm_fired; }

static bool race_on;
static void RaceFresh(void *p, size_t n);
static void *New(size_t n, size_t align, bool nothrow) {
  if (IN_SIM()) {
    void *p = HeapAlloc(n, align);
    if (race_on && p) RaceFresh(p, n);
    SchedPoint(1);
    if (p) return p;
    if (nothrow) return nullptr;
    throw std::bad_alloc();
  }
  void *p;
  if (align > 16) { if (posix_memalign(&p, align, n ? n : 1)) p = nullptr; }
  else p = malloc(n ? n : 1);
  if (!p && !nothrow) throw std::bad_alloc();
  if (race_on && p) RaceFresh(p, n);
  return p;
}
static void Delete(void *p) {
  if (!p) return;
  if (InHeap(p)) HeapFree(p);
  else free(p);
}

// ---------------------------------------------------------------------------
// Threads: real threads, released one at a time.
// ---------------------------------------------------------------------------
enum { MAXTHR = 64 };
static char *const kStackBase = (char *)0x11000000000ull;
static const size_t kStackSize = 8u << 20;
struct Team;
struct Thr {
  int id;
  enum { FREE, READY, BLOCKED, DONE } state;
  sem_t sem;
  const void *wait_on;
  bool timed, timed_out;
  void *(*fn)(void *);
  void *arg, *ret;
  pthread_t real;
  int omp_num;
  Team *team;
  unsigned ws;         // work-sharing constructs entered
  bool detached;
};
static Thr g_thr[MAXTHR];
static int n_thr = 1, n_alive = 1;
static thread_local Thr *cur_thr;
static size_t next_explicit;

// ---- data races: accesses of two threads to the same bytes, at least one a write,
// that no synchronisation orders (vector clocks). Atomic operations, locks, once
// flags, static initialisation, starting and joining threads synchronise.
static uint32_t g_vc[MAXTHR][MAXTHR];
struct SyncVar { const void *a; uint32_t c[MAXTHR]; };
static SyncVar g_sync[2048];
struct Touch { uint32_t clk; uint8_t t, mask; void *pc; };
struct Granule { Touch w, r[3]; };
struct ShadowPage { uintptr_t page; Granule *g; };
static ShadowPage g_shadow[16384];
static Granule *shadow_next, *shadow_end;
static uintptr_t skip_lo[64], skip_hi[64];
static int n_skip;

static int NoteObject(struct dl_phdr_info *i, size_t, void *) {
  if (!i->dlpi_name || !*i->dlpi_name) return 0;          // the program itself
  for (int k = 0; k < i->dlpi_phnum && n_skip < 60; ++k)
    if (i->dlpi_phdr[k].p_type == PT_LOAD) {
      skip_lo[n_skip] = i->dlpi_addr + i->dlpi_phdr[k].p_vaddr;
      skip_hi[n_skip++] = i->dlpi_addr + i->dlpi_phdr[k].p_vaddr + i->dlpi_phdr[k].p_memsz;
    }
  return 0;
}
static void RaceInit() {
  dl_iterate_phdr(NoteObject, nullptr);
  // concurrent use of the standard streams is allowed
  auto skip = [](void *p, size_t n) { skip_lo[n_skip] = (uintptr_t)p; skip_hi[n_skip++] = (uintptr_t)p + n; };
  skip(&std::cout, sizeof std::cout);
  skip(&std::cerr, sizeof std::cerr);
  skip(&std::clog, sizeof std::clog);
  skip(&std::cin, sizeof std::cin);
}
static void RaceStart() {
  if (race_on) return;
  const size_t n = 1u << 20;
  void *m = mmap(nullptr, n * sizeof(Granule), PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
  if (m == MAP_FAILED) Finish(O_SIMERR, 0, "shadow memory");
  shadow_next = (Granule *)m;
  shadow_end = shadow_next + n;
  for (int i = 0; i < MAXTHR; ++i) g_vc[i][i] = 1;
  race_on = true;
}
static Granule *ShadowOf(uintptr_t a, bool make) {
  const uintptr_t page = a >> 9;
  size_t i = mix64(page) % 16384;
  for (int k = 0; k < 16384; ++k, i = (i + 1) % 16384) {
    ShadowPage &p = g_shadow[i];
    if (p.g && p.page == page) return p.g + (a >> 3) % 64;
    if (p.g) continue;
    if (!make || shadow_next + 64 > shadow_end) return nullptr;
    p.page = page;
    p.g = shadow_next;
    shadow_next += 64;
    return p.g + (a >> 3) % 64;
  }
  return nullptr;
}
static void RaceFresh(void *p, size_t n) {
  for (uintptr_t a = (uintptr_t)p & ~(uintptr_t)7, e = (uintptr_t)p + n; a < e; a += 8)
    if (Granule *g = ShadowOf(a, false)) memset(g, 0, sizeof *g);
    else a |= 511 & ~(uintptr_t)7;                        // no access to this page so far
}
static inline bool Ordered(const Touch &x, int t) { return x.t == t || g_vc[t][x.t] >= x.clk; }
static void FoundRace(const Touch &x, bool xw, void *pc, bool w) {
  if (shm->race) return;
  shm->race = 1;
  shm->race_w[0] = xw;
  shm->race_w[1] = w;
  shm->race_pc[0] = (uint64_t)x.pc;
  shm->race_pc[1] = (uint64_t)pc;
}
static void RaceAccess(uintptr_t a, size_t n, bool w, void *pc) {
  for (int i = 0; i < n_skip; ++i) if (a >= skip_lo[i] && a < skip_hi[i]) return;
  const int t = cur_thr->id;
  for (uintptr_t e = a + n; a < e;) {
    const uintptr_t base = a & ~(uintptr_t)7;
    const uintptr_t stop = e < base + 8 ? e : base + 8;
    const uint8_t mask = (uint8_t)(((1u << (stop - a)) - 1) << (a - base));
    Granule *g = ShadowOf(base, true);
    a = stop;
    if (!g) return;
    const Touch now = {g_vc[t][t], (uint8_t)t, mask, pc};
    if (g->w.clk && (g->w.mask & mask) && !Ordered(g->w, t)) FoundRace(g->w, true, pc, w);
    if (w) {
      for (Touch &r : g->r) {
        if (r.clk && (r.mask & mask) && !Ordered(r, t)) FoundRace(r, false, pc, true);
        if (r.clk && !(r.mask & ~mask) && Ordered(r, t)) r.clk = 0;
      }
      g->w = now;
    } else {
      Touch *slot = nullptr;
      for (Touch &r : g->r) if (r.clk && r.t == t) { slot = &r; break; }
      if (slot) { slot->clk = now.clk; slot->mask |= mask; slot->pc = pc; continue; }
      for (Touch &r : g->r) if (!r.clk || Ordered(r, t)) { slot = &r; break; }
      *(slot ? slot : &g->r[0]) = now;
    }
  }
}
static SyncVar *SyncOf(const void *a) {
  size_t i = mix64((uintptr_t)a) % 2048;
  for (int k = 0; k < 2048; ++k, i = (i + 1) % 2048) {
    if (g_sync[i].a == a) return &g_sync[i];
    if (!g_sync[i].a) { g_sync[i].a = a; return &g_sync[i]; }
  }
  return &g_sync[i];                                      // crowded: share one
}
static void VcJoin(uint32_t *to, const uint32_t *from) {
  for (int i = 0; i < MAXTHR; ++i) if (from[i] > to[i]) to[i] = from[i];
}
static void SyncAcquire(const void *a) { if (race_on && cur_thr) VcJoin(g_vc[cur_thr->id], SyncOf(a)->c); }
static void SyncRelease(const void *a) {
  if (!race_on || !cur_thr) return;
  VcJoin(SyncOf(a)->c, g_vc[cur_thr->id]);
  ++g_vc[cur_thr->id][cur_thr->id];
}
static void SyncBoth(const void *a) { SyncAcquire(a); SyncRelease(a); }
static void SyncFork(int child) {
  if (!g_w->races) return;
  RaceStart();
  VcJoin(g_vc[child], g_vc[cur_thr->id]);
  ++g_vc[cur_thr->id][cur_thr->id];
}
static void SyncJoined(int child) { if (race_on) VcJoin(g_vc[cur_thr->id], g_vc[child]); }

static void StackPrepare(int id) {
  char *base = kStackBase + (size_t)id * kStackSize;
  void *m = mmap(base, kStackSize, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED, -1, 0);
  if (m == MAP_FAILED) Finish(O_SIMERR, 0, "stack");
  size_t garbage = id == 0 ? 192 << 10 : 48 << 10;
  if (g_w->env.fill_mode != 0) Fill(base + kStackSize - garbage, garbage, 0x57AC + id);
}
static void *ThreadMain(void *v) {
  Thr *t = (Thr *)v;
  cur_thr = t;
  ++rt_depth;
  while (sem_wait(&t->sem) != 0) {}
  --rt_depth;
  t->ret = t->fn(t->arg);
  ++rt_depth;
  t->state = Thr::DONE;
  --n_alive;
  for (int i = 0; i < n_thr; ++i)
    if (g_thr[i].state == Thr::BLOCKED && g_thr[i].wait_on == t) g_thr[i].state = Thr::READY;
  // hand the processor to somebody; this thread stays parked for good
  int ready[MAXTHR], nr = 0;
  for (int i = 0; i < n_thr; ++i) if (g_thr[i].state == Thr::READY) ready[nr++] = i;
  if (!nr) Finish(O_DEADLOCK, 0, "no runnable thread");
  sem_post(&g_thr[ready[hash2(g_w->env.sched_seed, shm->points) % nr]].sem);
  for (;;) pause();
  return nullptr;
}
static void SwitchTo(int to) {
  Thr *me = cur_thr;
  if (to == me->id) return;
  ++shm->nswitch;
  sem_post(&g_thr[to].sem);
  while (sem_wait(&me->sem) != 0) {}
}
// Block the current thread until its state is READY again.
static void Block(const void *on, bool timed = false) {
  Guard g;
  Thr *me = cur_thr;
  me->state = Thr::BLOCKED;
  me->wait_on = on;
  me->timed = timed;
  me->timed_out = false;
  int ready[MAXTHR], nr = 0;
  for (int i = 0; i < n_thr; ++i) if (g_thr[i].state == Thr::READY) ready[nr++] = i;
  if (!nr) {
    for (int i = 0; i < n_thr; ++i)
      if (g_thr[i].state == Thr::BLOCKED && g_thr[i].timed) {
        g_thr[i].timed_out = true;
        g_thr[i].state = Thr::READY;
        ready[nr++] = i;
        break;
      }
    if (!nr) Finish(O_DEADLOCK, 0, "all threads wait");
  }
  SwitchTo(ready[hash3(g_w->env.sched_seed, shm->points, 0xB1) % nr]);
}
static void Wake(const void *on, bool all) {
  Guard g;
  int w[MAXTHR], n = 0;
  for (int i = 0; i < n_thr; ++i)
    if (g_thr[i].state == Thr::BLOCKED && g_thr[i].wait_on == on) w[n++] = i;
  if (!n) return;
  if (all) for (int i = 0; i < n; ++i) g_thr[w[i]].state = Thr::READY;
  else g_thr[w[hash3(g_w->env.sched_seed, shm->points, 0xB2) % n]].state = Thr::READY;
}

static void SchedSlow(int kind) {
  Guard g;
  uint64_t p = shm->points++;
  const Env &e = g_w->env;
  int to = -1;
  if (e.explicit_sched) {
    while (next_explicit < e.switches.size() && e.switches[next_explicit].at < p) ++next_explicit;
    if (next_explicit < e.switches.size() && e.switches[next_explicit].at == p) to = e.switches[next_explicit++].to;
    if (to >= n_thr || (to >= 0 && g_thr[to].state != Thr::READY)) to = -1;
  } else {
    uint64_t h = hash3(e.sched_seed, p, 0x5C);
    bool sw = kind == 0 ? (h & 0xFFFFF) < (uint64_t)e.sched_mem : (h & 0x3FF) < (uint64_t)e.sched_op;
    if (sw) {
      int ready[MAXTHR], nr = 0;
      for (int i = 0; i < n_thr; ++i) if (g_thr[i].state == Thr::READY && i != cur_thr->id) ready[nr++] = i;
      if (nr) to = ready[(h >> 24) % nr];
    }
  }
  if (to >= 0 && to != cur_thr->id) {
    if (shm->nsw < MAXSWITCH) shm->sw[shm->nsw++] = Switch{p, to};
    NoteLog("switch @%llu -> %d", (unsigned long long)p, to);
    SwitchTo(to);
  }
}
static inline void SchedPoint(int kind) {
  if (__builtin_expect(n_alive > 1, 0) && g_on && rt_depth == 0) {
    if (no_switch) { owed_switch = true; return; }
    SchedSlow(kind);
  }
}
void YieldPoint() { if (IN_SIM()) SchedPoint(1); }

static inline void MemPoint() {
  if (__builtin_expect(!g_on || rt_depth, 0)) return;
  if (__builtin_expect(++shm->steps > g_w->max_steps, 0)) Finish(O_HANG, 0, "step budget exhausted");
  if (__builtin_expect(n_alive > 1, 0) && !no_switch) {
    const int kind = owed_switch;
    owed_switch = false;
    SchedSlow(kind);
  }
}

static int (*real_pthread_create)(pthread_t *, const pthread_attr_t *, void *(*)(void *), void *);

static int NewThread(void *(*fn)(void *), void *arg, pthread_t *out) {
  int id;
  {
    Guard g;
    if (n_thr >= MAXTHR) return EAGAIN;
    id = n_thr++;
    Thr &t = g_thr[id];
    t.id = id;
    t.state = Thr::READY;
    sem_init(&t.sem, 0, 0);
    t.fn = fn;
    t.arg = arg;
    t.omp_num = 0;
    t.team = nullptr;
    StackPrepare(id);
    SyncFork(id);
    pthread_attr_t at;
    pthread_attr_init(&at);
    pthread_attr_setstack(&at, kStackBase + (size_t)id * kStackSize, kStackSize);
    ++n_alive;
    if (real_pthread_create(&t.real, &at, ThreadMain, &t)) Finish(O_SIMERR, 0, "pthread_create");
    if (out) *out = t.real;
    NoteLog("thread %d", id);
  }
  SchedPoint(1);
  return id;
}
static void WaitThread(int id) {
  while (g_thr[id].state != Thr::DONE) Block(&g_thr[id]);
  SyncJoined(id);
}
struct SpawnArg { void (*fn)(void *); void *arg; };
static void *SpawnTramp(void *v) {
  SpawnArg a = *(SpawnArg *)v;
  a.fn(a.arg);
  return nullptr;
}
int SpawnThread(void (*fn)(void *), void *arg) {
  SpawnArg *a;
  { Guard g; a = new SpawnArg{fn, arg}; }
  return NewThread(SpawnTramp, a, nullptr);
}
void JoinThread(int id) { WaitThread(id); }

// mutexes
struct Mtx { const void *addr; int owner; int count; };
static Mtx g_mtx[256];
static int n_mtx;
static Mtx *FindMtx(const void *a) {
  for (int i = 0; i < n_mtx; ++i) if (g_mtx[i].addr == a) return &g_mtx[i];
  for (int i = 0; i < n_mtx; ++i) if (g_mtx[i].count == 0) { g_mtx[i] = Mtx{a, -1, 0}; return &g_mtx[i]; }
  if (n_mtx == 256) Finish(O_SIMERR, 0, "mutexes");
  g_mtx[n_mtx] = Mtx{a, -1, 0};
  return &g_mtx[n_mtx++];
}
static void MtxLock(const void *a, bool recursive) {
  SchedPoint(1);
  for (;;) {
    Mtx *m = FindMtx(a);
    if (m->count == 0) { m->owner = cur_thr->id; m->count = 1; SyncAcquire(a); return; }
    if (m->owner == cur_thr->id && recursive) { ++m->count; return; }
    Block(a);
  }
}
static bool MtxTry(const void *a, bool recursive) {
  SchedPoint(1);
  Mtx *m = FindMtx(a);
  if (m->count == 0) { m->owner = cur_thr->id; m->count = 1; SyncAcquire(a); return true; }
  if (m->owner == cur_thr->id && recursive) { ++m->count; return true; }
  return false;
}
static void MtxUnlock(const void *a) {
  Mtx *m = FindMtx(a);
  SyncRelease(a);
  if (m->count > 0 && --m->count == 0) Wake(a, true);
  SchedPoint(1);
}

// OpenMP teams
struct WorkShare { bool init; long next, end, incr, chunk; int arrived; bool taken; };
struct Team {
  int size;
  int arrived;
  unsigned gen;
  WorkShare ws[64];
};
static Team g_team_pool[16];
static int n_team_pool;
static int g_omp_req;

static int OmpThreads(unsigned req) {
  if (cur_thr && cur_thr->team && cur_thr->team->size > 1) return 1;
  int n = req ? (int)req : g_omp_req ? g_omp_req : g_w->env.nprocs;
  return n < 1 ? 1 : n > 16 ? 16 : n;
}
struct OmpStart { void (*fn)(void *); void *data; Team *team; int num; };
static void *OmpTramp(void *v) {
  OmpStart a = *(OmpStart *)v;
  cur_thr->team = a.team;
  cur_thr->omp_num = a.num;
  cur_thr->ws = 0;
  a.fn(a.data);
  return nullptr;
}
static void RunTeam(void (*fn)(void *), void *data, unsigned req, const WorkShare *first) {
  int n = OmpThreads(req);
  Team *t, *old_team = cur_thr->team;
  int old_num = cur_thr->omp_num;
  unsigned old_ws = cur_thr->ws;
  {
    Guard g;
    t = n_team_pool < 16 ? &g_team_pool[n_team_pool++] : new Team();
    memset(t, 0, sizeof *t);
    t->size = n;
    if (first) t->ws[0] = *first;
  }
  int ids[16];
  OmpStart st[16];
  if (n > 1 && n_thr + n >= MAXTHR) n = t->size = 1;
  for (int i = 1; i < n; ++i) {
    st[i] = OmpStart{fn, data, t, i};
    ids[i] = NewThread(OmpTramp, &st[i], nullptr);
  }
  cur_thr->team = t;
  cur_thr->omp_num = 0;
  cur_thr->ws = 0;
  fn(data);
  for (int i = 1; i < n; ++i) WaitThread(ids[i]);
  cur_thr->team = old_team;
  cur_thr->omp_num = old_num;
  cur_thr->ws = old_ws;
  { Guard g; if (t >= g_team_pool && t < g_team_pool + 16 && n == 1) --n_team_pool; }
}
static void TeamBarrier() {
  Team *t = cur_thr->team;
  SchedPoint(1);
  if (!t || t->size <= 1) return;
  unsigned gen = t->gen;
  SyncBoth(&t->gen);
  if (++t->arrived == t->size) {
    t->arrived = 0;
    ++t->gen;
    Wake(&t->gen, true);
  } else {
    while (t->gen == gen) Block(&t->gen);
  }
  SyncAcquire(&t->gen);
}
static Team g_serial_team;
static WorkShare *NextWs() {
  Team *t = cur_thr->team;
  if (!t) { t = &g_serial_team; t->size = 1; t->ws[cur_thr->ws % 64].init = false; }
  return &t->ws[cur_thr->ws++ % 64];
}
static WorkShare *CurWs() {
  Team *t = cur_thr->team ? cur_thr->team : &g_serial_team;
  return &t->ws[(cur_thr->ws - 1) % 64];
}
static bool WsNext(WorkShare *w, long *s, long *e) {
  SchedPoint(1);
  bool more = w->incr > 0 ? w->next < w->end : w->next > w->end;
  if (!more) return false;
  long chunk = w->chunk > 0 ? w->chunk : 1;
  *s = w->next;
  long stop = w->next + chunk * w->incr;
  if (w->incr > 0 ? stop > w->end : stop < w->end) stop = w->end;
  *e = stop;
  w->next = stop;
  return true;
}
static bool WsStart(long start, long end, long incr, long chunk, long *s, long *e) {
  WorkShare *w = NextWs();
  if (!w->init) { *w = WorkShare(); w->init = true; w->next = start; w->end = end; w->incr = incr; w->chunk = chunk; }
  return WsNext(w, s, e);
}
static void WsEnd(bool barrier) {
  WorkShare *w = CurWs();
  Team *t = cur_thr->team;
  if (++w->arrived >= (t ? t->size : 1)) { *w = WorkShare(); }
  if (barrier) TeamBarrier();
}

bool CallPoint(int role) {
  bool fire = false;
  {
    Guard g;
    uint64_t n = shm->calls[role][OP_CALL]++;
    fire = CheckFault(role, OP_CALL, n, false, 0, nullptr) != 0;
    if (fire) { NoteLog("callback %llu throws", (unsigned long long)n); Path(role, OP_CALL, 3); }
  }
  SchedPoint(1);
  return fire;
}

void Emit(const std::string &s) {
  Guard g;
  SFile *f = g_fd[STD_OUT].file;
  FileWrite(f, f->len, s.data(), s.size());
}
std::string FileContents(const std::string &name) {
  Guard g;
  SFile *f = FindFile(name.c_str());
  return f && f->exists ? std::string(shm_data + f->off, f->len) : std::string();
}
void SetFaults(bool on) { faults_on = on; }
void ResetFaults() {
  memset(shm->calls, 0, sizeof shm->calls);
  memset(shm->fired, 0, sizeof shm->fired);
}

// ---------------------------------------------------------------------------
// Clock.
// ---------------------------------------------------------------------------
static uint64_t SimNow(bool wall) {
  const Env &e = g_w->env;
  uint64_t t = e.clock_base + shm->simtime + shm->steps;
  if (wall && e.clock_jumps) t += (hash3(e.entropy, shm->ops, 0xC10C) % 2) * 3600000000000ull;
  return t;
}

// ---------------------------------------------------------------------------
// Running a body.
// ---------------------------------------------------------------------------
static void OnTerminate() {
  g_on = g_on;
  ++rt_depth;
  std::string what = "unknown";
  if (std::type_info *ti = abi::__cxa_current_exception_type()) {
    int st = 0;
    char *d = abi::__cxa_demangle(ti->name(), nullptr, nullptr, &st);
    what = d ? d : ti->name();
  } else {
    what = "no exception";
  }
  Finish(O_TERMINATE, 0, what.c_str());
}
static void OnSignal(int s) {
  ++rt_depth;
  if (s == SIGXCPU) Finish(O_HANG, 0, "processor time exhausted");
  if (s == SIGALRM) Finish(O_SIMERR, 0, "wall clock guard");
  char b[64];
  snprintf(b, sizeof b, "SIG%s", sigabbrev_np(s) ? sigabbrev_np(s) : "?");
  Finish(O_SIGNAL, s, b);
}
static void FlushStd() {
  // what exit() does to the standard streams
  std::cout.flush();
  std::cerr.flush();
  std::clog.flush();
  fflush(g_std[1]);
  fflush(g_std[2]);
}
static Body g_body;
static void *g_arg;
static void *BodyThread(void *) {
  cur_thr = &g_thr[0];
  static char alt[65536];
  stack_t ss = {};
  ss.ss_sp = alt;
  ss.ss_size = sizeof alt;
  sigaltstack(&ss, nullptr);
  if (turn->together) AwaitTurn();
  rt_depth = 0;
  g_on = true;
  int rc = g_body(g_arg);
  FlushStd();
  ++rt_depth;
  Finish(O_EXIT, rc & 0xFF, nullptr);
}

void InitRuntime() {
  void *m = mmap(nullptr, 2 * sizeof(Shm) + sizeof(Fs) + sizeof(Turn), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
  void *d = mmap(nullptr, kDataCap, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
  void *h = mmap(kHeapBase, kHeapSize, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED_NOREPLACE, -1, 0);
  if (m == MAP_FAILED || d == MAP_FAILED || h != (void *)kHeapBase) {
    fprintf(stderr, "sim: cannot map\n");
    _exit(3);
  }
  shm = shm_of[0] = (Shm *)m;
  shm_of[1] = shm + 1;
  fs = (Fs *)(shm + 2);
  turn = (Turn *)(fs + 1);
  shm_data = (char *)d;
  real_pthread_create = Real<decltype(real_pthread_create)>("pthread_create");
  RaceInit();
}

static void Child(const World &w, Body body, void *arg, SFile *const std3[3]) {
  struct rlimit rl = {(rlim_t)w.cpu_seconds, (rlim_t)w.cpu_seconds + 5};
  setrlimit(RLIMIT_CPU, &rl);
  rl.rlim_cur = rl.rlim_max = 0;
  setrlimit(RLIMIT_CORE, &rl);
  struct sigaction sa = {};
  sa.sa_handler = OnSignal;
  sa.sa_flags = SA_ONSTACK | SA_NODEFER;
  for (int s : {SIGSEGV, SIGBUS, SIGFPE, SIGILL, SIGXCPU, SIGALRM, SIGABRT, SIGSYS, SIGTRAP}) sigaction(s, &sa, nullptr);
  signal(SIGINT, SIG_DFL);
  alarm(w.cpu_seconds * 12 + 60);
  for (int i = 0; i < 3; ++i) {
    g_fd[i].open = !(w.closed >> i & 1);
    g_fd[i].stream = true;
    g_fd[i].file = std3[i];
    g_fd[i].role = i == 0 ? R_STDIN : i == 1 ? R_STDOUT : R_STDERR;
    g_fd[i].flags = i == 0 ? O_RDONLY : O_WRONLY | O_APPEND;
  }
  std::set_terminate(OnTerminate);
  HeapInit();
  StackPrepare(0);
  g_thr[0].id = 0;
  g_thr[0].state = Thr::READY;
  sem_init(&g_thr[0].sem, 0, 0);
  g_body = body;
  g_arg = arg;
  pthread_attr_t at;
  pthread_attr_init(&at);
  pthread_attr_setstack(&at, kStackBase, kStackSize);
  pthread_t th;
  if (real_pthread_create(&th, &at, BodyThread, nullptr)) Finish(O_SIMERR, 0, "pthread_create");
  for (;;) pause();
}

std::vector<Result> ExecuteTogether(const std::vector<Proc> &procs, uint64_t seed, uint64_t rate) {
  const int n = (int)procs.size();
  memset(fs, 0, offsetof(Fs, files));
  fs->data_used = 0;
  memset(turn, 0, sizeof *turn);
  SFile *std3[2][3];
  static const char *const kStd[2][3] = {{"<stdin>", "<stdout>", "<stderr>"}, {"<stdin 2>", "<stdout 2>", "<stderr 2>"}};
  for (int p = 0; p < n; ++p) {
    // reset the parts in use
    Shm *m = shm_of[p];
    memset(m, 0, offsetof(Shm, sw));
    m->nsw = 0;
    m->loglen = 0;
    m->has_v = 0;
    m->vclass[0] = m->vmsg[0] = 0;
    memset(m->counters, 0, sizeof m->counters);
    m->race = 0;
    const World &w = *procs[p].w;
    for (auto &fi : w.files) {
      if (p && FindFile(fi.name.c_str())) continue;
      SFile *f = AddFile(fi.name.c_str(), fi.role);
      if (!f) { fprintf(stderr, "sim: file table\n"); _exit(3); }
      f->exists = fi.exists;
      if (fi.exists && !FileWrite(f, 0, fi.data.data(), fi.data.size())) { fprintf(stderr, "sim: disk\n"); _exit(3); }
    }
    for (int i = 0; i < 3; ++i) {
      std3[p][i] = AddFile(kStd[p][i], R_STDIN + i);
      std3[p][i]->exists = 1;
    }
    FileWrite(std3[p][0], 0, w.stdin_data.data(), w.stdin_data.size());
  }
  if (n > 1) {
    turn->together = 1;
    turn->alive[0] = turn->alive[1] = 1;
    turn->seed = seed;
    turn->rate = rate;
    turn->whose = (int)(hash2(seed, 0xF157) & 1);
  }
  fflush(nullptr);
  pid_t pid[2] = {0, 0};
  for (int p = 0; p < n; ++p) {
    pid[p] = fork();
    if (pid[p] < 0) { perror("sim: fork"); _exit(3); }
    if (pid[p] == 0) {
      shm = shm_of[p];
      me = p;
      g_w = procs[p].w;
      Child(*g_w, procs[p].body, procs[p].arg, std3[p]);
    }
  }
  int status[2] = {0, 0};
  for (int left = n; left > 0;) {
    int st = 0;
    pid_t got = waitpid(n == 1 ? pid[0] : -1, &st, 0);
    if (got < 0) {
      if (errno == EINTR) continue;
      perror("sim: wait");
      _exit(3);
    }
    for (int p = 0; p < n; ++p) {
      if (got != pid[p]) continue;
      status[p] = st;
      --left;
      if (n > 1 && __atomic_load_n(&turn->alive[p], __ATOMIC_SEQ_CST)) {     // killed; the other goes on
        me = p;
        turn->alive[p] = 0;
        if (turn->whose == p) PassTurn();
        me = 0;
      }
    }
  }
  std::vector<Result> all;
  for (int p = 0; p < n; ++p) {
    Result r;
    Shm *m = shm_of[p];
    const World &w = *procs[p].w;
    if (m->outcome == O_NONE) {
      r.outcome = O_SIMERR;
      r.detail = WIFSIGNALED(status[p]) ? "child killed by signal " + std::to_string(WTERMSIG(status[p])) : "child vanished";
    } else {
      r.outcome = m->outcome;
      r.code = m->code;
      r.detail = m->detail;
    }
    auto get = [](SFile *f) { return std::string(shm_data + f->off, f->len); };
    r.out = get(std3[p][1]);
    r.err = get(std3[p][2]);
    for (int i = 0; i < fs->nfiles; ++i) {
      SFile *f = &fs->files[i];
      bool standard = false;
      for (int q = 0; q < n; ++q) for (int k = 0; k < 3; ++k) standard |= f == std3[q][k];
      if (standard) continue;
      r.files.emplace_back(f->name, OutFile{f->exists != 0, f->exists ? get(f) : std::string()});
    }
    r.ops = m->ops;
    r.steps = m->steps;
    r.allocs = m->allocs;
    r.peak = m->peak;
    r.simtime = m->simtime;
    r.nswitch = m->nswitch + (p == 0 ? turn->handovers : 0);
    r.points = m->points;
    r.loghash = m->loghash;
    r.pathhash = m->pathhash;
    memcpy(r.calls, m->calls, sizeof r.calls);
    r.bytes_in = m->bytes_in;
    r.bytes_out = m->bytes_out;
    r.eintrs = m->eintrs;
    r.shorts = m->shorts;
    for (size_t i = 0; i < w.faults.size(); ++i) r.fired.push_back(i < MAXFAULTS ? m->fired[i] : 0);
    r.switches.assign(m->sw, m->sw + m->nsw);
    r.log.assign(m->log, m->loglen);
    if (m->has_v) {
      r.vclass = m->vclass;
      r.vmsg = m->vmsg;
    }
    memcpy(r.counters, m->counters, sizeof r.counters);
    r.race = m->race;
    for (int i = 0; i < 2; ++i) { r.race_w[i] = m->race_w[i]; r.race_pc[i] = m->race_pc[i]; }
    m->nsw = 0;
    all.push_back(r);
  }
  return all;
}

Result Execute(const World &w, Body body, void *arg) { return ExecuteTogether({Proc{&w, body, arg}}, 0, 0)[0]; }

}  // namespace sim

using namespace sim;

// ---------------------------------------------------------------------------
// operator new / delete
// ---------------------------------------------------------------------------
void *operator new(size_t n) { return New(n, 16, false); }
void *operator new[](size_t n) { return New(n, 16, false); }
void *operator new(size_t n, const std::nothrow_t &) noexcept { return New(n, 16, true); }
void *operator new[](size_t n, const std::nothrow_t &) noexcept { return New(n, 16, true); }
void *operator new(size_t n, std::align_val_t a) { return New(n, (size_t)a, false); }
void *operator new[](size_t n, std::align_val_t a) { return New(n, (size_t)a, false); }
void operator delete(void *p) noexcept { Delete(p); }
void operator delete[](void *p) noexcept { Delete(p); }
void operator delete(void *p, size_t) noexcept { Delete(p); }
void operator delete[](void *p, size_t) noexcept { Delete(p); }
void operator delete(void *p, const std::nothrow_t &) noexcept { Delete(p); }
void operator delete[](void *p, const std::nothrow_t &) noexcept { Delete(p); }
void operator delete(void *p, std::align_val_t) noexcept { Delete(p); }
void operator delete[](void *p, std::align_val_t) noexcept { Delete(p); }
void operator delete(void *p, size_t, std::align_val_t) noexcept { Delete(p); }
void operator delete[](void *p, size_t, std::align_val_t) noexcept { Delete(p); }

// ---------------------------------------------------------------------------
// libc seam
// ---------------------------------------------------------------------------
extern "C" {

ssize_t read(int fd, void *b, size_t n) {
  if (IN_SIM() && IsSimFd(fd)) return VRead(fd, b, n);
  return raw3(SYS_read, fd, (long)b, n);
}
ssize_t __read_chk(int fd, void *b, size_t n, size_t) { return read(fd, b, n); }
ssize_t write(int fd, const void *b, size_t n) {
  if (IN_SIM() && IsSimFd(fd)) return VWrite(fd, b, n);
  return raw3(SYS_write, fd, (long)b, n);
}
ssize_t pread(int fd, void *b, size_t n, off_t o) {
  if (IN_SIM() && IsSimFd(fd)) return VRead(fd, b, n, o);
  return syscall(SYS_pread64, fd, b, n, o);
}
ssize_t pwrite(int fd, const void *b, size_t n, off_t o) {
  if (IN_SIM() && IsSimFd(fd)) return VWrite(fd, b, n, o);
  return syscall(SYS_pwrite64, fd, b, n, o);
}
ssize_t readv(int fd, const struct iovec *v, int n) {
  if (IN_SIM() && IsSimFd(fd)) {
    ssize_t tot = 0;
    for (int i = 0; i < n; ++i) {
      if (!v[i].iov_len) continue;
      ssize_t k = VRead(fd, v[i].iov_base, v[i].iov_len);
      if (k < 0) return tot ? tot : -1;
      tot += k;
      if ((size_t)k < v[i].iov_len) break;
    }
    return tot;
  }
  return raw3(SYS_readv, fd, (long)v, n);
}
ssize_t writev(int fd, const struct iovec *v, int n) {
  if (IN_SIM() && IsSimFd(fd)) {
    std::string all;
    {
      Guard g;
      for (int i = 0; i < n; ++i) all.append((const char *)v[i].iov_base, v[i].iov_len);
    }
    ssize_t k = VWrite(fd, all.data(), all.size());
    { Guard g; std::string().swap(all); }
    return k;
  }
  return raw3(SYS_writev, fd, (long)v, n);
}
int open(const char *p, int flags, ...) {
  if (IN_SIM()) return VOpen(p, flags);
  va_list ap;
  va_start(ap, flags);
  int mode = va_arg(ap, int);
  va_end(ap);
  return (int)syscall(SYS_openat, AT_FDCWD, p, flags, mode);
}
int open64(const char *p, int flags, ...) {
  if (IN_SIM()) return VOpen(p, flags);
  va_list ap;
  va_start(ap, flags);
  int mode = va_arg(ap, int);
  va_end(ap);
  return (int)syscall(SYS_openat, AT_FDCWD, p, flags, mode);
}
int openat(int d, const char *p, int flags, ...) {
  if (IN_SIM()) return VOpen(p, flags);
  va_list ap;
  va_start(ap, flags);
  int mode = va_arg(ap, int);
  va_end(ap);
  return (int)syscall(SYS_openat, d, p, flags, mode);
}
int creat(const char *p, mode_t m) { return open(p, O_WRONLY | O_CREAT | O_TRUNC, m); }
int close(int fd) {
  if (IN_SIM() && IsSimFd(fd)) return VClose(fd);
  return (int)raw3(SYS_close, fd, 0, 0);
}
off_t lseek(int fd, off_t o, int w) {
  if (IN_SIM() && IsSimFd(fd)) return VSeek(fd, o, w);
  return raw3(SYS_lseek, fd, o, w);
}
off64_t lseek64(int fd, off64_t o, int w) { return lseek(fd, o, w); }
int fstat(int fd, struct stat *st) {
  if (IN_SIM() && IsSimFd(fd)) return VFstat(fd, st);
  return (int)raw3(SYS_fstat, fd, (long)st, 0);
}
int stat(const char *p, struct stat *st) {
  if (IN_SIM()) return VStat(p, st);
  return (int)syscall(SYS_newfstatat, AT_FDCWD, p, st, 0);
}
int lstat(const char *p, struct stat *st) {
  if (IN_SIM()) return VStat(p, st);
  return (int)syscall(SYS_newfstatat, AT_FDCWD, p, st, AT_SYMLINK_NOFOLLOW);
}
int access(const char *p, int m) {
  if (IN_SIM()) { struct stat st; return VStat(p, &st); }
  return (int)syscall(SYS_faccessat, AT_FDCWD, p, m);
}
int unlink(const char *p) {
  if (IN_SIM()) {
    Guard g;
    SFile *f = FindFile(p);
    OpCost(f ? f->role : R_OTHER, OP_META);
    if (!f || !f->exists) { errno = ENOENT; return -1; }
    f->exists = 0;
    f->len = 0;
    NoteLog("unlink %s", f->name);
    return 0;
  }
  return (int)syscall(SYS_unlinkat, AT_FDCWD, p, 0);
}
int remove(const char *p) { return unlink(p); }
int rename(const char *a, const char *b) {
  if (IN_SIM()) {
    Guard g;
    SFile *f = FindFile(a);
    SFile *t = FindFile(b);
    if (!t) t = AddFile(b, R_OTHER);
    const int role = t ? t->role : R_OTHER;
    uint64_t n = shm->calls[role][OP_META]++;
    OpCost(role, OP_META);
    if (!f || !f->exists) { errno = ENOENT; return -1; }
    if (!t) { errno = ENOSPC; return -1; }
    if (int act = CheckFault(role, OP_META, n, false, 0, nullptr)) {
      NoteLog("rename %s %s = %s", f->name, t->name, strerrorname_np(act));
      Path(role, OP_META, 1);
      errno = act;
      return -1;
    }
    t->exists = 1;
    t->len = f->len; t->cap = f->cap; t->off = f->off;
    f->exists = 0; f->len = f->cap = 0;
    for (auto &d : g_fd) if (d.open && d.file == f) d.file = t;
    NoteLog("rename %s %s", f->name, t->name);
    return 0;
  }
  return (int)syscall(SYS_renameat2, AT_FDCWD, a, AT_FDCWD, b, 0);
}
int truncate(const char *p, off_t n) {
  if (IN_SIM()) {
    Guard g;
    SFile *f = FindFile(p);
    if (!f || !f->exists) { errno = ENOENT; return -1; }
    if (!FileReserve(f, n)) { errno = ENOSPC; return -1; }
    if ((uint64_t)n > f->len) memset(shm_data + f->off + f->len, 0, n - f->len);
    f->len = n;
    return 0;
  }
  return (int)syscall(SYS_truncate, p, n);
}
int ftruncate(int fd, off_t n) {
  if (IN_SIM() && IsSimFd(fd)) {
    Fd *d = GetFd(fd);
    if (!d || !d->file) { errno = EBADF; return -1; }
    return truncate(d->file->name, n);
  }
  return (int)raw3(SYS_ftruncate, fd, n, 0);
}
static int SyncLike(int fd, long nr) {
  if (IN_SIM() && IsSimFd(fd)) {
    Guard g;
    Fd *d = GetFd(fd);
    const int role = d ? d->role : R_OTHER;
    uint64_t n = shm->calls[role][OP_META]++;
    OpCost(role, OP_META);
    if (!d) { errno = EBADF; return -1; }
    if (int act = CheckFault(role, OP_META, n, false, 0, nullptr)) {
      NoteLog("sync %s = %s", kRoleName[role], strerrorname_np(act));
      Path(role, OP_META, 1);
      errno = act;
      return -1;
    }
    return 0;
  }
  return (int)raw3(nr, fd, 0, 0);
}
int fsync(int fd) { return SyncLike(fd, SYS_fsync); }
int fdatasync(int fd) { return SyncLike(fd, SYS_fdatasync); }
int isatty(int fd) {
  if (IN_SIM() && IsSimFd(fd)) { errno = ENOTTY; return 0; }
  struct termios *unused = nullptr; (void)unused;
  char buf[256];
  return raw3(SYS_ioctl, fd, 0x5401, (long)buf) == 0;
}
int ioctl(int fd, unsigned long req, ...) {
  va_list ap;
  va_start(ap, req);
  void *arg = va_arg(ap, void *);
  va_end(ap);
  if (IN_SIM() && IsSimFd(fd)) {
    Guard g;
    Fd *d = GetFd(fd);
    OpCost(d ? d->role : R_OTHER, OP_META);
    if (req == FIONREAD && d && d->file) {
      *(int *)arg = d->pos < d->file->len ? (int)(d->file->len - d->pos) : 0;
      return 0;
    }
    errno = ENOTTY;
    return -1;
  }
  return (int)raw3(SYS_ioctl, fd, req, (long)arg);
}
int poll(struct pollfd *p, nfds_t n, int t) {
  if (IN_SIM()) {
    Guard g;
    OpCost(R_OTHER, OP_META);
    int k = 0;
    for (nfds_t i = 0; i < n; ++i) {
      p[i].revents = GetFd(p[i].fd) ? p[i].events & (POLLIN | POLLOUT) : POLLNVAL;
      k += p[i].revents != 0;
    }
    return k;
  }
  return (int)syscall(SYS_poll, p, n, t);
}

static int ModeFlags(const char *m) {
  bool plus = strchr(m, '+') != nullptr;
  int f = m[0] == 'r' ? (plus ? O_RDWR : O_RDONLY)
        : m[0] == 'w' ? (plus ? O_RDWR : O_WRONLY) | O_CREAT | O_TRUNC
                      : (plus ? O_RDWR : O_WRONLY) | O_CREAT | O_APPEND;
  if (strchr(m, 'x')) f |= O_EXCL;
  return f;
}
FILE *fopen(const char *p, const char *m) {
  if (IN_SIM()) {
    int fd = VOpen(p, ModeFlags(m));
    if (fd < 0) return nullptr;
    FILE *f = MakeFile(fd, m);
    GetFd(fd)->fp = f;
    return f;
  }
  static auto real = Real<FILE *(*)(const char *, const char *)>("fopen");
  return real(p, m);
}
FILE *fopen64(const char *p, const char *m) { return fopen(p, m); }
FILE *fdopen(int fd, const char *m) {
  if (IN_SIM() && IsSimFd(fd)) {
    Fd *d = GetFd(fd);
    if (!d) { errno = EBADF; return nullptr; }
    FILE *f = MakeFile(fd, m);
    d->fp = f;
    return f;
  }
  static auto real = Real<FILE *(*)(int, const char *)>("fdopen");
  return real(fd, m);
}
int fileno(FILE *f) {
  int s = StdIndex(f);
  if (s >= 0) return s;
  if (g_on)
    for (int i = 0; i < MAXFD + 3; ++i) if (g_fd[i].open && g_fd[i].fp == f) return i <= 2 ? i : i - 3 + FD_BASE;
  static auto real = Real<int (*)(FILE *)>("fileno");
  return real(f);
}
int fileno_unlocked(FILE *f) { return fileno(f); }

// Advisory locks: a lock goes with the process or with the descriptor that is closed.
static int VLock(int fd, bool take, bool wait) {
  Guard g;
  Fd *d = GetFd(fd);
  const int role = d ? d->role : R_OTHER;
  uint64_t n = shm->calls[role][OP_META]++;
  OpCost(role, OP_META);
  if (!d) { errno = EBADF; return -1; }
  if (int act = CheckFault(role, OP_META, n, false, 0, nullptr)) {
    NoteLog("lock %s = %s", kRoleName[role], strerrorname_np(act));
    Path(role, OP_META, 1);
    errno = act;
    return -1;
  }
  SFile *f = d->file;
  if (!f) return 0;
  if (!take) {
    if (f->lock == me + 1) f->lock = 0;
    return 0;
  }
  while (f->lock && f->lock != me + 1 && turn->together && turn->alive[f->lock - 1]) {
    NoteLog("lock %s is held", f->name);
    if (!wait) { errno = EWOULDBLOCK; return -1; }
    OpCost(role, OP_META);
    PassTurn();
    AwaitTurn();
  }
  f->lock = me + 1;
  return 0;
}
int flock(int fd, int how) {
  if (IN_SIM() && IsSimFd(fd)) return VLock(fd, (how & ~LOCK_NB) != LOCK_UN, !(how & LOCK_NB));
  return (int)raw3(SYS_flock, fd, how, 0);
}
int lockf(int fd, int cmd, off_t) {
  if (IN_SIM() && IsSimFd(fd)) return VLock(fd, cmd != F_ULOCK, cmd == F_LOCK);
  errno = EINVAL;
  return -1;
}
int dup3(int a, int b, int) {
  if (!IN_SIM()) return (int)raw3(SYS_dup3, a, b, 0);
  Guard g;
  OpCost(R_OTHER, OP_META);
  Fd *d = GetFd(a);
  int i = b < 0 ? -1 : b <= 2 ? b : b >= FD_BASE && b < FD_BASE + MAXFD ? b - FD_BASE + 3 : MAXFD + 3;
  if (!d || i >= MAXFD + 3) { errno = EBADF; return -1; }
  if (i < 0) for (i = 0; i < MAXFD + 3 && g_fd[i].open; ++i) {}
  if (i >= MAXFD + 3) { errno = EMFILE; return -1; }
  if (d != &g_fd[i]) {                 // the offset is not shared: good enough for what appends or reads on
    g_fd[i] = *d;
    g_fd[i].fp = nullptr;
  }
  NoteLog("dup %s", kRoleName[d->role]);
  return i <= 2 ? i : i - 3 + FD_BASE;
}
int dup2(int a, int b) { return a == b && g_on ? a : dup3(a, b, 0); }
int dup(int a) {
  if (IN_SIM()) return dup3(a, -1, 0);
  return (int)raw3(SYS_dup, a, 0, 0);
}
static int VFcntl(int fd, int cmd, long arg) {
  if (!IN_SIM() || !IsSimFd(fd)) return (int)raw3(SYS_fcntl, fd, cmd, arg);
  if (cmd == F_SETLK || cmd == F_SETLKW || cmd == F_OFD_SETLK || cmd == F_OFD_SETLKW)
    return VLock(fd, ((struct flock *)arg)->l_type != F_UNLCK, cmd == F_SETLKW || cmd == F_OFD_SETLKW);
  if (cmd == F_DUPFD || cmd == F_DUPFD_CLOEXEC) return dup3(fd, -1, 0);
  Guard g;
  Fd *d = GetFd(fd);
  OpCost(d ? d->role : R_OTHER, OP_META);
  if (!d) { errno = EBADF; return -1; }
  if (cmd == F_GETFL) return d->flags & ~(O_CREAT | O_TRUNC | O_EXCL);
  if (cmd == F_SETFL) { d->flags = (d->flags & ~O_APPEND) | (int)(arg & O_APPEND); return 0; }
  return 0;
}
int fcntl(int fd, int cmd, ...) {
  va_list ap;
  va_start(ap, cmd);
  long arg = va_arg(ap, long);
  va_end(ap);
  return VFcntl(fd, cmd, arg);
}
int fcntl64(int fd, int cmd, ...) {
  va_list ap;
  va_start(ap, cmd);
  long arg = va_arg(ap, long);
  va_end(ap);
  return VFcntl(fd, cmd, arg);
}

// Temporary names: from the simulated entropy, as they come from the real one in use.
static bool TempName(char *x) {
  for (int i = 0; i < 6; ++i) {
    unsigned char c;
    getentropy(&c, 1);
    x[i] = "abcdefghijklmnopqrstuvwxyz0123456789"[c % 36];
  }
  return true;
}
int mkostemps(char *t, int suffix, int flags) {
  if (!IN_SIM()) { errno = EINVAL; return -1; }
  size_t n = strlen(t);
  if (n < 6 + (size_t)suffix || memcmp(t + n - suffix - 6, "XXXXXX", 6)) { errno = EINVAL; return -1; }
  for (int k = 0; k < 100; ++k) {
    TempName(t + n - suffix - 6);
    int fd = VOpen(t, O_RDWR | O_CREAT | O_EXCL | flags);
    if (fd >= 0 || errno != EEXIST) return fd;
  }
  errno = EEXIST;
  return -1;
}
int mkstemps(char *t, int suffix) { return mkostemps(t, suffix, 0); }
int mkostemp(char *t, int flags) { return mkostemps(t, 0, flags); }
int mkstemp(char *t) { return mkostemps(t, 0, 0); }
int mkstemp64(char *t) { return mkostemps(t, 0, 0); }
char *mktemp(char *t) {
  size_t n = strlen(t);
  if (n >= 6) TempName(t + n - 6);
  return t;
}
char *tmpnam(char *s) {
  static char own[L_tmpnam];
  if (!s) s = own;
  strcpy(s, "/tmp/fileXXXXXX");
  return mktemp(s);
}
FILE *tmpfile(void) {
  if (!IN_SIM()) { errno = ENOSYS; return nullptr; }
  char name[] = "/tmp/tmpfXXXXXX";
  int fd = mkstemp(name);
  if (fd < 0) return nullptr;
  // Without a name from the start.
  { Guard g; SFile *f = GetFd(fd)->file; f->exists = 0; }
  return fdopen(fd, "w+");
}
FILE *tmpfile64(void) { return tmpfile(); }

// Directories exist wherever a file is; making and removing them does nothing.
int mkdir(const char *p, mode_t m) {
  if (IN_SIM()) { Guard g; OpCost(R_OTHER, OP_META); NoteLog("mkdir"); return 0; }
  return (int)syscall(SYS_mkdirat, AT_FDCWD, p, m);
}
int rmdir(const char *p) {
  if (IN_SIM()) { Guard g; OpCost(R_OTHER, OP_META); NoteLog("rmdir"); return 0; }
  return (int)syscall(SYS_unlinkat, AT_FDCWD, p, AT_REMOVEDIR);
}
int chmod(const char *p, mode_t m) {
  if (IN_SIM()) { struct stat st; return VStat(p, &st); }
  return (int)syscall(SYS_fchmodat, AT_FDCWD, p, m);
}
int fchmod(int fd, mode_t m) {
  if (IN_SIM() && IsSimFd(fd)) { struct stat st; return VFstat(fd, &st); }
  return (int)raw3(SYS_fchmod, fd, m, 0);
}
int link(const char *a, const char *b) {
  if (!IN_SIM()) return (int)syscall(SYS_linkat, AT_FDCWD, a, AT_FDCWD, b, 0);
  Guard g;
  OpCost(R_OTHER, OP_META);
  errno = EPERM;                       // a file system without links
  return -1;
}
int symlink(const char *a, const char *b) {
  if (!IN_SIM()) return (int)syscall(SYS_symlinkat, a, AT_FDCWD, b);
  Guard g;
  OpCost(R_OTHER, OP_META);
  errno = EPERM;
  return -1;
}
ssize_t copy_file_range(int a, off64_t *ao, int b, off64_t *bo, size_t n, unsigned f) {
  if (IN_SIM()) { Guard g; OpCost(R_OTHER, OP_META); errno = EXDEV; return -1; }
  return syscall(SYS_copy_file_range, a, ao, b, bo, n, f);
}
ssize_t sendfile(int o, int i, off_t *off, size_t n) {
  if (IN_SIM()) { Guard g; OpCost(R_OTHER, OP_META); errno = EINVAL; return -1; }
  return syscall(SYS_sendfile, o, i, off, n);
}
// No other programs in this world.
int system(const char *) { errno = ENOSYS; return -1; }
FILE *popen(const char *c, const char *m) {
  if (IN_SIM()) { errno = ENOSYS; return nullptr; }
  static auto real = Real<FILE *(*)(const char *, const char *)>("popen");
  return real(c, m);
}

// ---- process ------------------------------------------------------------------
void exit(int c) {
  if (IN_SIM()) { FlushStd(); ++rt_depth; Finish(O_EXIT, c & 0xFF, nullptr); }
  static auto real = Real<void (*)(int)>("exit");
  real(c);
  __builtin_unreachable();
}
void quick_exit(int c) noexcept {
  if (IN_SIM()) Finish(O_EXIT, c & 0xFF, nullptr);
  syscall(SYS_exit_group, c);
  __builtin_unreachable();
}
void _exit(int c) {
  if (IN_SIM()) Finish(O_EXIT, c & 0xFF, nullptr);
  syscall(SYS_exit_group, c);
  __builtin_unreachable();
}
void _Exit(int c) noexcept { _exit(c); }
void abort(void) noexcept {
  if (g_on) { ++rt_depth; Finish(O_ABORT, 0, "abort"); }
  signal(SIGABRT, SIG_DFL);
  raise(SIGABRT);
  syscall(SYS_exit_group, 134);
  __builtin_unreachable();
}
void __assert_fail(const char *e, const char *f, unsigned l, const char *) noexcept {
  ++rt_depth;
  const char *b = strrchr(f, '/');
  char buf[300];
  snprintf(buf, sizeof buf, "assert %s:%u %s", b ? b + 1 : f, l, e);
  if (g_on) Finish(O_ASSERT, 0, buf);
  fprintf(stderr, "%s\n", buf);
  abort();
}
int kill(pid_t p, int s) {
  if (IN_SIM()) Finish(O_SIGNAL, s, "kill");
  return (int)syscall(SYS_kill, p, s);
}

// ---- clocks, entropy, environment ------------------------------------------------
int clock_gettime(clockid_t c, struct timespec *ts) {
  if (IN_SIM()) {
    uint64_t n = SimNow(c == CLOCK_REALTIME);
    ts->tv_sec = n / 1000000000ull;
    ts->tv_nsec = n % 1000000000ull;
    return 0;
  }
  return (int)raw3(SYS_clock_gettime, c, (long)ts, 0);
}
int gettimeofday(struct timeval *__restrict tv, void *__restrict) {
  if (IN_SIM()) {
    uint64_t n = SimNow(true);
    tv->tv_sec = n / 1000000000ull;
    tv->tv_usec = n / 1000 % 1000000;
    return 0;
  }
  return (int)raw3(SYS_gettimeofday, (long)tv, 0, 0);
}
time_t time(time_t *t) {
  struct timespec ts;
  clock_gettime(CLOCK_REALTIME, &ts);
  if (t) *t = ts.tv_sec;
  return ts.tv_sec;
}
clock_t clock(void) {
  if (IN_SIM()) return (clock_t)(SimNow(false) / 1000);
  struct timespec ts;
  raw3(SYS_clock_gettime, CLOCK_PROCESS_CPUTIME_ID, (long)&ts, 0);
  return ts.tv_sec * 1000000 + ts.tv_nsec / 1000;
}
int nanosleep(const struct timespec *a, struct timespec *b) {
  if (IN_SIM()) {
    OpCost(R_OTHER, OP_META);
    shm->simtime += (uint64_t)a->tv_sec * 1000000000ull + a->tv_nsec;
    SchedPoint(1);
    return 0;
  }
  return (int)raw3(SYS_nanosleep, (long)a, (long)b, 0);
}
int clock_nanosleep(clockid_t, int, const struct timespec *a, struct timespec *b) { return nanosleep(a, b); }
int usleep(useconds_t u) {
  struct timespec ts = {(time_t)(u / 1000000), (long)(u % 1000000) * 1000};
  return nanosleep(&ts, nullptr);
}
unsigned sleep(unsigned s) {
  struct timespec ts = {(time_t)s, 0};
  nanosleep(&ts, nullptr);
  return 0;
}
static void Entropy(void *b, size_t n) {
  static uint64_t k;
  for (size_t i = 0; i < n; ++i) ((unsigned char *)b)[i] = (unsigned char)hash3(g_w->env.entropy, ++k, 0xE47);
}
int getentropy(void *b, size_t n) {
  if (IN_SIM()) { Entropy(b, n); return 0; }
  return syscall(SYS_getrandom, b, n, 0) == (long)n ? 0 : -1;
}
ssize_t getrandom(void *b, size_t n, unsigned f) {
  if (IN_SIM()) { Entropy(b, n); return n; }
  return syscall(SYS_getrandom, b, n, f);
}
uint32_t arc4random(void) { uint32_t v = 0; getentropy(&v, 4); return v; }
unsigned _ZNSt13random_device9_M_getvalEv(void *) { unsigned v = 0; getentropy(&v, 4); return v; }
unsigned _ZNSt13random_device16_M_getval_pretr1Ev(void *) { unsigned v = 0; getentropy(&v, 4); return v; }
void _ZNSt13random_device7_M_initERKNSt7__cxx1112basic_stringIcSt11char_traitsIcESaIcEEE(void *, void *) {}
void _ZNSt13random_device7_M_finiEv(void *) {}
pid_t getpid(void) {
  if (IN_SIM()) return 2 + 2 * (pid_t)(hash2(g_w->env.entropy, 0x91D) % 15000) + g_w->proc;
  return (pid_t)syscall(SYS_getpid);
}
pid_t getppid(void) {
  if (IN_SIM()) return 2 + (pid_t)(hash2(g_w->env.entropy, 0x99D) % 30000);
  return (pid_t)syscall(SYS_getppid);
}
extern char **environ;
char *getenv(const char *name) {
  if (IN_SIM()) {
    // In some environments nothing is set, in others there is an arbitrary value
    // for most variables that are asked for.
    if (hash2(g_w->env.entropy, 0xE47) % 2 == 0) return nullptr;
    static char slot[8][40];
    static int k;
    uint64_t h = g_w->env.entropy;
    for (const char *c = name; *c; ++c) h = hash2(h, (unsigned char)*c);
    if (h % 3 == 0) return nullptr;
    char *s = slot[k++ & 7];
    if (h % 3 == 1) snprintf(s, 40, "%d", (int)(h >> 32) % 9);
    else snprintf(s, 40, "v%llx", (unsigned long long)(h >> 20));
    return s;
  }
  if (!environ) return nullptr;
  size_t n = strlen(name);
  for (char **e = environ; *e; ++e)
    if (!strncmp(*e, name, n) && (*e)[n] == '=') return *e + n + 1;
  return nullptr;
}
char *secure_getenv(const char *n) { return getenv(n); }
int get_nprocs(void) {
  if (IN_SIM()) return g_w->env.nprocs;
  return 8;
}
int sched_yield(void) {
  if (IN_SIM()) { SchedPoint(1); return 0; }
  return (int)syscall(SYS_sched_yield);
}

// ---- threads ------------------------------------------------------------------------
int pthread_create(pthread_t *t, const pthread_attr_t *a, void *(*fn)(void *), void *arg) {
  if (IN_SIM()) { int id = NewThread(fn, arg, t); return id > 0 ? 0 : EAGAIN; }
  if (!real_pthread_create) real_pthread_create = Real<decltype(real_pthread_create)>("pthread_create");
  return real_pthread_create(t, a, fn, arg);
}
static int ThreadId(pthread_t t) {
  for (int i = 1; i < n_thr; ++i) if (pthread_equal(g_thr[i].real, t)) return i;
  return -1;
}
int pthread_join(pthread_t t, void **ret) {
  if (IN_SIM()) {
    int id = ThreadId(t);
    if (id < 0) return ESRCH;
    WaitThread(id);
    if (ret) *ret = g_thr[id].ret;
    return 0;
  }
  static auto real = Real<int (*)(pthread_t, void **)>("pthread_join");
  return real(t, ret);
}
int pthread_detach(pthread_t t) {
  if (IN_SIM()) return 0;
  static auto real = Real<int (*)(pthread_t)>("pthread_detach");
  return real(t);
}
static bool Recursive(pthread_mutex_t *m) { return (m->__data.__kind & 3) == PTHREAD_MUTEX_RECURSIVE; }
int pthread_mutex_lock(pthread_mutex_t *m) noexcept {
  if (IN_SIM() && cur_thr) { MtxLock(m, Recursive(m)); return 0; }
  static auto real = Real<int (*)(pthread_mutex_t *)>("pthread_mutex_lock");
  return real(m);
}
int pthread_mutex_trylock(pthread_mutex_t *m) noexcept {
  if (IN_SIM() && cur_thr) return MtxTry(m, Recursive(m)) ? 0 : EBUSY;
  static auto real = Real<int (*)(pthread_mutex_t *)>("pthread_mutex_trylock");
  return real(m);
}
int pthread_mutex_unlock(pthread_mutex_t *m) noexcept {
  if (IN_SIM() && cur_thr) { MtxUnlock(m); return 0; }
  static auto real = Real<int (*)(pthread_mutex_t *)>("pthread_mutex_unlock");
  return real(m);
}
int pthread_rwlock_rdlock(pthread_rwlock_t *m) noexcept {
  if (IN_SIM() && cur_thr) { MtxLock(m, false); return 0; }
  static auto real = Real<int (*)(pthread_rwlock_t *)>("pthread_rwlock_rdlock");
  return real(m);
}
int pthread_rwlock_wrlock(pthread_rwlock_t *m) noexcept {
  if (IN_SIM() && cur_thr) { MtxLock(m, false); return 0; }
  static auto real = Real<int (*)(pthread_rwlock_t *)>("pthread_rwlock_wrlock");
  return real(m);
}
int pthread_rwlock_unlock(pthread_rwlock_t *m) noexcept {
  if (IN_SIM() && cur_thr) { MtxUnlock(m); return 0; }
  static auto real = Real<int (*)(pthread_rwlock_t *)>("pthread_rwlock_unlock");
  return real(m);
}
int pthread_cond_wait(pthread_cond_t *c, pthread_mutex_t *m) {
  if (IN_SIM()) { MtxUnlock(m); Block(c); SyncAcquire(c); MtxLock(m, false); return 0; }
  static auto real = Real<int (*)(pthread_cond_t *, pthread_mutex_t *)>("pthread_cond_wait");
  return real(c, m);
}
static int CondTimed(pthread_cond_t *c, pthread_mutex_t *m) {
  MtxUnlock(m);
  Block(c, true);
  SyncAcquire(c);
  bool to = cur_thr->timed_out;
  MtxLock(m, false);
  return to ? ETIMEDOUT : 0;
}
int pthread_cond_timedwait(pthread_cond_t *c, pthread_mutex_t *m, const struct timespec *t) {
  if (IN_SIM()) return CondTimed(c, m);
  static auto real = Real<int (*)(pthread_cond_t *, pthread_mutex_t *, const struct timespec *)>("pthread_cond_timedwait");
  return real(c, m, t);
}
int pthread_cond_clockwait(pthread_cond_t *c, pthread_mutex_t *m, clockid_t k, const struct timespec *t) {
  if (IN_SIM()) return CondTimed(c, m);
  static auto real = Real<int (*)(pthread_cond_t *, pthread_mutex_t *, clockid_t, const struct timespec *)>("pthread_cond_clockwait");
  return real(c, m, k, t);
}
int pthread_cond_signal(pthread_cond_t *c) noexcept {
  if (IN_SIM()) { SyncRelease(c); Wake(c, false); SchedPoint(1); return 0; }
  static auto real = Real<int (*)(pthread_cond_t *)>("pthread_cond_signal");
  return real(c);
}
int pthread_cond_broadcast(pthread_cond_t *c) noexcept {
  if (IN_SIM()) { SyncRelease(c); Wake(c, true); SchedPoint(1); return 0; }
  static auto real = Real<int (*)(pthread_cond_t *)>("pthread_cond_broadcast");
  return real(c);
}
int pthread_once(pthread_once_t *o, void (*f)(void)) {
  if (IN_SIM() && cur_thr) {
    static const void *busy[32];
    static int nb;
    for (;;) {
      if (*(volatile int *)o == 2) { SyncAcquire(o); return 0; }
      bool b = false;
      for (int i = 0; i < nb; ++i) b |= busy[i] == o;
      if (!b) break;
      Block(o);
    }
    if (nb < 32) busy[nb++] = o;
    f();
    SyncRelease(o);
    *(volatile int *)o = 2;
    for (int i = 0; i < nb; ++i) if (busy[i] == o) { busy[i] = busy[--nb]; break; }
    Wake(o, true);
    return 0;
  }
  static auto real = Real<int (*)(pthread_once_t *, void (*)(void))>("pthread_once");
  return real(o, f);
}
// function-local statics: entry points are in guard.cc
int sim_guard_acquire(void *g) {
  unsigned char *b = (unsigned char *)g;
  for (;;) {
    if (__atomic_load_n(&b[0], __ATOMIC_ACQUIRE)) { SyncAcquire(g); return 0; }
    if (!b[1]) { b[1] = 1; SyncAcquire(g); return 1; }
    if (IN_SIM() && n_alive > 1) Block(g);
    else if (!g_on) sched_yield();
    else Finish(O_DEADLOCK, 0, "recursive initialisation of a static");
  }
}
void sim_guard_release(void *g) {
  unsigned char *b = (unsigned char *)g;
  b[1] = 0;
  SyncRelease(g);
  __atomic_store_n(&b[0], 1, __ATOMIC_RELEASE);
  if (IN_SIM() && n_alive > 1) Wake(g, true);
}
void sim_guard_abort(void *g) {
  unsigned char *b = (unsigned char *)g;
  SyncRelease(g);
  b[1] = 0;
  if (IN_SIM() && n_alive > 1) Wake(g, true);
}

// ---- OpenMP ---------------------------------------------------------------------------
void GOMP_parallel(void (*fn)(void *), void *data, unsigned n, unsigned) { RunTeam(fn, data, n, nullptr); }
void GOMP_barrier(void) { TeamBarrier(); }
static char g_crit, g_atomic;
void GOMP_critical_start(void) { MtxLock(&g_crit, false); }
void GOMP_critical_end(void) { MtxUnlock(&g_crit); }
void GOMP_critical_name_start(void **p) { MtxLock(p, false); }
void GOMP_critical_name_end(void **p) { MtxUnlock(p); }
void GOMP_atomic_start(void) { MtxLock(&g_atomic, false); }
void GOMP_atomic_end(void) { MtxUnlock(&g_atomic); }
bool GOMP_single_start(void) {
  WorkShare *w = NextWs();
  bool first = !w->taken;
  w->taken = true;
  if (++w->arrived >= (cur_thr->team ? cur_thr->team->size : 1)) *w = WorkShare();
  SchedPoint(1);
  return first;
}
#define LOOP_FAMILY(NAME)                                                                         \
  bool GOMP_loop_##NAME##_start(long a, long b, long i, long c, long *s, long *e) {               \
    return WsStart(a, b, i, c, s, e);                                                             \
  }                                                                                               \
  bool GOMP_loop_##NAME##_next(long *s, long *e) { return WsNext(CurWs(), s, e); }                \
  void GOMP_parallel_loop_##NAME(void (*fn)(void *), void *d, unsigned n, long a, long b, long i, \
                                 long c, unsigned) {                                              \
    WorkShare w = WorkShare();                                                                    \
    w.init = true; w.next = a; w.end = b; w.incr = i; w.chunk = c;                                \
    struct Wrap { void (*fn)(void *); void *d; } x = {fn, d};                                     \
    RunTeam([](void *v) { Wrap *q = (Wrap *)v; cur_thr->ws = 1; q->fn(q->d); }, &x, n, &w);       \
  }                                                                                               \
  bool GOMP_loop_ull_##NAME##_start(bool, unsigned long long a, unsigned long long b,             \
                                    unsigned long long i, unsigned long long c,                   \
                                    unsigned long long *s, unsigned long long *e) {               \
    return WsStart((long)a, (long)b, (long)i, (long)c, (long *)s, (long *)e);                     \
  }                                                                                               \
  bool GOMP_loop_ull_##NAME##_next(unsigned long long *s, unsigned long long *e) {                \
    return WsNext(CurWs(), (long *)s, (long *)e);                                                 \
  }
LOOP_FAMILY(static)
LOOP_FAMILY(dynamic)
LOOP_FAMILY(guided)
LOOP_FAMILY(nonmonotonic_dynamic)
LOOP_FAMILY(nonmonotonic_guided)
#define LOOP_RUNTIME(NAME)                                                                        \
  bool GOMP_loop_##NAME##_start(long a, long b, long i, long *s, long *e) {                       \
    return WsStart(a, b, i, 1, s, e);                                                             \
  }                                                                                               \
  bool GOMP_loop_##NAME##_next(long *s, long *e) { return WsNext(CurWs(), s, e); }                \
  void GOMP_parallel_loop_##NAME(void (*fn)(void *), void *d, unsigned n, long a, long b, long i, unsigned) { \
    GOMP_parallel_loop_dynamic(fn, d, n, a, b, i, 1, 0);                                          \
  }
LOOP_RUNTIME(runtime)
LOOP_RUNTIME(nonmonotonic_runtime)
LOOP_RUNTIME(maybe_nonmonotonic_runtime)
void GOMP_loop_end(void) { WsEnd(true); }
void GOMP_loop_end_nowait(void) { WsEnd(false); }
bool GOMP_loop_end_cancel(void) { WsEnd(true); return false; }
unsigned GOMP_sections_start(unsigned n) {
  long s, e;
  return WsStart(1, (long)n + 1, 1, 1, &s, &e) ? (unsigned)s : 0;
}
unsigned GOMP_sections_next(void) {
  long s, e;
  return WsNext(CurWs(), &s, &e) ? (unsigned)s : 0;
}
void GOMP_sections_end(void) { WsEnd(true); }
void GOMP_sections_end_nowait(void) { WsEnd(false); }
void GOMP_parallel_sections(void (*fn)(void *), void *d, unsigned n, unsigned cnt, unsigned) {
  GOMP_parallel_loop_dynamic(fn, d, n, 1, (long)cnt + 1, 1, 1, 0);
}
void GOMP_taskwait(void) { SchedPoint(1); }
void GOMP_task(void (*fn)(void *), void *data, void (*cpy)(void *, void *), long size, long align, bool, unsigned, void **, int) {
  if (cpy) {
    char *buf = (char *)alloca(size + align);
    char *a = (char *)(((uintptr_t)buf + align - 1) & ~(uintptr_t)(align - 1));
    cpy(a, data);
    fn(a);
  } else {
    fn(data);
  }
}
int omp_get_num_threads(void) { return cur_thr && cur_thr->team ? cur_thr->team->size : 1; }
int omp_get_max_threads(void) { return g_on ? OmpThreads(0) : 1; }
int omp_get_thread_num(void) { return cur_thr ? cur_thr->omp_num : 0; }
int omp_get_num_procs(void) { return g_on ? g_w->env.nprocs : 1; }
int omp_in_parallel(void) { return omp_get_num_threads() > 1; }
void omp_set_num_threads(int n) { g_omp_req = n; }
void omp_set_dynamic(int) {}
int omp_get_dynamic(void) { return 0; }
double omp_get_wtime(void) { return g_on ? SimNow(false) * 1e-9 : 0; }
void omp_init_lock(void *) {}
void omp_destroy_lock(void *) {}
void omp_set_lock(void *l) { MtxLock(l, false); }
void omp_unset_lock(void *l) { MtxUnlock(l); }

// ---- memory accesses of the CUT (compiler call-outs) -------------------------------------
#define ACC(A, N, W)                                                                             \
  do {                                                                                           \
    MemPoint();                                                                                  \
    if (__builtin_expect(race_on && rt_depth == 0, 0)) RaceAccess((uintptr_t)(A), (N), (W), __builtin_return_address(0)); \
  } while (0)
void __tsan_init(void) {}
void __tsan_func_entry(void *) {}
void __tsan_func_exit(void *) {}
void __tsan_read_range(void *a, unsigned long n) { ACC(a, n, false); }
void __tsan_write_range(void *a, unsigned long n) { ACC(a, n, true); }
void __tsan_vptr_update(void *a, void *) { ACC(a, 8, true); }
void __tsan_vptr_read(void *a) { ACC(a, 8, false); }
static char g_fence;
void __tsan_atomic_thread_fence(int) { MemPoint(); SyncBoth(&g_fence); }
void __tsan_atomic_signal_fence(int) {}
#define RW(N)                                        \
  void __tsan_read##N(void *a) { ACC(a, N, false); } \
  void __tsan_write##N(void *a) { ACC(a, N, true); } \
  void __tsan_unaligned_read##N(void *a) { ACC(a, N, false); } \
  void __tsan_unaligned_write##N(void *a) { ACC(a, N, true); } \
  void __tsan_volatile_read##N(void *a) { ACC(a, N, false); } \
  void __tsan_volatile_write##N(void *a) { ACC(a, N, true); } \
  void __tsan_read##N##_pc(void *a, void *) { ACC(a, N, false); } \
  void __tsan_write##N##_pc(void *a, void *) { ACC(a, N, true); } 
RW(1) RW(2) RW(4) RW(8) RW(16)
#define AT(N, T)                                                                                                            \
  T __tsan_atomic##N##_load(const volatile T *a, int) { MemPoint(); SyncBoth((const void *)a); return __atomic_load_n(a, __ATOMIC_SEQ_CST); }          \
  void __tsan_atomic##N##_store(volatile T *a, T v, int) { MemPoint(); SyncBoth((const void *)a); __atomic_store_n(a, v, __ATOMIC_SEQ_CST); }          \
  T __tsan_atomic##N##_exchange(volatile T *a, T v, int) { MemPoint(); SyncBoth((const void *)a); return __atomic_exchange_n(a, v, __ATOMIC_SEQ_CST); } \
  T __tsan_atomic##N##_fetch_add(volatile T *a, T v, int) { MemPoint(); SyncBoth((const void *)a); return __atomic_fetch_add(a, v, __ATOMIC_SEQ_CST); } \
  T __tsan_atomic##N##_fetch_sub(volatile T *a, T v, int) { MemPoint(); SyncBoth((const void *)a); return __atomic_fetch_sub(a, v, __ATOMIC_SEQ_CST); } \
  T __tsan_atomic##N##_fetch_and(volatile T *a, T v, int) { MemPoint(); SyncBoth((const void *)a); return __atomic_fetch_and(a, v, __ATOMIC_SEQ_CST); } \
  T __tsan_atomic##N##_fetch_or(volatile T *a, T v, int) { MemPoint(); SyncBoth((const void *)a); return __atomic_fetch_or(a, v, __ATOMIC_SEQ_CST); }   \
  T __tsan_atomic##N##_fetch_xor(volatile T *a, T v, int) { MemPoint(); SyncBoth((const void *)a); return __atomic_fetch_xor(a, v, __ATOMIC_SEQ_CST); } \
  T __tsan_atomic##N##_fetch_nand(volatile T *a, T v, int) { MemPoint(); SyncBoth((const void *)a); return __atomic_fetch_nand(a, v, __ATOMIC_SEQ_CST); } \
  int __tsan_atomic##N##_compare_exchange_strong(volatile T *a, T *e, T v, int, int) {                                      \
    MemPoint(); SyncBoth((const void *)a);                                                                                                            \
    return __atomic_compare_exchange_n(a, e, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST);                                 \
  }                                                                                                                         \
  int __tsan_atomic##N##_compare_exchange_weak(volatile T *a, T *e, T v, int, int) {                                        \
    MemPoint(); SyncBoth((const void *)a);                                                                                                            \
    return __atomic_compare_exchange_n(a, e, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST);                                 \
  }
AT(8, unsigned char) AT(16, unsigned short) AT(32, unsigned int) AT(64, unsigned long)

}  // extern "C"

namespace std {
void __glibcxx_assert_fail(const char *f, int l, const char *, const char *c) noexcept {
  ++rt_depth;
  const char *b = f ? strrchr(f, '/') : nullptr;
  char buf[300];
  snprintf(buf, sizeof buf, "library assertion %s:%d %s", b ? b + 1 : f ? f : "?", l, c ? c : "");
  if (g_on) Finish(O_ASSERT, 0, buf);
  abort();
}
}  // namespace std
