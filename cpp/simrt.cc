// Simulator runtime linked into the real include-what-you-use.
//
// Every libc entry point through which the analyser meets the outside world
// is redirected here with the linker's --wrap: files, directories, clock,
// output, memory.  The program runs against an in-memory file system that the
// request describes, on an allocator whose address choices come from a seed,
// with faults injected at the operations the request names.
//
// The binary is a fork server: it reads requests on stdin, runs each in a
// forked child (the analyser itself exits at the end of one analysis), and
// answers with exit status, output bytes and the log of simulated operations.
#include <dirent.h>
#include <errno.h>
#include <fcntl.h>
#include <signal.h>
#include <stdarg.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/statfs.h>
#include <sys/syscall.h>
#include <sys/types.h>
#include <sys/wait.h>
#include <time.h>
#include <ucontext.h>
#include <unistd.h>

extern "C" {
int __real_open(const char*, int, ...);
ssize_t __real_read(int, void*, size_t);
ssize_t __real_pread(int, void*, size_t, off_t);
ssize_t __real_write(int, const void*, size_t);
int __real_close(int);
int __real_stat(const char*, struct stat*);
int __real_lstat(const char*, struct stat*);
int __real_fstat(int, struct stat*);
void* __real_mmap(void*, size_t, int, int, int, off_t);
int __real_munmap(void*, size_t);
ssize_t __real_readlink(const char*, char*, size_t);
DIR* __real_opendir(const char*);
struct dirent* __real_readdir(DIR*);
int __real_closedir(DIR*);
int __real_main(int, char**);
void* __real_malloc(size_t);
off_t __real_lseek(int, off_t, int);
}

namespace {

void* sys_mmap(void* at, size_t n, int prot, int flags, int fd, off_t off) {
  return (void*)syscall(SYS_mmap, at, n, (long)prot, (long)flags, (long)fd,
                        (long)off);
}

// ---------------------------------------------------------------- PRNG
struct Rng {
  uint64_t s;
  uint64_t next() {
    uint64_t z = (s += 0x9e3779b97f4a7c15ull);
    z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull;
    z = (z ^ (z >> 27)) * 0x94d049bb133111ebull;
    return z ^ (z >> 31);
  }
  uint64_t below(uint64_t n) { return n ? next() % n : 0; }
};
uint64_t mix(uint64_t a, uint64_t b) {
  Rng r{a * 0x9e3779b97f4a7c15ull ^ b};
  return r.next();
}

bool g_on = false;       // simulation active (in a forked child)
int g_in_rt = 0;         // inside runtime code: do not simulate

// ---------------------------------------------------------------- log
struct Shared {
  uint32_t log_len, log_dropped;
  uint32_t fired[64];
  uint32_t mallocs, ops;
  char log[8 << 20];
};
Shared* g_sh;
void logf_(const char* fmt, ...) {
  char buf[512];
  va_list ap;
  va_start(ap, fmt);
  int n = vsnprintf(buf, sizeof buf, fmt, ap);
  va_end(ap);
  if (n >= (int)sizeof buf) n = sizeof buf - 1;
  if (g_sh->log_len + n > sizeof g_sh->log) {
    g_sh->log_dropped++;
    return;
  }
  memcpy(g_sh->log + g_sh->log_len, buf, n);
  g_sh->log_len += n;
}

// ---------------------------------------------------------------- allocator
// Modes: 0 ascending addresses, 1 descending, 2 random placement with reuse of
// freed blocks in random order, 3 random placement without reuse.
char* const kBoot = (char*)0x100000000000ull;
const size_t kBootSize = 256ull << 20;
char* const kArena = (char*)0x200000000000ull;
const size_t kArenaSize = 1ull << 38;
const int kClasses = 44;
const size_t kChunk = 64 << 10;
char* g_boot_ptr;
uint32_t g_mode;
Rng g_arng;
char *g_up, *g_down;
uint64_t g_malloc_count, g_malloc_fail_at;
// Memory handed out and never given back.  A run has kMemory of it, so that
// one that never ends runs out of memory always at the same point.
uint64_t g_footprint;
const uint64_t kMemory = 2ull << 30;

struct Hdr {
  uint64_t size;   // usable size
  uint64_t cls;    // size class, or ~0 for a block outside the classes
};
struct FreeVec {
  void** v;
  size_t n, cap;
};
FreeVec g_free[kClasses], g_fresh[kClasses];
size_t class_size(int c) {
  // 16 .. 32768: four steps per power of two
  size_t base = 16ull << (c / 4);
  return base + (base / 4) * (c % 4);
}
int size_class(size_t n) {
  for (int c = 0; c < kClasses; c++)
    if (class_size(c) >= n) return c;
  return -1;
}
void* map_fixed(char* at, size_t n) {
  void* p = (void*)sys_mmap( at, n, PROT_READ | PROT_WRITE,
                           MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE |
                               MAP_FIXED_NOREPLACE,
                           -1, 0);
  if (p != at) {
    static const char m[] = "simrt: cannot map arena\n";
    syscall(SYS_write, 2, m, sizeof m - 1);
    syscall(SYS_exit_group, 97);
  }
  return p;
}
void push(FreeVec& f, void* p) {
  if (f.n == f.cap) {
    size_t ncap = f.cap ? f.cap * 2 : 1024;
    void** nv = (void**)sys_mmap( 0, ncap * sizeof(void*),
                                PROT_READ | PROT_WRITE,
                                MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
    if (f.n) memcpy(nv, f.v, f.n * sizeof(void*));
    if (f.v) syscall(SYS_munmap, f.v, f.cap * sizeof(void*));
    f.v = nv;
    f.cap = ncap;
  }
  f.v[f.n++] = p;
}
void* take_random(FreeVec& f) {
  size_t i = g_arng.below(f.n);
  void* p = f.v[i];
  f.v[i] = f.v[--f.n];
  return p;
}
// A chunk of the arena, placed as the mode says.  Random placement walks a
// permutation of the chunk indices, so no chunk is handed out twice.
uint64_t g_chunk_no, g_chunk_mul, g_chunk_add;
const uint64_t kNChunks = kArenaSize / kChunk;  // 2^22
char* new_chunk(size_t n) {
  size_t k = (n + kChunk - 1) / kChunk;
  if (k == 1 && g_mode >= 2) {
    // Lower half of the arena: single chunks.
    uint64_t i = (g_chunk_no++ * g_chunk_mul + g_chunk_add) % (kNChunks / 2);
    return kArena + i * kChunk;
  }
  char* p;
  bool up = g_mode == 0 || (g_mode >= 2 && g_arng.below(2));
  if (up) {
    p = g_up;
    g_up += k * kChunk;
  } else {
    g_down -= k * kChunk;
    p = g_down;
  }
  return p;
}
void* raw_alloc(size_t n) {
  n = (n + 15) & ~15ull;
  if (!n) n = 16;
  if (!g_on) {
    if (!g_boot_ptr) g_boot_ptr = (char*)map_fixed(kBoot, kBootSize);
    Hdr* h = (Hdr*)g_boot_ptr;
    g_boot_ptr += sizeof(Hdr) + n;
    if (g_boot_ptr > kBoot + kBootSize) syscall(SYS_exit_group, 97);
    h->size = n;
    h->cls = ~0ull;
    return h + 1;
  }
  size_t total = n + sizeof(Hdr);
  int c = size_class(total);
  Hdr* h;
  if (c < 0) {
    h = (Hdr*)new_chunk(total);
    g_footprint += total;
    h->size = n;
    h->cls = ~1ull;
    return h + 1;
  }
  size_t cs = class_size(c);
  if (g_mode < 2) {
    FreeVec& fr = g_free[c];
    if (fr.n) {
      h = (Hdr*)fr.v[--fr.n];
    } else if (g_mode == 0) {
      h = (Hdr*)g_up;
      g_up += cs;
      g_footprint += cs;
    } else {
      g_footprint += cs;
      g_down -= cs;
      h = (Hdr*)g_down;
    }
  } else {
    FreeVec& fr = g_free[c];
    if (fr.n && g_mode == 2 && g_arng.below(2)) {
      h = (Hdr*)take_random(fr);
    } else {
      FreeVec& fs = g_fresh[c];
      if (!fs.n) {
        char* p = new_chunk(kChunk);
        for (size_t o = 0; o + cs <= kChunk; o += cs) push(fs, p + o);
      }
      h = (Hdr*)take_random(fs);
      g_footprint += cs;
    }
  }
  h->size = cs - sizeof(Hdr);
  h->cls = c;
  return h + 1;
}
void raw_free(void* p) {
  if (!p) return;
  Hdr* h = (Hdr*)p - 1;
  if (h->cls == ~2ull) {  // aligned block: points at the real one
    raw_free((void*)h->size);
    return;
  }
  if (h->cls == ~1ull && g_on) {
    size_t len = (h->size + sizeof(Hdr) + kChunk - 1) / kChunk * kChunk;
    g_footprint -= h->size + sizeof(Hdr);
    syscall(SYS_madvise, h, len, MADV_DONTNEED);
    return;
  }
  if (h->cls < (uint64_t)kClasses && g_on) {
    if (g_mode != 3) push(g_free[h->cls], h);
  }
}
size_t usable(void* p) {
  Hdr* h = (Hdr*)p - 1;
  if (h->cls == ~2ull) {
    char* real = (char*)h->size;
    Hdr* rh = (Hdr*)real - 1;
    return rh->size - ((char*)p - real);
  }
  return h->size;
}
void alloc_init(uint32_t mode, uint64_t seed) {
  map_fixed(kArena, kArenaSize);
  g_mode = mode;
  g_arng.s = mix(seed, 0xa110c);
  char* half = kArena + kArenaSize / 2;
  if (mode >= 2) {
    g_up = half;
    g_down = kArena + kArenaSize;
  } else {
    g_up = kArena;
    g_down = kArena + kArenaSize;
  }
  g_chunk_mul = g_arng.next() | 1;
  g_chunk_add = g_arng.next();
}

// ---------------------------------------------------------------- request
struct Str {
  const char* p;
  uint32_t n;
};
struct Node {
  Str path;
  uint32_t type;  // 0 file, 1 directory, 2 symlink
  uint64_t ino;
  int64_t mtime;
  uint32_t mode;
  Str data;
};
struct Fault {
  uint32_t cls;     // operation class
  uint32_t index;   // fires at the index-th matching operation (0-based)
  uint32_t count;   // and at the following count-1 ones
  Str sub;          // path substring or =path; empty matches all
  uint32_t action;  // 0 errno=arg, 1 short transfer of arg bytes, 2 kill,
                    // 3 truncated content (arg bytes), 4 file disappears
  int64_t arg;
  uint32_t seen;
};
enum { C_OPEN = 0, C_STAT, C_READ, C_DIR, C_WRITE, C_MALLOC, C_ANY };
const char* kClassName[] = {"open", "stat", "read", "dir", "write", "malloc"};

Node* g_nodes;
uint32_t g_nnodes;
Fault* g_faults;
uint32_t g_nfaults;
Str* g_pass;
uint32_t g_npass;
char g_cwd[4096];
uint64_t g_seed;
uint32_t g_io_mode;  // bit 0: random short reads, bit 1: random EINTR,
                     // bit 2: random short writes
Rng g_iorng;

struct Reader {
  const char* p;
  uint32_t u32() {
    uint32_t v;
    memcpy(&v, p, 4);
    p += 4;
    return v;
  }
  uint64_t u64() {
    uint64_t v;
    memcpy(&v, p, 8);
    p += 8;
    return v;
  }
  Str str() {
    Str s;
    s.n = u32();
    s.p = p;
    p += s.n + 1;  // NUL-terminated for convenience
    return s;
  }
};

int node_cmp(const char* a, size_t an, const Str& b) {
  size_t n = an < b.n ? an : b.n;
  int c = memcmp(a, b.p, n);
  if (c) return c;
  return an < b.n ? -1 : an > b.n;
}
Node* find_node(const char* path) {
  size_t n = strlen(path);
  uint32_t lo = 0, hi = g_nnodes;  // nodes are sorted by path
  while (lo < hi) {
    uint32_t mid = (lo + hi) / 2;
    int c = node_cmp(path, n, g_nodes[mid].path);
    if (!c) return &g_nodes[mid];
    if (c < 0)
      hi = mid;
    else
      lo = mid + 1;
  }
  return nullptr;
}
bool passthrough(const char* path) {
  for (uint32_t i = 0; i < g_npass; i++) {
    const Str& s = g_pass[i];
    if (!strncmp(path, s.p, s.n) && (path[s.n] == 0 || path[s.n] == '/'))
      return true;
    // Ancestors of a pass-through tree exist as directories.
    size_t n = strlen(path);
    if (n < s.n && !strncmp(path, s.p, n) && s.p[n] == '/') return true;
  }
  return false;
}

// Resolves path lexically against cwd, then follows symlinks of the simulated
// tree (at most 40).  "a/.." is resolved after following links in "a".
int resolve(const char* path, char* out, bool follow_last, int depth = 0) {
  if (depth > 40) return ELOOP;
  if (!*path) return ENOENT;
  if (strlen(path) > 3000) return ENAMETOOLONG;
  char cur[4096];
  if (path[0] == '/')
    cur[0] = 0;
  else
    strcpy(cur, strcmp(g_cwd, "/") ? g_cwd : "");
  const char* p = path;
  while (*p) {
    while (*p == '/') p++;
    const char* e = strchrnul(p, '/');
    size_t n = e - p;
    if (!n) break;
    bool last = true;
    for (const char* q = e; *q; q++)
      if (*q != '/') last = false;
    if (n == 1 && p[0] == '.') {
      p = e;
      continue;
    }
    // A component can only be looked up in a directory.
    if (cur[0]) {
      Node* d = find_node(cur);
      if (d && d->type == 0) return ENOTDIR;
      if (!d && !passthrough(cur)) return ENOENT;
    }
    if (n == 2 && p[0] == '.' && p[1] == '.') {
      char* s = strrchr(cur, '/');
      if (s) *s = 0;
      p = e;
      continue;
    }
    size_t len = strlen(cur);
    if (len + n + 2 > sizeof cur) return ENAMETOOLONG;
    cur[len] = '/';
    memcpy(cur + len + 1, p, n);
    cur[len + 1 + n] = 0;
    Node* nd = find_node(cur);
    if (nd && nd->type == 2 && (!last || follow_last || *e)) {
      char target[4096];
      if (nd->data.p[0] == '/') {
        snprintf(target, sizeof target, "%s%s", nd->data.p, e);
      } else {
        cur[len] = 0;
        snprintf(target, sizeof target, "%s/%s%s", cur, nd->data.p, e);
      }
      return resolve(target, out, follow_last, depth + 1);
    }
    p = e;
  }
  if (!cur[0]) strcpy(cur, "/");
  // A trailing slash demands a directory.
  strcpy(out, cur);
  return 0;
}

// ---------------------------------------------------------------- faults
// Returns the fault that fires at this operation, or null.
Fault* fault_at(uint32_t cls, const char* path) {
  g_sh->ops++;
  Fault* hit = nullptr;
  for (uint32_t i = 0; i < g_nfaults; i++) {
    Fault& f = g_faults[i];
    if (f.cls != cls && f.cls != C_ANY) continue;
    if (f.sub.n && (!path || (f.sub.p[0] == '=' ? strcmp(path, f.sub.p + 1) != 0
                                                : !strstr(path, f.sub.p))))
      continue;
    uint32_t k = f.seen++;
    if (k >= f.index && k - f.index < f.count && !hit) {
      hit = &f;
      if (i < 64) g_sh->fired[i]++;
    }
  }
  if (hit) {
    logf_("FAULT %s %s action=%u arg=%lld\n", kClassName[cls],
          path ? path : "-", hit->action, (long long)hit->arg);
    if (hit->action == 2) {
      syscall(SYS_kill, syscall(SYS_getpid), SIGKILL);  // the real one
      for (;;) pause();
    }
  }
  return hit;
}
bool is_errno(Fault* f) { return f && f->action == 0; }

// ---------------------------------------------------------------- files
const int kFdBase = 1000;
const int kMaxFds = 256;
struct File {
  bool used;
  char path[1024];
  struct stat st;
  const char* data;
  size_t size;
  size_t off;
  bool dir;
} g_files[kMaxFds];

void fill_stat(struct stat* st, const Node* n) {
  memset(st, 0, sizeof *st);
  st->st_dev = 77;
  st->st_ino = n->ino;
  st->st_nlink = 1;
  st->st_mode = n->mode | (n->type == 0   ? S_IFREG
                           : n->type == 1 ? S_IFDIR
                                          : S_IFLNK);
  st->st_size = n->type == 1 ? 4096 : n->data.n;
  st->st_blksize = 4096;
  st->st_blocks = (st->st_size + 511) / 512;
  st->st_mtim.tv_sec = st->st_ctim.tv_sec = st->st_atim.tv_sec = n->mtime;
}
// stat on a resolved path
int stat_resolved(const char* path, struct stat* st, bool follow) {
  if (Node* n = find_node(path)) {
    fill_stat(st, n);
    return 0;
  }
  if (!strcmp(path, "/")) {
    memset(st, 0, sizeof *st);
    st->st_mode = S_IFDIR | 0755;
    st->st_ino = 2;
    st->st_dev = 77;
    return 0;
  }
  if (passthrough(path)) {
    int r = follow ? __real_stat(path, st) : __real_lstat(path, st);
    if (r) return errno;
    // Identity and times come from the simulator; equal files stay equal.
    st->st_ino = mix(mix(g_seed, st->st_ino), st->st_dev) & 0x7fffffff;
    st->st_dev = 78;
    st->st_mtim.tv_sec = 1600000000 + mix(g_seed, st->st_ino) % 100000000;
    st->st_mtim.tv_nsec = 0;
    st->st_ctim = st->st_atim = st->st_mtim;
    return 0;
  }
  return ENOENT;
}

int sim_stat(const char* path, struct stat* st, bool follow, const char* op) {
  char r[4096];
  int e;
  Fault* f = fault_at(C_STAT, path);
  if (is_errno(f)) {
    e = (int)f->arg;
  } else {
    e = resolve(path, r, follow);
    if (!e) e = stat_resolved(r, st, follow);
    if (!e && f && f->action == 4) e = ENOENT;
    if (!e && f && f->action == 3) st->st_size = f->arg;
  }
  logf_("%s %s -> %d\n", op, path, e);
  if (e) {
    errno = e;
    return -1;
  }
  return 0;
}

// The bytes of a pass-through file, mapped from the real one.
bool load_real(const char* path, const char** data, size_t* size) {
  int fd = __real_open(path, O_RDONLY | O_CLOEXEC);
  if (fd < 0) return false;
  struct stat st;
  if (__real_fstat(fd, &st)) {
    __real_close(fd);
    return false;
  }
  *size = st.st_size;
  *data = "";
  if (st.st_size) {
    void* p = (void*)sys_mmap( 0, st.st_size, PROT_READ, MAP_PRIVATE,
                             fd, 0);
    if (p == MAP_FAILED) {
      __real_close(fd);
      return false;
    }
    *data = (const char*)p;
  }
  __real_close(fd);
  return true;
}

int sim_open(const char* path, int flags) {
  char r[4096];
  int e = 0;
  int fd = -1;
  Fault* f = fault_at(C_OPEN, path);
  if (is_errno(f)) {
    e = (int)f->arg;
  } else if ((flags & O_ACCMODE) != O_RDONLY) {
    e = EROFS;  // an analysis has no business writing files
    logf_("WRITE-OPEN %s\n", path);
  } else {
    e = resolve(path, r, true);
    struct stat st;
    if (!e) e = stat_resolved(r, &st, true);
    if (!e && f && f->action == 4) e = ENOENT;
    if (!e && !(st.st_mode & 0444)) e = EACCES;
    if (!e) {
      int i = 0;
      while (i < kMaxFds && g_files[i].used) i++;
      if (i == kMaxFds) {
        e = EMFILE;
      } else {
        File& x = g_files[i];
        x.dir = S_ISDIR(st.st_mode);
        x.off = 0;
        x.st = st;
        if (!x.dir) {
          if (Node* n = find_node(r)) {
            x.data = n->data.p;
            x.size = n->data.n;
          } else if (!load_real(r, &x.data, &x.size)) {
            e = EIO;
          }
        }
        if (f && f->action == 3 && (size_t)f->arg < x.size) {
          x.size = f->arg;  // lost tail: file cut short, stat agrees
          x.st.st_size = f->arg;
        }
        if (!e) {
          x.used = true;
          snprintf(x.path, sizeof x.path, "%s", path);
          fd = kFdBase + i;
        }
      }
    }
  }
  logf_("open %s -> %d\n", path, e ? -e : 0);
  if (e) {
    errno = e;
    return -1;
  }
  return fd;
}
File* file_of(int fd) {
  if (fd < kFdBase || fd >= kFdBase + kMaxFds) return nullptr;
  File* x = &g_files[fd - kFdBase];
  return x->used ? x : nullptr;
}
ssize_t sim_read(File* x, void* buf, size_t n, size_t off, bool adv) {
  Fault* f = fault_at(C_READ, x->path);
  int e = 0;
  size_t k = 0;
  if (is_errno(f)) {
    e = (int)f->arg;
  } else if (x->dir) {
    e = EISDIR;
  } else if ((g_io_mode & 2) && g_iorng.below(4) == 0) {
    e = EINTR;
  } else {
    size_t left = off < x->size ? x->size - off : 0;
    k = n < left ? n : left;
    if (f && f->action == 1 && k > (size_t)f->arg && f->arg > 0) k = f->arg;
    if ((g_io_mode & 1) && k > 1 && g_iorng.below(2))
      k = 1 + g_iorng.below(k - 1);
    memcpy(buf, x->data + off, k);
    if (adv) x->off += k;
  }
  logf_("read %s @%zu n=%zu -> %zd\n", x->path, off, n,
        e ? -(ssize_t)e : (ssize_t)k);
  if (e) {
    errno = e;
    return -1;
  }
  return k;
}

struct SimDir {
  uint32_t magic;
  DIR* real;
  char path[1024];
  uint32_t n, i;
  struct Ent {
    char name[256];
    unsigned char type;
  }* ents;
  struct dirent de;
};

char* g_stack;
ucontext_t g_main_ctx, g_sim_ctx;
int g_argc;
char** g_argv;
int g_ret;
void run_main() {
  g_ret = __real_main(g_argc, g_argv);
  exit(g_ret);
}

}  // namespace

extern "C" {

#define LIVE (g_on && !g_in_rt)

int __wrap_open(const char* path, int flags, ...) {
  va_list ap;
  va_start(ap, flags);
  int mode = va_arg(ap, int);
  va_end(ap);
  if (!LIVE) return __real_open(path, flags, mode);
  return sim_open(path, flags);
}
int __wrap_open64(const char* path, int flags, ...) {
  va_list ap;
  va_start(ap, flags);
  int mode = va_arg(ap, int);
  va_end(ap);
  if (!LIVE) return __real_open(path, flags, mode);
  return sim_open(path, flags);
}
ssize_t __wrap_read(int fd, void* buf, size_t n) {
  if (!LIVE) return __real_read(fd, buf, n);
  if (File* x = file_of(fd)) return sim_read(x, buf, n, x->off, true);
  logf_("read fd %d -> 0\n", fd);
  return 0;  // stdin is empty
}
ssize_t __wrap_pread(int fd, void* buf, size_t n, off_t off) {
  if (!LIVE) return __real_pread(fd, buf, n, off);
  if (File* x = file_of(fd)) return sim_read(x, buf, n, off, false);
  errno = EBADF;
  return -1;
}
ssize_t __wrap_write(int fd, const void* buf, size_t n) {
  if (!LIVE) return __real_write(fd, buf, n);
  if (fd != 1 && fd != 2) {
    logf_("write to fd %d\n", fd);
    errno = EBADF;
    return -1;
  }
  Fault* f = fault_at(C_WRITE, fd == 2 ? "<stderr>" : "<stdout>");
  if (is_errno(f)) {
    logf_("write %d -> -%d\n", fd, (int)f->arg);
    errno = (int)f->arg;
    return -1;
  }
  if (n && (g_io_mode & 2) && g_iorng.below(8) == 0) {
    logf_("write %d -> EINTR\n", fd);
    errno = EINTR;
    return -1;
  }
  if (f && f->action == 1 && (size_t)f->arg < n && f->arg > 0) n = f->arg;
  if ((g_io_mode & 4) && n > 1 && g_iorng.below(2))
    n = 1 + g_iorng.below(n - 1);
  ssize_t k = __real_write(fd, buf, n);
  logf_("write %d -> %zd\n", fd, k);
  return k;
}
int __wrap_close(int fd) {
  if (!LIVE) return __real_close(fd);
  if (File* x = file_of(fd)) {
    x->used = false;
    return 0;
  }
  return 0;
}
int __wrap_stat(const char* path, struct stat* st) {
  if (!LIVE) return __real_stat(path, st);
  return sim_stat(path, st, true, "stat");
}
int __wrap_stat64(const char* path, struct stat* st) {
  if (!LIVE) return __real_stat(path, st);
  return sim_stat(path, st, true, "stat");
}
int __wrap_lstat(const char* path, struct stat* st) {
  if (!LIVE) return __real_lstat(path, st);
  return sim_stat(path, st, false, "lstat");
}
int __wrap_fstat(int fd, struct stat* st) {
  if (!LIVE) return __real_fstat(fd, st);
  if (File* x = file_of(fd)) {
    Fault* f = fault_at(C_STAT, x->path);
    if (is_errno(f)) {
      logf_("fstat %s -> %d\n", x->path, (int)f->arg);
      errno = (int)f->arg;
      return -1;
    }
    *st = x->st;
    return 0;
  }
  if (fd >= 0 && fd <= 2) {
    memset(st, 0, sizeof *st);
    st->st_mode = S_IFIFO | 0600;
    return 0;
  }
  errno = EBADF;
  return -1;
}
int __wrap_access(const char* path, int mode) {
  if (!LIVE) return access(path, mode);
  struct stat st;
  if (sim_stat(path, &st, true, "access")) return -1;
  if ((mode & R_OK) && !(st.st_mode & 0444)) {
    errno = EACCES;
    return -1;
  }
  if ((mode & X_OK) && !(st.st_mode & 0111)) {
    errno = EACCES;
    return -1;
  }
  return 0;
}
off_t __wrap_lseek(int fd, off_t off, int whence) {
  if (!LIVE) return __real_lseek(fd, off, whence);
  if (File* x = file_of(fd)) {
    if (whence == SEEK_SET)
      x->off = off;
    else if (whence == SEEK_CUR)
      x->off += off;
    else
      x->off = x->size + off;
    return x->off;
  }
  errno = ESPIPE;
  return -1;
}
int __wrap_isatty(int fd) {
  if (!LIVE) return isatty(fd);
  errno = ENOTTY;
  return 0;
}
void* __wrap_mmap(void* addr, size_t n, int prot, int flags, int fd,
                  off_t off) {
  if (!LIVE || fd < kFdBase)
    return __real_mmap(addr, n, prot, flags, fd, off);
  File* x = file_of(fd);
  if (!x) {
    errno = EBADF;
    return MAP_FAILED;
  }
  Fault* f = fault_at(C_READ, x->path);
  if (is_errno(f)) {
    logf_("mmap %s -> %d\n", x->path, (int)f->arg);
    errno = (int)f->arg;
    return MAP_FAILED;
  }
  size_t len = (n + 4095) & ~4095ull;
  char* p = new_chunk(len + 1);
  size_t left = (size_t)off < x->size ? x->size - off : 0;
  memcpy(p, x->data + off, left < n ? left : n);
  logf_("mmap %s n=%zu\n", x->path, n);
  return p;
}
int __wrap_munmap(void* p, size_t n) {
  if (!LIVE || (char*)p < kArena || (char*)p >= kArena + kArenaSize)
    return __real_munmap(p, n);
  syscall(SYS_madvise, p, (n + 4095) & ~4095ull, MADV_DONTNEED);
  return 0;
}
int __wrap_posix_madvise(void* a, size_t n, int adv) { return 0; }
ssize_t __wrap_readlink(const char* path, char* buf, size_t n) {
  if (!LIVE) return __real_readlink(path, buf, n);
  char r[4096];
  int e = resolve(path, r, false);
  Node* nd = e ? nullptr : find_node(r);
  if (!e && (!nd || nd->type != 2)) e = nd || passthrough(r) ? EINVAL : ENOENT;
  logf_("readlink %s -> %d\n", path, e);
  if (e) {
    errno = e;
    return -1;
  }
  size_t k = nd->data.n < n ? nd->data.n : n;
  memcpy(buf, nd->data.p, k);
  return k;
}
char* __wrap_realpath(const char* path, char* out) {
  char r[4096];
  struct stat st;
  Fault* f = LIVE ? fault_at(C_STAT, path) : nullptr;
  int e = is_errno(f) ? (int)f->arg : resolve(path, r, true);
  if (!e) e = stat_resolved(r, &st, true);
  logf_("realpath %s -> %d\n", path, e);
  if (e) {
    errno = e;
    return nullptr;
  }
  if (!out) out = (char*)malloc(4096);
  strcpy(out, r);
  return out;
}
char* __wrap_getcwd(char* buf, size_t n) {
  if (!LIVE) {
    strcpy(buf, "/");
    return buf;
  }
  if (strlen(g_cwd) + 1 > n) {
    errno = ERANGE;
    return nullptr;
  }
  strcpy(buf, g_cwd);
  return buf;
}
int __wrap_statfs(const char* path, struct statfs* st) {
  memset(st, 0, sizeof *st);
  st->f_type = 0xef53;
  return 0;
}
int __wrap_fstatfs(int fd, struct statfs* st) {
  memset(st, 0, sizeof *st);
  st->f_type = 0xef53;
  return 0;
}
DIR* __wrap_opendir(const char* path) {
  if (!LIVE) return __real_opendir(path);
  Fault* f = fault_at(C_DIR, path);
  char r[4096];
  struct stat st;
  int e = is_errno(f) ? (int)f->arg : resolve(path, r, true);
  if (!e) e = stat_resolved(r, &st, true);
  if (!e && !S_ISDIR(st.st_mode)) e = ENOTDIR;
  logf_("opendir %s -> %d\n", path, e);
  if (e) {
    errno = e;
    return nullptr;
  }
  SimDir* d = (SimDir*)calloc(1, sizeof(SimDir));
  snprintf(d->path, sizeof d->path, "%s", r);
  uint32_t cap = 64;
  d->ents = (SimDir::Ent*)calloc(cap, sizeof(SimDir::Ent));
  auto add = [&](const char* name, unsigned char type) {
    if (d->n == cap) {
      cap *= 2;
      d->ents = (SimDir::Ent*)realloc(d->ents, cap * sizeof(SimDir::Ent));
    }
    snprintf(d->ents[d->n].name, 256, "%s", name);
    d->ents[d->n++].type = type;
  };
  size_t n = strlen(r);
  for (uint32_t i = 0; i < g_nnodes; i++) {
    const Str& p = g_nodes[i].path;
    if (p.n > n + 1 && !memcmp(p.p, r, n) && p.p[n] == '/' &&
        !memchr(p.p + n + 1, '/', p.n - n - 1))
      add(p.p + n + 1, g_nodes[i].type == 0   ? DT_REG
                       : g_nodes[i].type == 1 ? DT_DIR
                                              : DT_LNK);
  }
  if (!find_node(r) && passthrough(r)) {
    g_in_rt++;
    if (DIR* rd = __real_opendir(r)) {
      while (struct dirent* de = __real_readdir(rd))
        if (strcmp(de->d_name, ".") && strcmp(de->d_name, ".."))
          add(de->d_name, de->d_type);
      __real_closedir(rd);
    }
    g_in_rt--;
  }
  // Sort by name, then permute by seed: directory order is up to the disk.
  qsort(d->ents, d->n, sizeof(SimDir::Ent), [](const void* a, const void* b) {
    return strcmp(((SimDir::Ent*)a)->name, ((SimDir::Ent*)b)->name);
  });
  Rng rr{mix(g_seed, n)};
  for (uint32_t i = d->n; i > 1; i--) {
    uint32_t j = rr.below(i);
    SimDir::Ent t = d->ents[i - 1];
    d->ents[i - 1] = d->ents[j];
    d->ents[j] = t;
  }
  return (DIR*)d;
}
struct dirent* __wrap_readdir(DIR* dp) {
  if (!LIVE) return __real_readdir(dp);
  SimDir* d = (SimDir*)dp;
  if (d->i >= d->n) return nullptr;
  memset(&d->de, 0, sizeof d->de);
  d->de.d_ino = d->i + 1;
  d->de.d_type = d->ents[d->i].type;
  strcpy(d->de.d_name, d->ents[d->i].name);
  d->i++;
  return &d->de;
}
int __wrap_closedir(DIR* dp) {
  if (!LIVE) return __real_closedir(dp);
  free(((SimDir*)dp)->ents);
  free(dp);
  return 0;
}
time_t __wrap_time(time_t* t) {
  time_t v = 1700000000 + (time_t)(g_seed % 1000000);
  if (t) *t = v;
  return v;
}
pid_t __wrap_getpid() {
  if (!LIVE) return (pid_t)syscall(SYS_getpid);
  return 4242;
}
uint32_t __wrap_arc4random() { return (uint32_t)g_iorng.next(); }

// Nothing an analysis does may change the outside world.
#define FORBID(ret, name, ...)             \
  ret __wrap_##name(__VA_ARGS__) {         \
    if (g_on) logf_("FORBIDDEN " #name "\n"); \
    errno = EPERM;                         \
    return -1;                             \
  }
FORBID(int, unlink, const char*)
FORBID(int, rename, const char*, const char*)
FORBID(int, remove, const char*)
FORBID(int, mkdir, const char*, mode_t)
FORBID(int, symlink, const char*, const char*)
FORBID(int, chdir, const char*)

void* __wrap_malloc(size_t n) {
  if (LIVE) {
    g_malloc_count++;
    if (g_malloc_fail_at && g_malloc_count == g_malloc_fail_at) {
      Fault* f = fault_at(C_MALLOC, nullptr);
      if (f) {
        g_sh->mallocs = g_malloc_count;
        errno = ENOMEM;
        return nullptr;
      }
    }
    g_sh->mallocs = g_malloc_count;
    if (g_footprint + n > kMemory) {
      errno = ENOMEM;
      return nullptr;
    }
  }
  return raw_alloc(n);
}
void __wrap_free(void* p) { raw_free(p); }
void* __wrap_calloc(size_t a, size_t b) {
  size_t n = a * b;
  void* p = __wrap_malloc(n);
  if (p) memset(p, 0, n);
  return p;
}
void* __wrap_realloc(void* p, size_t n) {
  if (!p) return __wrap_malloc(n);
  size_t old = usable(p);
  if (n <= old) return p;
  void* q = __wrap_malloc(n);
  if (!q) return nullptr;
  memcpy(q, p, old);
  raw_free(p);
  return q;
}
int __wrap_posix_memalign(void** out, size_t align, size_t n) {
  if (align <= 16) {
    *out = __wrap_malloc(n);
    return *out ? 0 : ENOMEM;
  }
  char* p = (char*)__wrap_malloc(n + align + 32);
  if (!p) return ENOMEM;
  uintptr_t a = ((uintptr_t)p + sizeof(Hdr) + align - 1) & ~(align - 1);
  if (a != (uintptr_t)p) {
    Hdr* h = (Hdr*)a - 1;
    h->size = (uint64_t)p;
    h->cls = ~2ull;
  }
  *out = (void*)a;
  return 0;
}
void* __wrap_aligned_alloc(size_t align, size_t n) {
  void* p = nullptr;
  if (__wrap_posix_memalign(&p, align, n)) return nullptr;
  return p;
}
void* __wrap_memalign(size_t align, size_t n) {
  return __wrap_aligned_alloc(align, n);
}
struct mallinfo2_like {
  size_t x[10];
};
mallinfo2_like __wrap_mallinfo2() { return {}; }

// LLVM's bump allocators: give every object its own address, instead of
// consecutive addresses within 4 kB slabs.
void* _ZN4llvm20BumpPtrAllocatorImplINS_15MallocAllocatorELm4096ELm4096ELm128EE12AllocateSlowEmmNS_5AlignE(
    void* self, size_t size, size_t padded, unsigned char log2align) {
  size_t align = (size_t)1 << log2align;
  void* p = nullptr;
  if (__wrap_posix_memalign(&p, align, padded ? padded : 1)) abort();
  return p;
}

// ---------------------------------------------------------------- server
static bool read_all(int fd, void* buf, size_t n) {
  char* p = (char*)buf;
  while (n) {
    ssize_t k = __real_read(fd, p, n);
    if (k <= 0) return false;
    p += k;
    n -= k;
  }
  return true;
}
static void write_all(int fd, const void* buf, size_t n) {
  const char* p = (const char*)buf;
  while (n) {
    ssize_t k = __real_write(fd, p, n);
    if (k <= 0) _exit(96);
    p += k;
    n -= k;
  }
}

static void child(char* req, int outfd) {
  Reader r{req};
  uint32_t argc = r.u32();
  char** argv = (char**)calloc(argc + 1, sizeof(char*));
  for (uint32_t i = 0; i < argc; i++) argv[i] = (char*)r.str().p;
  Str cwd = r.str();
  memcpy(g_cwd, cwd.p, cwd.n + 1);
  g_seed = r.u64();
  uint32_t mode = r.u32();
  g_io_mode = r.u32();
  g_iorng.s = mix(g_seed, 0x10);
  g_npass = r.u32();
  g_pass = (Str*)calloc(g_npass + 1, sizeof(Str));
  for (uint32_t i = 0; i < g_npass; i++) g_pass[i] = r.str();
  g_nnodes = r.u32();
  g_nodes = (Node*)calloc(g_nnodes + 1, sizeof(Node));
  for (uint32_t i = 0; i < g_nnodes; i++) {
    Node& n = g_nodes[i];
    n.path = r.str();
    n.type = r.u32();
    n.ino = r.u64();
    n.mtime = (int64_t)r.u64();
    n.mode = r.u32();
    n.data = r.str();
  }
  g_nfaults = r.u32();
  g_faults = (Fault*)calloc(g_nfaults + 1, sizeof(Fault));
  for (uint32_t i = 0; i < g_nfaults; i++) {
    Fault& f = g_faults[i];
    f.cls = r.u32();
    f.index = r.u32();
    f.count = r.u32();
    f.sub = r.str();
    f.action = r.u32();
    f.arg = (int64_t)r.u64();
    f.seen = 0;
    if (f.cls == C_MALLOC) {
      g_malloc_fail_at = f.index + 1;
      f.index = 0;
    }
  }
  struct rlimit rl = {30, 31};
  setrlimit(RLIMIT_CPU, &rl);
  rl = {0, 0};
  setrlimit(RLIMIT_CORE, &rl);
  dup2(outfd, 1);
  dup2(outfd, 2);
  int nullfd = __real_open("/dev/null", O_RDONLY);
  dup2(nullfd, 0);
  alloc_init(mode, g_seed);
  // A stack at a fixed address: argument vectors, environment and ASLR of the
  // real process do not show.
  size_t ss = 64 << 20;
  g_stack = (char*)map_fixed((char*)0x300000000000ull, ss);
  g_argc = argc;
  g_argv = argv;
  getcontext(&g_sim_ctx);
  g_sim_ctx.uc_stack.ss_sp = g_stack;
  g_sim_ctx.uc_stack.ss_size = ss;
  g_sim_ctx.uc_link = &g_main_ctx;
  makecontext(&g_sim_ctx, run_main, 0);
  g_on = true;
  swapcontext(&g_main_ctx, &g_sim_ctx);
  _exit(95);
}

int __wrap_main(int argc, char** argv) {
  if (argc != 2 || strcmp(argv[1], "--sim-server")) {
    fprintf(stderr, "simulated include-what-you-use: fork server only\n");
    return 98;
  }
  static char* env0[] = {(char*)"PATH=/sim/bin", (char*)"HOME=/sim", nullptr};
  environ = env0;
  g_sh = (Shared*)sys_mmap( 0, sizeof(Shared), PROT_READ | PROT_WRITE,
                          MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  for (;;) {
    uint32_t len;
    if (!read_all(0, &len, 4)) return 0;
    char* req = (char*)sys_mmap( 0, len + 1, PROT_READ | PROT_WRITE,
                               MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
    if (!read_all(0, req, len)) return 0;
    g_sh->log_len = g_sh->log_dropped = g_sh->mallocs = g_sh->ops = 0;
    memset(g_sh->fired, 0, sizeof g_sh->fired);
    int out = memfd_create("out", 0);
    if (out < 0) return 94;
    fcntl(out, F_SETFL, O_APPEND);
    pid_t pid = fork();
    if (pid == 0) child(req, out);
    int status = 0;
    struct rusage ru;
    wait4(pid, &status, 0, &ru);
    int code = WIFEXITED(status) ? WEXITSTATUS(status) : -WTERMSIG(status);
    off_t n = __real_lseek(out, 0, SEEK_END);
    char* data = n ? (char*)sys_mmap( 0, n, PROT_READ, MAP_PRIVATE,
                                    out, 0)
                   : nullptr;
    uint32_t head[7] = {(uint32_t)code, (uint32_t)n, g_sh->log_len,
                        g_sh->log_dropped, g_sh->ops, g_sh->mallocs,
                        64};
    write_all(1, head, sizeof head);
    write_all(1, g_sh->fired, sizeof g_sh->fired);
    if (n) write_all(1, data, n);
    write_all(1, g_sh->log, g_sh->log_len);
    if (n) syscall(SYS_munmap, data, n);
    syscall(SYS_munmap, req, len + 1);
    __real_close(out);
  }
}

}  // extern "C"
