/* In-process part of the simulator (LD_PRELOAD).
 *
 * Everything nondeterministic that the simulated program meets goes through
 * here: heap addresses and contents, clocks, pids, random numbers, inode
 * numbers, and every system call on a path the simulator owns ("events").
 * Each event is announced on a socket to the scheduler, which answers with the
 * decision (proceed, fail with errno, shorten, signal, kill ...).  While a
 * process waits for its answer nothing else of it runs, so the scheduler
 * decides who proceeds and when.
 *
 * Own I/O uses raw system calls, own memory is static.
 */
#define _GNU_SOURCE
#include <dirent.h>
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <signal.h>
#include <stdarg.h>
#include <stddef.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <sys/stat.h>
#include <sys/statvfs.h>
#include <sys/syscall.h>
#include <sys/time.h>
#include <sys/types.h>
#include <sys/wait.h>
#include <sys/uio.h>
#include <sys/utsname.h>
#include <time.h>
#include <unistd.h>

#define EXPORT __attribute__((visibility("default")))

/* ------------------------------------------------------------------ config */

static int sim_on;
static int ctl_fd = -1;
static char roots[8][512];
static int nroots;
static uint64_t seed_heap, seed_misc;
static int layout_mode; /* 0: plain bump; else seeded */
static uint64_t alloc_count, alloc_hash, alloc_fail_at;
static uint64_t ino_xor;
static int64_t clock_base, clock_step;
static int virt_pid;
static uint64_t ev_seq;
static char virt_host[64];

static uint64_t splitmix(uint64_t *s) {
  uint64_t z = (*s += 0x9E3779B97F4A7C15ull);
  z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
  z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
  return z ^ (z >> 31);
}

static void raw_die(const char *msg) {
  syscall(SYS_write, 2, msg, strlen(msg));
  syscall(SYS_exit_group, 99);
}

/* --------------------------------------------------------------- allocator */

#define ARENA_BASE ((char *)0x100000000000ull)
#define ARENA_SIZE (6ull << 30)
#define HDR 32
#define NLANE 8
#define NBIN 64

struct hdr {
  uint64_t size;  /* usable size */
  uint32_t bin;
  uint32_t magic;
  struct hdr *next;
  uint64_t pad;
};

static char *lane_lo[NLANE], *lane_hi[NLANE];
static int lane_down[NLANE];
static int nlanes = 1;
static unsigned max_gap;     /* in 16-byte units */
static int reuse_mode;       /* 0 LIFO 1 FIFO 2 random 3 never (until pressure) */
static int junk_alloc, junk_free;
static struct hdr *bin_head[NBIN], *bin_tail[NBIN];
static int heap_ready;
static uint64_t heap_rng;

static int heap_lock;
static void hlock(void) {
  while (__atomic_exchange_n(&heap_lock, 1, __ATOMIC_ACQUIRE))
    ;
}
static void hunlock(void) { __atomic_store_n(&heap_lock, 0, __ATOMIC_RELEASE); }

static const char *env_lookup(const char *name) {
  extern char **environ;
  size_t n = strlen(name);
  if (!environ)
    return NULL;
  for (char **e = environ; *e; ++e)
    if (!strncmp(*e, name, n) && (*e)[n] == '=')
      return *e + n + 1;
  return NULL;
}

static uint64_t parse_u64(const char *s) {
  uint64_t v = 0;
  while (s && *s >= '0' && *s <= '9')
    v = v * 10 + (uint64_t)(*s++ - '0');
  return v;
}

static void heap_init(void) {
  if (heap_ready)
    return;
  heap_ready = 1;
  void *p = mmap(ARENA_BASE, ARENA_SIZE, PROT_READ | PROT_WRITE,
                 MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE |
                     MAP_FIXED_NOREPLACE,
                 -1, 0);
  if (p != (void *)ARENA_BASE)
    raw_die("sim: cannot map arena\n");
  const char *s = env_lookup("SIM_HEAP");
  seed_heap = s ? parse_u64(s) : 0;
  layout_mode = seed_heap != 0;
  heap_rng = seed_heap;
  if (layout_mode) {
    uint64_t r = splitmix(&heap_rng);
    static const int lane_choice[] = {1, 1, 2, 3, 4, 6, 8, 8};
    static const unsigned gap_choice[] = {0, 1, 3, 7, 15, 63, 255, 1023};
    nlanes = lane_choice[r & 7];
    max_gap = gap_choice[(r >> 3) & 7];
    reuse_mode = (int)((r >> 6) & 3);
    junk_alloc = (int)((r >> 8) & 0xff);
    junk_free = (int)((r >> 16) & 0xff);
    for (int i = 0; i < nlanes; ++i)
      lane_down[i] = (int)((r >> (24 + i)) & 1);
  }
  uint64_t per = ARENA_SIZE / (uint64_t)nlanes & ~0xfffull;
  for (int i = 0; i < nlanes; ++i) {
    lane_lo[i] = ARENA_BASE + (uint64_t)i * per;
    lane_hi[i] = lane_lo[i] + per;
    if (layout_mode) {
      uint64_t off = (splitmix(&heap_rng) % 0x4000) * 16;
      lane_lo[i] += off;
      lane_hi[i] -= off;
    }
  }
}

static int bin_of(size_t n) { /* n is a multiple of 16 */
  if (n <= 512)
    return (int)(n / 16);          /* 1..32 */
  int b = 32;
  size_t c = 512;
  while (c < n && b < NBIN - 1) {
    c <<= 1;
    ++b;
  }
  return b;
}
static size_t bin_size(int b) {
  if (b <= 32)
    return (size_t)b * 16;
  return (size_t)512 << (b - 32);
}

/* What earlier calls left below the stack pointer is as arbitrary as freed
   heap memory. */
static __attribute__((noinline)) void stack_junk(void) {
  char buf[3072];
  memset(buf, junk_free, sizeof buf);
  __asm__ volatile("" : : "r"(buf) : "memory");
}

static void *heap_alloc(size_t want, size_t align) {
  heap_init();
  if (layout_mode)
    stack_junk();
  hlock();
  ++alloc_count;
  if (alloc_fail_at && alloc_count == alloc_fail_at) {
    hunlock();
    errno = ENOMEM;
    return NULL;
  }
  if (want > (1ull << 32)) {
    hunlock();
    errno = ENOMEM;
    return NULL;
  }
  size_t n = (want + 15) & ~(size_t)15;
  if (n == 0)
    n = 16;
  int b = bin_of(n);
  n = bin_size(b);
  struct hdr *h = NULL;
  if (align <= 16 && bin_head[b] && reuse_mode != 3) {
    int take = 1;
    if (layout_mode && reuse_mode == 2)
      take = (int)(splitmix(&heap_rng) & 3) != 0;
    if (take) {
      struct hdr *prev = NULL;
      h = bin_head[b];
      if (layout_mode && reuse_mode == 2) {
        unsigned skip = (unsigned)(splitmix(&heap_rng) & 7);
        while (skip-- && h->next) {
          prev = h;
          h = h->next;
        }
      }
      if (prev)
        prev->next = h->next;
      else
        bin_head[b] = h->next;
      if (bin_tail[b] == h)
        bin_tail[b] = prev;
    }
  }
  char *user;
  if (h) {
    user = (char *)h + HDR;
  } else {
    int lane = 0;
    size_t gap = 0;
    if (layout_mode) {
      uint64_t r = splitmix(&heap_rng);
      lane = (int)(r % (uint64_t)nlanes);
      if (max_gap && ((r >> 32) & 3) == 0)
        gap = ((r >> 34) % (max_gap + 1)) * 16;
    }
    size_t total = n + HDR + gap + (align > 16 ? align : 0);
    if ((size_t)(lane_hi[lane] - lane_lo[lane]) < total + 4096)
      raw_die("sim: arena exhausted\n");
    uintptr_t u;
    if (lane_down[lane]) {
      u = (uintptr_t)lane_hi[lane] - gap - n;
      u &= ~(uintptr_t)(align - 1);
      lane_hi[lane] = (char *)u - HDR;
    } else {
      u = (uintptr_t)lane_lo[lane] + gap + HDR;
      u = (u + align - 1) & ~(uintptr_t)(align - 1);
      lane_lo[lane] = (char *)u + n;
    }
    user = (char *)u;
    h = (struct hdr *)(user - HDR);
    h->size = n;
    h->bin = (uint32_t)b;
  }
  h->magic = 0xA110C8ED;
  h->next = NULL;
  alloc_hash = (alloc_hash ^ (uint64_t)(user - ARENA_BASE) ^ want) *
               0x100000001B3ull;
  hunlock();
  if (layout_mode)
    memset(user, junk_alloc, n);
  return user;
}

static void heap_free(void *p) {
  if (!p)
    return;
  if ((char *)p < ARENA_BASE || (char *)p >= ARENA_BASE + ARENA_SIZE)
    return; /* not ours (loader) */
  struct hdr *h = (struct hdr *)((char *)p - HDR);
  if (h->magic != 0xA110C8ED)
    raw_die("sim: bad free\n");
  if (layout_mode)
    memset(p, junk_free, h->size);
  hlock();
  h->magic = 0xF4EEF4EE;
  int b = (int)h->bin;
  if (layout_mode && reuse_mode == 1) {
    h->next = NULL;
    if (bin_tail[b])
      bin_tail[b]->next = h;
    else
      bin_head[b] = h;
    bin_tail[b] = h;
  } else {
    h->next = bin_head[b];
    bin_head[b] = h;
    if (!bin_tail[b])
      bin_tail[b] = h;
  }
  hunlock();
}

EXPORT void *malloc(size_t n) { return heap_alloc(n, 16); }
EXPORT void free(void *p) { heap_free(p); }
EXPORT void cfree(void *p) { heap_free(p); }
EXPORT void *calloc(size_t a, size_t b) {
  size_t n;
  if (__builtin_mul_overflow(a, b, &n)) {
    errno = ENOMEM;
    return NULL;
  }
  void *p = heap_alloc(n, 16);
  if (p)
    memset(p, 0, n);
  return p;
}
EXPORT void *realloc(void *p, size_t n) {
  if (!p)
    return heap_alloc(n, 16);
  if (n == 0) {
    heap_free(p);
    return NULL;
  }
  size_t old = 0;
  if ((char *)p >= ARENA_BASE && (char *)p < ARENA_BASE + ARENA_SIZE)
    old = ((struct hdr *)((char *)p - HDR))->size;
  else
    raw_die("sim: foreign realloc\n");
  if (n <= old && !layout_mode)
    return p;
  void *q = heap_alloc(n, 16);
  if (!q)
    return NULL;
  memcpy(q, p, old < n ? old : n);
  heap_free(p);
  return q;
}
EXPORT void *reallocarray(void *p, size_t a, size_t b) {
  size_t n;
  if (__builtin_mul_overflow(a, b, &n)) {
    errno = ENOMEM;
    return NULL;
  }
  return realloc(p, n);
}
EXPORT void *memalign(size_t al, size_t n) {
  return heap_alloc(n, al < 16 ? 16 : al);
}
EXPORT void *aligned_alloc(size_t al, size_t n) {
  return heap_alloc(n, al < 16 ? 16 : al);
}
EXPORT int posix_memalign(void **out, size_t al, size_t n) {
  void *p = heap_alloc(n, al < 16 ? 16 : al);
  if (!p)
    return ENOMEM;
  *out = p;
  return 0;
}
EXPORT void *valloc(size_t n) { return heap_alloc(n, 4096); }
EXPORT size_t malloc_usable_size(void *p) {
  return p ? ((struct hdr *)((char *)p - HDR))->size : 0;
}

/* ------------------------------------------------------------------ events */

enum { D_GO, D_ERRNO, D_SHORT, D_KILL, D_SIG, D_GO_KILL, D_GO_SIG, D_ALLOC,
       D_TORN_KILL, D_GO_ERRNO };

struct decision {
  int code;
  long arg;
};

static int read_full(int fd, char *buf, int max) { /* one line */
  int n = 0;
  while (n < max - 1) {
    long r = syscall(SYS_read, fd, buf + n, 1);
    if (r == -EINTR || (r < 0 && errno == EINTR))
      continue;
    if (r <= 0)
      return -1;
    if (buf[n] == '\n')
      break;
    ++n;
  }
  buf[n] = 0;
  return n;
}

static struct decision ask(const char *op, const char *p1, const char *p2,
                           long a, long b) {
  struct decision d = {D_GO, 0};
  if (ctl_fd < 0)
    return d;
  int saved = errno;
  char line[2400];
  int n = snprintf(line, sizeof line, "%llu\t%s\t%s\t%s\t%ld\t%ld\t%llu\t%llx\n",
                   (unsigned long long)++ev_seq, op, p1 ? p1 : "",
                   p2 ? p2 : "", a, b, (unsigned long long)alloc_count,
                   (unsigned long long)alloc_hash);
  char *q = line;
  while (n > 0) {
    long w = syscall(SYS_write, ctl_fd, q, (size_t)n);
    if (w < 0 && errno == EINTR)
      continue;
    if (w <= 0) {
      ctl_fd = -1;
      errno = saved;
      return d;
    }
    q += w;
    n -= (int)w;
  }
  char ans[64];
  if (read_full(ctl_fd, ans, sizeof ans) < 0) {
    /* The scheduler is gone: never run on unsupervised. */
    syscall(SYS_exit_group, 98);
  }
  int code = 0;
  long arg = 0;
  sscanf(ans, "%d %ld", &code, &arg);
  d.code = code;
  d.arg = arg;
  errno = saved;
  return d;
}

static void tell(const char *op, long a) {
  /* informational event; the answer is ignored */
  (void)ask(op, "", "", a, 0);
}

static void pre(struct decision *d) {
  if (d->code == D_KILL) {
    syscall(SYS_kill, syscall(SYS_getpid), SIGKILL);
    for (;;)
      pause();
  } else if (d->code == D_SIG) {
    raise((int)d->arg);
  } else if (d->code == D_ALLOC) {
    alloc_fail_at = alloc_count + (uint64_t)d->arg;
  }
}
static void post(struct decision *d) {
  int saved = errno;
  if (d->code == D_GO_KILL || d->code == D_TORN_KILL) {
    syscall(SYS_kill, syscall(SYS_getpid), SIGKILL);
    for (;;)
      pause();
  } else if (d->code == D_GO_SIG) {
    raise((int)d->arg);
  }
  errno = saved;
}

/* ------------------------------------------------- paths and descriptors */

#define MAXFD 512
static char fd_path[MAXFD][512];
static char fd_elig[MAXFD];

static int under(const char *p) {
  for (int i = 0; i < nroots; ++i) {
    size_t n = strlen(roots[i]);
    if (!strncmp(p, roots[i], n) && (p[n] == 0 || p[n] == '/'))
      return 1;
  }
  return 0;
}

static const char *absolute(int dirfd, const char *path, char *buf, size_t n) {
  if (!path)
    return "";
  if (path[0] == '/') {
    snprintf(buf, n, "%s", path);
    return buf;
  }
  char cwd[512];
  if (dirfd == AT_FDCWD) {
    if (syscall(SYS_getcwd, cwd, sizeof cwd) < 0)
      return path;
  } else if (dirfd >= 0 && dirfd < MAXFD && fd_path[dirfd][0]) {
    snprintf(cwd, sizeof cwd, "%s", fd_path[dirfd]);
  } else
    return path;
  snprintf(buf, n, "%s/%s", cwd, path);
  return buf;
}

static int eligible(int dirfd, const char *path, char *buf, size_t n) {
  if (!sim_on || !path)
    return 0;
  const char *p = absolute(dirfd, path, buf, n);
  if (p != buf)
    snprintf(buf, n, "%s", p);
  return under(buf);
}

static int fd_eligible(int fd) {
  return sim_on && fd >= 0 && fd < MAXFD && fd_elig[fd];
}

static void note_fd(int fd, const char *path) {
  if (fd >= 0 && fd < MAXFD) {
    size_t n = strlen(path);
    if (n >= sizeof fd_path[fd])
      n = sizeof fd_path[fd] - 1;
    memmove(fd_path[fd], path, n);
    fd_path[fd][n] = 0;
    fd_elig[fd] = 1;
  }
}
static void drop_fd(int fd) {
  if (fd >= 0 && fd < MAXFD) {
    fd_path[fd][0] = 0;
    fd_elig[fd] = 0;
  }
}

#define REAL(name)                                                             \
  static __typeof__(name) *real;                                               \
  if (!real)                                                                   \
    real = (__typeof__(name) *)dlsym(RTLD_NEXT, #name)

/* For a plain "syscall with an int/long result" operation. */
#define EVENT(op, p1, p2, a, b, expr)                                          \
  do {                                                                         \
    struct decision d = ask(op, p1, p2, a, b);                                 \
    pre(&d);                                                                   \
    if (d.code == D_ERRNO) {                                                   \
      errno = (int)d.arg;                                                      \
      return -1;                                                               \
    }                                                                          \
    __typeof__(expr) r = (expr);                                               \
    post(&d);                                                                  \
    if (d.code == D_GO_ERRNO) {                                                \
      errno = (int)d.arg;                                                      \
      return -1;                                                               \
    }                                                                          \
    return r;                                                                  \
  } while (0)

/* Changes outside the simulated world are reported and refused. */
static int outside(const char *path) {
  if (!sim_on || !path || !strncmp(path, "/dev/", 5) || !strncmp(path, "/proc/", 6))
    return 0;
  ask("outside", path, "", 0, 0);
  errno = EACCES;
  return 1;
}

static int do_open(int dirfd, const char *path, int flags, mode_t mode) {
  char buf[1024];
  int elig = eligible(dirfd, path, buf, sizeof buf);
  if (!elig && ((flags & O_ACCMODE) != O_RDONLY || (flags & O_CREAT)) && outside(path))
    return -1;
  if (!elig)
    return (int)syscall(SYS_openat, dirfd, path, flags, mode);
  struct decision d = ask("open", buf, "", flags, mode);
  pre(&d);
  if (d.code == D_ERRNO) {
    errno = (int)d.arg;
    return -1;
  }
  int fd = (int)syscall(SYS_openat, dirfd, path, flags, mode);
  if (fd >= 0)
    note_fd(fd, buf);
  post(&d);
  return fd;
}

#define OPEN_MODE                                                              \
  mode_t mode = 0;                                                             \
  if (flags & (O_CREAT | __O_TMPFILE)) {                                       \
    va_list ap;                                                                \
    va_start(ap, flags);                                                       \
    mode = va_arg(ap, mode_t);                                                 \
    va_end(ap);                                                                \
  }

EXPORT int open(const char *path, int flags, ...) {
  OPEN_MODE return do_open(AT_FDCWD, path, flags, mode);
}
EXPORT int open64(const char *path, int flags, ...) {
  OPEN_MODE return do_open(AT_FDCWD, path, flags, mode);
}
EXPORT int openat(int dirfd, const char *path, int flags, ...) {
  OPEN_MODE return do_open(dirfd, path, flags, mode);
}
EXPORT int openat64(int dirfd, const char *path, int flags, ...) {
  OPEN_MODE return do_open(dirfd, path, flags, mode);
}
EXPORT int __open_2(const char *path, int flags) {
  return do_open(AT_FDCWD, path, flags, 0);
}
EXPORT int __open64_2(const char *path, int flags) {
  return do_open(AT_FDCWD, path, flags, 0);
}
EXPORT int creat(const char *path, mode_t mode) {
  return do_open(AT_FDCWD, path, O_CREAT | O_WRONLY | O_TRUNC, mode);
}
EXPORT int creat64(const char *path, mode_t mode) {
  return do_open(AT_FDCWD, path, O_CREAT | O_WRONLY | O_TRUNC, mode);
}

static FILE *do_fopen(const char *path, const char *mode) {
  int flags = 0, rw = strchr(mode, '+') != NULL;
  switch (mode[0]) {
  case 'r': flags = rw ? O_RDWR : O_RDONLY; break;
  case 'w': flags = (rw ? O_RDWR : O_WRONLY) | O_CREAT | O_TRUNC; break;
  case 'a': flags = (rw ? O_RDWR : O_WRONLY) | O_CREAT | O_APPEND; break;
  default: errno = EINVAL; return NULL;
  }
  if (strchr(mode, 'x'))
    flags |= O_EXCL;
  int fd = do_open(AT_FDCWD, path, flags | (strchr(mode, 'e') ? O_CLOEXEC : 0),
                   0666);
  if (fd < 0)
    return NULL;
  FILE *f = fdopen(fd, mode);
  if (f && fd_eligible(fd))
    setvbuf(f, NULL, _IOFBF, 1024);
  return f;
}
EXPORT FILE *fopen(const char *path, const char *mode) {
  return do_fopen(path, mode);
}
EXPORT FILE *fopen64(const char *path, const char *mode) {
  return do_fopen(path, mode);
}
EXPORT int fclose(FILE *f) {
  REAL(fclose);
  int fd = fileno(f);
  if (!fd_eligible(fd))
    return real(f);
  char p[512];
  snprintf(p, sizeof p, "%s", fd_path[fd]);
  struct decision d = ask("fclose", p, "", 0, 0);
  pre(&d);
  drop_fd(fd);
  int r = real(f);
  post(&d);
  if (d.code == D_ERRNO || d.code == D_GO_ERRNO) {
    errno = (int)d.arg;
    return EOF;
  }
  return r;
}
EXPORT size_t fwrite(const void *buf, size_t s, size_t n, FILE *f) {
  REAL(fwrite);
  int fd = fileno(f);
  if (!fd_eligible(fd))
    return real(buf, s, n, f);
  struct decision d = ask("fwrite", fd_path[fd], "", (long)(s * n), 0);
  pre(&d);
  if (d.code == D_ERRNO) {
    errno = (int)d.arg;
    return 0;
  }
  size_t r = real(buf, s, n, f);
  post(&d);
  return r;
}

static ssize_t rw_event(const char *op, int fd, long n, long off,
                        ssize_t (*fn)(int, void *, size_t, off_t), void *buf) {
  struct decision d = ask(op, fd_path[fd], "", n, off);
  pre(&d);
  if (d.code == D_ERRNO) {
    errno = (int)d.arg;
    return -1;
  }
  size_t len = (size_t)n;
  if ((d.code == D_SHORT || d.code == D_TORN_KILL) && d.arg < n)
    len = (size_t)d.arg;
  ssize_t r = fn(fd, buf, len, off);
  post(&d);
  if (d.code == D_GO_ERRNO) {
    errno = (int)d.arg;
    return -1;
  }
  return r;
}

static ssize_t f_read(int fd, void *b, size_t n, off_t o) {
  (void)o;
  return syscall(SYS_read, fd, b, n);
}
static ssize_t f_pread(int fd, void *b, size_t n, off_t o) {
  return syscall(SYS_pread64, fd, b, n, o);
}
static ssize_t f_write(int fd, void *b, size_t n, off_t o) {
  (void)o;
  return syscall(SYS_write, fd, b, n);
}
static ssize_t f_pwrite(int fd, void *b, size_t n, off_t o) {
  return syscall(SYS_pwrite64, fd, b, n, o);
}

EXPORT ssize_t read(int fd, void *b, size_t n) {
  if (!fd_eligible(fd))
    return syscall(SYS_read, fd, b, n);
  return rw_event("read", fd, (long)n, 0, f_read, b);
}
EXPORT ssize_t pread(int fd, void *b, size_t n, off_t o) {
  if (!fd_eligible(fd))
    return syscall(SYS_pread64, fd, b, n, o);
  return rw_event("pread", fd, (long)n, o, f_pread, b);
}
EXPORT ssize_t pread64(int fd, void *b, size_t n, off_t o) {
  return pread(fd, b, n, o);
}
EXPORT ssize_t write(int fd, const void *b, size_t n) {
  if (!fd_eligible(fd))
    return syscall(SYS_write, fd, b, n);
  return rw_event("write", fd, (long)n, 0, f_write, (void *)b);
}
EXPORT ssize_t pwrite(int fd, const void *b, size_t n, off_t o) {
  if (!fd_eligible(fd))
    return syscall(SYS_pwrite64, fd, b, n, o);
  return rw_event("pwrite", fd, (long)n, o, f_pwrite, (void *)b);
}
EXPORT ssize_t pwrite64(int fd, const void *b, size_t n, off_t o) {
  return pwrite(fd, b, n, o);
}
EXPORT ssize_t writev(int fd, const struct iovec *iov, int cnt) {
  if (!fd_eligible(fd))
    return syscall(SYS_writev, fd, iov, cnt);
  for (int i = 0; i < cnt; ++i)
    if (iov[i].iov_len) /* a short writev is legal */
      return rw_event("write", fd, (long)iov[i].iov_len, 0, f_write,
                      iov[i].iov_base);
  return 0;
}
EXPORT int close(int fd) {
  if (fd == ctl_fd && ctl_fd >= 0)
    return 0;
  if (!fd_eligible(fd))
    return (int)syscall(SYS_close, fd);
  char p[512];
  snprintf(p, sizeof p, "%s", fd_path[fd]);
  struct decision d = ask("close", p, "", fd, 0);
  pre(&d);
  drop_fd(fd);
  int r = (int)syscall(SYS_close, fd);
  post(&d);
  if (d.code == D_ERRNO || d.code == D_GO_ERRNO) {
    errno = (int)d.arg;
    return -1;
  }
  return r;
}
EXPORT int dup(int fd) {
  int r = (int)syscall(SYS_dup, fd);
  if (r >= 0 && fd_eligible(fd))
    note_fd(r, fd_path[fd]);
  return r;
}
EXPORT int dup2(int a, int b) {
  int r = (int)syscall(SYS_dup2, a, b);
  if (r >= 0 && a != b) {
    drop_fd(b);
    if (fd_eligible(a))
      note_fd(b, fd_path[a]);
  }
  return r;
}

EXPORT int rename(const char *a, const char *b) {
  char x[1024], y[1024];
  int e = eligible(AT_FDCWD, a, x, sizeof x);
  e |= eligible(AT_FDCWD, b, y, sizeof y);
  if (!e)
    return outside(b) ? -1 : (int)syscall(SYS_rename, a, b);
  EVENT("rename", x, y, 0, 0, (int)syscall(SYS_rename, a, b));
}
EXPORT int renameat(int d1, const char *a, int d2, const char *b) {
  char x[1024], y[1024];
  int e = eligible(d1, a, x, sizeof x);
  e |= eligible(d2, b, y, sizeof y);
  if (!e)
    return outside(b) ? -1 : (int)syscall(SYS_renameat, d1, a, d2, b);
  EVENT("rename", x, y, 0, 0, (int)syscall(SYS_renameat, d1, a, d2, b));
}
EXPORT int link(const char *a, const char *b) {
  char x[1024], y[1024];
  int e = eligible(AT_FDCWD, a, x, sizeof x);
  e |= eligible(AT_FDCWD, b, y, sizeof y);
  if (!e)
    return outside(b) ? -1 : (int)syscall(SYS_link, a, b);
  EVENT("link", x, y, 0, 0, (int)syscall(SYS_link, a, b));
}
EXPORT int symlink(const char *a, const char *b) {
  char y[1024];
  if (!eligible(AT_FDCWD, b, y, sizeof y))
    return outside(b) ? -1 : (int)syscall(SYS_symlink, a, b);
  EVENT("symlink", a, y, 0, 0, (int)syscall(SYS_symlink, a, b));
}
EXPORT int unlink(const char *a) {
  char x[1024];
  if (!eligible(AT_FDCWD, a, x, sizeof x))
    return outside(a) ? -1 : (int)syscall(SYS_unlink, a);
  EVENT("unlink", x, "", 0, 0, (int)syscall(SYS_unlink, a));
}
EXPORT int unlinkat(int d0, const char *a, int flags) {
  char x[1024];
  if (!eligible(d0, a, x, sizeof x))
    return outside(a) ? -1 : (int)syscall(SYS_unlinkat, d0, a, flags);
  EVENT("unlink", x, "", 0, 0, (int)syscall(SYS_unlinkat, d0, a, flags));
}
EXPORT int rmdir(const char *a) {
  char x[1024];
  if (!eligible(AT_FDCWD, a, x, sizeof x))
    return outside(a) ? -1 : (int)syscall(SYS_rmdir, a);
  EVENT("rmdir", x, "", 0, 0, (int)syscall(SYS_rmdir, a));
}
EXPORT int remove(const char *a) {
  struct stat st;
  if (syscall(SYS_newfstatat, AT_FDCWD, a, &st, AT_SYMLINK_NOFOLLOW) == 0 &&
      S_ISDIR(st.st_mode))
    return rmdir(a);
  return unlink(a);
}
EXPORT int mkdir(const char *a, mode_t m) {
  char x[1024];
  if (!eligible(AT_FDCWD, a, x, sizeof x))
    return outside(a) ? -1 : (int)syscall(SYS_mkdir, a, m);
  EVENT("mkdir", x, "", m, 0, (int)syscall(SYS_mkdir, a, m));
}
EXPORT int chmod(const char *a, mode_t m) {
  char x[1024];
  if (!eligible(AT_FDCWD, a, x, sizeof x))
    return outside(a) ? -1 : (int)syscall(SYS_chmod, a, m);
  EVENT("chmod", x, "", m, 0, (int)syscall(SYS_chmod, a, m));
}
EXPORT int fchmod(int fd, mode_t m) {
  if (!fd_eligible(fd))
    return (int)syscall(SYS_fchmod, fd, m);
  EVENT("fchmod", fd_path[fd], "", m, 0, (int)syscall(SYS_fchmod, fd, m));
}
EXPORT int truncate(const char *a, off_t n) {
  char x[1024];
  if (!eligible(AT_FDCWD, a, x, sizeof x))
    return outside(a) ? -1 : (int)syscall(SYS_truncate, a, n);
  EVENT("truncate", x, "", n, 0, (int)syscall(SYS_truncate, a, n));
}
EXPORT int truncate64(const char *a, off_t n) { return truncate(a, n); }
EXPORT int ftruncate(int fd, off_t n) {
  if (!fd_eligible(fd))
    return (int)syscall(SYS_ftruncate, fd, n);
  EVENT("ftruncate", fd_path[fd], "", n, 0, (int)syscall(SYS_ftruncate, fd, n));
}
EXPORT int ftruncate64(int fd, off_t n) { return ftruncate(fd, n); }
EXPORT int fsync(int fd) {
  if (!fd_eligible(fd))
    return (int)syscall(SYS_fsync, fd);
  EVENT("fsync", fd_path[fd], "", 0, 0, 0);
}
EXPORT int fdatasync(int fd) {
  if (!fd_eligible(fd))
    return (int)syscall(SYS_fdatasync, fd);
  EVENT("fsync", fd_path[fd], "", 0, 0, 0);
}
EXPORT int access(const char *a, int m) {
  char x[1024];
  if (!eligible(AT_FDCWD, a, x, sizeof x))
    return (int)syscall(SYS_access, a, m);
  EVENT("access", x, "", m, 0, (int)syscall(SYS_access, a, m));
}
EXPORT void *mmap64(void *addr, size_t n, int prot, int flags, int fd,
                    off_t off);
EXPORT void *mmap(void *addr, size_t n, int prot, int flags, int fd,
                  off_t off) {
  if (fd_eligible(fd)) {
    struct decision d = ask("mmap", fd_path[fd], "", (long)n, (long)off);
    pre(&d);
    if (d.code == D_ERRNO) {
      errno = (int)d.arg;
      return MAP_FAILED;
    }
    void *r = (void *)syscall(SYS_mmap, addr, n, prot, flags, fd, off);
    post(&d);
    return r;
  }
  return (void *)syscall(SYS_mmap, addr, n, prot, flags, fd, off);
}
EXPORT void *mmap64(void *addr, size_t n, int prot, int flags, int fd,
                    off_t off) {
  return mmap(addr, n, prot, flags, fd, off);
}

/* stat: inode numbers are renamed by a seeded bijection */
static void fix_stat(struct stat *st) { st->st_ino ^= ino_xor; }

static int do_stat(int dirfd, const char *path, struct stat *st, int flags) {
  char x[1024];
  int e = eligible(dirfd, path, x, sizeof x);
  if (e) {
    struct decision d = ask("stat", x, "", flags, 0);
    pre(&d);
    if (d.code == D_ERRNO) {
      errno = (int)d.arg;
      return -1;
    }
    int r = (int)syscall(SYS_newfstatat, dirfd, path, st, flags);
    if (r == 0)
      fix_stat(st);
    post(&d);
    return r;
  }
  int r = (int)syscall(SYS_newfstatat, dirfd, path, st, flags);
  if (r == 0)
    fix_stat(st);
  return r;
}
EXPORT int stat(const char *p, struct stat *st) {
  return do_stat(AT_FDCWD, p, st, 0);
}
EXPORT int stat64(const char *p, struct stat64 *st) {
  return do_stat(AT_FDCWD, p, (struct stat *)st, 0);
}
EXPORT int lstat(const char *p, struct stat *st) {
  return do_stat(AT_FDCWD, p, st, AT_SYMLINK_NOFOLLOW);
}
EXPORT int lstat64(const char *p, struct stat64 *st) {
  return do_stat(AT_FDCWD, p, (struct stat *)st, AT_SYMLINK_NOFOLLOW);
}
EXPORT int fstatat(int d, const char *p, struct stat *st, int f) {
  return do_stat(d, p, st, f);
}
EXPORT int fstatat64(int d, const char *p, struct stat64 *st, int f) {
  return do_stat(d, p, (struct stat *)st, f);
}
EXPORT int fstat(int fd, struct stat *st) {
  if (fd_eligible(fd)) {
    struct decision d = ask("fstat", fd_path[fd], "", 0, 0);
    pre(&d);
    if (d.code == D_ERRNO) {
      errno = (int)d.arg;
      return -1;
    }
    int r = (int)syscall(SYS_fstat, fd, st);
    if (r == 0)
      fix_stat(st);
    post(&d);
    return r;
  }
  int r = (int)syscall(SYS_fstat, fd, st);
  if (r == 0)
    fix_stat(st);
  return r;
}
EXPORT int fstat64(int fd, struct stat64 *st) {
  return fstat(fd, (struct stat *)st);
}

/* ------------------------------------------------ clocks, pids, randomness */

static int64_t tick(void) {
  static int64_t n;
  return clock_base + clock_step * (++n);
}
EXPORT int clock_gettime(clockid_t id, struct timespec *ts) {
  if (!sim_on)
    return (int)syscall(SYS_clock_gettime, id, ts);
  int64_t t = tick();
  ts->tv_sec = t / 1000000000;
  ts->tv_nsec = t % 1000000000;
  return 0;
}
EXPORT int gettimeofday(struct timeval *tv, void *tz) {
  (void)tz;
  struct timespec ts;
  clock_gettime(CLOCK_REALTIME, &ts);
  if (tv) {
    tv->tv_sec = ts.tv_sec;
    tv->tv_usec = ts.tv_nsec / 1000;
  }
  return 0;
}
EXPORT time_t time(time_t *out) {
  struct timespec ts;
  clock_gettime(CLOCK_REALTIME, &ts);
  if (out)
    *out = ts.tv_sec;
  return ts.tv_sec;
}
EXPORT pid_t getpid(void) {
  return sim_on ? virt_pid : (pid_t)syscall(SYS_getpid);
}
EXPORT pid_t getppid(void) {
  return sim_on ? virt_pid - 1 : (pid_t)syscall(SYS_getppid);
}
EXPORT int kill(pid_t p, int sig) {
  if (sim_on && p == virt_pid)
    p = (pid_t)syscall(SYS_getpid);
  return (int)syscall(SYS_kill, p, sig);
}
EXPORT int gethostname(char *b, size_t n) {
  snprintf(b, n, "%s", virt_host[0] ? virt_host : "sim");
  return 0;
}
EXPORT uint32_t arc4random(void) { return (uint32_t)splitmix(&seed_misc); }
EXPORT void arc4random_buf(void *b, size_t n) {
  for (size_t i = 0; i < n; ++i)
    ((char *)b)[i] = (char)splitmix(&seed_misc);
}
EXPORT uint32_t arc4random_uniform(uint32_t n) {
  return n ? (uint32_t)(splitmix(&seed_misc) % n) : 0;
}
EXPORT ssize_t getrandom(void *b, size_t n, unsigned f) {
  (void)f;
  arc4random_buf(b, n);
  return (ssize_t)n;
}
EXPORT int getentropy(void *b, size_t n) {
  arc4random_buf(b, n);
  return 0;
}
EXPORT int rand(void) { return (int)(splitmix(&seed_misc) & 0x7fffffff); }
EXPORT long random(void) { return (long)(splitmix(&seed_misc) & 0x7fffffff); }
EXPORT void srand(unsigned s) { (void)s; }
EXPORT void srandom(unsigned s) { (void)s; }
/* std::random_device::operator()() */
EXPORT unsigned int _ZNSt13random_device9_M_getvalEv(void *self) {
  (void)self;
  return (unsigned)splitmix(&seed_misc);
}

/* ----------------------------------------------------------- start and end */

/* ------------------------------------------------------------- processes */

/* A child between fork and exec is not supervised; vfork becomes fork, because
   the two return twice and only fork can be wrapped. */
static pid_t do_fork(void) {
  REAL(fork);
  if (ctl_fd >= 0 && sim_on) {
    struct decision d = ask("fork", "<fork>", "", 0, 0);
    pre(&d);
    if (d.code == D_ERRNO) {
      errno = (int)d.arg;
      return -1;
    }
    pid_t r = real();
    if (r == 0) {
      ctl_fd = -1;
      return 0;
    }
    post(&d);
    return r;
  }
  return real();
}
EXPORT pid_t fork(void) { return do_fork(); }
EXPORT pid_t vfork(void) { return do_fork(); }

EXPORT pid_t waitpid(pid_t pid, int *status, int options) {
  REAL(waitpid);
  if (ctl_fd >= 0 && sim_on) {
    struct decision d = ask("waitpid", "<wait>", "", options, 0);
    pre(&d);
    if (d.code == D_ERRNO) {
      errno = (int)d.arg;
      return -1;
    }
  }
  return real(pid, status, options);
}

/* Variables that neither the tool nor the libraries ask for today may have any value. */
static uint64_t seed_env;
static char *env_answer(const char *name) {
  static const char *const known[] = {
      "PATH", "PWD", "HOME", "TMPDIR", "TMP", "TEMP", "TEMPDIR", "CPATH", "C_INCLUDE_PATH", "CPLUS_INCLUDE_PATH",
      "OBJC_INCLUDE_PATH", "OBJCPLUS_INCLUDE_PATH", "COMPILER_PATH", "CLANG_NO_DEFAULT_CONFIG",
      "LLVM_OVERRIDE_PRODUCER", "SOURCE_DATE_EPOCH", "AS_SECURE_LOG_FILE", "NO_COLOR", "TERM", "COLUMNS", "bar"};
  char *v = (char *)env_lookup(name);
  if (!seed_env || !sim_on || !strncmp(name, "SIM_", 4) || !strncmp(name, "LD_", 3) ||
      !strncmp(name, "GLIBC", 5) || !strncmp(name, "MALLOC", 6) || !strncmp(name, "LC_", 3) || !strncmp(name, "LANG", 4))
    return v;
  for (size_t i = 0; i < sizeof known / sizeof *known; ++i)
    if (!strcmp(name, known[i]))
      return v;
  static const char *const values[] = {"", "0", "1", "x7", "/nowhere", "module", "true", "42"};
  uint64_t h = seed_env;
  for (const char *c = name; *c; ++c)
    h = (h ^ (unsigned char)*c) * 1099511628211ull;
  h = splitmix(&h);
  return h & 1 ? v : (char *)values[(h >> 8) & 7];
}
EXPORT char *getenv(const char *name) { return env_answer(name); }
EXPORT char *secure_getenv(const char *name) { return env_answer(name); }

static int64_t parse_i64(const char *s) {
  if (s && *s == '-')
    return -(int64_t)parse_u64(s + 1);
  return (int64_t)parse_u64(s);
}

__attribute__((constructor)) static void sim_start(void) {
  heap_init();
  const char *fd = env_lookup("SIM_FD");
  if (!fd)
    return;
  const char *only = env_lookup("SIM_EXE");
  if (only) { /* do not supervise unrelated programs started by the tool */
    char exe[512];
    long n = syscall(SYS_readlink, "/proc/self/exe", exe, sizeof exe - 1);
    if (n < 0)
      n = 0;
    exe[n] = 0;
    if (strcmp(exe, only))
      return;
  }
  ctl_fd = (int)parse_u64(fd);
  seed_misc = parse_u64(env_lookup("SIM_MISC"));
  ino_xor = parse_u64(env_lookup("SIM_INO"));
  seed_env = parse_u64(env_lookup("SIM_ENV"));
  clock_base = parse_i64(env_lookup("SIM_CLOCK"));
  clock_step = parse_i64(env_lookup("SIM_CLOCK_STEP"));
  virt_pid = (int)parse_u64(env_lookup("SIM_PID"));
  alloc_fail_at = parse_u64(env_lookup("SIM_ALLOC_FAIL"));
  const char *h = env_lookup("SIM_HOST");
  if (h)
    snprintf(virt_host, sizeof virt_host, "%s", h);
  const char *r = env_lookup("SIM_ROOTS");
  while (r && *r && nroots < 8) {
    size_t n = strcspn(r, ":");
    if (n && n < sizeof roots[0]) {
      memcpy(roots[nroots], r, n);
      roots[nroots++][n] = 0;
    }
    r += n;
    if (*r == ':')
      ++r;
  }
  note_fd(1, "<stdout>");
  note_fd(2, "<stderr>");
  sim_on = 1;
  tell("start", 0);
}

__attribute__((destructor)) static void sim_end(void) {
  if (ctl_fd >= 0)
    tell("exit", 0);
}
