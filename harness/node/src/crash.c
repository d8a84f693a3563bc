// Preloaded into the node: counts the calls that change files (and the writes to stdout), and
// kills the process at the chosen one, before or after it is carried out.
//   VCRASH_AT=n      the n-th counted call (1-based)
//   VCRASH_AFTER=1   after the call rather than before it
//   VCRASH_SAY=1     count only writes to stdout
//   VCRASH_LOG=path  write the number of calls so far there at every call (a short pwrite)
#define _GNU_SOURCE
#include <dlfcn.h>
#include <fcntl.h>
#include <signal.h>
#include <stdarg.h>
#include <stdatomic.h>
#include <stdio.h>
#include <stdlib.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/types.h>
#include <sys/uio.h>
#include <unistd.h>

static atomic_long count;
static long at = -1, after, say;
static int logfd = -1;

__attribute__((constructor)) static void init(void) {
  const char *s = getenv("VCRASH_AT");
  if (s) at = atol(s);
  after = getenv("VCRASH_AFTER") != NULL;
  say = getenv("VCRASH_SAY") != NULL;
  if ((s = getenv("VCRASH_LOG")) != NULL) logfd = open(s, O_CREAT | O_WRONLY | O_CLOEXEC, 0600);
}

static void die(void) {
  kill(getpid(), SIGKILL);
  for (;;) pause();
}

static long enter(int fd) {
  if (say && fd != 1) return -1;
  if (fd == 2) return -1;
  long n = atomic_fetch_add(&count, 1) + 1;
  if (logfd >= 0) {
    char b[24];
    int k = snprintf(b, sizeof b, "%ld\n", n);
    syscall(SYS_pwrite64, logfd, b, k, 0);
  }
  if (n == at && !after) die();
  return n;
}

static void leave(long n) {
  if (n == at && after) die();
}

#define REAL(ret, name, params) \
  static ret(*real) params;     \
  if (!real) real = (ret(*) params)dlsym(RTLD_NEXT, #name)

#define WRAP(ret, name, fd, params, args)                                                         \
  ret name params {                                                                               \
    REAL(ret, name, params);                                                                      \
    long n = enter(fd);                                                                           \
    ret r = real args;                                                                            \
    leave(n);                                                                                     \
    return r;                                                                                     \
  }

WRAP(ssize_t, write, fd, (int fd, const void *b, size_t c), (fd, b, c))
WRAP(ssize_t, writev, fd, (int fd, const struct iovec *v, int c), (fd, v, c))
WRAP(ssize_t, pwrite, fd, (int fd, const void *b, size_t c, off_t o), (fd, b, c, o))
WRAP(ssize_t, pwrite64, fd, (int fd, const void *b, size_t c, off64_t o), (fd, b, c, o))
WRAP(int, fsync, fd, (int fd), (fd))
WRAP(int, fdatasync, fd, (int fd), (fd))
WRAP(int, sync_file_range, fd, (int fd, off64_t o, off64_t l, unsigned f), (fd, o, l, f))
WRAP(int, ftruncate, fd, (int fd, off_t l), (fd, l))
WRAP(int, ftruncate64, fd, (int fd, off64_t l), (fd, l))
WRAP(int, rename, -1, (const char *a, const char *b), (a, b))
WRAP(int, unlink, -1, (const char *a), (a))
WRAP(int, mkdir, -1, (const char *a, mode_t m), (a, m))
