/*
 * Simulated disk: an LD_PRELOAD layer over the libc file calls.
 *
 * Inactive until simdisk_configure() is called.  Then all operations that
 * change files under a given directory are numbered, and a plan of faults is
 * applied to them: a crash of the process (optionally with a torn write), a
 * full disk, I/O errors, interrupted calls and short writes.  Reads are
 * numbered separately.
 *
 * With simdisk_pause(), a controller decides when every operation (including
 * those only reading) is done.
 */
#define _GNU_SOURCE
#include <dirent.h>
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <limits.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/types.h>
#include <sys/uio.h>
#include <unistd.h>

#define MAX_FD 4096
#define MAX_FAULTS 64

enum { K_CRASH = 1, K_NOSPC, K_EIO, K_EINTR, K_SHORT, K_DENY, K_RSHORT,
       K_RINTR, K_REIO };

typedef struct { int kind; long at; long count; long arg; long fired; } Fault;

static char prefix[PATH_MAX];
static size_t prefix_len;
static int active;
static int log_fd = -1;
static int pause_out = -1, pause_in = -1;
static long n_op, n_read;
static Fault faults[MAX_FAULTS];
static int n_faults;
static char tracked[MAX_FD];
static int paths[MAX_FD];
static int n_paths;

#define REAL(ret, name, ...) \
  static ret (*real_##name)(__VA_ARGS__); \
  if (!real_##name) real_##name = dlsym(RTLD_NEXT, #name)

static void raw_log(const char *fmt, ...)
{
  char buf[PATH_MAX + 200];
  va_list ap;
  int n;

  if (log_fd < 0) return;
  va_start(ap, fmt);
  n = vsnprintf(buf, sizeof(buf), fmt, ap);
  va_end(ap);
  if (n > (int) sizeof(buf)) n = sizeof(buf);
  syscall(SYS_write, log_fd, buf, n);
}

void simdisk_configure(const char *dir, int fd)
{
  strncpy(prefix, dir, sizeof(prefix) - 1);
  prefix_len = strlen(prefix);
  log_fd = fd;
  n_op = n_read = 0;
  n_faults = 0;
  memset(tracked, 0, sizeof(tracked));
  active = 1;
}

void simdisk_stop(void) { active = 0; }

/* Operations wait for a reply of the controller. */
void simdisk_pause(int out, int in)
{
  pause_out = out;
  pause_in = in;
}

/* Returns the per mille of a write that should be done. */
static int pause_op(const char *what, const char *path)
{
  char buf[PATH_MAX + 50];
  char reply[4];
  int n;

  if (pause_out < 0) return 1000;
  n = snprintf(buf, sizeof(buf), "%s %s\n", what, path ? path : "");
  if (n >= (int) sizeof(buf)) n = sizeof(buf) - 1;
  syscall(SYS_write, pause_out, buf, n);
  n = syscall(SYS_read, pause_in, reply, 4);
  if (n != 4) syscall(SYS_exit_group, 138);
  return (reply[0] - '0') * 1000 + (reply[1] - '0') * 100
    + (reply[2] - '0') * 10 + (reply[3] - '0');
}

long simdisk_ops(void) { return n_op; }
long simdisk_reads(void) { return n_read; }

void simdisk_add(int kind, long at, long count, long arg)
{
  if (n_faults < MAX_FAULTS) {
    faults[n_faults].kind = kind;
    faults[n_faults].at = at;
    faults[n_faults].count = count;
    faults[n_faults].arg = arg;
    faults[n_faults].fired = 0;
    n_faults++;
  }
}

static int is_tracked_path(int dirfd, const char *path)
{
  char buf[PATH_MAX * 2];

  if (!active || !path) return 0;
  if (path[0] == '/') return !strncmp(path, prefix, prefix_len);
  if (dirfd == AT_FDCWD) {
    if (!getcwd(buf, PATH_MAX)) return 0;
    strcat(buf, "/");
    strncat(buf, path, PATH_MAX - 1);
    return !strncmp(buf, prefix, prefix_len);
  }
  return (dirfd >= 0) && (dirfd < MAX_FD) && tracked[dirfd];
}

static int is_tracked_fd(int fd)
{
  return active && (fd >= 0) && (fd < MAX_FD) && tracked[fd];
}

/* Returns the fault applying to the operation num, or NULL. */
static Fault *get_fault(long num, int is_read)
{
  int ii;
  for (ii = 0; ii < n_faults; ii++) {
    Fault *ff = faults + ii;
    int rk = (ff->kind >= K_RSHORT);
    if (rk != is_read) continue;
    if ((num >= ff->at)
        && ((ff->count < 0) || (num < ff->at + ff->count))) {
      return ff;
    }
  }
  return NULL;
}

static void crash(const char *what)
{
  raw_log("F %ld crash %s\n", n_op, what);
  syscall(SYS_exit_group, 137);
}

/*
 * Non-write operations; grows is nonzero for operations needing disk space.
 * Returns errno or 0.
 */
static int begin_op(const char *what, const char *path, int grows, int deny)
{
  Fault *ff;
  long num = n_op++;

  pause_op(what, path);
  raw_log("O %ld %s %s\n", num, what, path ? path : "");
  ff = get_fault(num, 0);
  if (!ff) return 0;
  switch (ff->kind) {
  case K_CRASH:
    if (ff->arg > 500) return -1; /* After the operation. */
    crash(what);
    break;
  case K_NOSPC:
    if (!grows) return 0;
    ff->fired++;
    raw_log("F %ld nospc %s\n", num, what);
    return ENOSPC;
  case K_EIO:
    ff->fired++;
    raw_log("F %ld eio %s\n", num, what);
    return EIO;
  case K_EINTR:
    return 0;
  case K_DENY:
    if (!deny) return 0;
    ff->fired++;
    raw_log("F %ld deny %s\n", num, what);
    return (ff->arg % 2) ? EACCES : EMFILE;
  }
  return 0;
}

#define DO_OP(what, path, grows, deny, call) do { \
    int err_ = begin_op(what, path, grows, deny); \
    if (err_ > 0) { errno = err_; return -1; } \
    if (err_ < 0) { call; crash(what); } \
  } while (0)

static void set_fd(int fd, int val, const char *path)
{
  if ((fd >= 0) && (fd < MAX_FD)) {
    tracked[fd] = val;
    if (val) {
      paths[fd] = n_paths++;
      raw_log("N %d %d %s\n", fd, paths[fd], path ? path : "");
    }
  }
}

static int do_open(int dirfd, const char *path, int flags, mode_t mode)
{
  int fd, track, wr;

  track = is_tracked_path(dirfd, path);
  wr = (flags & O_ACCMODE) != O_RDONLY;
  if (track && (wr || (flags & (O_CREAT | O_TRUNC)))) {
    struct stat st;
    int exists = !syscall(SYS_newfstatat, dirfd, path, &st, 0);
    int err = begin_op("open", path, !exists, 1);
    if (err > 0) { errno = err; return -1; }
    fd = syscall(SYS_openat, dirfd, path, flags, mode);
    if (err < 0) crash("open");
  } else {
    if (track) pause_op("ropen", path);
    fd = syscall(SYS_openat, dirfd, path, flags, mode);
  }
  if (track && (fd >= 0)) set_fd(fd, 1, path);
  return fd;
}

#define GET_MODE(flags) \
  mode_t mode = 0; \
  if ((flags) & (O_CREAT | O_TMPFILE)) { \
    va_list ap; va_start(ap, flags); mode = va_arg(ap, mode_t); va_end(ap); }

int open(const char *path, int flags, ...)
{
  GET_MODE(flags);
  return do_open(AT_FDCWD, path, flags, mode);
}

int open64(const char *path, int flags, ...)
{
  GET_MODE(flags);
  return do_open(AT_FDCWD, path, flags | O_LARGEFILE, mode);
}

int openat(int dirfd, const char *path, int flags, ...)
{
  GET_MODE(flags);
  return do_open(dirfd, path, flags, mode);
}

int openat64(int dirfd, const char *path, int flags, ...)
{
  GET_MODE(flags);
  return do_open(dirfd, path, flags | O_LARGEFILE, mode);
}

int creat(const char *path, mode_t mode)
{
  return do_open(AT_FDCWD, path, O_CREAT | O_WRONLY | O_TRUNC, mode);
}

int creat64(const char *path, mode_t mode)
{
  return do_open(AT_FDCWD, path, O_CREAT | O_WRONLY | O_TRUNC, mode);
}

int close(int fd)
{
  if (is_tracked_fd(fd)) {
    int fl = fcntl(fd, F_GETFL);
    tracked[fd] = 0;
    if ((fl & O_ACCMODE) != O_RDONLY) {
      int err = begin_op("close", NULL, 0, 0);
      syscall(SYS_close, fd);
      if (err < 0) crash("close");
      if (err > 0) { errno = err; return -1; }
      return 0;
    }
  }
  return syscall(SYS_close, fd);
}

int dup(int fd)
{
  int out = syscall(SYS_dup, fd);
  if (out >= 0) set_fd(out, is_tracked_fd(fd), "dup");
  return out;
}

int dup2(int fd, int fd2)
{
  int out = syscall(SYS_dup2, fd, fd2);
  if (out >= 0) set_fd(out, is_tracked_fd(fd), "dup");
  return out;
}

int dup3(int fd, int fd2, int flags)
{
  int out = syscall(SYS_dup3, fd, fd2, flags);
  if (out >= 0) set_fd(out, is_tracked_fd(fd), "dup");
  return out;
}

static int do_fcntl(int fd, int cmd, long arg)
{
  int out = syscall(SYS_fcntl, fd, cmd, arg);
  if ((out >= 0) && ((cmd == F_DUPFD) || (cmd == F_DUPFD_CLOEXEC)))
    set_fd(out, is_tracked_fd(fd), "dup");
  return out;
}

int fcntl(int fd, int cmd, ...)
{
  va_list ap; long arg;
  va_start(ap, cmd); arg = va_arg(ap, long); va_end(ap);
  return do_fcntl(fd, cmd, arg);
}

int fcntl64(int fd, int cmd, ...)
{
  va_list ap; long arg;
  va_start(ap, cmd); arg = va_arg(ap, long); va_end(ap);
  return do_fcntl(fd, cmd, arg);
}

/* off < 0: at the file position. */
static ssize_t raw_write(int fd, const void *buf, size_t n, off_t off)
{
  if (off < 0) return syscall(SYS_write, fd, buf, n);
  return syscall(SYS_pwrite64, fd, buf, n, off);
}

static ssize_t one_write(int fd, const void *buf, size_t n, off_t off);

static ssize_t do_write(int fd, const void *buf, size_t n, off_t off)
{
  int part;

  if (!is_tracked_fd(fd)) return raw_write(fd, buf, n, off);
  part = pause_op("write", NULL);
  if ((part < 1000) && (n > 1) && (off < 0)) {
    /* Seen by the others in two parts, but not a short write. */
    ssize_t ret, ret2;
    size_t n1 = (size_t) ((double) n * part / 1000.0);
    if (n1 < 1) n1 = 1;
    ret = one_write(fd, buf, n1, off);
    if (ret != (ssize_t) n1) return ret;
    pause_op("write2", NULL);
    ret2 = one_write(fd, (const char *) buf + n1, n - n1, off);
    return (ret2 < 0) ? ret : ret + ret2;
  }
  return one_write(fd, buf, n, off);
}

static ssize_t one_write(int fd, const void *buf, size_t n, off_t off)
{
  Fault *ff;
  long num = n_op++;
  size_t part;
  struct stat st;
  off_t pos;

  raw_log("O %ld write %d %ld %ld\n", num, paths[fd], (long) off, (long) n);
  ff = get_fault(num, 0);
  if (!ff) return raw_write(fd, buf, n, off);
  part = (size_t) ((double) n * (ff->arg % 1001) / 1000.0);
  switch (ff->kind) {
  case K_CRASH:
    if (part) raw_write(fd, buf, part, off);
    crash("write");
    break;
  case K_NOSPC:
    fstat(fd, &st);
    if (fcntl(fd, F_GETFL) & O_APPEND) pos = st.st_size;
    else pos = (off < 0) ? lseek(fd, 0, SEEK_CUR) : off;
    if (pos + (off_t) n <= st.st_size) return raw_write(fd, buf, n, off);
    ff->fired++;
    raw_log("F %ld nospc write\n", num);
    if (part >= (long) n) part = n - 1;
    if ((ff->fired == 1) && part) return raw_write(fd, buf, part, off);
    errno = ENOSPC;
    return -1;
  case K_EIO:
    ff->fired++;
    raw_log("F %ld eio write\n", num);
    errno = EIO;
    return -1;
  case K_EINTR:
    ff->fired++;
    raw_log("F %ld eintr write\n", num);
    errno = EINTR;
    return -1;
  case K_SHORT:
    ff->fired++;
    raw_log("F %ld short write\n", num);
    if (part < 1) part = n ? 1 : 0;
    return raw_write(fd, buf, part, off);
  }
  return raw_write(fd, buf, n, off);
}

ssize_t write(int fd, const void *buf, size_t n)
{
  return do_write(fd, buf, n, -1);
}

ssize_t pwrite(int fd, const void *buf, size_t n, off_t off)
{
  return do_write(fd, buf, n, off);
}

ssize_t pwrite64(int fd, const void *buf, size_t n, off64_t off)
{
  return do_write(fd, buf, n, off);
}

ssize_t writev(int fd, const struct iovec *iov, int n)
{
  if (!is_tracked_fd(fd)) return syscall(SYS_writev, fd, iov, n);
  if (n < 1) return 0;
  /* A short write is always allowed. */
  return do_write(fd, iov[0].iov_base, iov[0].iov_len, -1);
}

static ssize_t do_read(int fd, void *buf, size_t n, off_t off)
{
  if (is_tracked_fd(fd)) {
    long num = n_read++;
    pause_op("read", NULL);
    Fault *ff = get_fault(num, 1);
    if (ff) {
      ff->fired++;
      if (ff->kind == K_REIO) {
        raw_log("F %ld reio read\n", num);
        errno = EIO;
        return -1;
      } else if (ff->kind == K_RINTR) {
        raw_log("F %ld rintr read\n", num);
        errno = EINTR;
        return -1;
      } else if (n > 1) {
        raw_log("F %ld rshort read\n", num);
        n = (size_t) ((double) n * (ff->arg % 1001) / 1000.0);
        if (n < 1) n = 1;
      }
    }
  }
  if (off < 0) return syscall(SYS_read, fd, buf, n);
  return syscall(SYS_pread64, fd, buf, n, off);
}

ssize_t read(int fd, void *buf, size_t n) { return do_read(fd, buf, n, -1); }
ssize_t pread(int fd, void *buf, size_t n, off_t off)
{
  return do_read(fd, buf, n, off);
}
ssize_t pread64(int fd, void *buf, size_t n, off64_t off)
{
  return do_read(fd, buf, n, off);
}

static int do_trunc(int fd, off_t len)
{
  if (is_tracked_fd(fd)) {
    struct stat st;
    fstat(fd, &st);
    DO_OP("ftruncate", NULL, 0, 0, syscall(SYS_ftruncate, fd, len));
  }
  return syscall(SYS_ftruncate, fd, len);
}

int ftruncate(int fd, off_t len) { return do_trunc(fd, len); }
int ftruncate64(int fd, off64_t len) { return do_trunc(fd, len); }

int fsync(int fd)
{
  if (is_tracked_fd(fd)) DO_OP("fsync", NULL, 0, 0, (void) 0);
  return 0 * syscall(SYS_getpid);
}

int fdatasync(int fd)
{
  if (is_tracked_fd(fd)) DO_OP("fdatasync", NULL, 0, 0, (void) 0);
  return 0;
}

int unlink(const char *path)
{
  if (is_tracked_path(AT_FDCWD, path))
    DO_OP("unlink", path, 0, 1, syscall(SYS_unlink, path));
  return syscall(SYS_unlink, path);
}

int unlinkat(int dirfd, const char *path, int flags)
{
  if (is_tracked_path(dirfd, path))
    DO_OP("unlink", path, 0, 1, syscall(SYS_unlinkat, dirfd, path, flags));
  return syscall(SYS_unlinkat, dirfd, path, flags);
}

int rename(const char *src, const char *dst)
{
  if (is_tracked_path(AT_FDCWD, src) || is_tracked_path(AT_FDCWD, dst))
    DO_OP("rename", dst, 0, 1, syscall(SYS_rename, src, dst));
  return syscall(SYS_rename, src, dst);
}

int renameat(int d1, const char *src, int d2, const char *dst)
{
  if (is_tracked_path(d1, src) || is_tracked_path(d2, dst))
    DO_OP("rename", dst, 0, 1, syscall(SYS_renameat, d1, src, d2, dst));
  return syscall(SYS_renameat, d1, src, d2, dst);
}

int mkdir(const char *path, mode_t mode)
{
  if (is_tracked_path(AT_FDCWD, path))
    DO_OP("mkdir", path, 1, 1, syscall(SYS_mkdir, path, mode));
  return syscall(SYS_mkdir, path, mode);
}

/*
 * Queries.
 */
#define QUERY(dirfd, path) \
  if ((pause_out >= 0) && (path)[0] \
      && is_tracked_path(dirfd, path)) pause_op("stat", path)

int stat(const char *path, struct stat *st)
{
  QUERY(AT_FDCWD, path);
  return syscall(SYS_newfstatat, AT_FDCWD, path, st, 0);
}

int stat64(const char *path, struct stat64 *st)
{
  QUERY(AT_FDCWD, path);
  return syscall(SYS_newfstatat, AT_FDCWD, path, st, 0);
}

int lstat(const char *path, struct stat *st)
{
  QUERY(AT_FDCWD, path);
  return syscall(SYS_newfstatat, AT_FDCWD, path, st, AT_SYMLINK_NOFOLLOW);
}

int lstat64(const char *path, struct stat64 *st)
{
  QUERY(AT_FDCWD, path);
  return syscall(SYS_newfstatat, AT_FDCWD, path, st, AT_SYMLINK_NOFOLLOW);
}

int fstatat(int dirfd, const char *path, struct stat *st, int flags)
{
  QUERY(dirfd, path);
  return syscall(SYS_newfstatat, dirfd, path, st, flags);
}

int fstatat64(int dirfd, const char *path, struct stat64 *st, int flags)
{
  QUERY(dirfd, path);
  return syscall(SYS_newfstatat, dirfd, path, st, flags);
}

int access(const char *path, int mode)
{
  QUERY(AT_FDCWD, path);
  return syscall(SYS_access, path, mode);
}

DIR *opendir(const char *path)
{
  REAL(DIR *, opendir, const char *);
  QUERY(AT_FDCWD, path);
  return real_opendir(path);
}

int rmdir(const char *path)
{
  if (is_tracked_path(AT_FDCWD, path))
    DO_OP("rmdir", path, 0, 1, syscall(SYS_rmdir, path));
  return syscall(SYS_rmdir, path);
}

#include <sys/sendfile.h>

ssize_t sendfile(int out, int in, off_t *off, size_t n)
{
  if (is_tracked_fd(out)) { errno = EINVAL; return -1; }
  return syscall(SYS_sendfile, out, in, off, n);
}

ssize_t sendfile64(int out, int in, off64_t *off, size_t n)
{
  if (is_tracked_fd(out)) { errno = EINVAL; return -1; }
  return syscall(SYS_sendfile, out, in, off, n);
}

ssize_t copy_file_range(int in, off64_t *o1, int out, off64_t *o2, size_t n,
                        unsigned int flags)
{
  if (is_tracked_fd(out)) { errno = EXDEV; return -1; }
  return syscall(SYS_copy_file_range, in, o1, out, o2, n, flags);
}

/*
 * Streams used by numpy's tofile(): make them unbuffered and pass their data
 * through write().
 */
FILE *fdopen(int fd, const char *mode)
{
  FILE *fp;
  REAL(FILE *, fdopen, int, const char *);
  fp = real_fdopen(fd, mode);
  if (fp && is_tracked_fd(fd)) setvbuf(fp, NULL, _IONBF, 0);
  return fp;
}

size_t fwrite(const void *buf, size_t size, size_t n, FILE *fp)
{
  REAL(size_t, fwrite, const void *, size_t, size_t, FILE *);
  if (active && fp && (fp != stdout) && (fp != stderr)) {
    int fd = fileno(fp);
    if (is_tracked_fd(fd)) {
      size_t total = size * n, done = 0;
      while (done < total) {
        ssize_t ret = do_write(fd, (const char *) buf + done, total - done,
                               -1);
        if (ret < 0) {
          if (errno == EINTR) continue;
          break;
        }
        done += ret;
      }
      return size ? done / size : 0;
    }
  }
  return real_fwrite(buf, size, n, fp);
}

/* The position kept in such a stream is not updated by fwrite() above. */
static int is_direct(FILE *fp)
{
  int fd = (active && fp) ? fileno(fp) : -1;
  return is_tracked_fd(fd)
    && ((fcntl(fd, F_GETFL) & O_ACCMODE) != O_RDONLY);
}

#define STREAM_POS(tell, seek, type) \
type tell(FILE *fp) \
{ \
  REAL(type, tell, FILE *); \
  if (is_direct(fp)) return lseek(fileno(fp), 0, SEEK_CUR); \
  return real_##tell(fp); \
} \
int seek(FILE *fp, type off, int whence) \
{ \
  REAL(int, seek, FILE *, type, int); \
  int ret = real_##seek(fp, off, whence); \
  if (!ret && is_direct(fp) && (whence != SEEK_CUR)) \
    lseek(fileno(fp), off, whence); \
  return ret; \
}

STREAM_POS(ftell, fseek, long)
STREAM_POS(ftello, fseeko, off_t)
STREAM_POS(ftello64, fseeko64, off64_t)

int fclose(FILE *fp)
{
  REAL(int, fclose, FILE *);
  if (active && fp) {
    int fd = fileno(fp);
    if (is_tracked_fd(fd)) tracked[fd] = 0;
  }
  return real_fclose(fp);
}
