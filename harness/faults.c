/* Preloaded into a script and its children: contains their effects on the file system and injects faults.
 *
 * VF_AREA    the directory in which files may be changed; every change elsewhere is refused and noted
 * VF_CONTROL a directory with the file "count" (number of changes so far) and "escapes"
 * VF_AT      the number of the change at which the fault happens (0: never)
 * VF_MODE    fail, half, KILL, TERM, INT, HUP, halfKILL, leaderTERM
 * VF_EXDEV   if set, renaming fails as it does between file systems
 */
#define _GNU_SOURCE
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <limits.h>
#include <signal.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/file.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <unistd.h>

#define REAL(name) ((__typeof__ (&name)) dlsym (RTLD_NEXT, #name))

static int
raw_open (const char *p, int flags)
{
  return syscall (SYS_openat, AT_FDCWD, p, flags, 0666);
}

static void
control (char *b, const char *name)
{
  snprintf (b, PATH_MAX, "%s/%s", getenv ("VF_CONTROL") ? getenv ("VF_CONTROL") : "/nonexistent", name);
}

static void
escape (const char *path)
{
  char b[PATH_MAX];
  control (b, "escapes");
  int fd = raw_open (b, O_WRONLY | O_CREAT | O_APPEND);
  if (fd >= 0)
    {
      syscall (SYS_write, fd, path, strlen (path));
      syscall (SYS_write, fd, "\n", 1);
      syscall (SYS_close, fd);
    }
}

/* The absolute name of the directory entry. */
static int
name_of (int dir, const char *path, char *out)
{
  char tmp[PATH_MAX], base[PATH_MAX], real[PATH_MAX];
  if (path[0] == '/')
    snprintf (tmp, sizeof tmp, "%s", path);
  else
    {
      if (dir == AT_FDCWD)
        {
          if (!getcwd (base, sizeof base))
            return 0;
        }
      else
        {
          char link[64];
          snprintf (link, sizeof link, "/proc/self/fd/%d", dir);
          ssize_t n = readlink (link, base, sizeof base - 1);
          if (n < 0)
            return 0;
          base[n] = 0;
        }
      if ((size_t) snprintf (tmp, sizeof tmp, "%s/%s", base, path) >= sizeof tmp)
        return 0;
    }
  char *s = strrchr (tmp, '/');
  if (!s)
    return 0;
  snprintf (base, sizeof base, "%s", s + 1);
  if (s == tmp)
    s++;
  *s = 0;
  if (!realpath (tmp, real))
    return 0;
  return (size_t) snprintf (out, PATH_MAX, "%s/%s", real, base) < PATH_MAX;
}

static int
inside (const char *p)
{
  const char *a = getenv ("VF_AREA");
  size_t n = a ? strlen (a) : 0;
  return a && strncmp (p, a, n) == 0 && p[n] == '/' && !strstr (p, "/../") && strcmp (strrchr (p, '/'), "/..") != 0;
}

/* 1: contained, 0: refused, -1: a special file that may be written */
static int
admit (int dir, const char *path)
{
  char b[PATH_MAX];
  if (!path)
    return 0;
  if (strcmp (path, "/dev/null") == 0 || strcmp (path, "/dev/tty") == 0)
    return -1;
  if (name_of (dir, path, b) && inside (b))
    {
      char real[PATH_MAX];
      if (!realpath (b, real) || inside (real))
        return 1;
    }
  escape (path);
  errno = EACCES;
  return 0;
}

/* Counts a change; returns 1 if it shall fail, 2 if it shall be done by half. */
static int
change (int half)
{
  char b[PATH_MAX], t[32] = { 0 };
  long k = 0;
  long at = getenv ("VF_AT") ? atol (getenv ("VF_AT")) : 0;
  const char *m = getenv ("VF_MODE") ? getenv ("VF_MODE") : "";
  control (b, "count");
  int fd = raw_open (b, O_RDWR | O_CREAT);
  if (fd < 0)
    return 0;
  flock (fd, LOCK_EX);
  if (syscall (SYS_pread64, fd, t, sizeof t - 1, 0) > 0)
    k = atol (t);
  k++;
  snprintf (t, sizeof t, "%ld\n", k);
  syscall (SYS_pwrite64, fd, t, strlen (t), 0);
  syscall (SYS_close, fd);
  if (at == 0 || k != at)
    return 0;
  if (strcmp (m, "fail") == 0)
    return 1;
  if (strcmp (m, "half") == 0)
    return half ? 2 : 1;
  if (strcmp (m, "halfKILL") == 0 && half)
    return 3;
  if (strcmp (m, "KILL") == 0 || strcmp (m, "halfKILL") == 0)
    kill (0, SIGKILL);
  else if (strcmp (m, "TERM") == 0)
    kill (0, SIGTERM);
  else if (strcmp (m, "INT") == 0)
    kill (0, SIGINT);
  else if (strcmp (m, "HUP") == 0)
    kill (0, SIGHUP);
  else if (strcmp (m, "leaderTERM") == 0)
    kill (getpgrp (), SIGTERM);
  return 0;
}

static int
fail (void)
{
  errno = ENOSPC;
  return -1;
}

static int
writing (int flags)
{
  return (flags & O_ACCMODE) != O_RDONLY || (flags & (O_CREAT | O_TRUNC));
}

static int
do_open (int dir, const char *path, int flags, mode_t mode)
{
  if (writing (flags))
    {
      int a = admit (dir, path);
      if (!a)
        return -1;
      if (a > 0 && (flags & (O_CREAT | O_TRUNC)) && change (0))
        return fail ();
    }
  return syscall (SYS_openat, dir, path, flags, mode);
}

#define MODE(flags) \
  mode_t mode = 0; \
  if ((flags) & (O_CREAT | O_TMPFILE)) \
    { \
      va_list ap; \
      va_start (ap, flags); \
      mode = va_arg (ap, int); \
      va_end (ap); \
    }

int open (const char *path, int flags, ...) { MODE (flags) return do_open (AT_FDCWD, path, flags, mode); }
int open64 (const char *path, int flags, ...) { MODE (flags) return do_open (AT_FDCWD, path, flags, mode); }
int openat (int dir, const char *path, int flags, ...) { MODE (flags) return do_open (dir, path, flags, mode); }
int openat64 (int dir, const char *path, int flags, ...) { MODE (flags) return do_open (dir, path, flags, mode); }
int __open_2 (const char *path, int flags) { return do_open (AT_FDCWD, path, flags, 0); }
int __open64_2 (const char *path, int flags) { return do_open (AT_FDCWD, path, flags, 0); }
int __openat_2 (int dir, const char *path, int flags) { return do_open (dir, path, flags, 0); }
int __openat64_2 (int dir, const char *path, int flags) { return do_open (dir, path, flags, 0); }
int creat (const char *path, mode_t mode) { return do_open (AT_FDCWD, path, O_CREAT | O_WRONLY | O_TRUNC, mode); }
int creat64 (const char *path, mode_t mode) { return creat (path, mode); }

static FILE *
do_fopen (const char *path, const char *how, FILE *(*real) (const char *, const char *))
{
  if (how[0] != 'r' || strchr (how, '+'))
    {
      int a = admit (AT_FDCWD, path);
      if (!a)
        return NULL;
      if (a > 0 && how[0] != 'r' && change (0))
        {
          fail ();
          return NULL;
        }
    }
  return real (path, how);
}
FILE *fopen (const char *path, const char *how) { return do_fopen (path, how, REAL (fopen)); }
FILE *fopen64 (const char *path, const char *how) { return do_fopen (path, how, REAL (fopen64)); }

static int
regular (int fd)
{
  char link[64], b[PATH_MAX];
  struct stat st;
  if (fstat (fd, &st) != 0 || !S_ISREG (st.st_mode))
    return 0;
  snprintf (link, sizeof link, "/proc/self/fd/%d", fd);
  ssize_t n = readlink (link, b, sizeof b - 1);
  if (n < 0)
    return 0;
  b[n] = 0;
  return inside (b);
}

ssize_t
write (int fd, const void *p, size_t n)
{
  if (n > 0 && regular (fd))
    switch (change (1))
      {
      case 1:
        return fail ();
      case 2:
        syscall (SYS_write, fd, p, n / 2);
        return fail ();
      case 3:
        syscall (SYS_write, fd, p, n / 2);
        kill (0, SIGKILL);
        break;
      }
  return syscall (SYS_write, fd, p, n);
}

int ftruncate (int fd, off_t n) { return regular (fd) && change (0) ? fail () : syscall (SYS_ftruncate, fd, n); }
int ftruncate64 (int fd, off_t n) { return ftruncate (fd, n); }
int
truncate (const char *p, off_t n)
{
  if (!admit (AT_FDCWD, p))
    return -1;
  return change (0) ? fail () : syscall (SYS_truncate, p, n);
}

/* Copies within the kernel are refused, so that files are copied by reading and writing. */
ssize_t
copy_file_range (int a, off_t *x, int b, off_t *y, size_t n, unsigned f)
{
  errno = EXDEV;
  return -1;
}
int
ioctl (int fd, unsigned long request, ...)
{
  va_list ap;
  va_start (ap, request);
  void *p = va_arg (ap, void *);
  va_end (ap);
  if (request == 0x40049409ul) /* FICLONE */
    {
      errno = EOPNOTSUPP;
      return -1;
    }
  return syscall (SYS_ioctl, fd, request, p);
}
ssize_t
sendfile (int a, int b, off_t *o, size_t n)
{
  errno = EINVAL;
  return -1;
}

static int
do_rename (int d1, const char *a, int d2, const char *b, unsigned flags)
{
  if (admit (d1, a) <= 0 || admit (d2, b) <= 0)
    return -1;
  if (getenv ("VF_EXDEV"))
    {
      errno = EXDEV;
      return -1;
    }
  return change (0) ? fail () : syscall (SYS_renameat2, d1, a, d2, b, flags);
}
int rename (const char *a, const char *b) { return do_rename (AT_FDCWD, a, AT_FDCWD, b, 0); }
int renameat (int d1, const char *a, int d2, const char *b) { return do_rename (d1, a, d2, b, 0); }
int renameat2 (int d1, const char *a, int d2, const char *b, unsigned f) { return do_rename (d1, a, d2, b, f); }

static int
do_unlink (int dir, const char *p, int flags)
{
  if (admit (dir, p) <= 0)
    return -1;
  return change (0) ? fail () : syscall (SYS_unlinkat, dir, p, flags);
}
int unlink (const char *p) { return do_unlink (AT_FDCWD, p, 0); }
int unlinkat (int dir, const char *p, int flags) { return do_unlink (dir, p, flags); }
int rmdir (const char *p) { return do_unlink (AT_FDCWD, p, AT_REMOVEDIR); }
int remove (const char *p) { return do_unlink (AT_FDCWD, p, 0); }

static int
do_link (int d1, const char *a, int d2, const char *b, int flags)
{
  if (admit (d2, b) <= 0)
    return -1;
  if (getenv ("VF_EXDEV"))
    {
      errno = EXDEV;
      return -1;
    }
  return change (0) ? fail () : syscall (SYS_linkat, d1, a, d2, b, flags);
}
int link (const char *a, const char *b) { return do_link (AT_FDCWD, a, AT_FDCWD, b, 0); }
int linkat (int d1, const char *a, int d2, const char *b, int f) { return do_link (d1, a, d2, b, f); }
int
symlinkat (const char *t, int dir, const char *p)
{
  if (admit (dir, p) <= 0)
    return -1;
  return change (0) ? fail () : syscall (SYS_symlinkat, t, dir, p);
}
int symlink (const char *t, const char *p) { return symlinkat (t, AT_FDCWD, p); }
int
mkdirat (int dir, const char *p, mode_t m)
{
  if (admit (dir, p) <= 0)
    return -1;
  return change (0) ? fail () : syscall (SYS_mkdirat, dir, p, m);
}
int mkdir (const char *p, mode_t m) { return mkdirat (AT_FDCWD, p, m); }

/* Nothing outside of the area may change its mode, owner, or times either. */
int chmod (const char *p, mode_t m) { return admit (AT_FDCWD, p) > 0 ? syscall (SYS_fchmodat, AT_FDCWD, p, m) : -1; }
int fchmodat (int d, const char *p, mode_t m, int f) { return admit (d, p) > 0 ? syscall (SYS_fchmodat, d, p, m) : -1; }
int chown (const char *p, uid_t u, gid_t g) { return admit (AT_FDCWD, p) > 0 ? syscall (SYS_fchownat, AT_FDCWD, p, u, g, 0) : -1; }
