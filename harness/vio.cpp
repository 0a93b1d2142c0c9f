#include "vio.h"
#include <dirent.h>
#include <errno.h>
#include <fcntl.h>
#include <limits.h>
#include <stdarg.h>
#include <stdio.h>
#include <string.h>
#include <sys/stat.h>
#include <unistd.h>
namespace vio
{
  static bool on; static int n; static Fault f; static bool hit; static const char * hitname; static std::function<void (const char *)> obs; static std::string rootdir; static bool busy;
  void root (const char * d) { rootdir = d; }
  void begin (const std::function<void (const char *)> & o, Fault x) { obs = o; f = x; n = 0; hit = false; hitname = ""; on = true; }
  int end () { on = false; obs = nullptr; return n; }
  bool fired () { return hit; }
  const char * call () { return hitname; }
  static void look (const char * w) { if (obs) { busy = true; int e = errno; obs (w); errno = e; busy = false; } }
  // a call begins: whether it is to fail
  static bool enter (const char * w)
  {
    look (w); int k = n++; bool r = f.at >= 0 && (f.sticky ? k >= f.at : k == f.at);
    if (r && !hit) { hit = true; hitname = w; }
    if (r) errno = f.err;
    return r;
  }
  static FILE * bad_stream;      // whose error indicator a simulated failure has set
  static bool live () { return on && !busy; }
  // the file system may only be changed below the root
  static void inside (const char * w, const char * p)
  {
    if (!p) pbt::fail ("%s without a path", w);
    std::string full = p; char cwd[PATH_MAX * 2];
    if (*p != '/') { if (!getcwd (cwd, sizeof cwd)) return; full = std::string (cwd) + "/" + p; }
    if (rootdir.empty () || full.compare (0, rootdir.size () + 1, rootdir + "/") || full.find ("/../") != std::string::npos) pbt::fail ("%s (\"%.200s\") outside the given directory", w, p);
  }
}
using namespace vio;
#define LEAVE(w, r) do { look (w " done"); return r; } while (0)
extern "C"
{
  FILE * __real_fopen (const char *, const char *); FILE * __real_fdopen (int, const char *); size_t __real_fwrite (const void *, size_t, size_t, FILE *); size_t __real_fread (void *, size_t, size_t, FILE *);
  int __real_fclose (FILE *); int __real_fflush (FILE *); int __real_fseek (FILE *, long, int); long __real_ftell (FILE *); int __real_fseeko (FILE *, off_t, int); off_t __real_ftello (FILE *);
  int __real_fputs (const char *, FILE *); int __real_rename (const char *, const char *); int __real_remove (const char *); int __real_unlink (const char *); int __real_open (const char *, int, ...); int __real_openat (int, const char *, int, ...); int __real_close (int);
  ssize_t __real_read (int, void *, size_t); ssize_t __real_write (int, const void *, size_t); int __real_fsync (int); int __real_fdatasync (int); int __real_ftruncate (int, off_t);
  int __real_fstat (int, struct stat *); int __real_stat (const char *, struct stat *); int __real_lstat (const char *, struct stat *); int __real_mkstemp (char *); int __real_link (const char *, const char *); DIR * __real_opendir (const char *); int __real_access (const char *, int);

  static bool changes (const char * m) { return strpbrk (m, "wa+") != nullptr; }
  FILE * __wrap_fopen (const char * p, const char * m) { if (!live ()) return __real_fopen (p, m); if (changes (m)) inside ("fopen", p); if (enter ("fopen")) return nullptr; FILE * r = __real_fopen (p, m); LEAVE ("fopen", r); }
  FILE * __wrap_fdopen (int d, const char * m) { if (!live ()) return __real_fdopen (d, m); if (enter ("fdopen")) return nullptr; FILE * r = __real_fdopen (d, m); LEAVE ("fdopen", r); }
  size_t __wrap_fwrite (const void * p, size_t sz, size_t k, FILE * fd)
  {
    if (!live () || fd == stdout || fd == stderr) return __real_fwrite (p, sz, k, fd);
    size_t len = sz * k, put = len; bool bad = enter ("fwrite"); if (bad) put = f.kind == FAIL || !len ? 0 : f.part % len;
    size_t a = put ? f.part % put : 0, got = __real_fwrite (p, 1, a, fd);
    if (a) { __real_fflush (fd); look ("part of fwrite"); }
    got += __real_fwrite ((const char *) p + a, 1, put - a, fd);
    if (bad) { errno = f.err; bad_stream = fd; }
    LEAVE ("fwrite", sz ? got / sz : 0);
  }
  int __real_ferror (FILE *); void __real_clearerr (FILE *); int __real_vfprintf (FILE *, const char *, va_list); int __real_fputc (int, FILE *); int __real_putc (int, FILE *); int __real_renameat (int, const char *, int, const char *); int __real_unlinkat (int, const char *, int); ssize_t __real_pwrite (int, const void *, size_t, off_t); int __real_truncate (const char *, off_t);
  int __wrap_ferror (FILE * fd) { return live () && fd == bad_stream ? 1 : __real_ferror (fd); }
  void __wrap_clearerr (FILE * fd) { if (live () && fd == bad_stream) bad_stream = nullptr; __real_clearerr (fd); }
  int __wrap_vfprintf (FILE * fd, const char * t, va_list v)
  {
    if (!live () || fd == stdout || fd == stderr) return __real_vfprintf (fd, t, v);
    char * b = nullptr; busy = true; int l = vasprintf (&b, t, v); busy = false; if (l > 0 && __wrap_fwrite (b, 1, (size_t) l, fd) != (size_t) l) l = -1;
    int e = errno; free (b); errno = e; return l;
  }
  int __wrap_fprintf (FILE * fd, const char * t, ...) { va_list v; va_start (v, t); int r = __wrap_vfprintf (fd, t, v); va_end (v); return r; }
  int __wrap_fputc (int c, FILE * fd) { if (!live () || fd == stdout || fd == stderr) return __real_fputc (c, fd); unsigned char b = (unsigned char) c; return __wrap_fwrite (&b, 1, 1, fd) == 1 ? b : EOF; }
  int __wrap_putc (int c, FILE * fd) { return __wrap_fputc (c, fd); }
  int __wrap_renameat (int x, const char * a, int y, const char * b) { if (!live ()) return __real_renameat (x, a, y, b); if (x == AT_FDCWD) inside ("renameat", a); if (y == AT_FDCWD) inside ("renameat", b); if (enter ("renameat")) return -1; int r = __real_renameat (x, a, y, b); LEAVE ("renameat", r); }
  int __wrap_unlinkat (int d, const char * a, int fl) { if (!live ()) return __real_unlinkat (d, a, fl); if (d == AT_FDCWD) inside ("unlinkat", a); if (enter ("unlinkat")) return -1; int r = __real_unlinkat (d, a, fl); LEAVE ("unlinkat", r); }
  ssize_t __wrap_pwrite (int d, const void * p, size_t l, off_t o) { if (!live ()) return __real_pwrite (d, p, l, o); if (enter ("pwrite")) { if (f.kind == FAIL || f.sticky || l < 2) return -1; hit = false; ssize_t r = __real_pwrite (d, p, 1 + f.part % (l - 1), o); LEAVE ("pwrite", r); } ssize_t r = __real_pwrite (d, p, l, o); LEAVE ("pwrite", r); }
  int __wrap_truncate (const char * p, off_t o) { if (!live ()) return __real_truncate (p, o); inside ("truncate", p); if (enter ("truncate")) return -1; int r = __real_truncate (p, o); LEAVE ("truncate", r); }
  int __wrap_fputs (const char * s, FILE * fd) { if (!live () || fd == stdout || fd == stderr) return __real_fputs (s, fd); size_t l = strlen (s); return __wrap_fwrite (s, 1, l, fd) == l ? 1 : EOF; }
  size_t __wrap_fread (void * p, size_t sz, size_t k, FILE * fd)
  {
    if (!live ()) return __real_fread (p, sz, k, fd);
    if (enter ("fread")) { size_t l = f.kind == FAIL || sz * k == 0 ? 0 : __real_fread (p, 1, f.part % (sz * k), fd); bad_stream = fd; errno = f.err; return sz ? l / sz : 0; }
    return __real_fread (p, sz, k, fd);
  }
  // a failing close loses data that was still buffered
  int __wrap_fclose (FILE * fd)
  {
    if (!live ()) return __real_fclose (fd);
    if (fd == bad_stream) bad_stream = nullptr;
    if (!enter ("fclose")) { int r = __real_fclose (fd); LEAVE ("fclose", r); }
    int d = fileno (fd), fl = fcntl (d, F_GETFL), dd = (fl & O_ACCMODE) != O_RDONLY ? dup (d) : -1; struct stat a = {}, b = {};
    if (dd >= 0) __real_fstat (dd, &a);
    __real_fclose (fd);
    if (dd >= 0) { __real_fstat (dd, &b); if (b.st_size > a.st_size) { off_t keep = f.kind == FAIL ? a.st_size : a.st_size + (off_t) (f.part % (uint64_t) (b.st_size - a.st_size)); if (__real_ftruncate (dd, keep)) {} } __real_close (dd); }
    errno = f.err; LEAVE ("fclose", EOF);
  }
  int __wrap_fflush (FILE * fd) { if (!live () || fd == stdout || fd == stderr) return __real_fflush (fd); if (enter ("fflush")) { bad_stream = fd; return EOF; } int r = __real_fflush (fd); LEAVE ("fflush", r); }
  int __wrap_fseek (FILE * fd, long o, int w) { if (!live ()) return __real_fseek (fd, o, w); if (enter ("fseek")) return -1; return __real_fseek (fd, o, w); }
  int __wrap_fseeko (FILE * fd, off_t o, int w) { if (!live ()) return __real_fseeko (fd, o, w); if (enter ("fseeko")) return -1; return __real_fseeko (fd, o, w); }
  long __wrap_ftell (FILE * fd) { if (!live ()) return __real_ftell (fd); if (enter ("ftell")) return -1; return __real_ftell (fd); }
  off_t __wrap_ftello (FILE * fd) { if (!live ()) return __real_ftello (fd); if (enter ("ftello")) return -1; return __real_ftello (fd); }
  int __wrap_rename (const char * a, const char * b) { if (!live ()) return __real_rename (a, b); inside ("rename", a); inside ("rename", b); if (enter ("rename")) return -1; int r = __real_rename (a, b); LEAVE ("rename", r); }
  int __wrap_link (const char * a, const char * b) { if (!live ()) return __real_link (a, b); inside ("link", b); if (enter ("link")) return -1; int r = __real_link (a, b); LEAVE ("link", r); }
  int __wrap_remove (const char * a) { if (!live ()) return __real_remove (a); inside ("remove", a); if (enter ("remove")) return -1; int r = __real_remove (a); LEAVE ("remove", r); }
  int __wrap_unlink (const char * a) { if (!live ()) return __real_unlink (a); inside ("unlink", a); if (enter ("unlink")) return -1; int r = __real_unlink (a); LEAVE ("unlink", r); }
  int __wrap_open (const char * p, int fl, ...) { va_list v; va_start (v, fl); int m = va_arg (v, int); va_end (v); if (!live ()) return __real_open (p, fl, m); if ((fl & O_ACCMODE) != O_RDONLY) inside ("open", p); if (enter ("open")) return -1; int r = __real_open (p, fl, m); LEAVE ("open", r); }
  int __wrap_openat (int d, const char * p, int fl, ...) { va_list v; va_start (v, fl); int m = va_arg (v, int); va_end (v); if (!live ()) return __real_openat (d, p, fl, m); if ((fl & O_ACCMODE) != O_RDONLY && d == AT_FDCWD) inside ("openat", p); if (enter ("openat")) return -1; int r = __real_openat (d, p, fl, m); LEAVE ("openat", r); }
  int __wrap_mkstemp (char * p) { if (!live ()) return __real_mkstemp (p); inside ("mkstemp", p); if (enter ("mkstemp")) return -1; int r = __real_mkstemp (p); LEAVE ("mkstemp", r); }
  int __wrap_close (int d) { if (!live ()) return __real_close (d); bool bad = enter ("close"); int r = __real_close (d); if (bad) { errno = f.err; r = -1; } LEAVE ("close", r); }
  ssize_t __wrap_read (int d, void * p, size_t l) { if (!live ()) return __real_read (d, p, l); if (enter ("read")) { if (f.kind == FAIL || f.sticky || l < 2) return -1; hit = false; return __real_read (d, p, 1 + f.part % (l - 1)); } return __real_read (d, p, l); }
  ssize_t __wrap_write (int d, const void * p, size_t l)
  {
    if (!live () || d <= 2) return __real_write (d, p, l);
    if (enter ("write")) { if (f.kind == FAIL || f.sticky || l < 2) return -1; hit = false; ssize_t r = __real_write (d, p, 1 + f.part % (l - 1)); LEAVE ("write", r); }      // a short write is no failure
    ssize_t r = __real_write (d, p, l); LEAVE ("write", r);
  }
  int __wrap_fsync (int d) { if (!live ()) return __real_fsync (d); if (enter ("fsync")) return -1; return 0; }
  int __wrap_fdatasync (int d) { if (!live ()) return __real_fdatasync (d); if (enter ("fdatasync")) return -1; return 0; }
  int __wrap_ftruncate (int d, off_t o) { if (!live ()) return __real_ftruncate (d, o); if (enter ("ftruncate")) return -1; int r = __real_ftruncate (d, o); LEAVE ("ftruncate", r); }
  int __wrap_fstat (int d, struct stat * s) { if (!live ()) return __real_fstat (d, s); if (enter ("fstat")) return -1; return __real_fstat (d, s); }
  int __wrap_stat (const char * p, struct stat * s) { if (!live ()) return __real_stat (p, s); if (enter ("stat")) return -1; return __real_stat (p, s); }
  int __wrap_lstat (const char * p, struct stat * s) { if (!live ()) return __real_lstat (p, s); if (enter ("lstat")) return -1; return __real_lstat (p, s); }
  int __wrap_access (const char * p, int m) { if (!live ()) return __real_access (p, m); if (enter ("access")) return -1; return __real_access (p, m); }
  DIR * __wrap_opendir (const char * p) { if (!live ()) return __real_opendir (p); if (enter ("opendir")) return nullptr; return __real_opendir (p); }
}
