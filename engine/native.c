/* Native side of sx.h: inputs come from a file (SX_INPUT: lines "name value"),
 * observations and assertion verdicts go to stdout. Exit 0: path completed,
 * 10: assertion failed, 11: input exhausted or out of step, 12: assumption
 * false on the replayed values. */
#include "sx.h"
#include <stdatomic.h>
#include <unistd.h>
#include <sanitizer/allocator_interface.h>
static FILE *in;
static long live;
static int started;
static void *own[1 << 16];
static void on_malloc (const volatile void *p, size_t n) { (void) n; if (started && p) live++; }
static void on_free (const volatile void *p) { if (started && p) live--; }
int __sanitizer_install_malloc_and_free_hooks (void (*m) (const volatile void *, size_t), void (*f) (const volatile void *));

static uint64_t next (const char *name)
{
    char n[256];
    unsigned long long v;
    if (!in || fscanf (in, "%llu %255[^\n]", &v, n) != 2)
    {
        printf ("SX-EXHAUSTED %s\n", name);
        fflush (stdout);
        _exit (11);
    }
    if (strcmp (n, name))
    {
        printf ("SX-DIVERGED expected %s got %s\n", name, n);
        fflush (stdout);
        _exit (11);
    }
    return v;
}
uint64_t sx_u64 (const char *n) { return next (n); }
uint32_t sx_u32 (const char *n) { return (uint32_t) next (n); }
uint16_t sx_u16 (const char *n) { return (uint16_t) next (n); }
uint8_t sx_u8 (const char *n) { return (uint8_t) next (n); }
double sx_f64 (const char *n) { uint64_t v = next (n); double d; memcpy (&d, &v, 8); return d; }
int sx_pick (int n, const char *name) { uint64_t v = next (name); if (v >= (uint64_t) n) { printf ("SX-DIVERGED pick\n"); fflush (stdout); _exit (11); } return (int) v; }
void sx_assume (int c) { if (!c) { printf ("SX-ASSUME\n"); fflush (stdout); _exit (12); } }
void sx_assert_ (int c, const char *m)
{
    if (!c) { printf ("SX-ASSERT %s\n", m); fflush (stdout); _exit (10); }
}
void sx_reach (const char *l) { (void) l; }
void sx_observe (const char *l, uint64_t v) { printf ("SX-OBS %s=%llu\n", l, (unsigned long long) v); }
void sx_observe_str (const char *l, const char *s) { printf ("SX-OBS %s=%s\n", l, s ? s : "(null)"); }
uint64_t sx_concretize (uint64_t v) { return v; }
uint64_t sx_live_heap (void) { return (uint64_t) live; }
int sx_valid (const void *p, size_t n) { (void) p; (void) n; return 1; }
int sx_native (void) { return 1; }
int sx_is_symbolic (uint64_t v) { (void) v; return 0; }
int sx_fmt_double (char *o, size_t s, const char *f, double d) { return snprintf (o, s, f, d); }
int sx_fmt_abstract;
/* the repository's file system calls, renamed (objcopy) to reach the harness' model; never the real file system */
#include <sys/stat.h>
#include <errno.h>
#define WEAK __attribute__ ((weak))
WEAK void *sxfs_opendir (const char *p) { (void) p; errno = ENOENT; return NULL; }
WEAK void *sxfs_readdir (void *d) { (void) d; return NULL; }
WEAK int sxfs_closedir (void *d) { (void) d; return 0; }
WEAK void *sxfs_dlopen (const char *f, int flags) { (void) f; (void) flags; return NULL; }
WEAK void *sxfs_dlsym (void *h, const char *n) { (void) h; (void) n; return NULL; }
WEAK char *sxfs_dlerror (void) { return "no dynamic loading"; }
WEAK int sxfs_dlclose (void *h) { (void) h; return 0; }
WEAK FILE *sxfs_fopen (const char *p, const char *m) { (void) p; (void) m; errno = ENOENT; return NULL; }
WEAK int sxfs_fclose (FILE *f) { (void) f; return 0; }
WEAK int sxfs_stat (const char *p, struct stat *b) { (void) p; (void) b; errno = ENOENT; return -1; }
WEAK int sxfs_mkdir (const char *p, mode_t m) { (void) p; (void) m; errno = EACCES; return -1; }
WEAK int sxfs_remove (const char *p) { (void) p; errno = ENOENT; return -1; }
WEAK int sxfs_lstat (const char *p, struct stat *b) { return sxfs_stat (p, b); }
WEAK int sxfs_unlink (const char *p) { return sxfs_remove (p); }
WEAK int sxfs_ferror (FILE *f) { (void) f; return 0; }
WEAK int sxfs_fflush (FILE *f) { (void) f; return 0; }
WEAK int sxfs_access (const char *p, int m) { (void) p; (void) m; errno = ENOENT; return -1; }
WEAK int sxfs_fileno (FILE *f) { (void) f; return 3; }
WEAK ssize_t sxfs_read (int fd, void *b, size_t n) { (void) fd; (void) b; (void) n; return 0; }
WEAK ssize_t sxfs_write (int fd, const void *b, size_t n) { (void) fd; (void) b; return (ssize_t) n; }
extern void harness (void);
extern int runtime_loglevel __attribute__ ((weak));
int main (int argc, char **argv)
{
    if (argc > 1) in = fopen (argv[1], "r");
    static char obuf[1 << 16], ibuf[1 << 12];
    setvbuf (stdout, obuf, _IOFBF, sizeof obuf);
    if (in) setvbuf (in, ibuf, _IOFBF, sizeof ibuf);
    if (&runtime_loglevel) runtime_loglevel = 1; /* DISIR_LOG_LEVEL_NONE */
    __sanitizer_install_malloc_and_free_hooks (on_malloc, on_free);
    started = 1;
    harness ();
    started = 0;
    printf ("SX-DONE\n");
    fflush (stdout);
    _exit (0);
}
