/* libc models linked into the encoding (C, executed symbolically like the rest).
 * Contracts follow ISO C / POSIX; anything not modelled here or in the engine
 * is reported as "external" when reached. */
#include <stdarg.h>
#include <stdint.h>
#include <stddef.h>

extern void *malloc (size_t);
extern void free (void *);
extern size_t strlen (const char *);
extern void *memcpy (void *, const void *, size_t);
extern int sx_fmt_double (char *out, size_t size, const char *fmt, double d);
extern uint64_t sx_concretize (uint64_t v);
typedef struct FILE_ FILE;

static int err_no;
int *__errno_location (void) { return &err_no; }

int strcmp (const char *a, const char *b)
{
    for (;; a++, b++)
    {
        unsigned char x = *a, y = *b;
        if (x != y) return x < y ? -1 : 1;
        if (!x) return 0;
    }
}
int strncmp (const char *a, const char *b, size_t n)
{
    for (; n; a++, b++, n--)
    {
        unsigned char x = *a, y = *b;
        if (x != y) return x < y ? -1 : 1;
        if (!x) return 0;
    }
    return 0;
}
int tolower (int c) { return (c >= 'A' && c <= 'Z') ? c + 32 : c; }
int toupper (int c) { return (c >= 'a' && c <= 'z') ? c - 32 : c; }
int isdigit (int c) { return (c >= '0') & (c <= '9'); }
int isspace (int c) { return (c == ' ') | ((c >= 9) & (c <= 13)); }
int isupper (int c) { return (c >= 'A') & (c <= 'Z'); }
int islower (int c) { return (c >= 'a') & (c <= 'z'); }
int isalpha (int c) { return isupper (c) | islower (c); }
int isalnum (int c) { return isalpha (c) | isdigit (c); }
int isxdigit (int c) { return isdigit (c) | ((c >= 'a') & (c <= 'f')) | ((c >= 'A') & (c <= 'F')); }
int isprint (int c) { return (c >= 32) & (c < 127); }
int ispunct (int c) { return isprint (c) & (c != 32) & !isalnum (c); }
int isblank (int c) { return (c == ' ') | (c == 9); }
int iscntrl (int c) { return ((c >= 0) & (c < 32)) | (c == 127); }
int strcasecmp (const char *a, const char *b)
{
    for (;; a++, b++)
    {
        int x = tolower ((unsigned char) *a), y = tolower ((unsigned char) *b);
        if (x != y) return x < y ? -1 : 1;
        if (!x) return 0;
    }
}
int strncasecmp (const char *a, const char *b, size_t n)
{
    for (; n; a++, b++, n--)
    {
        int x = tolower ((unsigned char) *a), y = tolower ((unsigned char) *b);
        if (x != y) return x < y ? -1 : 1;
        if (!x) return 0;
    }
    return 0;
}
int memcmp (const void *pa, const void *pb, size_t n)
{
    const unsigned char *a = pa, *b = pb;
    for (; n; a++, b++, n--)
        if (*a != *b) return *a < *b ? -1 : 1;
    return 0;
}
void *memchr (const void *p, int c, size_t n)
{
    const unsigned char *a = p;
    for (; n; a++, n--)
        if (*a == (unsigned char) c) return (void *) a;
    return 0;
}
size_t strnlen (const char *s, size_t n)
{
    size_t i = 0;
    while (i < n && s[i]) i++;
    return i;
}
char *strcpy (char *d, const char *s)
{
    size_t i = 0;
    do d[i] = s[i]; while (s[i++]);
    return d;
}
char *stpcpy (char *d, const char *s)
{
    size_t i = 0;
    while ((d[i] = s[i])) i++;
    return d + i;
}
char *strncpy (char *d, const char *s, size_t n)
{
    size_t i = 0;
    for (; i < n && s[i]; i++) d[i] = s[i];
    for (; i < n; i++) d[i] = 0;
    return d;
}
char *strcat (char *d, const char *s) { strcpy (d + strlen (d), s); return d; }
char *strncat (char *d, const char *s, size_t n)
{
    size_t l = strlen (d), i = 0;
    for (; i < n && s[i]; i++) d[l + i] = s[i];
    d[l + i] = 0;
    return d;
}
char *strchr (const char *s, int c)
{
    for (;; s++)
    {
        if (*s == (char) c) return (char *) s;
        if (!*s) return 0;
    }
}
char *strrchr (const char *s, int c)
{
    const char *r = 0;
    for (;; s++)
    {
        if (*s == (char) c) r = s;
        if (!*s) return (char *) r;
    }
}
char *strstr (const char *h, const char *n)
{
    size_t l = strlen (n);
    for (;; h++)
    {
        if (strncmp (h, n, l) == 0) return (char *) h;
        if (!*h) return 0;
    }
}
size_t strspn (const char *s, const char *a)
{
    size_t n = 0;
    for (; s[n]; n++) if (!strchr (a, s[n])) break;
    return n;
}
size_t strcspn (const char *s, const char *a)
{
    size_t n = 0;
    for (; s[n]; n++) if (strchr (a, s[n])) break;
    return n;
}
char *strpbrk (const char *s, const char *a) { s += strcspn (s, a); return *s ? (char *) s : 0; }
char *strdup (const char *s)
{
    size_t n = strlen (s) + 1;
    char *p = malloc (n);
    if (p) memcpy (p, s, n);
    return p;
}
char *strndup (const char *s, size_t n)
{
    size_t l = strnlen (s, n);
    char *p = malloc (l + 1);
    if (p) { memcpy (p, s, l); p[l] = 0; }
    return p;
}
char *strtok_r (char *s, const char *d, char **save)
{
    if (!s) s = *save;
    s += strspn (s, d);
    if (!*s) { *save = s; return 0; }
    char *t = s;
    s += strcspn (s, d);
    if (*s) *s++ = 0;
    *save = s;
    return t;
}
char *strerror (int e) { (void) e; return "error"; }

static unsigned long long
parse_u (const char *s, char **end, int base, int *neg, int *any, int *over, unsigned long long lim)
{
    const char *p = s;
    unsigned long long v = 0;
    while (isspace ((unsigned char) *p)) p++;
    *neg = 0; *any = 0; *over = 0;
    if (*p == '-') { *neg = 1; p++; }
    else if (*p == '+') p++;
    if ((base == 0 || base == 16) && p[0] == '0' && (p[1] == 'x' || p[1] == 'X') && isxdigit ((unsigned char) p[2]))
    { base = 16; p += 2; }
    if (base == 0) base = p[0] == '0' ? 8 : 10;
    for (;; p++)
    {
        unsigned char c = *p;
        unsigned d;
        if (c >= '0' && c <= '9') d = c - '0';
        else if (c >= 'a' && c <= 'z') d = c - 'a' + 10;
        else if (c >= 'A' && c <= 'Z') d = c - 'A' + 10;
        else break;
        if (d >= (unsigned) base) break;
        *any = 1;
        if (v > (lim - d) / base) *over = 1;
        v = v * base + d;
    }
    if (end) *end = (char *) (*any ? p : s);
    return v;
}
long long strtoll (const char *s, char **end, int base)
{
    int neg, any, over;
    /* the magnitude limit differs for negative numbers by one */
    unsigned long long v = parse_u (s, end, base, &neg, &any, &over, 1ull << 63);
    if (over || v > (neg ? 1ull << 63 : (1ull << 63) - 1))
    { err_no = 34; return neg ? (long long) (1ull << 63) : (long long) ((1ull << 63) - 1); }
    return neg ? (long long) (0 - v) : (long long) v;
}
long strtol (const char *s, char **end, int base) { return strtoll (s, end, base); }
unsigned long long strtoull (const char *s, char **end, int base)
{
    int neg, any, over;
    unsigned long long v = parse_u (s, end, base, &neg, &any, &over, ~0ull);
    if (over) { err_no = 34; return ~0ull; }
    return neg ? 0 - v : v;
}
unsigned long strtoul (const char *s, char **end, int base) { return strtoull (s, end, base); }
long __isoc23_strtol (const char *s, char **end, int base) { return strtoll (s, end, base); }
long long __isoc23_strtoll (const char *s, char **end, int base) { return strtoll (s, end, base); }
unsigned long __isoc23_strtoul (const char *s, char **end, int base) { return strtoull (s, end, base); }
unsigned long long __isoc23_strtoull (const char *s, char **end, int base) { return strtoull (s, end, base); }
int atoi (const char *s) { return (int) strtoll (s, 0, 10); }
long atol (const char *s) { return strtoll (s, 0, 10); }
long long atoll (const char *s) { return strtoll (s, 0, 10); }
int abs (int x) { return x < 0 ? -x : x; }
long labs (long x) { return x < 0 ? -x : x; }

/* ------------------------------------------------------------ formatting */
int sx_is_symbolic (uint64_t v);
/* set by a harness whose property does not look at message texts: a number that
 * depends on an input renders as 0 (doubles always do, see sx_fmt_double) */
int sx_fmt_abstract;
struct out { char *b; size_t size; size_t n; };
static void put (struct out *o, char c)
{
    if (o->size && o->n < o->size - 1) o->b[o->n] = c;
    o->n++;
}
int vsnprintf (char *buf, size_t size, const char *fmt, va_list ap)
{
    struct out o = { buf, size, 0 };
    for (; *fmt; fmt++)
    {
        if (*fmt != '%') { put (&o, *fmt); continue; }
        const char *start = fmt;
        fmt++;
        int left = 0, zero = 0, plus = 0, width = 0, prec = -1, lng = 0;
        for (;; fmt++)
        {
            if (*fmt == '-') left = 1;
            else if (*fmt == '0') zero = 1;
            else if (*fmt == '+') plus = 1;
            else if (*fmt == ' ' || *fmt == '#') ;
            else break;
        }
        if (*fmt == '*') { width = va_arg (ap, int); fmt++; if (width < 0) { left = 1; width = -width; } }
        else while (*fmt >= '0' && *fmt <= '9') width = width * 10 + (*fmt++ - '0');
        if (*fmt == '.')
        {
            prec = 0; fmt++;
            if (*fmt == '*') { prec = va_arg (ap, int); fmt++; }
            else while (*fmt >= '0' && *fmt <= '9') prec = prec * 10 + (*fmt++ - '0');
        }
        for (;; fmt++)
        {
            if (*fmt == 'l' || *fmt == 'z' || *fmt == 'j' || *fmt == 't') lng = 1;
            else if (*fmt == 'h') ;
            else break;
        }
        char tmp[32];
        int n = 0;
        const char *s = tmp;
        switch (*fmt)
        {
        case '%': put (&o, '%'); continue;
        case 'c': tmp[0] = (char) va_arg (ap, int); n = 1; break;
        case 's':
            s = va_arg (ap, const char *);
            if (!s) s = "(null)";
            n = prec >= 0 ? (int) strnlen (s, prec) : (int) strlen (s);
            zero = 0;
            break;
        case 'd': case 'i': case 'u': case 'x': case 'X': case 'p': case 'o':
        {
            unsigned long long u;
            int neg = 0, hex = (*fmt == 'x' || *fmt == 'X' || *fmt == 'p');
            unsigned base = hex ? 16 : *fmt == 'o' ? 8 : 10;
            char rev[32];
            int k = 0;
            if (*fmt == 'p') u = (uint64_t) (uintptr_t) va_arg (ap, void *);
            else if (*fmt == 'd' || *fmt == 'i')
            {
                long long v = lng ? va_arg (ap, long) : va_arg (ap, int);
                if (sx_fmt_abstract && sx_is_symbolic ((uint64_t) v)) v = 0;
                neg = v < 0;
                u = neg ? 0 - (unsigned long long) v : (unsigned long long) v;
            }
            else u = lng ? va_arg (ap, unsigned long) : va_arg (ap, unsigned int);
            if (sx_fmt_abstract && sx_is_symbolic (u)) { u = 0; neg = 0; }
            do
            {
                unsigned d;
                if (u <= 0xffffffffull && base == 10) { unsigned w = (unsigned) u; d = w % 10; u = w / 10; }
                else { d = u % base; u = u / base; }
                rev[k++] = (char) (d < 10 ? '0' + d : (*fmt == 'X' ? 'A' : 'a') + d - 10);
            } while (u);
            while (k < prec && k < 30) rev[k++] = '0';
            if (neg) tmp[n++] = '-';
            else if (plus) tmp[n++] = '+';
            if (zero && !left && prec < 0) while (k + n < width && k < 30) rev[k++] = '0';
            while (k) tmp[n++] = rev[--k];
            break;
        }
        case 'f': case 'g': case 'e': case 'G': case 'F': case 'E':
        {
            char f2[16], dbuf[400];
            int k = 0;
            double d = va_arg (ap, double);
            f2[k++] = '%';
            if (prec >= 0)
            {
                f2[k++] = '.';
                if (prec >= 10) f2[k++] = (char) ('0' + prec / 10);
                f2[k++] = (char) ('0' + prec % 10);
            }
            f2[k++] = *fmt;
            f2[k] = 0;
            n = sx_fmt_double (dbuf, sizeof dbuf, f2, d);
            if (!left) for (int i = n; i < width; i++) put (&o, zero ? '0' : ' ');
            for (int i = 0; i < n; i++) put (&o, dbuf[i]);
            if (left) for (int i = n; i < width; i++) put (&o, ' ');
            continue;
        }
        default:
            for (; start < fmt; start++) put (&o, *start);
            continue;
        }
        if (!left) for (int i = n; i < width; i++) put (&o, ' ');
        for (int i = 0; i < n; i++) put (&o, s[i]);
        if (left) for (int i = n; i < width; i++) put (&o, ' ');
    }
    if (o.size) o.b[o.n < o.size ? o.n : o.size - 1] = 0;
    return (int) o.n;
}
int snprintf (char *buf, size_t size, const char *fmt, ...)
{
    va_list ap; va_start (ap, fmt);
    int n = vsnprintf (buf, size, fmt, ap);
    va_end (ap);
    return n;
}
int vsprintf (char *buf, const char *fmt, va_list ap) { return vsnprintf (buf, 1u << 30, fmt, ap); }
int sprintf (char *buf, const char *fmt, ...)
{
    va_list ap; va_start (ap, fmt);
    int n = vsnprintf (buf, 1u << 30, fmt, ap);
    va_end (ap);
    return n;
}
int vasprintf (char **out, const char *fmt, va_list ap)
{
    va_list ap2; va_copy (ap2, ap);
    int n = vsnprintf (0, 0, fmt, ap2);
    *out = malloc (n + 1);
    return vsnprintf (*out, n + 1, fmt, ap);
}
int asprintf (char **out, const char *fmt, ...)
{
    va_list ap; va_start (ap, fmt);
    int n = vasprintf (out, fmt, ap);
    va_end (ap);
    return n;
}
/* output streams are not part of any property */
static char dummy_stream[8];
FILE *stderr_model = (FILE *) dummy_stream;
int fprintf (FILE *f, const char *fmt, ...) { (void) f; (void) fmt; return 0; }
int vfprintf (FILE *f, const char *fmt, va_list ap) { (void) f; (void) fmt; (void) ap; return 0; }
int printf (const char *fmt, ...) { (void) fmt; return 0; }
int puts (const char *s) { (void) s; return 0; }
int putchar (int c) { return c; }
int fputs (const char *s, FILE *f) { (void) s; (void) f; return 0; }
int fputc (int c, FILE *f) { (void) f; return c; }
size_t fwrite (const void *p, size_t a, size_t n, FILE *f) { (void) p; (void) a; (void) f; return n; }
char *getenv (const char *n) { (void) n; return 0; }
/* file system: every call goes to the harness' model (sxfs_*), which records it
 * and chooses its outcome; without one in the harness, calls fail */
struct stat;
#define WEAK __attribute__ ((weak))
WEAK FILE *sxfs_fopen (const char *p, const char *m) { (void) p; (void) m; err_no = 2; return 0; }
WEAK int sxfs_fclose (FILE *f) { (void) f; return 0; }
WEAK int sxfs_stat (const char *p, struct stat *b) { (void) p; (void) b; err_no = 2; return -1; }
WEAK int sxfs_mkdir (const char *p, unsigned m) { (void) p; (void) m; err_no = 13; return -1; }
WEAK int sxfs_remove (const char *p) { (void) p; err_no = 2; return -1; }
WEAK int sxfs_lstat (const char *p, struct stat *b) { return sxfs_stat (p, b); }
WEAK int sxfs_unlink (const char *p) { return sxfs_remove (p); }
WEAK int sxfs_ferror (FILE *f) { (void) f; return 0; }
WEAK int sxfs_fflush (FILE *f) { (void) f; return 0; }
WEAK int sxfs_access (const char *p, int m) { (void) p; (void) m; err_no = 2; return -1; }
/* so does the dynamic loader; without a model nothing can be loaded */
WEAK void *sxfs_opendir (const char *p) { (void) p; err_no = 2; return 0; }
WEAK void *sxfs_readdir (void *d) { (void) d; return 0; }
WEAK int sxfs_closedir (void *d) { (void) d; return 0; }
void *opendir (const char *p) { return sxfs_opendir (p); }
void *readdir (void *d) { return sxfs_readdir (d); }
int closedir (void *d) { return sxfs_closedir (d); }
/* the C++ run time as far as text building needs it; an exception nobody of the library catches ends the process */
void *_Znwm (unsigned long n) { return malloc (n); }
void *_Znam (unsigned long n) { return malloc (n); }
void _ZdlPv (void *p) { free (p); }
void _ZdaPv (void *p) { free (p); }
void _ZdlPvm (void *p, unsigned long n) { (void) n; free (p); }
void _ZdaPvm (void *p, unsigned long n) { (void) n; free (p); }
void abort (void) __attribute__ ((noreturn));
void _ZSt17__throw_bad_allocv (void) { abort (); }
void _ZSt19__throw_logic_errorPKc (const char *m) { (void) m; abort (); }
void _ZSt20__throw_length_errorPKc (const char *m) { (void) m; abort (); }
void _ZSt20__throw_out_of_rangePKc (const char *m) { (void) m; abort (); }
void _ZSt24__throw_invalid_argumentPKc (const char *m) { (void) m; abort (); }
void _ZSt24__throw_out_of_range_fmtPKcz (const char *m, ...) { (void) m; abort (); }
void _ZSt28__throw_bad_array_new_lengthv (void) { abort (); }
void _ZSt9terminatev (void) { abort (); }
void *__cxa_allocate_exception (unsigned long n) { (void) n; abort (); }
void __cxa_free_exception (void *p) { (void) p; abort (); }
void __cxa_throw (void *p, void *t, void (*d) (void *)) { (void) p; (void) t; (void) d; abort (); }
void __cxa_rethrow (void) { abort (); }
void __cxa_call_unexpected (void *p) { (void) p; abort (); }
void __cxa_pure_virtual (void) { abort (); }
void *__cxa_begin_catch (void *p) { return p; }
void __cxa_end_catch (void) {}
int __cxa_atexit (void (*f) (void *), void *p, void *d) { (void) f; (void) p; (void) d; return 0; }
int __gxx_personality_v0 (void) { return 0; }
void *__dso_handle;
/* ordered containers: plain binary search trees, never rebalanced */
struct rb { int color; struct rb *up, *l, *r; };
struct rb *_ZSt18_Rb_tree_incrementPSt18_Rb_tree_node_base (struct rb *x)
{
    if (x->r) { x = x->r; while (x->l) x = x->l; }
    else
    {
        struct rb *y = x->up;
        while (x == y->r) { x = y; y = y->up; }
        if (x->r != y) x = y;
    }
    return x;
}
struct rb *_ZSt18_Rb_tree_incrementPKSt18_Rb_tree_node_base (struct rb *x) { return _ZSt18_Rb_tree_incrementPSt18_Rb_tree_node_base (x); }
struct rb *_ZSt18_Rb_tree_decrementPSt18_Rb_tree_node_base (struct rb *x)
{
    if (x->color == 0 && x->up->up == x) return x->r;
    if (x->l) { x = x->l; while (x->r) x = x->r; return x; }
    struct rb *y = x->up;
    while (x == y->l) { x = y; y = y->up; }
    return y;
}
struct rb *_ZSt18_Rb_tree_decrementPKSt18_Rb_tree_node_base (struct rb *x) { return _ZSt18_Rb_tree_decrementPSt18_Rb_tree_node_base (x); }
void _ZSt29_Rb_tree_insert_and_rebalancebPSt18_Rb_tree_node_baseS0_RS_ (_Bool left, struct rb *x, struct rb *p, struct rb *h)
{
    x->up = p; x->l = x->r = 0; x->color = 1;
    if (left)
    {
        p->l = x;
        if (p == h) { h->up = x; h->r = x; }
        else if (p == h->l) h->l = x;
    }
    else
    {
        p->r = x;
        if (p == h->r) h->r = x;
    }
}
struct rb *_ZSt28_Rb_tree_rebalance_for_erasePSt18_Rb_tree_node_baseRS_ (struct rb *z, struct rb *h)
{
    struct rb *y = z, *x;
    if (!z->l) x = z->r;
    else if (!z->r) x = z->l;
    else { y = z->r; while (y->l) y = y->l; x = y->r; }
    if (y != z)
    {
        z->l->up = y; y->l = z->l;
        if (y != z->r) { if (x) x->up = y->up; y->up->l = x; y->r = z->r; z->r->up = y; }
        if (h->up == z) h->up = y; else if (z->up->l == z) z->up->l = y; else z->up->r = y;
        y->up = z->up;
    }
    else
    {
        if (x) x->up = z->up;
        if (h->up == z) h->up = x; else if (z->up->l == z) z->up->l = x; else z->up->r = x;
        if (h->l == z) { if (!z->r) h->l = z->up; else { x = z->r; while (x->l) x = x->l; h->l = x; } }
        if (h->r == z) { if (!z->l) h->r = z->up; else { x = z->l; while (x->r) x = x->r; h->r = x; } }
    }
    return z;
}
/* "%d", "%lf", "%n" and literal characters */
extern double strtod (const char *, char **);
int __isoc23_sscanf (const char *s, const char *f, ...)
{
    const char *p = s; int got = 0; __builtin_va_list a;
    __builtin_va_start (a, f);
    for (; *f; f++)
    {
        if (*f != '%') { if (*p != *f) break; p++; continue; }
        f++;
        if (*f == 'n') { *__builtin_va_arg (a, int *) = p - s; continue; }
        while (*p == ' ' || (*p >= 9 && *p <= 13)) p++;
        if (!*p) { if (!got) got = -1; break; }
        if (*f == 'd')
        {
            long v = 0; int neg = 0, any = 0;
            if (*p == '-' || *p == '+') neg = *p++ == '-';
            for (; *p >= '0' && *p <= '9'; p++, any = 1) if (v < 100000000000l) v = v * 10 + (*p - '0');
            if (!any) break;
            *__builtin_va_arg (a, int *) = (int) (neg ? -v : v);
        }
        else if (*f == 'l' && f[1] == 'f')
        {
            char *e; double v = strtod (p, &e);
            if (e == p) break;
            f++; p = e; *__builtin_va_arg (a, double *) = v;
        }
        else abort ();
        got++;
    }
    __builtin_va_end (a);
    return got;
}
/* without the calendar: the times themselves are never used */
struct sx_tm { int sec, min, hour, mday, mon, year; };
long timegm (struct sx_tm *t) { return ((((t->year * 12l + t->mon) * 31 + t->mday) * 24 + t->hour) * 60 + t->min) * 60 + t->sec; }
int sscanf (const char *s, const char *f, double *d) { return __isoc23_sscanf (s, f, d); }
WEAK int sxfs_fileno (FILE *f) { (void) f; return 3; }
WEAK long sxfs_read (int fd, void *b, size_t n) { (void) fd; (void) b; (void) n; return 0; }
WEAK long sxfs_write (int fd, const void *b, size_t n) { (void) fd; (void) b; return (long) n; }
int fileno (FILE *f) { return sxfs_fileno (f); }
long read (int fd, void *b, size_t n) { return sxfs_read (fd, b, n); }
long write (int fd, const void *b, size_t n) { return sxfs_write (fd, b, n); }
WEAK void *sxfs_dlopen (const char *f, int flags) { (void) f; (void) flags; return 0; }
WEAK void *sxfs_dlsym (void *h, const char *n) { (void) h; (void) n; return 0; }
WEAK char *sxfs_dlerror (void) { return "no dynamic loading"; }
WEAK int sxfs_dlclose (void *h) { (void) h; return 0; }
void *dlopen (const char *f, int flags) { return sxfs_dlopen (f, flags); }
void *dlsym (void *h, const char *n) { return sxfs_dlsym (h, n); }
char *dlerror (void) { return sxfs_dlerror (); }
int dlclose (void *h) { return sxfs_dlclose (h); }
FILE *fopen (const char *p, const char *m) { return sxfs_fopen (p, m); }
int fclose (FILE *f) { return sxfs_fclose (f); }
int stat (const char *p, struct stat *b) { return sxfs_stat (p, b); }
int lstat (const char *p, struct stat *b) { return sxfs_lstat (p, b); }
int mkdir (const char *p, unsigned m) { return sxfs_mkdir (p, m); }
int remove (const char *p) { return sxfs_remove (p); }
int unlink (const char *p) { return sxfs_unlink (p); }
int ferror (FILE *f) { return sxfs_ferror (f); }
int fflush (FILE *f) { return sxfs_fflush (f); }
int access (const char *p, int m) { return sxfs_access (p, m); }
/* -- less common ones, so that other ways of writing the same code can be encoded -------- */
const unsigned short **__ctype_b_loc (void)
{
    static unsigned short t[384]; static const unsigned short *p;
    if (!p)
    {
        for (int c = 0; c < 128; c++)
            t[128 + c] = isupper (c) << 8 | islower (c) << 9 | isalpha (c) << 10 | isdigit (c) << 11 | isxdigit (c) << 12 | isspace (c) << 13
                | isprint (c) << 14 | (isprint (c) && c != ' ') << 15 | isblank (c) << 0 | iscntrl (c) << 1 | ispunct (c) << 2 | isalnum (c) << 3;
        p = t + 128;
    }
    return &p;
}
const int **__ctype_tolower_loc (void)
{
    static int t[384]; static const int *p;
    if (!p) { for (int c = -128; c < 256; c++) t[128 + c] = c < 0 ? c + 256 : tolower (c); p = t + 128; }
    return &p;
}
const int **__ctype_toupper_loc (void)
{
    static int t[384]; static const int *p;
    if (!p) { for (int c = -128; c < 256; c++) t[128 + c] = c < 0 ? c + 256 : toupper (c); p = t + 128; }
    return &p;
}
int bcmp (const void *a, const void *b, size_t n) { return memcmp (a, b, n); }
void *mempcpy (void *d, const void *s, size_t n) { memcpy (d, s, n); return (char *) d + n; }
char *strchrnul (const char *s, int c) { while (*s && *s != (char) c) s++; return (char *) s; }
void *rawmemchr (const void *s, int c) { const unsigned char *p = s; while (*p != (unsigned char) c) p++; return (void *) p; }
void *memrchr (const void *s, int c, size_t n) { const unsigned char *p = s; while (n--) if (p[n] == (unsigned char) c) return (void *) (p + n); return 0; }
size_t strlcpy (char *d, const char *s, size_t n)
{
    size_t l = strlen (s);
    if (n) { size_t k = l < n ? l : n - 1; memcpy (d, s, k); d[k] = 0; }
    return l;
}
size_t strlcat (char *d, const char *s, size_t n)
{
    size_t k = strnlen (d, n);
    return k + (k < n ? strlcpy (d + k, s, n - k) : strlen (s));
}
char *strsep (char **sp, const char *d)
{
    char *s = *sp, *e;
    if (!s) return 0;
    e = s + strcspn (s, d);
    if (*e) { *e = 0; *sp = e + 1; } else *sp = 0;
    return s;
}
static char *strtok_save;
char *strtok (char *s, const char *d) { return strtok_r (s, d, &strtok_save); }
extern void *realloc (void *, size_t);
void *reallocarray (void *p, size_t n, size_t m) { return realloc (p, n * m); }
void qsort (void *base, size_t n, size_t w, int (*cmp) (const void *, const void *))
{
    char *b = base;
    for (size_t i = 1; i < n; i++)
        for (size_t j = i; j > 0 && cmp (b + (j - 1) * w, b + j * w) > 0; j--)
            for (size_t k = 0; k < w; k++) { char t = b[(j - 1) * w + k]; b[(j - 1) * w + k] = b[j * w + k]; b[j * w + k] = t; }
}
void *bsearch (const void *key, const void *base, size_t n, size_t w, int (*cmp) (const void *, const void *))
{
    const char *b = base;
    while (n)
    {
        int r = cmp (key, b + n / 2 * w);
        if (r == 0) return (void *) (b + n / 2 * w);
        if (r > 0) { b += (n / 2 + 1) * w; n -= n / 2 + 1; } else n /= 2;
    }
    return 0;
}
extern double strtod (const char *, char **);
double atof (const char *s) { return strtod (s, 0); }
static uint64_t dbits (double d) { uint64_t u; memcpy (&u, &d, 8); return u; }
double fabs (double d) { return __builtin_fabs (d); }
int isnan (double d) { return d != d; }
int __isnan (double d) { return d != d; }
int isinf (double d) { return (dbits (d) << 1) == 0xffe0000000000000u ? (dbits (d) >> 63 ? -1 : 1) : 0; }
int __isinf (double d) { return isinf (d); }
int finite (double d) { return (dbits (d) << 1) < 0xffe0000000000000u; }
int __finite (double d) { return finite (d); }
int __signbit (double d) { return (int) (dbits (d) >> 63); }
double fmin (double a, double b) { return a != a ? b : b != b ? a : a < b ? a : b; }
double fmax (double a, double b) { return a != a ? b : b != b ? a : a > b ? a : b; }
double trunc (double d)
{
    if (!(d < 9007199254740992.0 && d > -9007199254740992.0)) return d;
    double t = (double) (int64_t) d; uint64_t u = dbits (t) | (dbits (d) & 0x8000000000000000u);
    memcpy (&t, &u, 8); return t;
}
double floor (double d) { double t = trunc (d); return t > d ? t - 1 : t; }
double ceil (double d) { double t = trunc (d); return t < d ? t + 1 : t; }
