// sx-case: name=json_int -DJSON -DC_INT cxx=2 reach=done,extreme
// sx-case: name=toml_int -DTOML -DC_INT cxx=2 reach=done,extreme
// sx-case: name=json_str -DJSON -DC_STR cxx=2 reach=done
// sx-case: name=toml_str -DTOML -DC_STR cxx=2 reach=done
// sx-case: name=json_real -DJSON -DC_REAL cxx=2 reach=done
// sx-case: name=toml_real -DTOML -DC_REAL cxx=2 reach=done
// sx-case: name=json_tree -DJSON -DC_TREE cxx=2 reach=done,sections,empty,many
// sx-case: name=toml_tree -DTOML -DC_TREE cxx=2 reach=done,sections,empty,many
// sx-case: name=json_fail -DJSON -DC_FAIL cxx=2 reach=done,failed
// sx-case: name=toml_fail -DTOML -DC_FAIL cxx=2 reach=done,failed
// sx-case: name=json_cut -DJSON -DC_CUT cxx=2 reach=done,refused
// sx-case: name=toml_cut -DTOML -DC_CUT cxx=2 reach=done,refused,accepted
// sx-case: name=json_byte -DJSON -DC_CUT -DC_BYTE cxx=2 reach=done,refused,accepted
// sx-case: name=toml_byte -DTOML -DC_CUT -DC_BYTE cxx=2 reach=done,refused,accepted
// sx-bound: integers: every value from -1200 to 1200 and 26 picked ones up to both ends of int64; booleans and enums; strings of up to 2 arbitrary non-NUL bytes (3 in the thorough tier) followed by "z"; 18 picked finite doubles; trees of up to two sections of one name, each with up to two nested sections, up to two values of one name, and empty sections, configuration versions 1.0 to 2.3; the file is read in pieces of 1, 7 or 4096 bytes; the write system call fails or writes short at any of the first 12 calls
// sx-assume: the compiled serializers, readers, jsoncpp and tinytoml run on stand-in iostreams (engine/cxx) and on the C library calls read and write of the harness; infinities and NaN, which neither format can express, are left out; the order of elements of different names is left open
#include "h.h"
#include <disir/plugin.h>
#include <disir/fslib/json.h>
#include <disir/fslib/toml.h>
/* the one file: what is written to it is read back, in pieces of any size */
static char text[4096]; static long size, at, piece = 4096, fail_at = -1, fail_len, calls; static FILE *const file = (FILE *) 0x1000;
int sxfs_fileno (FILE *f) { sx_assert (f == file, "the file given"); return 7; }
long sxfs_write (int fd, const void *b, size_t n)
{
    sx_assert (fd == 7, "written to the file");
    if (calls++ == fail_at) { sx_reach ("failed"); if (fail_len < 0 || (size_t) fail_len >= n) return -1; memcpy (text + size, b, fail_len); size += fail_len; return fail_len; }
    sx_assert (size + n <= sizeof text, "written to the file"); memcpy (text + size, b, n); size += n; return n;
}
long sxfs_read (int fd, void *b, size_t n)
{
    long k = size - at < (long) n ? size - at : (long) n;
    if (k > piece) k = piece;
    sx_assert (fd == 7, "read from the file"); memcpy (b, text + at, k); at += k; return k;
}
static ST save (struct disir_instance *ins, struct disir_config *cfg)
{
#ifdef JSON
    return dio_json_serialize_config (ins, cfg, file);
#else
    return dio_toml_serialize_config (ins, cfg, file);
#endif
}
static ST load (struct disir_instance *ins, struct disir_mold *mold, struct disir_config **cfg)
{
#ifdef JSON
    return dio_json_unserialize_config (ins, file, mold, cfg);
#else
    return dio_toml_unserialize_config (ins, file, mold, cfg);
#endif
}
static int elements (CTX *c) { struct disir_collection *l = NULL; int n; MUST (dc_get_elements (c, &l)); n = dc_collection_size (l); MUST (dc_collection_finished (&l)); return n; }
static void same (CTX *a, CTX *b)
{
    struct disir_collection *l = NULL; CTX *e = NULL, *o = NULL; const char *seen[16]; int n = 0;
    sx_assert (elements (a) == elements (b), "as many elements as were written");
    MUST (dc_get_elements (a, &l));
    while (dc_collection_next (l, &e) == OK)
    {
        const char *name = NULL, *s1 = NULL, *s2 = NULL; int32_t n1 = 0, n2 = 0; int nth = 0; enum disir_value_type t = 0, u = 0;
        MUST (dc_get_name (e, &name, NULL));
        for (int i = 0; i < n; i++) nth += !strcmp (seen[i], name);
        seen[n++] = name;
        sx_assert (dc_find_element (b, name, nth, &o) == OK, "every element is there again");
        sx_assert (dc_context_type (e) == dc_context_type (o) && dc_context_valid (o) == OK, "an element of the same kind, valid");
        if (dc_context_type (e) == DISIR_CONTEXT_SECTION) same (e, o);
        else
        {
            MUST (dc_get_value_type (e, &t)); MUST (dc_get_value_type (o, &u));
            sx_assert (t == u, "of the same type");
            if (t == INT) { int64_t x = 0, y = 1; MUST (dc_get_value_integer (e, &x)); MUST (dc_get_value_integer (o, &y)); sx_assert (x == y, "the same integer"); }
            if (t == FLT) { double x = 0, y = 1; MUST (dc_get_value_float (e, &x)); MUST (dc_get_value_float (o, &y)); sx_assert (x == y, "the same double"); }
            if (t == BOO) { uint8_t x = 0, y = 1; MUST (dc_get_value_boolean (e, &x)); MUST (dc_get_value_boolean (o, &y)); sx_assert (x == y, "the same boolean"); }
            if (t == STR) { MUST (dc_get_value_string (e, &s1, &n1)); MUST (dc_get_value_string (o, &s2, &n2)); sx_assert (n1 == n2 && s1 && s2 && same_bytes (s1, s2, n1 + 1), "the same string"); }
            if (t == ENU) { MUST (dc_get_value_enum (e, &s1, &n1)); MUST (dc_get_value_enum (o, &s2, &n2)); sx_assert (n1 == n2 && s1 && s2 && same_bytes (s1, s2, n1 + 1), "the same enum value"); }
        }
        dc_putcontext (&o); dc_putcontext (&e);
    }
    MUST (dc_collection_finished (&l));
}
static struct disir_mold *mold_of (void)
{
    CTX *m = NULL, *k = NULL, *s = NULL, *t = NULL; struct disir_mold *mold = NULL; struct disir_version v;
    MUST (dc_mold_begin (&m));
#if defined C_INT
    MUST (dc_add_keyval_integer (m, "i", 5, "d", NULL, NULL));
    MUST (dc_add_keyval_boolean (m, "b", 0, "d", NULL, NULL));
#elif defined C_STR
    MUST (dc_add_keyval_string (m, "s", "abc", "d", NULL, NULL));
#elif defined C_REAL
    MUST (dc_add_keyval_float (m, "f", 1.5, "d", NULL, NULL));
    MUST (dc_add_keyval_enum (m, "e", "aa", "d", NULL, &k));
    MUST (dc_add_restriction_value_enum (k, "aa", "d", NULL, NULL)); MUST (dc_add_restriction_value_enum (k, "a.b \"c\"", "d", NULL, NULL));
    dc_putcontext (&k);
#else
    v.sv_major = 2; v.sv_minor = 3;
    MUST (dc_begin (m, DISIR_CONTEXT_KEYVAL, &k)); MUST (dc_set_name (k, "k", 1)); MUST (dc_set_value_type (k, INT)); MUST (dc_add_default_integer (k, 1, NULL));
    MUST (dc_add_restriction_entries_max (k, 3, NULL)); MUST (dc_add_restriction_entries_min (k, 0, NULL)); MUST (dc_add_documentation (k, "d", 1)); MUST (dc_finalize (&k));
    MUST (dc_begin (m, DISIR_CONTEXT_SECTION, &s)); MUST (dc_set_name (s, "se", 2)); MUST (dc_add_documentation (s, "d", 1));
    MUST (dc_add_restriction_entries_max (s, 3, NULL)); MUST (dc_add_restriction_entries_min (s, 0, NULL));
    MUST (dc_begin (s, DISIR_CONTEXT_KEYVAL, &k)); MUST (dc_set_name (k, "x", 1)); MUST (dc_set_value_type (k, STR)); MUST (dc_add_default (k, "q", 1, NULL));
    MUST (dc_add_restriction_entries_max (k, 3, NULL)); MUST (dc_add_restriction_entries_min (k, 0, NULL)); MUST (dc_add_documentation (k, "d", 1)); MUST (dc_finalize (&k));
    MUST (dc_begin (s, DISIR_CONTEXT_SECTION, &t)); MUST (dc_set_name (t, "in", 2)); MUST (dc_add_documentation (t, "d", 1));
    MUST (dc_add_restriction_entries_max (t, 3, NULL)); MUST (dc_add_restriction_entries_min (t, 0, NULL));
    MUST (dc_begin (t, DISIR_CONTEXT_KEYVAL, &k)); MUST (dc_set_name (k, "y", 1)); MUST (dc_set_value_type (k, BOO)); MUST (dc_add_default_boolean (k, 1, NULL));
    MUST (dc_add_restriction_entries_max (k, 3, NULL)); MUST (dc_add_restriction_entries_min (k, 0, NULL)); MUST (dc_add_documentation (k, "d", 1)); MUST (dc_finalize (&k));
    MUST (dc_finalize (&t)); MUST (dc_finalize (&s));
    MUST (dc_add_keyval_float (m, "z", 2.5, "d", &v, NULL));
#endif
    MUST (dc_mold_finalize (&m, &mold));
    return mold;
}
#if defined C_BYTE && !SX_TIER_THOROUGH
#define FILLED 1
#else
#define FILLED sx_pick (2, "filled")
#endif
static CTX *begin (CTX *p, enum disir_context_type type, const char *name) { CTX *c = NULL; MUST (dc_begin (p, type, &c)); MUST (dc_set_name (c, name, strlen (name))); return c; }
static void put (CTX *c) { MUST (dc_finalize (&c)); }
static struct disir_config *config_of (struct disir_mold *mold)
{
    CTX *c = NULL, *k = NULL; struct disir_config *cfg = NULL; struct disir_version v;
    MUST (dc_config_begin (mold, &c));
    v.sv_major = 1; v.sv_minor = 0;
#if defined C_INT
    static const int64_t far[] = { 2147483646, 2147483647, 2147483648LL, 4294967295LL, 4294967296LL, -2147483647LL, -2147483648LL, -2147483649LL, 9007199254740993LL, -9007199254740993LL,
        999999999, 1000000000, 9999999999LL, 10000000000LL, 999999999999999999LL, 1000000000000000000LL, -1000000000000000000LL, INT64_MAX, INT64_MAX - 1, INT64_MIN, INT64_MIN + 1,
        922337203685477580LL, 922337203685477581LL, -922337203685477580LL, 123456789012345678LL, -99999999999LL };
    int64_t i; int b = sx_range (0, 1, "b");
    if (sx_pick (2, "extreme")) { i = far[sx_pick (sizeof far / sizeof *far, "far")]; sx_reach ("extreme"); }
    else i = sx_range (-1200, 1200, "i");
    k = begin (c, DISIR_CONTEXT_KEYVAL, "i"); MUST (dc_set_value_integer (k, i)); put (k);
    k = begin (c, DISIR_CONTEXT_KEYVAL, "b"); MUST (dc_set_value_boolean (k, b)); put (k);
#elif defined C_STR
    char s[8]; int n = sx_pick (SX_TIER_THOROUGH + 3, "n"), i;
    for (i = 0; i < n; i++) { s[i] = sx_range (-128, 127, "byte"); sx_assume (s[i] != 0); }
    s[n] = 'z'; s[n + 1] = 0;
    k = begin (c, DISIR_CONTEXT_KEYVAL, "s"); MUST (dc_set_value_string (k, s, sx_pick (2, "tail") ? n + 1 : n)); put (k);
#elif defined C_REAL
    static const double d[] = { 0, 1, -1, 1.5, 0.1, 0.1 + 0.2, 1.0 / 3, 1e-7, -1e-7, 5e-324, 2.2250738585072014e-308, 1.7976931348623157e308, 1e22, 4294967296.0, 9007199254740993.0, 123456789.125, -2147483648.0, 18446744073709551616.0 };
    k = begin (c, DISIR_CONTEXT_KEYVAL, "f"); MUST (dc_set_value_float (k, d[sx_pick (sizeof d / sizeof *d, "double")])); put (k);
    k = begin (c, DISIR_CONTEXT_KEYVAL, "e"); MUST (sx_pick (2, "enum") ? dc_set_value_enum (k, "aa", 2) : dc_set_value_enum (k, "a.b \"c\"", 7)); put (k);
#else
    int nk, ns, nx, nt, ver, mix;
#if defined C_FAIL || defined C_CUT
    nk = ns = nx = nt = 1; mix = 0;
#else
    ns = sx_pick (3, "sections"); nk = ns == 2 ? 2 : sx_pick (3, "values"); mix = ns == 2 && sx_pick (2, "mixed");
#endif
#ifdef C_BYTE
    ver = SX_TIER_THOROUGH ? sx_pick (3, "version") : 2;
#else
    ver = ns < 2 || SX_TIER_THOROUGH ? sx_pick (3, "version") : 2;
#endif
    v.sv_major = ver == 2 ? 2 : 1; v.sv_minor = ver == 2 ? 3 : ver;
    MUST (dc_set_version (c, &v));
    for (int i = 0; i < nk; i++)
    {
        if (i == 1 && mix) { CTX *s = begin (c, DISIR_CONTEXT_SECTION, "se"); put (s); ns--; }
        k = begin (c, DISIR_CONTEXT_KEYVAL, "k"); MUST (dc_set_value_integer (k, 10 + i)); put (k);
    }
    for (int i = 0; i < ns; i++)
    {
        CTX *s = begin (c, DISIR_CONTEXT_SECTION, "se");
#if !defined C_FAIL && !defined C_CUT
        if (i == 0 || SX_TIER_THOROUGH) { nx = sx_pick (3, "values in section"); nt = sx_pick (3, "nested"); }
        else { nx = sx_pick (4, "second section"); nt = nx == 1 ? 1 : nx == 3 ? 2 : 0; nx = nx == 2 ? 2 : nx == 1; }
#endif
        for (int j = 0; j < nx; j++) { k = begin (s, DISIR_CONTEXT_KEYVAL, "x"); MUST (dc_set_value_string (k, j ? "w" : "v", 1)); put (k); }
        for (int j = 0; j < nt; j++)
        {
            CTX *t = begin (s, DISIR_CONTEXT_SECTION, "in");
            if (i ? j : FILLED) { k = begin (t, DISIR_CONTEXT_KEYVAL, "y"); MUST (dc_set_value_boolean (k, i ^ j)); put (k); }
            put (t);
        }
        if (nx + nt == 0) sx_reach ("empty");
        if (nx == 2 && nt == 2) sx_reach ("many");
        put (s); sx_reach ("sections");
    }
    if (ver == 2) { k = begin (c, DISIR_CONTEXT_KEYVAL, "z"); MUST (dc_set_value_float (k, 0.25)); put (k); }
#endif
    MUST (dc_config_finalize (&c, &cfg));
    return cfg;
}
void harness (void)
{
    static const long pieces[] __attribute__ ((unused)) = { 4096, 7, 1 };
    struct disir_mold *mold; struct disir_config *cfg, *back = NULL; struct disir_instance *ins = NULL; struct disir_version v, w; CTX *a, *b;
    long live = sx_live_heap (); ST s;
    MUST (disir_instance_create (NULL, NULL, &ins));
    mold = mold_of (); cfg = config_of (mold);
#ifdef C_FAIL
    fail_at = sx_pick (12, "failing call"); fail_len = sx_pick (2, "short") - 1;
    s = save (ins, cfg);
    sx_assert (calls > fail_at ? s != OK : s == OK, "a failed write is reported");
#elif defined C_CUT
    s = save (ins, cfg);
    sx_assert (s == OK, "written");
#ifdef C_BYTE
    { int p = sx_pick (size, "position"); text[p] = sx_range (-128, 127, "byte"); }
#else
    size = sx_pick (size, "length");
#endif
    s = load (ins, mold, &back);
    sx_assert (s == OK || s == DISIR_STATUS_INVALID_CONTEXT || !back, "no configuration without being told so");
    sx_reach (s == OK ? "accepted" : "refused");
    if (back) MUST (disir_config_finished (&back));
    s = 1;
#else
#ifndef C_TREE
    piece = pieces[sx_pick (3, "pieces")];
#endif
    s = save (ins, cfg);
    sx_assert (s == OK, "written");
#endif
    if (s == OK)
    {
        s = load (ins, mold, &back);
        sx_assert (s == OK && back, "what was written is read");
        a = dc_config_getcontext (cfg); b = dc_config_getcontext (back);
        same (a, b);
        MUST (dc_config_get_version (cfg, &v)); MUST (dc_config_get_version (back, &w));
        sx_assert (v.sv_major == w.sv_major && v.sv_minor == w.sv_minor, "of the same version");
        dc_putcontext (&a); dc_putcontext (&b);
        MUST (disir_config_finished (&back));
    }
    MUST (disir_config_finished (&cfg)); MUST (disir_mold_finished (&mold));
    MUST (disir_instance_destroy (&ins));
    sx_assert ((long) sx_live_heap () == live, "everything released");
    sx_reach ("done");
}
