// sx-case: name=value -DVALUE reach=same,differ
// sx-case: name=counts -DCOUNTS reach=same,differ
// sx-case: name=names -DNAMES reach=same,differ
// sx-case: name=deep -DDEEP reach=same,differ
// sx-case: name=valuetype -DVTYPE reach=same,differ
// sx-case: name=unset -DUNSET reach=same,differ
// sx-case: name=kinds -DKINDS reach=differ
// sx-case: name=defaults -DDEFS reach=same,differ
// sx-case: name=documentation -DDOCS reach=same,differ
// sx-case: name=numeric_restrictions -DRESTR -DNUMERIC reach=same,differ
// sx-case: name=enum_restrictions -DRESTR -DENUMS reach=same,differ
// sx-case: name=entry_restrictions -DRESTR -DENTRIES reach=same,differ
// sx-case: name=restriction_kinds -DRESTR -DMIXED reach=same,differ
// sx-case: name=mold_names -DNAMES -DINMOLD reach=same,differ
// sx-case: name=long_texts -DLONGT reach=same,differ
// sx-case: name=many -DMANYD reach=same,differ
// sx-case: name=counts_more -DCOUNTS -DMANY=3 reach=same,differ tier=thorough time=900
// sx-case: name=defaults_more -DDEFS -DMANY=3 reach=same,differ tier=thorough time=900
// sx-bound: any 64 bit integer and float values (NaN equals NaN, -0 equals 0), strings of up to 2 bytes (any) of which one may be a prefix of the other, any enum value of two; up to 2 (thorough 3) entries of a name, sections and keyvals, three levels deep; any subset of three names
// sx-bound: defaults, documentation and restrictions: 0..2 on each side (defaults 1..2, thorough 3), any values and texts, any 32 bit versions in ascending order; on keyvals, sections, restrictions and the mold itself
// sx-bound: long_texts: texts of 0, 1, 98 to 101, 126 to 129, 255, 256 and 1000 bytes as default, documentation, enumerator or name, alike or with any one byte other at the front, at the end or around byte 100 and 128; many: 19 to 21 and 39 to 41 names of which all or any one differ
// sx-bound: every pair is compared in both orders, with and without a report, and each tree with itself
#include "h.h"
#ifndef MANY
#define MANY 2
#endif
#define ver sx_ver
static struct disir_version ver_after (const char *n, struct disir_version a) { struct disir_version v = V (sx_u32 (n), 3); sx_assume (v.sv_major > a.sv_major); return v; }
static int feq (double a, double b) { return (a == b) || (a != a && b != b); }
/* one comparison with a report */
static ST cmp (CTX *a, CTX *b)
{
    struct disir_diff_report *r = (void *) 8; ST s, s2;
    s = dc_compare (a, b, &r);
    sx_assert (s == OK || s == DISIR_STATUS_CONFLICT, "comparable");
    if (s == OK) sx_assert (r == NULL, "no difference, no report");
    else
    {
        sx_assert (r != NULL && r->dr_entries > 0, "differences are listed");
        for (int i = 0; i < r->dr_entries; i++) { sx_assert (r->dr_diff_string[i] != NULL, "every entry has a text"); free (r->dr_diff_string[i]); }
        free (r->dr_diff_string); free (r);
    }
    s2 = dc_compare (a, b, NULL);
    sx_assert (s2 == s, "same answer without a report");
    return s;
}
static void check (CTX *a, CTX *b, int same)
{
    ST want;
    same = DECIDE (same);
    want = same ? OK : DISIR_STATUS_CONFLICT;
    sx_assert (cmp (a, b) == want, "reports a difference exactly when there is one");
    sx_assert (cmp (b, a) == want, "whatever the order");
    sx_assert (cmp (a, a) == OK && cmp (b, b) == OK, "a tree equals itself");
    if (same) sx_reach ("same"); else sx_reach ("differ");
}
static CTX *kv_begin (CTX *p, const char *name, enum disir_value_type t)
{
    CTX *k = NULL;
    MUST (dc_begin (p, DISIR_CONTEXT_KEYVAL, &k));
    MUST (dc_set_name (k, name, strlen (name)));
    MUST (dc_set_value_type (k, t));
    return k;
}
static void put_kv (CTX *p, const char *name, enum disir_value_type t)
{
    CTX *k = kv_of (p, name, t, NULL);
    if (t == ENU)
    {
        MUST (dc_add_restriction_value_enum (k, "aa", "d", NULL, NULL));
        MUST (dc_add_restriction_value_enum (k, "ab", "d", NULL, NULL));
    }
    MUST (dc_add_restriction_entries_min (k, 0, NULL));
    MUST (dc_add_restriction_entries_max (k, 0, NULL));
    dc_putcontext (&k);
}
static void kv_int (CTX *p, const char *name, int64_t v)
{
    CTX *k = ckv_begin (p, name);
    MUST (dc_set_value_integer (k, v));
    MUST (dc_finalize (&k));
}
#ifdef INMOLD
static void named (CTX *p, const char *name) { put_kv (p, name, INT); }
#else
static void named (CTX *p, const char *name) { kv_int (p, name, 5); }
#endif
/* a mold: k (int), t (string), u (float), b (bool), e (enum), and s { the same, s { the same } }, everything optional */
static struct disir_mold *the_mold (void)
{
    CTX *m = NULL, *s = NULL, *d = NULL; struct disir_mold *mold = NULL;
    MUST (dc_mold_begin (&m));
    put_kv (m, "k", INT); put_kv (m, "t", STR); put_kv (m, "u", FLT); put_kv (m, "b", BOO); put_kv (m, "e", ENU);
    s = section_of (m, "s");
    put_kv (s, "k", INT); put_kv (s, "kk", INT); put_kv (s, "t", STR);
    d = section_of (s, "s");
    put_kv (d, "k", INT);
    MUST (dc_add_restriction_entries_min (d, 0, NULL));
    MUST (dc_add_restriction_entries_max (d, 0, NULL));
    MUST (dc_finalize (&d));
    MUST (dc_add_restriction_entries_min (s, 0, NULL));
    MUST (dc_add_restriction_entries_max (s, 0, NULL));
    MUST (dc_finalize (&s));
    MUST (dc_mold_finalize (&m, &mold));
    return mold;
}
void harness (void)
{
    struct disir_mold *mo[2] = { NULL, NULL }; struct disir_config *cf[2] = { NULL, NULL };
    CTX *c[2] = { NULL, NULL }, *m = NULL, *k = NULL, *s = NULL, *d = NULL, *r = NULL; int i, j, same = 1;
    sx_fmt_abstract = 1;
#if defined VALUE || defined COUNTS || defined DEEP || (defined NAMES && !defined INMOLD)
    mo[0] = the_mold ();
    for (i = 0; i < 2; i++) MUST (dc_config_begin (mo[0], &c[i]));
#if defined VALUE
    int what = sx_pick (5, "type"), where = sx_pick (what < 2 ? 2 : 1, "where");
    int64_t iv[2]; double fv[2]; char tx[2][3]; int len[2]; uint8_t bv[2];
    for (i = 0; i < 2; i++)
    {
        CTX *p = c[i];
        if (where) { p = NULL; MUST (dc_begin (c[i], DISIR_CONTEXT_SECTION, &p)); MUST (dc_set_name (p, "s", 1)); }
        static const char *names[] = { "k", "t", "u", "b", "e" };
        k = ckv_begin (p, names[what]);
        if (what == 0) { iv[i] = sx_i64 ("int"); MUST (dc_set_value_integer (k, iv[i])); }
        if (what == 1)
        {
            len[i] = sx_pick (3, "length");
            for (j = 0; j < len[i]; j++) { tx[i][j] = sx_u8 ("text"); }
            tx[i][len[i]] = 0;
            MUST (dc_set_value_string (k, tx[i], len[i]));
        }
        if (what == 2) { fv[i] = sx_f64 ("float"); MUST (dc_set_value_float (k, fv[i])); }
        if (what == 3) { bv[i] = sx_pick (2, "bool"); MUST (dc_set_value_boolean (k, bv[i])); }
        if (what == 4) { bv[i] = sx_pick (2, "enum"); MUST (dc_set_value_enum (k, bv[i] ? "ab" : "aa", 2)); }
        MUST (dc_finalize (&k));
        if (where) MUST (dc_finalize (&p));
    }
    same = what == 0 ? iv[0] == iv[1] : what == 1 ? (len[0] == len[1] && same_bytes (tx[0], tx[1], len[0])) : what == 2 ? feq (fv[0], fv[1]) : bv[0] == bv[1];
#elif defined COUNTS
    /* n keyvals k and q sections s with one k each, in the root */
    int n[2], q[2]; int64_t v[2][2 * MANY];
    for (i = 0; i < 2; i++)
    {
        n[i] = sx_pick (MANY + 1, "keyvals"); q[i] = sx_pick (MANY + 1, "sections");
        for (j = 0; j < n[i]; j++) { v[i][j] = sx_i64 ("v"); kv_int (c[i], "k", v[i][j]); }
        for (j = 0; j < q[i]; j++)
        {
            s = NULL; MUST (dc_begin (c[i], DISIR_CONTEXT_SECTION, &s)); MUST (dc_set_name (s, "s", 1));
            v[i][MANY + j] = sx_i64 ("w"); kv_int (s, "k", v[i][MANY + j]);
            MUST (dc_finalize (&s));
        }
    }
    same = n[0] == n[1] && q[0] == q[1];
    if (same)
    {
        for (j = 0; j < n[0]; j++) same &= v[0][j] == v[1][j];
        for (j = 0; j < q[0]; j++) same &= v[0][MANY + j] == v[1][MANY + j];
    }
#elif defined DEEP
    /* s { k kk s { k } s { k } } k ; any single or several values differ, order of the names swapped in one */
    int64_t v[2][5]; int sw = sx_pick (2, "other order"), extra = sx_pick (3, "extra");
    for (i = 0; i < 2; i++)
    {
        for (j = 0; j < 5; j++) v[i][j] = sx_i64 ("v");
        if (i && sw) kv_int (c[i], "k", v[i][0]);
        s = NULL; MUST (dc_begin (c[i], DISIR_CONTEXT_SECTION, &s)); MUST (dc_set_name (s, "s", 1));
        if (!(i && sw)) kv_int (s, "k", v[i][1]);
        kv_int (s, "kk", v[i][2]);
        if (i && sw) kv_int (s, "k", v[i][1]);
        for (j = 0; j < 2; j++)
        {
            d = NULL; MUST (dc_begin (s, DISIR_CONTEXT_SECTION, &d)); MUST (dc_set_name (d, "s", 1));
            kv_int (d, "k", v[i][3 + j]);
            if (extra == 1 && i && j) kv_int (d, "k", 5);
            if (extra == 2 && !i && !j) kv_int (d, "k", 5);
            MUST (dc_finalize (&d));
        }
        MUST (dc_finalize (&s));
        if (!(i && sw)) kv_int (c[i], "k", v[i][0]);
    }
    for (j = 0; j < 5; j++) same &= v[0][j] == v[1][j];
    same &= !extra;
#else
    static const char *nm[3] = { "k", "kk", "t" }; int set[2];
    for (i = 0; i < 2; i++)
    {
        set[i] = sx_pick (8, "names");
        s = NULL; MUST (dc_begin (c[i], DISIR_CONTEXT_SECTION, &s)); MUST (dc_set_name (s, "s", 1));
        for (j = 0; j < 2; j++) if (set[i] & (1 << j)) named (s, nm[j]);
        if (set[i] & 4) { k = ckv_begin (s, "t"); MUST (dc_set_value_string (k, "x", 1)); MUST (dc_finalize (&k)); }
        MUST (dc_finalize (&s));
    }
    same = set[0] == set[1];
#endif
    check (c[0], c[1], same);
    for (i = 0; i < 2; i++) { MUST (dc_config_finalize (&c[i], &cf[i])); c[i] = dc_config_getcontext (cf[i]); }
    check (c[0], c[1], same);
#elif defined KINDS
    /* comparing different kinds of trees is a difference too */
    CTX *x[6]; int a = sx_pick (6, "lhs"), b = sx_pick (6, "rhs");
    sx_assume (a != b);
    mo[0] = the_mold ();
    MUST (dc_config_begin (mo[0], &c[0]));
    kv_int (c[0], "k", 1); s = NULL; MUST (dc_begin (c[0], DISIR_CONTEXT_SECTION, &s)); MUST (dc_set_name (s, "s", 1)); MUST (dc_finalize (&s));
    MUST (dc_config_finalize (&c[0], &cf[0]));
    x[0] = dc_config_getcontext (cf[0]); x[3] = dc_mold_getcontext (mo[0]);
    MUST (dc_find_element (x[0], "k", 0, &x[1])); MUST (dc_find_element (x[0], "s", 0, &x[2]));
    MUST (dc_find_element (x[3], "k", 0, &x[4])); MUST (dc_find_element (x[3], "s", 0, &x[5]));
    check (x[a], x[b], 0);
    for (i = 0; i < 6; i++) dc_putcontext (&x[i]);
#elif defined VTYPE
    /* the same name with another type, in configurations of two molds and in the molds */
    static const enum disir_value_type ty[] = { STR, INT, FLT, BOO, ENU };
    int t[2], deep = sx_pick (2, "deep"); CTX *mc[2];
    for (i = 0; i < 2; i++)
    {
        CTX *p;
        t[i] = sx_pick (5, "type");
        MUST (dc_mold_begin (&m));
        p = m;
        if (deep) p = s = section_of (m, "s");
        put_kv (p, "k", ty[t[i]]);
        if (deep) MUST (dc_finalize (&s));
        MUST (dc_mold_finalize (&m, &mo[i]));
        mc[i] = dc_mold_getcontext (mo[i]);
        MUST (dc_config_begin (mo[i], &c[i]));
        p = c[i]; s = NULL;
        if (deep) { MUST (dc_begin (c[i], DISIR_CONTEXT_SECTION, &s)); MUST (dc_set_name (s, "s", 1)); p = s; }
        k = ckv_begin (p, "k");
        if (t[i] == 0) MUST (dc_set_value_string (k, "aa", 2));
        if (t[i] == 1) MUST (dc_set_value_integer (k, 0));
        if (t[i] == 2) MUST (dc_set_value_float (k, 0));
        if (t[i] == 3) MUST (dc_set_value_boolean (k, 0));
        if (t[i] == 4) MUST (dc_set_value_enum (k, "aa", 2));
        MUST (dc_finalize (&k));
        if (deep) MUST (dc_finalize (&s));
    }
    same = t[0] == t[1];
    check (c[0], c[1], same);
    check (mc[0], mc[1], same);
    for (i = 0; i < 2; i++) { dc_putcontext (&mc[i]); MUST (dc_config_finalize (&c[i], &cf[i])); c[i] = dc_config_getcontext (cf[i]); }
#elif defined UNSET
    /* a keyval nobody gave a value yet, against one that has one */
    static const char *nm[] = { "k", "t", "u", "b", "e" };
    int set[2], what = sx_pick (5, "type"); CTX *x[2];
    mo[0] = the_mold ();
    for (i = 0; i < 2; i++)
    {
        MUST (dc_config_begin (mo[0], &c[i]));
        set[i] = sx_pick (2, "set");
        x[i] = ckv_begin (c[i], nm[what]);
        if (set[i])
        {
            if (what == 0) MUST (dc_set_value_integer (x[i], 77));
            if (what == 1) MUST (dc_set_value_string (x[i], "other", 5));
            if (what == 2) MUST (dc_set_value_float (x[i], 2.5));
            if (what == 3) MUST (dc_set_value_boolean (x[i], 1));
            if (what == 4) MUST (dc_set_value_enum (x[i], "ab", 2));
        }
    }
    same = set[0] == set[1];
    check (x[0], x[1], same);
    for (i = 0; i < 2; i++) { dc_putcontext (&x[i]); dc_destroy (&c[i]); c[i] = NULL; }
#else
    /* molds */
    CTX *mc[2];
#if defined DEFS
    static const enum disir_value_type ty[] = { INT, STR, FLT, BOO };
    int what = sx_pick (4, "type"), deep = sx_pick (2, "deep"), n[2]; struct disir_version v[2][MANY]; int64_t iv[2][MANY]; char tx[2][MANY][3]; int len[2][MANY]; double fv[2][MANY];
    for (i = 0; i < 2; i++)
    {
        CTX *p;
        MUST (dc_mold_begin (&m));
        p = m;
        if (deep) p = s = section_of (m, "s");
        k = kv_begin (p, "k", ty[what]);
        n[i] = 1 + sx_pick (MANY, "n");
        for (j = 0; j < n[i]; j++)
        {
            v[i][j] = j ? ver_after ("since", v[i][j - 1]) : ver ("since", 1);
            if (what == 0) { iv[i][j] = sx_i64 ("d"); MUST (dc_add_default_integer (k, iv[i][j], &v[i][j])); }
            if (what == 1)
            {
                len[i][j] = 1 + sx_pick (2, "length");
                tx[i][j][0] = 'x'; tx[i][j][1] = sx_u8 ("text"); sx_assume (tx[i][j][1] != 0); tx[i][j][2] = 0;
                MUST (dc_add_default_string (k, tx[i][j], len[i][j], &v[i][j]));
            }
            if (what == 2) { fv[i][j] = sx_f64 ("d"); MUST (dc_add_default_float (k, fv[i][j], &v[i][j])); }
            if (what == 3) { iv[i][j] = sx_pick (2, "d"); MUST (dc_add_default_boolean (k, iv[i][j], &v[i][j])); }
        }
        MUST (dc_finalize (&k));
        if (deep) MUST (dc_finalize (&s));
        MUST (dc_mold_finalize (&m, &mo[i]));
    }
    same = n[0] == n[1];
    for (j = 0; same && j < n[0]; j++)
    {
        same = DECIDE (veq (v[0][j], v[1][j]));
        if (!same) break;
        if (what == 0 || what == 3) same = DECIDE (iv[0][j] == iv[1][j]);
        if (what == 1) same = len[0][j] == len[1][j] && (len[0][j] == 1 || DECIDE (tx[0][j][1] == tx[1][j][1]));
        if (what == 2) same = DECIDE (feq (fv[0][j], fv[1][j]));
    }
#elif defined DOCS
    /* documentation of a keyval, a section, the mold or a restriction of a keyval or section */
    int on = sx_pick (5, "on"), n[2], len[2][2]; struct disir_version v[2][2]; char tx[2][2][3];
    for (i = 0; i < 2; i++)
    {
        CTX *on_[5];
        MUST (dc_mold_begin (&m));
        s = section_of (m, "s");
        k = kv_begin (s, "k", INT);
        MUST (dc_add_default_integer (k, 1, NULL));
        CTX *rk = NULL, *rs = NULL, *dd[2];
        MUST (dc_begin (k, DISIR_CONTEXT_RESTRICTION, &rk)); MUST (dc_set_restriction_type (rk, RMAX)); MUST (dc_restriction_set_numeric (rk, 3));
        MUST (dc_begin (s, DISIR_CONTEXT_RESTRICTION, &rs)); MUST (dc_set_restriction_type (rs, RMAX)); MUST (dc_restriction_set_numeric (rs, 3));
        on_[0] = k; on_[1] = s; on_[2] = m; on_[3] = rk; on_[4] = rs;
        n[i] = sx_pick (3, "n");
        for (j = 0; j < n[i]; j++)
        {
            v[i][j] = j ? ver_after ("since", v[i][j - 1]) : ver ("since", 1);
            len[i][j] = 1 + sx_pick (2, "length");
            tx[i][j][0] = sx_u8 ("text"); tx[i][j][1] = 'y'; tx[i][j][2] = 0; sx_assume (tx[i][j][0] != 0);
            dd[j] = NULL;
            MUST (dc_begin (on_[on], DISIR_CONTEXT_DOCUMENTATION, &dd[j]));
            MUST (dc_set_value_string (dd[j], tx[i][j], len[i][j]));
            MUST (dc_add_introduced (dd[j], &v[i][j]));
        }
        for (j = 0; j < n[i]; j++) MUST (dc_finalize (&dd[j]));
        MUST (dc_finalize (&rk)); MUST (dc_finalize (&rs));
        MUST (dc_finalize (&k)); MUST (dc_finalize (&s));
        MUST (dc_mold_finalize (&m, &mo[i]));
    }
    same = n[0] == n[1];
    for (j = 0; same && j < n[0]; j++)
        same = DECIDE (veq (v[0][j], v[1][j])) && len[0][j] == len[1][j] && DECIDE (tx[0][j][0] == tx[1][j][0]);
#elif defined LONGT
    static const int lens[] = { 1, 98, 99, 100, 101, 126, 127, 128, 129, 255, 256, 1000, 0 }, at[] = { 0, -1, 99, 100, 127, 128 };
    int what = sx_pick (4, "what"), l0 = lens[sx_pick (what == 0 ? 13 : 12, "length")], more = sx_pick (3, "more"), pos = at[sx_pick (more ? 1 : 6, "where")], len[2] = { l0, l0 + (more == 2 ? 40 : more) };
    uint8_t other = sx_u8 ("byte"); char *tx[2];
    if (pos < 0) pos = l0 - 1;
    sx_assume ((pos >= 0 && pos < l0) || (more && l0 == 0)); if (what == 3) other = sx_pick (2, "same") ? 'q' : 'r'; sx_assume (other != 0);
    for (i = 0; i < 2; i++)
    {
        tx[i] = malloc (len[i] + 1); memset (tx[i], 'q', len[i]); tx[i][len[i]] = 0;
        if (i && pos < len[i] && !more) tx[i][pos] = (char) other;
        MUST (dc_mold_begin (&m));
        k = NULL; MUST (dc_begin (m, DISIR_CONTEXT_KEYVAL, &k)); MUST (dc_set_name (k, what == 3 ? tx[i] : "k", what == 3 ? len[i] : 1)); MUST (dc_set_value_type (k, what == 2 ? ENU : STR));
        MUST (dc_add_default_string (k, what == 0 ? tx[i] : what == 2 ? "aa" : "def", what == 0 ? len[i] : what == 2 ? 2 : 3, NULL));
        MUST (dc_add_documentation (k, what == 1 ? tx[i] : "doc", what == 1 ? len[i] : 3));
        if (what == 2) { MUST (dc_add_restriction_value_enum (k, "aa", "d", NULL, NULL)); MUST (dc_add_restriction_value_enum (k, tx[i], "d", NULL, NULL)); }
        MUST (dc_finalize (&k));
        MUST (dc_mold_finalize (&m, &mo[i]));
    }
    same = !more && DECIDE (other == 'q');
    free (tx[0]); free (tx[1]);
    (void) r; (void) j; (void) s; (void) d;
#elif defined MANYD
    static const int ns[] = { 19, 20, 21, 39, 40, 41 };
    int n = ns[sx_pick (6, "names")], one = sx_pick (3, "all or one"); int64_t a = sx_i64 ("value"); char nm[4];
    for (i = 0; i < 2; i++)
    {
        MUST (dc_mold_begin (&m));
        for (j = 0; j < n; j++)
        {
            nm[0] = 'k'; nm[1] = '0' + j / 10; nm[2] = '0' + j % 10; nm[3] = 0;
            k = kv_begin (m, nm, INT);
            MUST (dc_add_default_integer (k, i && (one == 0 || j == (one == 1 ? 0 : n - 1)) ? a : 5, NULL)); MUST (dc_add_documentation (k, "d", 1)); MUST (dc_finalize (&k));
        }
        MUST (dc_mold_finalize (&m, &mo[i]));
    }
    same = DECIDE (a == 5);
    (void) r; (void) s; (void) d;
#elif defined RESTR
    /* restrictions of a keyval, or of a section */
    int n[2], on = 0; enum disir_restriction_type ty[2][2]; struct disir_version in[2][2], de[2][2]; double a[2][2], b[2][2]; int len[2][2]; char tx[2][2][3]; int at, dep;
#if defined ENTRIES
    on = sx_pick (2, "on");
#endif
#if defined NUMERIC || defined ENUMS
    at = sx_pick (2, "versions");
#else
    at = 0;
#endif
    dep = at ? sx_pick (3, "deprecated") : 0;
    for (i = 0; i < 2; i++)
    {
        MUST (dc_mold_begin (&m));
        s = section_of (m, "s");
        k = kv_begin (s, "k",
#if defined ENUMS
                      ENU
#elif defined MIXED || defined ENTRIES
                      INT
#else
                      FLT
#endif
                     );
#if defined ENUMS
        MUST (dc_add_default_string (k, "aa", 2, NULL));
        MUST (dc_add_restriction_value_enum (k, "aa", NULL, NULL, NULL));
#elif defined MIXED || defined ENTRIES
        MUST (dc_add_default_integer (k, 0, NULL));
#else
        MUST (dc_add_default_float (k, 0, NULL));
#endif
        n[i] = sx_pick (3, "n");
        for (j = 0; j < n[i]; j++)
        {
            r = NULL;
            MUST (dc_begin (on ? s : k, DISIR_CONTEXT_RESTRICTION, &r));
#if defined ENUMS
            ty[i][j] = RENU;
            len[i][j] = 1 + sx_pick (2, "length");
            tx[i][j][0] = j ? 'q' : 'p'; tx[i][j][1] = sx_u8 ("text"); sx_assume (tx[i][j][1] != 0); tx[i][j][len[i][j]] = 0;
            MUST (dc_set_restriction_type (r, RENU));
            MUST (dc_restriction_set_string (r, tx[i][j]));
#elif defined ENTRIES
            ty[i][j] = sx_pick (2, "kind") ? RMAX : RMIN;
            int e = sx_pick (3, "entries");
            a[i][j] = e; if (ty[i][j] == RMAX) a[i][j] += 2;
            if (j) sx_assume (ty[i][0] != ty[i][1]);
            MUST (dc_set_restriction_type (r, ty[i][j]));
            MUST (dc_restriction_set_numeric (r, a[i][j]));
#elif defined MIXED
            static const enum disir_restriction_type kinds[] = { RMIN, RMAX, RRAN, RNUM };
            ty[i][j] = kinds[sx_pick (4, "kind")];
            if (j) sx_assume (ty[i][0] != ty[i][1]);
            MUST (dc_set_restriction_type (r, ty[i][j]));
            if (ty[i][j] == RRAN) MUST (dc_restriction_set_range (r, 0, 1)); else MUST (dc_restriction_set_numeric (r, ty[i][j] == RMAX));
#else
            ty[i][j] = sx_pick (2, "kind") ? RRAN : RNUM;
            MUST (dc_set_restriction_type (r, ty[i][j]));
            a[i][j] = sx_f64 ("a"); b[i][j] = sx_f64 ("b"); sx_assume (a[i][j] <= 0 && b[i][j] >= 0 && a[i][j] < b[i][j]);
            if (ty[i][j] == RRAN) MUST (dc_restriction_set_range (r, a[i][j], b[i][j]));
            else { if (j == 0) a[i][j] = 0; MUST (dc_restriction_set_numeric (r, a[i][j])); }
#endif
            in[i][j] = V (1, 0); de[i][j] = V (0, 0);
            if (at)
            {
                in[i][j] = ver ("in", 1);
                MUST (dc_add_introduced (r, &in[i][j]));
                if (dep == 1 || (dep == 2 && !i && !j)) { de[i][j] = ver_after ("de", in[i][j]); MUST (dc_add_deprecated (r, &de[i][j])); }
            }
            MUST (dc_finalize (&r));
        }
        MUST (dc_finalize (&k)); MUST (dc_finalize (&s));
        MUST (dc_mold_finalize (&m, &mo[i]));
    }
    same = n[0] == n[1];
    for (j = 0; same && j < n[0]; j++)
    {
        same = DECIDE (veq (in[0][j], in[1][j])) && DECIDE (veq (de[0][j], de[1][j])) && ty[0][j] == ty[1][j];
        if (!same) break;
#if defined ENUMS
        same = len[0][j] == len[1][j] && (len[0][j] == 1 || DECIDE (tx[0][j][1] == tx[1][j][1]));
#elif defined ENTRIES
        same = a[0][j] == a[1][j];
#elif defined NUMERIC
        same = DECIDE (a[0][j] == a[1][j]) && (ty[0][j] == RNUM || DECIDE (b[0][j] == b[1][j]));
#endif
    }
#else
    static const char *nm[3] = { "k", "kk", "t" }; int set[2], deep = sx_pick (2, "deep");
    for (i = 0; i < 2; i++)
    {
        CTX *p;
        MUST (dc_mold_begin (&m));
        p = m;
        if (deep) p = s = section_of (m, "s");
        set[i] = sx_pick (8, "names");
        for (j = 0; j < 3; j++) if (set[i] & (1 << j)) named (p, nm[j]);
        if (deep) MUST (dc_finalize (&s));
        MUST (dc_mold_finalize (&m, &mo[i]));
    }
    same = set[0] == set[1];
#endif
    for (i = 0; i < 2; i++) mc[i] = dc_mold_getcontext (mo[i]);
    check (mc[0], mc[1], same);
    for (i = 0; i < 2; i++) dc_putcontext (&mc[i]);
#endif
    for (i = 0; i < 2; i++)
    {
        if (c[i]) dc_putcontext (&c[i]);
        if (cf[i]) MUST (disir_config_finished (&cf[i]));
        if (mo[i]) MUST (disir_mold_finished (&mo[i]));
    }
    sx_assert (sx_live_heap () == 0, "comparing keeps nothing");
}
