// sx-case: name=names_root -DNAMES -DPL=0 reach=taken,unknown,other_kind
// sx-case: name=names_section -DNAMES -DPL=1 reach=taken,unknown,other_kind
// sx-case: name=names_deep -DNAMES -DPL=2 reach=taken,unknown,other_kind
// sx-case: name=names_unknown_section -DNAMES -DPL=3 reach=unknown
// sx-case: name=names_rename -DNAMES -DPL=0 -DRENAME reach=taken,unknown,other_kind
// sx-case: name=names_long -DNAMES -DPL=1 -DLEN=4 reach=taken,unknown,other_kind tier=thorough time=600
// sx-case: name=report_root -DPL=0 reach=valid,invalid
// sx-case: name=report_section -DPL=1 reach=valid,invalid
// sx-case: name=report_unknown_section -DPL=3 reach=invalid
// sx-case: name=report_three -DPL=1 -DNE=3 reach=valid,invalid
// sx-case: name=finished -DFIN reach=added,refused
// sx-bound: names of 1..2 (thorough: 4) arbitrary bytes, given by size; mold with keyvals, a section and a section below it (the same names at other places with other types and kinds); elements placed in the root, in a section, two levels down and below an unknown section; up to 2 (thorough: 3) elements of 7 shapes with any 32 bit value
#include "h.h"
#ifndef LEN
#define LEN 2
#endif
#ifndef NE
#define NE 2
#endif
#ifndef PL
#define PL 0
#endif
static struct disir_mold *mold_make (void)
{
    CTX *m = NULL, *k, *s, *t; struct disir_mold *mold = NULL;
    MUST (dc_mold_begin (&m));
    k = kv_of (m, "k", INT, NULL);
    MUST (dc_add_restriction_entries_min (k, 0, NULL)); MUST (dc_add_restriction_entries_max (k, 2, NULL));
    MUST (dc_add_restriction_value_range (k, 10, 20, "d", NULL, NULL));
    dc_putcontext (&k);
    s = section_of (m, "s");
    MUST (dc_add_restriction_entries_min (s, 0, NULL)); MUST (dc_add_restriction_entries_max (s, 0, NULL));
    k = kv_of (s, "kk", FLT, NULL); MUST (dc_add_restriction_entries_min (k, 0, NULL)); dc_putcontext (&k);
    k = kv_of (s, "k", STR, NULL); MUST (dc_add_restriction_entries_min (k, 0, NULL)); MUST (dc_add_restriction_entries_max (k, 0, NULL)); dc_putcontext (&k);
    t = section_of (s, "t");
    MUST (dc_add_restriction_entries_min (t, 0, NULL)); MUST (dc_add_restriction_entries_max (t, 2, NULL));
    k = kv_of (t, "s", BOO, NULL); MUST (dc_add_restriction_entries_min (k, 0, NULL)); MUST (dc_add_restriction_entries_max (k, 0, NULL)); dc_putcontext (&k);
    MUST (dc_finalize (&t));
    MUST (dc_finalize (&s));
    MUST (dc_mold_finalize (&m, &mold));
    return mold;
}
/* the mold above, as a table: place, name, kind (0 keyval, 1 section), type */
static const struct { int place; const char *name; int kind; enum disir_value_type type; } tab[] = {
    { 0, "k", 0, INT }, { 0, "s", 1, 0 }, { 1, "kk", 0, FLT }, { 1, "k", 0, STR }, { 1, "t", 1, 0 }, { 2, "s", 0, BOO } };
static int lookup (int place, const char *name, int n)
{
    for (int i = 0; i < 6; i++)
        if (tab[i].place == place && (int) strlen (tab[i].name) == n && DECIDE (same_bytes (tab[i].name, name, n)))
            return i;
    return -1;
}
static ST store (CTX *kv, enum disir_value_type t, int64_t x)
{
    switch (t)
    {
    case STR: return dc_set_value_string (kv, "v", 1);
    case INT: return dc_set_value_integer (kv, x);
    case FLT: return dc_set_value_float (kv, 2.5);
    case BOO: return dc_set_value_boolean (kv, 1);
    default: return dc_set_value_enum (kv, "v", 1);
    }
}
static int listed (struct disir_collection *col, CTX *c)
{
    CTX *x; int n = 0;
    if (!col) return 0;
    dc_collection_reset (col);
    while (dc_collection_next (col, &x) == OK) { n += x == c; dc_putcontext (&x); }
    return n;
}
void harness (void)
{
    CTX *c = NULL, *p, *s = NULL, *t = NULL, *u = NULL; struct disir_mold *mold; struct disir_config *cfg = NULL; struct disir_collection *col = NULL;
    ST st;
    sx_fmt_abstract = 1;
    mold = mold_make ();
    MUST (dc_config_begin (mold, &c));
    p = c;
#ifdef FIN
    /* into a finished, valid configuration */
    MUST (dc_config_finalize (&c, &cfg));
    c = dc_config_getcontext (cfg);
    int kind = sx_pick (2, "kind");
    CTX *e = NULL;
    char b[4]; int len = sx_string (b, 2, NULL, "name");
    sx_assume (len > 0);
    MUST (dc_begin (c, kind ? DISIR_CONTEXT_SECTION : DISIR_CONTEXT_KEYVAL, &e));
    st = dc_set_name (e, b, len);
    int i = lookup (0, b, len), add = i >= 0 && tab[i].kind == kind;
    sx_assert ((st == OK) == add, "name accepted iff defined");
    int64_t x = sx_i64 ("value");
    if (!kind)
    {
        int wrong = sx_pick (2, "wrong type");
        sx_assume (add || !wrong);
        st = store (e, wrong ? FLT : INT, x);
        add = add && !wrong && DECIDE ((x >= 10) & (x <= 20));
        sx_assert ((st == OK) == add, "value accepted iff of the type and permitted");
    }
    st = dc_finalize (&e);
    if (add)
    {
        sx_reach ("added");
        sx_assert (st == OK && e == NULL, "added");
    }
    else
    {
        sx_reach ("refused");
        sx_assert (st != OK && e != NULL, "not added");
        MUST (dc_destroy (&e));
    }
    sx_assert (disir_config_valid (cfg, &col) == OK && col == NULL, "the configuration remains valid");
    st = dc_get_elements (c, &col);
    sx_assert ((st == OK ? (int) dc_collection_size (col) : 0) == add, "number of elements");
    if (st == OK) dc_collection_finished (&col);
    dc_putcontext (&c);
#else
    if (PL == 1 || PL == 2) p = s = section_of (c, "s");
    if (PL == 2) p = t = section_of (s, "t");
    if (PL == 3)
    {
        MUST (dc_begin (c, DISIR_CONTEXT_SECTION, &u));
        sx_assert (dc_set_name (u, "nope", 4) == DISIR_STATUS_NOT_EXIST, "unknown section");
        sx_assert (dc_context_valid (u) == DISIR_STATUS_INVALID_CONTEXT, "unknown section is invalid");
        p = u;
    }
#ifdef NAMES
    int kind = sx_pick (2, "kind"), bad = 0;
    CTX *e = NULL;
    char b[LEN + 2]; int len = sx_string (b, LEN, NULL, "name");
    sx_assume (len > 0);
    int size = sx_pick (len, "size") + 1;
    const char *nm = NULL; int32_t nn = -1;
    MUST (dc_begin (p, kind ? DISIR_CONTEXT_SECTION : DISIR_CONTEXT_KEYVAL, &e));
#ifdef RENAME
    /* a defined name first */
    MUST (dc_set_name (e, kind ? "s" : "k", 1));
#endif
    int i = lookup (PL, b, size);
    st = dc_set_name (e, b, size);
    if (i >= 0 && tab[i].kind != kind)
    {
        sx_reach ("other_kind");
        sx_assert (st == DISIR_STATUS_WRONG_CONTEXT, "name of another kind of element refused");
        st = dc_get_name (e, &nm, &nn);
#ifdef RENAME
        sx_assert (st == OK && nn == 1 && nm[0] == (kind ? 's' : 'k'), "former name kept");
#else
        sx_assert (st != OK || nm == NULL || nn == 0, "no name set");
        st = dc_finalize (&e);
        sx_assert (st != OK && e != NULL, "unnamed element is not finalized");
#endif
        MUST (dc_destroy (&e));
    }
    else
    {
        bad = i < 0;
        sx_assert (st == (bad ? DISIR_STATUS_NOT_EXIST : OK), "name accepted iff defined");
        MUST (dc_get_name (e, &nm, &nn));
        sx_assert (nn == size && same_bytes (nm, b, size) && nm[size] == 0, "name as given");
        if (!bad)
        {
            sx_reach ("taken");
            if (!kind)
            {
                sx_assert (dc_value_type (e) == tab[i].type || dc_value_type (e) == DISIR_VALUE_TYPE_UNKNOWN, "type of the mold or none yet");
                MUST (store (e, tab[i].type, 15));
                sx_assert (dc_value_type (e) == tab[i].type, "type of the mold");
            }
            MUST (dc_finalize (&e));
        }
        else
        {
            sx_reach ("unknown");
            if (!kind) sx_assert (store (e, INT, 15) == DISIR_STATUS_INVALID_CONTEXT, "value without mold");
            sx_assert (dc_finalize (&e) == DISIR_STATUS_INVALID_CONTEXT, "unknown element is invalid");
            sx_assert (dc_context_valid (e) == DISIR_STATUS_INVALID_CONTEXT, "and says so");
        }
    }
    if (t) { sx_assert (dc_finalize_keep_reference (t) == (bad ? DISIR_STATUS_INVALID_CONTEXT : OK), "section"); }
    if (s) { sx_assert (dc_finalize_keep_reference (s) == (bad ? DISIR_STATUS_INVALID_CONTEXT : OK), "section"); }
    if (u) { sx_assert (dc_finalize (&u) == DISIR_STATUS_INVALID_CONTEXT, "unknown section"); }
    st = dc_config_finalize (&c, &cfg);
    sx_assert (st == (bad || u ? DISIR_STATUS_INVALID_CONTEXT : OK), "configuration valid iff all elements are");
    st = disir_config_valid (cfg, &col);
    sx_assert (st == (bad || u ? DISIR_STATUS_INVALID_CONTEXT : OK), "reported invalid iff an element is");
    /* sections around an offender, two levels above it, may be listed as well */
    int around = bad && t ? listed (col, s) + listed (col, t) : 0;
    sx_assert ((col ? (int) dc_collection_size (col) : 0) == bad + !!u + around && around <= 2, "number of offenders");
    if (bad) sx_assert (listed (col, e) == 1, "the unknown element is listed");
    if (u) sx_assert (listed (col, u) == 1, "the unknown section is listed");
    if (col) dc_collection_finished (&col);
    if (e) dc_putcontext (&e);
#else
    /* shapes: 0 good k, 1 k of another type, 2 k without a value, 3 unknown keyval, 4 good section, 5 unknown section, 6 keyval with an invalid name */
    CTX *e[NE]; int bad[NE], nbad = 0, nk = 0, ns = 0, over = 0;
    for (int i = 0; i < NE; i++)
    {
        e[i] = NULL;
        int sh = sx_pick (7, "shape"), sec = sh == 4 || sh == 5, place = PL;
        MUST (dc_begin (p, sec ? DISIR_CONTEXT_SECTION : DISIR_CONTEXT_KEYVAL, &e[i]));
        const char *nm = sh == 3 || sh == 5 ? "zz" : sh == 6 ? "Z" : sh == 4 ? (place == 0 ? "s" : "t") : "k";
        int j = lookup (place, nm, strlen (nm));
        st = dc_set_name (e[i], nm, strlen (nm));
        sx_assert ((st == OK) == (j >= 0), "defined");
        bad[i] = j < 0;
        if (sec) ns += j >= 0;
        else
        {
            nk += j >= 0;
            if (sh != 2)
            {
                int64_t x = sx_i32 ("value");
                st = store (e[i], j < 0 ? INT : sh == 1 ? FLT : tab[j].type, x);
                if (j >= 0) bad[i] = sh == 1 || (tab[j].type == INT && !DECIDE ((x >= 10) & (x <= 20)));
                sx_assert ((st == OK) == !bad[i], "stored as valid");
            }
            else if (j >= 0 && tab[j].type == INT)
                bad[i] = 1;     /* zero is outside the range */
        }
        st = dc_finalize_keep_reference (e[i]);
        sx_assert (st == (bad[i] ? DISIR_STATUS_INVALID_CONTEXT : OK), "element valid");
        sx_assert (dc_context_valid (e[i]) == (bad[i] ? DISIR_STATUS_INVALID_CONTEXT : OK), "element says so");
        nbad += bad[i];
    }
    /* limits: two "k" in the root, two "t" in "s" */
    over = (PL == 0 && nk > 2) || (PL == 1 && ns > 2);
    if (s) sx_assert (dc_finalize_keep_reference (s) == (nbad || over ? DISIR_STATUS_INVALID_CONTEXT : OK), "section");
    if (u) sx_assert (dc_finalize_keep_reference (u) == DISIR_STATUS_INVALID_CONTEXT, "unknown section");
    int inv = nbad || over || u;
    if (inv) sx_reach ("invalid"); else sx_reach ("valid");
    sx_assert (dc_config_finalize (&c, &cfg) == (inv ? DISIR_STATUS_INVALID_CONTEXT : OK), "configuration valid iff all elements are");
    sx_assert (disir_config_valid (cfg, NULL) == (inv ? DISIR_STATUS_INVALID_CONTEXT : OK), "reported invalid iff an element is");
    sx_assert (disir_config_valid (cfg, &col) == (inv ? DISIR_STATUS_INVALID_CONTEXT : OK), "reported invalid iff an element is");
    sx_assert ((col ? (int) dc_collection_size (col) : 0) == nbad + over + !!u, "number of offenders");
    for (int i = 0; i < NE; i++)
    {
        sx_assert (listed (col, e[i]) == bad[i], "listed iff at fault");
        dc_putcontext (&e[i]);
    }
    if (s) sx_assert (listed (col, s) == over, "section listed iff it has too many elements");
    if (u) sx_assert (listed (col, u) == 1, "unknown section listed");
    if (col) dc_collection_finished (&col);
    if (u) dc_putcontext (&u);
#endif
    if (u) dc_putcontext (&u);
    if (t) dc_putcontext (&t);
    if (s) dc_putcontext (&s);
#endif
    disir_config_finished (&cfg);
    disir_mold_finished (&mold);
    sx_assert (sx_live_heap () == 0, "everything released");
}
