// sx-case: name=root -DROOT reach=found,missing
// sx-case: name=section -DSECT reach=found,missing
// sx-case: name=mold -DMOLD reach=found,missing
// sx-case: name=mold_section -DMOLD -DSECT reach=found,missing
// sx-case: name=many_names -DMANY reach=found,missing steps=400000000
// sx-case: name=many_entries -DMANY -DSAME reach=found,missing steps=400000000
// sx-case: name=many_mixed -DMIXED reach=found,missing steps=400000000
// sx-case: name=rename -DROOT -DRENAME -DLEN=4 reach=found,missing,renamed
// sx-case: name=rename_section -DSECT -DRENAME -DLEN=4 reach=found,missing,renamed
// sx-case: name=rename_mold -DMOLD -DRENAME -DLEN=4 reach=found,missing,renamed
// sx-case: name=rename_taken -DROOT -DRENAME -DTAKEN -DLEN=4 reach=found,missing,renamed,taken
// sx-case: name=spelled -DSPELLED reach=found,missing
// sx-case: name=unfinished -DUNFIN reach=found,missing
// sx-case: name=root_long -DROOT -DLEN=7 reach=found,missing tier=thorough time=900
// sx-case: name=section_long -DSECT -DLEN=6 reach=found,missing tier=thorough time=900
// sx-case: name=spelled_long -DSPELLED -DWIDE reach=found,missing tier=thorough time=900
// sx-bound: every sequence of 5 (thorough 6 or 7) additions and removals of keyvals and sections of three names, two of which share their hash value, in a configuration, a mold and a section of either; any 32 bit index
// sx-bound: rename: the same with 4 steps of which some may give a finished keyval another name no other element has at that moment; rename_taken: also one that others have, after which the place of the renamed element within its new name is left open
// sx-bound: many_mixed: 12 names with three entries each added in turns, any of them removed, listing of any name
// sx-bound: many: 34 (thorough 70) names or 17 (thorough 40) entries of a name, any one removed; spelled: three names of 1..2 characters out of a..c (thorough a..f)
#include "h.h"
#ifndef LEN
#define LEN 5
#endif
#define MAXE 80
/* names spread over the buckets, the first and the last of 64 among them */
#define MANY_NAME(i) (b[0] = 'a' + (i) % (2 + SX_TIER_THOROUGH), b[1] = 'z' - (i) / (2 + SX_TIER_THOROUGH), b[2] = 0)
static CTX *el[MAXE]; static int nm[MAXE], moved[MAXE], ne;
/* the elements listed by name (or all) are exactly the model's, in order */
static void listed (CTX *p, const char *name, int id)
{
    struct disir_collection *col = NULL; CTX *c = NULL; ST s; int i, want = 0;
    for (i = 0; i < ne; i++) want += (id < 0 || nm[i] == id);
    s = name ? dc_find_elements (p, name, &col) : dc_get_elements (p, &col);
    if (name && !want) { sx_assert (s == DISIR_STATUS_NOT_EXIST, "a name nobody has"); return; }
    sx_assert (s == OK, "listing");
    sx_assert (dc_collection_size (col) == want, "every child of that name");
#ifdef TAKEN
    if (id >= 0)
    {
        int k, last = -1, had[MAXE] = { 0 };
        for (k = 0; k < want; k++)
        {
            s = dc_collection_next (col, &c);
            sx_assert (s == OK, "as many as there are");
            for (i = 0; i < ne; i++) if (el[i] == c) break;
            sx_assert (i < ne && nm[i] == id && !had[i], "each child of that name once");
            had[i] = 1;
            if (!moved[i]) { sx_assert (i > last, "those never renamed in the order they were added"); last = i; }
            dc_putcontext (&c);
        }
    }
    else
#endif
    for (i = 0; i < ne; i++)
    {
        if (id >= 0 && nm[i] != id) continue;
        s = dc_collection_next (col, &c);
        sx_assert (s == OK && c == el[i], "in the order they were added");
        dc_putcontext (&c);
    }
    sx_assert (dc_collection_next (col, &c) == DISIR_STATUS_EXHAUSTED, "and nothing else");
    MUST (dc_collection_finished (&col));
}
static void indexed (CTX *p, const char *name, int id)
{
    unsigned idx = sx_u32 ("index"); CTX *c = NULL; ST s; int i, n = 0, want = 0;
    for (i = 0; i < ne; i++) want += nm[i] == id;
    s = dc_find_element (p, name, idx, &c);
    if (!DECIDE (idx < (unsigned) want)) { sx_assert (s == DISIR_STATUS_NOT_EXIST && c == NULL, "past the last: not found"); sx_reach ("missing"); return; }
    sx_assert (s == OK && c != NULL, "found");
    sx_reach ("found");
    for (i = 0; i < ne; i++)
        if (nm[i] == id) { if (el[i] == c) break; n++; }
    sx_assert (i < ne, "one of them");
#ifdef TAKEN
    for (n = 0, i = 0; i < ne; i++) if (nm[i] == id && moved[i]) { dc_putcontext (&c); return; }
    for (i = 0; el[i] != c; i++) n += nm[i] == id;
#endif
    sx_assert ((unsigned) n == idx, "the one of that index");
    dc_putcontext (&c);
}
static void drop (int i)
{
    MUST (dc_destroy (&el[i]));
    for (ne--; i < ne; i++) { el[i] = el[i + 1]; nm[i] = nm[i + 1]; moved[i] = moved[i + 1]; }
}
static void mold_kv (CTX *p, const char *name)
{
    CTX *k = kv_of (p, name, INT, NULL);
    MUST (dc_add_restriction_entries_min (k, 0, NULL)); MUST (dc_add_restriction_entries_max (k, 0, NULL));
    dc_putcontext (&k);
}
static void mold_all (CTX *p)
{
    CTX *d = NULL;
    mold_kv (p, "ac"); mold_kv (p, "ca");
    d = section_of (p, "c");
    MUST (dc_add_restriction_entries_min (d, 0, NULL)); MUST (dc_add_restriction_entries_max (d, 0, NULL));
    MUST (dc_finalize (&d));
}
static const char *names[] = { "ac", "ca", "c" };
static CTX *add (CTX *p, int id)
{
    CTX *k = NULL; ST s;
    if (id == 2)
    {
        MUST (dc_begin (p, DISIR_CONTEXT_SECTION, &k));
        MUST (dc_set_name (k, names[id], strlen (names[id])));
    }
    else
    {
        MUST (dc_begin (p, DISIR_CONTEXT_KEYVAL, &k));
        MUST (dc_set_name (k, names[id], strlen (names[id])));
#ifdef MOLD
        MUST (dc_set_value_type (k, INT)); MUST (dc_add_default_integer (k, 4, NULL));
#else
        MUST (dc_set_value_integer (k, 3));
#endif
    }
    s = dc_finalize_keep_reference (k);
    sx_assert (s == OK, "added");
    return k;
}
void harness (void)
{
    CTX *m = NULL, *s = NULL, *c = NULL, *p = NULL, *g = NULL; struct disir_mold *mold = NULL; int i, j;
    sx_fmt_abstract = 1;
#if defined SPELLED
    /* molds of two names, a lookup by a third */
    char t[3][3]; int len[3]; int hi = 'c';
#ifdef WIDE
    hi = 'f';
#endif
    MUST (dc_mold_begin (&m));
    for (i = 0; i < 3; i++)
    {
        len[i] = 1 + sx_pick (2, "length");
        for (j = 0; j < len[i]; j++) { t[i][j] = sx_u8 ("char"); sx_assume (t[i][j] >= 'a' && t[i][j] <= hi); }
        t[i][len[i]] = 0;
        if (i == 2) break;
        if (i == 1 && len[0] == len[1]) sx_assume (!same_bytes (t[0], t[1], len[0]));
        el[i] = kv_of (m, t[i], INT, NULL); nm[i] = i; ne++;
    }
    CTX *f = NULL; ST st = dc_find_element (m, t[2], 0, &f); int which = -1;
    for (i = 0; i < 2; i++) if (len[i] == len[2] && DECIDE (same_bytes (t[i], t[2], len[i]))) which = i;
    if (which < 0) { sx_assert (st == DISIR_STATUS_NOT_EXIST && f == NULL, "no such name"); sx_reach ("missing"); }
    else { sx_assert (st == OK && f == el[which], "the element of that name"); sx_reach ("found"); dc_putcontext (&f); }
    listed (m, NULL, -1);
    for (i = 0; i < 2; i++) listed (m, t[i], i);
    for (i = 0; i < ne; i++) dc_putcontext (&el[i]);
    dc_destroy (&m);
#elif defined MANY
    int n, gone; char b[8];
#ifdef SAME
    n = SX_TIER_THOROUGH ? 40 : 17;
#else
    n = SX_TIER_THOROUGH ? 70 : 34;
#endif
    MUST (dc_mold_begin (&m));
#ifdef SAME
    mold_all (m);
    MUST (dc_mold_finalize (&m, &mold));
    MUST (dc_config_begin (mold, &c));
    for (i = 0; i < n; i++) { el[i] = add (c, 0); nm[i] = 0; ne++; }
    p = c;
#else
    for (i = 0; i < n; i++)
    {
        MANY_NAME (i);
        el[i] = kv_of (m, b, INT, NULL); nm[i] = i; ne++;
    }
    p = m;
#endif
    listed (p, NULL, -1);
    gone = sx_pick (n, "removed");
    drop (gone);
    listed (p, NULL, -1);
#ifdef SAME
    listed (p, "ac", 0);
    indexed (p, "ac", 0);
#else
    for (i = 0; i < n; i++)
    {
        CTX *f = NULL; ST st;
        MANY_NAME (i);
        st = dc_find_element (p, b, 0, &f);
        if (i == gone) { sx_assert (st == DISIR_STATUS_NOT_EXIST, "removed"); sx_reach ("missing"); }
        else { sx_assert (st == OK && f == el[i - (i > gone)], "the element of that name"); sx_reach ("found"); dc_putcontext (&f); }
    }
    /* the name may be used again, and comes last */
    MANY_NAME (gone);
    el[ne] = kv_of (m, b, INT, NULL); nm[ne] = gone; ne++;
    listed (p, b, gone);
    listed (p, NULL, -1);
#endif
    for (i = 0; i < ne; i++) dc_putcontext (&el[i]);
    if (m) dc_destroy (&m);
    if (c) dc_destroy (&c);
    if (mold) MUST (disir_mold_finished (&mold));
#elif defined MIXED
    enum { NN = 12, PER = 3 };
    char b[8]; int which, gone;
    MUST (dc_mold_begin (&m));
    for (i = 0; i < NN; i++) { MANY_NAME (i); mold_kv (m, b); }
    MUST (dc_mold_finalize (&m, &mold));
    MUST (dc_config_begin (mold, &c));
    for (j = 0; j < PER; j++)
        for (i = 0; i < NN; i++)
        {
            MANY_NAME (i);
            el[ne] = ckv_begin (c, b); MUST (dc_set_value_integer (el[ne], i)); MUST (dc_finalize_keep_reference (el[ne])); nm[ne] = i; ne++;
        }
    gone = sx_pick (NN * PER, "removed");
    drop (gone);
    listed (c, NULL, -1);
    for (i = 0; i < NN; i++) { MANY_NAME (i); listed (c, b, i); }
    which = gone % NN; MANY_NAME (which);
    indexed (c, b, which);
    for (i = 0; i < ne; i++) dc_putcontext (&el[i]);
    dc_destroy (&c);
    MUST (disir_mold_finished (&mold));
#elif defined UNFIN
    /* an element takes its place among the others when it is finished, not before */
    CTX *a = NULL, *b = NULL; int order = sx_pick (2, "order"), cut = sx_pick (3, "abandoned");
    MUST (dc_mold_begin (&m)); mold_all (m); MUST (dc_mold_finalize (&m, &mold));
    MUST (dc_config_begin (mold, &c));
    a = ckv_begin (c, "ac"); b = ckv_begin (c, "ac");
    MUST (dc_set_value_integer (a, 1)); MUST (dc_set_value_integer (b, 2));
    listed (c, NULL, -1); listed (c, "ac", 0);
    for (i = 0; i < 2; i++)
    {
        CTX **x = (i ^ order) ? &b : &a;
        if (cut == i + 1) { MUST (dc_destroy (x)); *x = NULL; continue; }
        MUST (dc_finalize_keep_reference (*x));
        el[ne] = *x; nm[ne] = 0; ne++;
        listed (c, NULL, -1); listed (c, "ac", 0);
    }
    indexed (c, "ac", 0);
    for (i = 0; i < ne; i++) dc_putcontext (&el[i]);
    dc_destroy (&c);
    MUST (disir_mold_finished (&mold));
#else
    MUST (dc_mold_begin (&m));
#ifdef MOLD
    p = m;
#ifdef SECT
    g = section_of (m, "outer"); p = g;
#endif
#else
#ifdef SECT
    s = section_of (m, "outer"); mold_all (s); MUST (dc_add_restriction_entries_min (s, 0, NULL)); MUST (dc_finalize (&s));
#else
    mold_all (m);
#endif
    MUST (dc_mold_finalize (&m, &mold));
    MUST (dc_config_begin (mold, &c));
    p = c;
#ifdef SECT
    MUST (dc_begin (c, DISIR_CONTEXT_SECTION, &g)); MUST (dc_set_name (g, "outer", 5)); p = g;
#endif
#endif
    for (j = 0; j < LEN; j++)
    {
        int op = sx_pick (3 + LEN, "step");
#ifdef RENAME
        if (ne && sx_pick (2, "rename"))
        {
            int to = sx_pick (2, "name"), e = op;
            sx_assume (e < ne); sx_assume (nm[e] != 2);
#ifdef TAKEN
            sx_assume (nm[e] != to);
            for (i = 0; i < ne; i++) if (i != e && nm[i] == to) { moved[e] = 1; sx_reach ("taken"); }
#else
            for (i = 0; i < ne; i++) sx_assume (i == e || nm[i] != to);
#endif
            MUST (dc_set_name (el[e], names[to], strlen (names[to])));
            nm[e] = to; sx_reach ("renamed");
            continue;
        }
#endif
        if (op < 3)
        {
#ifdef MOLD
            for (i = 0; i < ne; i++) sx_assume (nm[i] != op);
#endif
            el[ne] = add (p, op); nm[ne] = op; moved[ne] = 0; ne++;
        }
        else { sx_assume (op - 3 < ne); drop (op - 3); }
    }
    listed (p, NULL, -1);
    for (i = 0; i < 3; i++) { listed (p, names[i], i); }
    listed (p, "absent", 7);
    i = sx_pick (4, "lookup");
    if (i < 3) indexed (p, names[i], i); else indexed (p, "absent", 7);
    for (i = 0; i < ne; i++) dc_putcontext (&el[i]);
    if (g) dc_destroy (&g);
    if (c) dc_destroy (&c);
    if (m) dc_destroy (&m);
    if (mold) MUST (disir_mold_finished (&mold));
#endif
    sx_assert (sx_live_heap () == 0, "nothing is kept");
}
