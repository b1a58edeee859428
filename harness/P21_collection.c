// sx-case: name=own -DOWN reach=skipped,exhausted,yielded
// sx-case: name=elements -DELEMENTS reach=skipped,exhausted,yielded
// sx-case: name=named -DNAMED reach=skipped,exhausted,yielded
// sx-case: name=parent -DOWN -DPARENT reach=skipped,exhausted,yielded
// sx-case: name=large -DLARGE reach=skipped,exhausted,yielded
// sx-case: name=grow -DGROW reach=skipped,exhausted,yielded
// sx-case: name=arguments -DARGS reach=refused
// sx-case: name=own_long -DOWN -DLEN=7 -DN=3 reach=skipped,exhausted,yielded tier=thorough time=900
// sx-case: name=elements_long -DELEMENTS -DLEN=6 -DN=4 reach=skipped,exhausted,yielded tier=thorough time=900
// sx-case: name=large_long -DLARGE -DLEN=4 reach=skipped,exhausted,yielded tier=thorough time=900
// sx-bound: collections of 3 contexts (thorough 4) built by pushing, by listing a parent or by looking up a name; every sequence of 5 steps (thorough 6 or 7) out of next, reset, size, push, and destroying any of the contexts or the parent of two of them
// sx-bound: large: 11, 20 or 21 contexts (beyond the initial capacity), one or two of them, any, destroyed after any number of steps
// sx-bound: grow: three rounds of pushing 1, 9 or 11 more and stepping over none, all but one or all of them; after the second any one of three contexts may be destroyed
#include "h.h"
#ifndef LEN
#define LEN 5
#endif
#ifndef N
#define N 3
#endif
#define MAXE 40
static CTX *ctx[MAXE], *entry[MAXE]; static int alive[MAXE], of[MAXE], ne, pos;
static struct disir_collection *col;
static int live (void) { int i, n = 0; for (i = 0; i < ne; i++) n += alive[of[i]]; return n; }
static void next (void)
{
    CTX *c = (void *) 8; ST s; int j;
    for (j = pos; j < ne && !alive[of[j]]; j++) ;
    s = dc_collection_next (col, &c);
    if (j == ne)
    {
        sx_assert (s == DISIR_STATUS_EXHAUSTED && c == NULL, "nothing left: exhausted");
        sx_reach ("exhausted");
        return;
    }
    sx_assert (s == OK && c == entry[j], "yields the next living context");
    sx_reach (j > pos ? "skipped" : "yielded");
    pos = j + 1;
    if (c) dc_putcontext (&c);
}
static void push (int i)
{
    ST s = dc_collection_push_context (col, entry[i]);
    (void) s;
}
static void size (void) { sx_assert (dc_collection_size (col) == live (), "the size counts the living"); }
static void finish_check (void)
{
    int guard;
    size ();
    for (guard = 0; guard <= ne; guard++) { int before = pos; next (); if (pos == before) break; }
    MUST (dc_collection_reset (col)); pos = 0;
    for (guard = 0; guard <= ne; guard++) { int before = pos; next (); if (pos == before) break; }
    size ();
}
void harness (void)
{
    CTX *m = NULL, *k = NULL, *s = NULL, *c = NULL; struct disir_mold *mold = NULL; struct disir_config *cfg = NULL;
    int i, j, n = N, ns = 0;
    sx_fmt_abstract = 1;
    MUST (dc_mold_begin (&m));
    k = kv_of (m, "k", INT, NULL);
    MUST (dc_add_restriction_entries_min (k, 0, NULL)); MUST (dc_add_restriction_entries_max (k, 0, NULL));
    dc_putcontext (&k);
    k = kv_of (m, "other", INT, NULL); MUST (dc_add_restriction_entries_min (k, 0, NULL)); dc_putcontext (&k);
    s = section_of (m, "s");
    k = kv_of (s, "k", INT, NULL);
    MUST (dc_add_restriction_entries_min (k, 0, NULL)); MUST (dc_add_restriction_entries_max (k, 0, NULL));
    dc_putcontext (&k);
    MUST (dc_add_restriction_entries_min (s, 0, NULL));
    MUST (dc_finalize (&s));
    MUST (dc_mold_finalize (&m, &mold));
    MUST (dc_config_begin (mold, &c));
#ifdef LARGE
    static const int sizes[] = { 11, 20, 21 };
    n = sizes[sx_pick (3, "contexts")];
#endif
    s = NULL;
#ifdef PARENT
    ns = 2;
    MUST (dc_begin (c, DISIR_CONTEXT_SECTION, &s)); MUST (dc_set_name (s, "s", 1));
#endif
    for (i = 0; i < n; i++)
    {
#ifdef NAMED
        if (i == 1) { k = ckv_begin (c, "other"); MUST (dc_set_value_integer (k, 5)); MUST (dc_finalize (&k)); }
#endif
        k = ckv_begin (i < ns ? s : c, "k");
        MUST (dc_set_value_integer (k, i));
        ctx[i] = k;
        MUST (dc_finalize_keep_reference (k));
        alive[i] = 1;
    }
#ifdef PARENT
    MUST (dc_finalize_keep_reference (s));
#endif
#if defined ARGS
    CTX *out = NULL; struct disir_collection *no = NULL;
    col = dc_collection_create (); sx_assert (col != NULL, "a collection");
    switch (sx_pick (9, "call"))
    {
    case 0: sx_assert (dc_collection_next (NULL, &out) == DISIR_STATUS_INVALID_ARGUMENT, "refused"); break;
    case 1: sx_assert (dc_collection_next (col, NULL) == DISIR_STATUS_INVALID_ARGUMENT, "refused"); break;
    case 2: sx_assert (dc_collection_reset (NULL) == DISIR_STATUS_INVALID_ARGUMENT, "refused"); break;
    case 3: sx_assert (dc_collection_size (NULL) == 0, "nothing in no collection"); break;
    case 4: sx_assert (dc_collection_push_context (NULL, ctx[0]) == DISIR_STATUS_INVALID_ARGUMENT, "refused"); break;
    case 5: sx_assert (dc_collection_push_context (col, NULL) == DISIR_STATUS_INVALID_ARGUMENT, "refused"); break;
    case 6: sx_assert (dc_collection_finished (NULL) == DISIR_STATUS_INVALID_ARGUMENT, "refused"); break;
    case 7: sx_assert (dc_collection_finished (&no) == DISIR_STATUS_INVALID_ARGUMENT, "refused"); break;
    case 8: sx_assert (dc_collection_next (col, &out) == DISIR_STATUS_EXHAUSTED && dc_collection_size (col) == 0, "empty"); break;
    }
    sx_assert (dc_collection_size (col) == 0, "still empty");
    sx_reach ("refused");
    j = 0;
#else
#if defined ELEMENTS
    MUST (dc_get_elements (c, &col));
    for (i = 0; i < n; i++) { entry[i] = ctx[i]; of[i] = i; }
#elif defined NAMED
    MUST (dc_find_elements (c, "k", &col));
    for (i = 0; i < n; i++) { entry[i] = ctx[i]; of[i] = i; }
#else
    col = dc_collection_create ();
    sx_assert (col != NULL, "a collection");
    for (i = 0; i < n; i++) { entry[i] = ctx[i]; of[i] = i; push (i); }
#endif
    ne = n;
#ifdef GROW
    static const int more[] = { 1, 9, 11 };
    for (j = 0; j < 3; j++)
    {
        int p = more[sx_pick (3, "pushed")], steps = sx_pick (3, "steps"), gone = j == 1 ? sx_pick (n + 1, "destroyed") : n;
        for (i = 0; p > 0; p--)
        {
            while (!alive[i % n]) i++;
            entry[ne] = ctx[i % n]; of[ne] = i % n; ne++; i++;
            MUST (dc_collection_push_context (col, entry[ne - 1]));
        }
        if (steps) for (i = pos; i < ne - (steps == 1); i++) next ();
        if (gone < n)
        {
            sx_assume (alive[gone] && alive[(gone + 1) % n] + alive[(gone + 2) % n] > 0);
            MUST (dc_destroy (&ctx[gone])); alive[gone] = 0;
        }
    }
#elif defined LARGE
    int a = sx_pick (n, "first"), steps = sx_pick (3, "steps"), two = sx_pick (SX_TIER_THOROUGH + 1, "two"), b = two ? sx_pick (n, "second") : a;
    static const int where[] = { 0, 9, 11 };
    for (i = 0; i < where[steps]; i++) next ();
    dc_destroy (&ctx[a]); alive[a] = 0;
    if (b != a) { next (); dc_destroy (&ctx[b]); alive[b] = 0; }
#else
    for (j = 0; j < LEN; j++)
    {
        int op = sx_pick (4 + n + (ns > 0), "step");
        if (op == 0) next ();
        else if (op == 1) { MUST (dc_collection_reset (col)); pos = 0; }
        else if (op == 2) size ();
        else if (op == 3)
        {
            for (i = 0; i < n && !alive[i]; i++) ;
            sx_assume (i < n);
            entry[ne] = ctx[i]; of[ne] = i; ne++;
            MUST (dc_collection_push_context (col, ctx[i]));
        }
        else if (op < 4 + n)
        {
            i = op - 4;
            sx_assume (alive[i]);
            MUST (dc_destroy (&ctx[i])); alive[i] = 0;
        }
        else
        {
            sx_assume (s != NULL);
            MUST (dc_destroy (&s)); s = NULL;
            for (i = 0; i < ns; i++) if (alive[i]) { alive[i] = 0; dc_putcontext (&ctx[i]); }
        }
    }
#endif
    finish_check ();
#endif
    MUST (dc_collection_finished (&col));
    sx_assert (col == NULL, "the handle is cleared");
    for (i = 0; i < n; i++) if (alive[i]) dc_putcontext (&ctx[i]);
    if (s) dc_putcontext (&s);
    dc_destroy (&c);
    MUST (disir_mold_finished (&mold));
    sx_assert (sx_live_heap () == 0, "nothing is kept");
}
