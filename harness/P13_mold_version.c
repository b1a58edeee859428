// sx-case: name=one -DNP=1 reach=built
// sx-case: name=two -DNP=2 reach=built
// sx-case: name=three -DNP=3 -DROOT reach=built
// sx-case: name=three_any -DNP=3 reach=built tier=thorough time=900
// sx-case: name=config -DCFG reach=accepted,refused,below
// sx-bound: up to 2 (3 within a root keyval; thorough: 3 anywhere) versioned parts with any 32 bit versions, out of 14 places (documentation, defaults, value and entry restrictions, introduction and deprecation, of the mold, keyvals and sections, two levels deep, added before or after their parent is finalized), the rest at 1.0
// sx-assume: versions are given to a part before it is finalized, and no part is destroyed again
#include "h.h"
#ifndef NP
#define NP 1
#endif
static struct disir_version v[NP]; static int where[NP];
/* the version of a place, or fallback */
static struct disir_version at (int place, struct disir_version *none, int *has)
{
    for (int i = 0; i < NP; i++) if (where[i] == place) { *has = 1; return v[i]; }
    *has = 0;
    return none ? *none : V (1, 0);
}
static void restriction (CTX *kv, int pi, int pd, int pdoc, int inc)
{
    CTX *r = NULL, *d = NULL; int has; struct disir_version x;
    MUST (dc_begin (kv, DISIR_CONTEXT_RESTRICTION, &r));
    MUST (dc_set_restriction_type (r, inc ? RMIN : RRAN));
    if (inc) MUST (dc_restriction_set_numeric (r, 1)); else MUST (dc_restriction_set_range (r, 1, 5));
    x = at (pi, NULL, &has); if (has) MUST (dc_add_introduced (r, &x));
    x = at (pd, NULL, &has); if (has) MUST (dc_add_deprecated (r, &x));
    x = at (pdoc, NULL, &has);
    if (has)
    {
        MUST (dc_begin (r, DISIR_CONTEXT_DOCUMENTATION, &d));
        MUST (dc_set_value_string (d, "x", 1));
        MUST (dc_add_introduced (d, &x));
        MUST (dc_finalize (&d));
    }
    MUST (dc_finalize (&r));
}
static void documentation (CTX *p, int pl)
{
    CTX *d = NULL; int has; struct disir_version x = at (pl, NULL, &has);
    MUST (dc_begin (p, DISIR_CONTEXT_DOCUMENTATION, &d));
    MUST (dc_set_value_string (d, "x", 1));
    if (has) MUST (dc_add_introduced (d, &x));
    MUST (dc_finalize (&d));
}
/* a keyval whose parts are places b..b+6 */
static void keyval (CTX *p, int b, int late)
{
    CTX *kv = NULL; int has; struct disir_version x, y;
    MUST (dc_begin (p, DISIR_CONTEXT_KEYVAL, &kv));
    MUST (dc_set_name (kv, "k", 1));
    MUST (dc_set_value_type (kv, INT));
    x = at (b, NULL, &has);
    MUST (dc_add_default_integer (kv, 3, &x));
    int two; y = at (b + 1, NULL, &two);
    if (two) sx_assume (!veq (x, y));
    int first = two && !late;
    if (first) MUST (dc_add_default_integer (kv, 4, &y));
    struct disir_version d = at (b + 2, NULL, &has);
    if (has) MUST (dc_add_deprecated (kv, &d));
    if (!late) restriction (kv, b + 3, b + 4, b + 5, 0);
    if (!late) documentation (kv, b + 6);
    if (late) { MUST (dc_finalize_keep_reference (kv)); }
    if (two && late) MUST (dc_add_default_integer (kv, 4, &y));
    if (late) restriction (kv, b + 3, b + 4, b + 5, 0);
    if (late) { documentation (kv, b + 6); dc_putcontext (&kv); }
    else MUST (dc_finalize (&kv));
}
void harness (void)
{
    CTX *m = NULL, *s = NULL, *c = NULL, *x; struct disir_mold *mold = NULL; struct disir_config *cfg = NULL;
    struct disir_version got = V (9, 9), top = V (1, 0), q;
    int has;
    sx_fmt_abstract = 1;
    MUST (dc_mold_begin (&m));
#ifdef CFG
    v[0] = sx_version (0, "documentation"); where[0] = 0;
    documentation (m, 0);
#else
    int last = -1;
    for (int i = 0; i < NP; i++)
    {
#ifdef ROOT
        where[i] = last + 1 + sx_pick (8 - NP + i - last, "place");
#else
        where[i] = last + 1 + sx_pick (19 - NP + i - last, "place");
#endif
        last = where[i];
        v[i] = sx_version (0, "version");
    }
    documentation (m, 0);
    int late = sx_pick (2, "parts after finalizing");
    keyval (m, 1, late);
    struct disir_version d;
#ifndef ROOT
    s = section_of (m, "s");
    d = at (8, NULL, &has); if (has) MUST (dc_add_introduced (s, &d));
    d = at (9, NULL, &has); if (has) MUST (dc_add_deprecated (s, &d));
    if (!late) restriction (s, 10, 10, 10, 1);
    if (late) MUST (dc_finalize_keep_reference (s));
    keyval (s, 11, 0);
    documentation (s, 18);
    if (late) { restriction (s, 10, 10, 10, 1); dc_putcontext (&s); }
    else MUST (dc_finalize (&s));
#endif
#endif
    for (int i = 0; i < NP; i++)
    {
        /* zero is no deprecation */
        int newer = DECIDE (vlt (top, v[i]));
        if (newer) top = v[i];
    }
    MUST (dc_get_version (m, &got));
    sx_assert (veq (got, top), "version of a mold under construction");
    got = V (9, 9);
    MUST (dc_mold_finalize (&m, &mold));
    x = dc_mold_getcontext (mold);
    MUST (dc_get_version (x, &got));
    sx_assert (veq (got, top), "version of a mold");
    dc_putcontext (&x);
    sx_reach ("built");
    MUST (dc_config_begin (mold, &c));
    MUST (dc_get_version (c, &got));
    sx_assert (veq (got, V (1, 0)), "a configuration starts at 1.0");
#ifdef CFG
    int n = 2;
    struct disir_version is = V (1, 0);
    for (int i = 0; i < n; i++)
    {
        q = sx_version (0, "set");
        ST st = dc_set_version (c, &q);
        int ok = DECIDE (vle (q, top));
        sx_assert (st == (ok ? OK : DISIR_STATUS_CONFLICTING_SEMVER), "version accepted iff not newer than the mold's");
        if (ok) { sx_reach ("accepted"); is = q; if (DECIDE (vlt (q, V (1, 0)))) sx_reach ("below"); } else sx_reach ("refused");
        MUST (dc_get_version (c, &got));
        sx_assert (veq (got, is), "version of the configuration");
    }
    x = dc_mold_getcontext (mold);
    MUST (dc_get_version (x, &got));
    sx_assert (veq (got, top), "version of the mold unchanged");
    dc_putcontext (&x);
    MUST (dc_config_finalize (&c, &cfg));
    disir_config_finished (&cfg);
#else
    dc_destroy (&c);
#endif
    disir_mold_finished (&mold);
    sx_assert (sx_live_heap () == 0, "everything released");
}
