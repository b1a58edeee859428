// sx-case: name=limits_keyval -DLIMITS -DKIND=0 reach=absent,unlimited,raised,plain
// sx-case: name=limits_section -DLIMITS -DKIND=1 reach=absent,unlimited,raised,plain
// sx-case: name=limits_nested -DLIMITS -DKIND=0 -DNESTED reach=absent,unlimited,raised,plain
// sx-case: name=valid_keyval -DKIND=0 reach=valid,few,many,foreign
// sx-case: name=valid_section -DKIND=1 reach=valid,few,many,foreign
// sx-case: name=valid_nested_keyval -DKIND=0 -DNESTED reach=valid,few,many,foreign
// sx-case: name=valid_nested_section -DKIND=1 -DNESTED reach=valid,few,many,foreign tier=thorough time=600
// sx-case: name=finalized_keyval -DKIND=0 -DFINAL reach=admitted,refused
// sx-case: name=finalized_section -DKIND=1 -DFINAL reach=admitted,refused
// sx-case: name=finalized_nested -DKIND=0 -DFINAL -DNESTED reach=admitted,refused
// sx-case: name=finalized_two_maxima -DKIND=0 -DFINAL -DTWOMAX reach=admitted,refused
// sx-case: name=limits_three -DLIMITS -DNR=3 -DKIND=0 reach=absent,unlimited,raised,plain tier=thorough time=1200
// sx-bound: up to 2 (limits_three: 3) minimum/maximum restrictions with any 32 bit introduction versions in any order (limits: entry counts 0..2^20; validity: one minimum and one or two maxima of 0..2, thorough 3, versions differing in the major number only), any introduction and deprecation version of the element, any configuration version; 0..3 entries, in the root or in a section
#include "h.h"
#ifndef NR
#define NR 2
#endif
/* the order of versions is P01's business: some differ in the major number only */
#define ver sx_ver
#ifdef LIMITS
#define VER(n) sx_version (0, n)
#define VER1(n) sx_version1 (0, n)
#else
#define VER(n) ver (n, 0)
#define VER1(n) ver (n, 1)
#endif
struct r { int is_max; int64_t n; struct disir_version v; };
void harness (void)
{
    CTX *m = NULL, *e = NULL, *sec = NULL, *parent, *c = NULL, *ce = NULL, *cp, *x;
    struct disir_mold *mold = NULL; struct disir_config *cfg = NULL;
    struct disir_version top = V (0xffffffffu, 0xffffffffu), intro, dep = V (0, 0);
    struct r r[NR];
    sx_fmt_abstract = 1;
    MUST (dc_mold_begin (&m));
    parent = m;
#ifdef NESTED
    parent = sec = section_of (m, "s");
#endif
#ifdef TWOMAX
    intro = V (1, 0);
    int has_dep = 0;
#else
    intro = ver ("introduced", 1);
    int has_dep = sx_pick (2, "deprecated");
#endif
    if (KIND == 0)
    {
        MUST (dc_begin (parent, DISIR_CONTEXT_KEYVAL, &e));
        MUST (dc_set_name (e, "e", 1));
        MUST (dc_set_value_type (e, INT));
#ifdef LIMITS
        /* the oldest default introduces the keyval */
        if (!has_dep && sx_pick (2, "newer default"))
        {
            struct disir_version n = ver ("newer", 1);
            sx_assume (vlt (intro, n));
            MUST (dc_add_default_integer (e, 1, &n));
        }
#endif
        MUST (dc_add_default_integer (e, 0, &intro));
    }
    else
    {
        e = section_of (parent, "e");
        MUST (dc_add_introduced (e, &intro));
    }
    if (has_dep)
    {
        dep = ver ("deprecation", 0);
        sx_assume (vkey (dep) != 0);
        MUST (dc_add_deprecated (e, &dep));
    }
#ifdef LIMITS
    int nr = sx_pick (NR + 1, "restrictions");
    int64_t lim = 1 << 20;
#else
    int nr = NR;
    int64_t lim = SX_TIER_THOROUGH ? 3 : 2;
#endif
    for (int i = 0; i < nr; i++)
    {
#ifdef LIMITS
        r[i].is_max = sx_pick (2, "max");
#else
#ifdef TWOMAX
        r[i].is_max = 1;
#else
        r[i].is_max = i > 0;
#endif
#endif
        r[i].n = sx_range (0, lim, "count");
#ifndef LIMITS
        r[i].n = (int64_t) sx_concretize (r[i].n);
#endif
        r[i].v = VER ("since");
        for (int j = 0; j < i; j++)
            if (r[j].is_max == r[i].is_max) sx_assume (!veq (r[j].v, r[i].v));
        if (r[i].is_max) MUST (dc_add_restriction_entries_max (e, r[i].n, &r[i].v));
        else MUST (dc_add_restriction_entries_min (e, r[i].n, &r[i].v));
    }
    MUST (dc_finalize (&e));
    if (sec) MUST (dc_finalize (&sec));
    MUST (dc_set_version (m, &top));
    MUST (dc_mold_finalize (&m, &mold));
    struct disir_version q = VER1 ("version");
    /* reference */
    int64_t min = 1, max = 1; uint64_t mink = 0, maxk = 0; int hmin = 0, hmax = 0;
    for (int i = 0; i < nr; i++)
    {
        int act = DECIDE (vle (r[i].v, q));
        if (r[i].is_max)
        {
            int use = act && (!hmax || DECIDE (vkey (r[i].v) > maxk));
            max = use ? r[i].n : max; maxk = use ? vkey (r[i].v) : maxk; hmax |= use;
        }
        else
        {
            int use = act && (!hmin || DECIDE (vkey (r[i].v) > mink));
            min = use ? r[i].n : min; mink = use ? vkey (r[i].v) : mink; hmin |= use;
        }
    }
    int unlimited = DECIDE (max == 0);
    int raised = !unlimited && DECIDE (max < min);
    max = raised ? min : max;
    int absent = DECIDE (vlt (q, intro) | (has_dep & vle (dep, q)));
    MUST (dc_config_begin (mold, &c));
    MUST (dc_set_version (c, &q));
    cp = c;
#ifdef NESTED
    cp = sec = section_of (c, "s");
#endif
#ifdef LIMITS
    int got_min = -7, got_max = -7;
    MUST (dc_begin (cp, KIND ? DISIR_CONTEXT_SECTION : DISIR_CONTEXT_KEYVAL, &ce));
    MUST (dc_set_name (ce, "e", 1));
    MUST (dc_restriction_entries_minimum (ce, &got_min));
    MUST (dc_restriction_entries_maximum (ce, &got_max));
    if (absent)
    {
        sx_reach ("absent");
        sx_assert (got_min == 0 && got_max == -1, "no entry required nor allowed");
    }
    else
    {
        if (unlimited) sx_reach ("unlimited"); else if (raised) sx_reach ("raised"); else sx_reach ("plain");
        sx_assert (got_min == min, "minimum entries");
        sx_assert (got_max == max, "maximum entries");
    }
    MUST (dc_destroy (&ce));
    if (sec) MUST (dc_destroy (&sec));
    dc_config_finalize (&c, &cfg);
#else
    int n = sx_pick (4, "entries");
    int lo = absent ? 0 : (int) min, hi = absent ? 0 : unlimited ? 1000 : (int) max;
    for (int i = 0; i < n; i++)
    {
        MUST (dc_begin (cp, KIND ? DISIR_CONTEXT_SECTION : DISIR_CONTEXT_KEYVAL, &ce));
        MUST (dc_set_name (ce, "e", 1));
        if (KIND == 0) MUST (dc_set_value_integer (ce, i));
        MUST (dc_finalize (&ce));
    }
    int good = (n >= lo) & (n <= hi);
    ST s;
#ifdef NESTED
    x = sec;
    s = dc_finalize (&sec);
    sx_assert (s == (good ? OK : DISIR_STATUS_INVALID_CONTEXT), "section valid iff within limits");
#endif
    s = dc_config_finalize (&c, &cfg);
    sx_assert (s == (good ? OK : DISIR_STATUS_INVALID_CONTEXT), "configuration valid iff within limits");
    struct disir_collection *col = NULL;
    s = disir_config_valid (cfg, &col);
    sx_assert (s == (good ? OK : DISIR_STATUS_INVALID_CONTEXT), "validity iff within limits");
    sx_assert ((col != NULL) == !good, "offenders listed iff invalid");
    if (col)
    {
        /* the parent that misses or has too many entries is the offender */
        sx_assert (dc_collection_size (col) == 1, "only the parent is at fault");
        MUST (dc_collection_next (col, &x));
#ifdef NESTED
        sx_assert (x == sec && dc_context_type (x) == DISIR_CONTEXT_SECTION, "the section");
#else
        sx_assert (dc_context_type (x) == DISIR_CONTEXT_CONFIG, "the configuration");
#endif
        dc_putcontext (&x);
        dc_collection_finished (&col);
    }
    if (good) sx_reach ("valid"); else if (absent) sx_reach ("foreign"); else if (n < lo) sx_reach ("few"); else sx_reach ("many");
    if (sec) dc_putcontext (&sec);
#ifdef FINAL
    /* one more entry below a finished parent */
    sx_assume (good);
    c = dc_config_getcontext (cfg);
    cp = c;
#ifdef NESTED
    MUST (dc_find_element (c, "s", 0, &sec));
    cp = sec;
#endif
    int admit = !absent & (unlimited | (n + 1 <= (int) max));
    MUST (dc_begin (cp, KIND ? DISIR_CONTEXT_SECTION : DISIR_CONTEXT_KEYVAL, &ce));
    s = dc_set_name (ce, "e", 1);
    if (admit)
    {
        sx_reach ("admitted");
        sx_assert (s == OK, "within the maximum");
        if (KIND == 0) MUST (dc_set_value_integer (ce, 9));
        MUST (dc_finalize (&ce));
    }
    else
    {
        sx_reach ("refused");
        sx_assert (s == DISIR_STATUS_RESTRICTION_VIOLATED, "one too many");
        s = dc_finalize (&ce);
        sx_assert (s != OK && ce != NULL, "cannot be finalized either");
        MUST (dc_destroy (&ce));
    }
    sx_assert (disir_config_valid (cfg, NULL) == OK, "still valid");
    s = dc_find_elements (cp, "e", &col);
    sx_assert ((s == OK ? (int) dc_collection_size (col) : 0) == n + admit, "number of entries");
    if (s == OK) dc_collection_finished (&col);
    if (sec) dc_putcontext (&sec);
    dc_putcontext (&c);
#endif
#endif
    if (cfg) disir_config_finished (&cfg);
    disir_mold_finished (&mold);
    sx_assert (sx_live_heap () == 0, "everything released");
}
