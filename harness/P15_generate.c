// sx-case: name=keyval -DKEYVAL reach=absent,none,one,more,newest,refused
// sx-case: name=keyval_types -DKEYVAL -DTYPES reach=absent,one,newest
// sx-case: name=section -DSECTION reach=absent,some,inner_absent,inner_some
// sx-case: name=tree -DTREE reach=generated
// sx-case: name=violating -DVIOLATE reach=valid,failed
// sx-case: name=violating_section -DVIOLATE -DINSECTION reach=valid,failed
// sx-case: name=below_config -DBELOW=0 reach=added
// sx-case: name=below_section -DBELOW=1 reach=added
// sx-case: name=below_wrong -DBELOW=2 reach=refused
// sx-bound: a keyval with up to 2 defaults, 2 minimum and a maximum restriction and a deprecation, a section with introduction, deprecation, minimum restriction and a keyval, a three level tree; any 32 bit versions (some differing in the major number only), counts 0..2 (thorough 3), any 64 bit default values, every target version or none
#include "h.h"
#define CNT (SX_TIER_THOROUGH ? 3 : 2)
#define ver sx_ver
struct lim { int n; int64_t c[2]; struct disir_version v[2]; };
static void mins (CTX *e, struct lim *l, int max)
{
    l->n = sx_pick (max + 1, "minimum restrictions");
    for (int i = 0; i < l->n; i++)
    {
        l->c[i] = sx_pick (CNT + 1, "count"); l->v[i] = ver ("since", 0);
        if (i) sx_assume (!veq (l->v[0], l->v[1]));
        MUST (dc_add_restriction_entries_min (e, l->c[i], &l->v[i]));
    }
}
static int min_at (struct lim *l, struct disir_version q)
{
    int64_t min = 1; uint64_t k = 0; int has = 0;
    for (int i = 0; i < l->n; i++)
        if (DECIDE (vle (l->v[i], q)) && (!has || DECIDE (vkey (l->v[i]) > k))) { min = l->c[i]; k = vkey (l->v[i]); has = 1; }
    return min;
}
static int count (CTX *p, const char *name)
{
    struct disir_collection *col = NULL; int n = 0;
    ST s = name ? dc_find_elements (p, name, &col) : dc_get_elements (p, &col);
    if (s == OK) { n = dc_collection_size (col); dc_collection_finished (&col); }
    return n;
}
static void check_version (CTX *c, struct disir_version want)
{
    struct disir_version got = V (77, 77);
    MUST (dc_get_version (c, &got));
    sx_assert (veq (got, want), "version of the configuration");
}
void harness (void)
{
    CTX *m = NULL, *k, *s = NULL, *t = NULL, *c = NULL, *x = NULL; struct disir_mold *mold = NULL; struct disir_config *cfg = NULL;
    struct disir_version top = V (0xffffffffu, 0xffffffffu), q, v[2], dep = V (0, 0), intro = V (1, 0);
    ST st; uint64_t before;
    sx_fmt_abstract = 1;
    MUST (dc_mold_begin (&m));
#if defined KEYVAL
    int64_t val[2]; int nd = 1 + sx_pick (2, "defaults");
    enum disir_value_type ty = INT;
#ifdef TYPES
    static const enum disir_value_type tys[4] = { STR, FLT, BOO, ENU };
    ty = tys[sx_pick (4, "type")];
#endif
    MUST (dc_begin (m, DISIR_CONTEXT_KEYVAL, &k));
    MUST (dc_set_name (k, "k", 1));
    MUST (dc_set_value_type (k, ty));
    for (int i = 0; i < nd; i++)
    {
        v[i] = sx_version1 (0, "default"); val[i] = sx_i64 ("value");
        if (i) sx_assume (!veq (v[0], v[1]));
        switch (ty)
        {
        case INT: MUST (dc_add_default_integer (k, val[i], &v[i])); break;
        case FLT: val[i] = i; MUST (dc_add_default_float (k, 1.5 + i, &v[i])); break;
        case BOO: val[i] = i; MUST (dc_add_default_boolean (k, i, &v[i])); break;
        default: val[i] = i; MUST (dc_add_default_string (k, i ? "zweite" : "e", i ? 6 : 1, &v[i])); break;
        }
    }
    int has_dep = 0; struct lim l = { 0 };
    struct disir_version mv;
#ifndef TYPES
    has_dep = sx_pick (2, "deprecated");
    if (has_dep) { dep = ver ("deprecation", 1); MUST (dc_add_deprecated (k, &dep)); }
    mins (k, &l, SX_TIER_THOROUGH ? 2 : 1);
    if (sx_pick (2, "maximum")) MUST (dc_add_restriction_entries_max (k, 1, NULL));
#endif
    if (ty == ENU) { MUST (dc_add_restriction_value_enum (k, "e", "d", NULL, NULL)); MUST (dc_add_restriction_value_enum (k, "zweite", "d", NULL, NULL)); }
    MUST (dc_finalize (&k));
    int fixed = sx_pick (2, "mold version");
    if (fixed) MUST (dc_set_version (m, &top));
    MUST (dc_get_version (m, &mv));
    MUST (dc_mold_finalize (&m, &mold));
    int given = sx_pick (2, "version given");
    q = given ? sx_version (0, "version") : mv;
    before = sx_live_heap ();
    st = disir_generate_config_from_mold (mold, given ? &q : NULL, &cfg);
    if (DECIDE (vlt (mv, q)))
    {
        sx_reach ("refused");
        sx_assert (st == DISIR_STATUS_CONFLICTING_SEMVER, "newer than the mold");
        sx_assert (cfg == NULL && sx_live_heap () == before, "nothing remains of it");
    }
    else
    {
        sx_assert (st == OK && cfg != NULL, "generated");
        struct disir_version first = v[0]; int eff = 0;
        if (nd == 2)
        {
            if (DECIDE (vlt (v[1], v[0]))) { first = v[1]; eff = DECIDE (vle (v[0], q)) ? 0 : 1; }
            else eff = DECIDE (vle (v[1], q)) ? 1 : 0;
        }
        int absent = DECIDE (vlt (q, first) | (has_dep & vle (dep, q)));
        int n = absent ? 0 : min_at (&l, q);
        if (absent) sx_reach ("absent"); else if (n == 0) sx_reach ("none"); else if (n == 1) sx_reach ("one"); else sx_reach ("more");
        c = dc_config_getcontext (cfg);
        sx_assert (count (c, NULL) == n && count (c, "k") == n, "number of entries");
        for (int i = 0; i < n; i++)
        {
            MUST (dc_find_element (c, "k", i, &k));
            sx_assert (dc_context_type (k) == DISIR_CONTEXT_KEYVAL && dc_value_type (k) == ty, "kind and type");
            int64_t a = 5; double d = 0; uint8_t b = 7; const char *z = NULL; int32_t zn = 0;
            switch (ty)
            {
            case INT: MUST (dc_get_value_integer (k, &a)); break;
            case FLT: MUST (dc_get_value_float (k, &d)); a = d == 2.5 ? 1 : d == 1.5 ? 0 : 5; break;
            case BOO: MUST (dc_get_value_boolean (k, &b)); a = b; break;
            case STR: MUST (dc_get_value_string (k, &z, &zn)); a = zn == 6 && !strcmp (z, "zweite") ? 1 : zn == 1 && !strcmp (z, "e") ? 0 : 5; break;
            default: MUST (dc_get_value_enum (k, &z, &zn)); a = zn == 6 && !strcmp (z, "zweite") ? 1 : zn == 1 && !strcmp (z, "e") ? 0 : 5; break;
            }
            sx_assert (a == val[eff], "holds the default effective at the version");
            if (eff) sx_reach ("newest");
            dc_putcontext (&k);
        }
        check_version (c, q);
        dc_putcontext (&c);
        sx_assert (disir_config_valid (cfg, NULL) == OK, "valid");
        disir_config_finished (&cfg);
    }
#elif defined SECTION
    struct lim ls, lk; struct disir_version ki = V (1, 0); int64_t val = sx_i64 ("value");
    s = section_of (m, "s");
    if (sx_pick (2, "introduced")) { intro = ver ("introduction", 1); MUST (dc_add_introduced (s, &intro)); }
    int has_dep = sx_pick (2, "deprecated");
    if (has_dep) { dep = ver ("deprecation", 1); MUST (dc_add_deprecated (s, &dep)); }
    mins (s, &ls, 1);
    MUST (dc_begin (s, DISIR_CONTEXT_KEYVAL, &k));
    MUST (dc_set_name (k, "k", 1));
    MUST (dc_set_value_type (k, INT));
    ki = ver ("default", 1);
    MUST (dc_add_default_integer (k, val, &ki));
    mins (k, &lk, 1);
    MUST (dc_finalize (&k));
    MUST (dc_finalize (&s));
    MUST (dc_set_version (m, &top));
    MUST (dc_mold_finalize (&m, &mold));
    q = sx_version1 (0, "version");
    MUST (disir_generate_config_from_mold (mold, &q, &cfg));
    int absent = DECIDE (vlt (q, intro) | (has_dep & vle (dep, q)));
    int n = absent ? 0 : min_at (&ls, q);
    if (n) sx_reach ("some"); else if (absent) sx_reach ("absent");
    c = dc_config_getcontext (cfg);
    sx_assert (count (c, NULL) == n, "number of sections");
    for (int i = 0; i < n; i++)
    {
        MUST (dc_find_element (c, "s", i, &s));
        int in = DECIDE (vlt (q, ki)) ? 0 : min_at (&lk, q);
        if (in) sx_reach ("inner_some"); else sx_reach ("inner_absent");
        sx_assert (dc_context_type (s) == DISIR_CONTEXT_SECTION && count (s, NULL) == in, "entries of the section");
        for (int j = 0; j < in; j++)
        {
            int64_t a;
            MUST (dc_find_element (s, "k", j, &k));
            MUST (dc_get_value_integer (k, &a));
            sx_assert (a == val, "holds the default");
            dc_putcontext (&k);
        }
        dc_putcontext (&s);
    }
    check_version (c, q);
    dc_putcontext (&c);
    sx_assert (disir_config_valid (cfg, NULL) == OK, "valid");
    disir_config_finished (&cfg);
#elif defined TREE
    /* a, b{ c, t{ u, w } }, d with fixed minima: the shape */
    int64_t val[5]; int n[6];
    const char *nm[5] = { "a", "c", "u", "w", "d" };
    for (int i = 0; i < 5; i++) val[i] = sx_i64 ("value");
    for (int i = 0; i < 6; i++) n[i] = 1;
    int odd = sx_pick (6, "repeated"); n[odd] = sx_pick (4, "times");
    CTX *at[5];
    s = NULL;
    for (int i = 0; i < 5; i++)
    {
        if (i == 1) { s = section_of (m, "b"); MUST (dc_add_restriction_entries_max (s, 0, NULL)); MUST (dc_add_restriction_entries_min (s, n[5], NULL)); }
        if (i == 2) t = section_of (s, "t");
        at[i] = i == 1 ? s : i == 2 || i == 3 ? t : m;
        struct disir_version one = V (1, 0);
        MUST (dc_begin (at[i], DISIR_CONTEXT_KEYVAL, &k));
        MUST (dc_set_name (k, nm[i], 1));
        MUST (dc_set_value_type (k, INT));
        MUST (dc_add_default_integer (k, val[i], &one));
        MUST (dc_add_restriction_entries_max (k, 0, NULL));
        MUST (dc_add_restriction_entries_min (k, n[i], NULL));
        MUST (dc_finalize (&k));
        if (i == 3) { MUST (dc_finalize (&t)); MUST (dc_finalize (&s)); }
    }
    MUST (dc_mold_finalize (&m, &mold));
    MUST (disir_generate_config_from_mold (mold, NULL, &cfg));
    c = dc_config_getcontext (cfg);
    sx_assert (count (c, "a") == n[0] && count (c, "b") == n[5] && count (c, "d") == n[4] && count (c, NULL) == n[0] + n[5] + n[4], "root");
    for (int i = 0; i < n[5]; i++)
    {
        MUST (dc_find_element (c, "b", i, &s));
        sx_assert (count (s, "c") == n[1] && count (s, "t") == 1 && count (s, NULL) == n[1] + 1, "section");
        MUST (dc_find_element (s, "t", 0, &t));
        sx_assert (count (t, "u") == n[2] && count (t, "w") == n[3] && count (t, NULL) == n[2] + n[3], "inner section");
        for (int j = 0; j < 5; j++)
            for (int e = 0; e < n[j]; e++)
            {
                int64_t a;
                MUST (dc_find_element (j == 1 ? s : j == 2 || j == 3 ? t : c, nm[j], e, &k));
                MUST (dc_get_value_integer (k, &a));
                sx_assert (a == val[j], "holds its default");
                dc_putcontext (&k);
            }
        dc_putcontext (&t); dc_putcontext (&s);
    }
    dc_putcontext (&c);
    sx_assert (disir_config_valid (cfg, NULL) == OK, "valid");
    sx_reach ("generated");
    disir_config_finished (&cfg);
#elif defined VIOLATE
    /* the range changes with the version, the default need not fit it */
    CTX *p = m; int64_t val = sx_i64 ("value"); int other = sx_pick (2, "another element"), insec = 0;
#ifdef INSECTION
    p = s = section_of (m, "s"); insec = 1;
#endif
    MUST (dc_begin (p, DISIR_CONTEXT_KEYVAL, &k));
    MUST (dc_set_name (k, "k", 1));
    MUST (dc_set_value_type (k, INT));
    struct disir_version one = V (1, 0), since = ver ("since", 0);
    MUST (dc_add_default_integer (k, val, &one));
    st = dc_add_restriction_value_range (k, 10, 20, "d", &since, NULL);
    sx_assume (st == OK);
    st = dc_finalize (&k);
    sx_assume (st == OK);
    if (other) { k = kv_of (p, "l", INT, NULL); dc_putcontext (&k); }
    if (s) { st = dc_finalize (&s); sx_assume (st == OK); }
    MUST (dc_set_version (m, &top));
    MUST (dc_mold_finalize (&m, &mold));
    q = ver ("version", 1);
    before = sx_live_heap ();
    st = disir_generate_config_from_mold (mold, &q, &cfg);
    if (DECIDE (vle (since, q) & ((val < 10) | (val > 20))))
    {
        sx_reach ("failed");
        sx_assert (st != OK, "an invalid configuration is not reported as success");
        sx_assert (sx_live_heap () == before, "nothing remains of it");
    }
    else
    {
        sx_reach ("valid");
        sx_assert (st == OK, "generated");
        sx_assert (disir_config_valid (cfg, NULL) == OK, "valid");
        c = dc_config_getcontext (cfg);
        if (insec) MUST (dc_find_element (c, "s", 0, &s));
        sx_assert (count (s ? s : c, NULL) == 1 + other, "all of them");
        if (s) dc_putcontext (&s);
        dc_putcontext (&c);
        disir_config_finished (&cfg);
    }
#else
    struct lim l1, l2; int64_t val = sx_i64 ("value"); struct disir_version one = V (1, 0);
    s = section_of (m, "s");
    MUST (dc_add_restriction_entries_max (s, 0, NULL));
    MUST (dc_begin (s, DISIR_CONTEXT_KEYVAL, &k)); MUST (dc_set_name (k, "k", 1)); MUST (dc_set_value_type (k, INT));
    MUST (dc_add_default_integer (k, val, &one)); MUST (dc_add_restriction_entries_max (k, 0, NULL));
    mins (k, &l1, 1);
    MUST (dc_finalize (&k));
    MUST (dc_finalize (&s));
    MUST (dc_begin (m, DISIR_CONTEXT_KEYVAL, &k)); MUST (dc_set_name (k, "k", 1)); MUST (dc_set_value_type (k, INT));
    MUST (dc_add_default_integer (k, val, &one)); MUST (dc_add_restriction_entries_max (k, 0, NULL));
    mins (k, &l2, 1);
    MUST (dc_finalize (&k));
    MUST (dc_set_version (m, &top));
    MUST (dc_mold_finalize (&m, &mold));
    MUST (dc_config_begin (mold, &c));
    q = ver ("version", 1);
    MUST (dc_set_version (c, &q));
    int n1 = min_at (&l1, q), n2 = min_at (&l2, q), had = sx_pick (2, "something is there");
    MUST (dc_begin (c, DISIR_CONTEXT_SECTION, &s));
    if (BELOW != 2) MUST (dc_set_name (s, "s", 1));
#if BELOW == 2
    int what = sx_pick (5, "what");
    CTX *w = NULL;
    x = NULL; sx_assume (!had);
    switch (what)
    {
    case 0: st = dc_generate_from_config_root (NULL); break;
    case 1: x = dc_mold_getcontext (mold); st = dc_generate_from_config_root (x); break;
    case 2: x = ckv_begin (c, "k"); st = dc_generate_from_config_root (x); break;
    case 3: dc_set_name (s, "zz", 2); st = dc_generate_from_config_root (s); break;
    default: w = dc_mold_getcontext (mold); MUST (dc_find_element (w, "s", 0, &x)); st = dc_generate_from_config_root (x); dc_putcontext (&w); break;
    }
    sx_reach ("refused");
    sx_assert (st != OK, "refused");
    sx_assert (count (s, NULL) == 0 && count (c, NULL) == 0, "nothing is generated");
    if (x) { if (what == 2) dc_destroy (&x); else dc_putcontext (&x); }
    dc_destroy (&s);
#else
    if (had) { k = ckv_begin (BELOW ? s : c, "k"); MUST (dc_set_value_integer (k, 4)); MUST (dc_finalize (&k)); }
    MUST (dc_generate_from_config_root (BELOW ? s : c));
    sx_reach ("added");
    int n = BELOW ? n1 : n2;
    CTX *p = BELOW ? s : c;
    sx_assert (count (p, "k") == had + n, "the minimum is added");
    sx_assert (count (p, NULL) == had + n + (BELOW ? 0 : 1), "and nothing else than defined there");
    for (int i = 0; i < had + n; i++)
    {
        int64_t a;
        MUST (dc_find_element (p, "k", i, &k));
        MUST (dc_get_value_integer (k, &a));
        sx_assert (a == (i < had ? 4 : val), "values");
        dc_putcontext (&k);
    }
    if (!BELOW)
    {
        MUST (dc_find_element (c, "s", 0, &x));
        sx_assert (count (x, NULL) == n1, "sections too");
        dc_putcontext (&x);
        sx_assert (count (s, NULL) == 0, "not those unfinished");
        dc_destroy (&s);
    }
    else st = dc_finalize (&s);
#endif
    if (s) dc_putcontext (&s);
    dc_destroy (&c);
#endif
    disir_mold_finished (&mold);
    sx_assert (sx_live_heap () == 0, "everything released");
}
