// sx-case: name=single -DSTEPS=1 reach=set,created,refused
// sx-case: name=high -DSTEPS=1 -DHIGH reach=set,created,refused
// sx-case: name=relative -DSTEPS=1 -DREL reach=set,created,refused
// sx-case: name=two -DSTEPS=2 reach=set,created,refused
// sx-case: name=types -DTYPES reach=set,created,refused
// sx-case: name=limits -DLIMITS reach=created,refused
// sx-case: name=text -DTEXT -DLEN=4 reach=set,created,refused
// sx-case: name=text_index -DTEXT -DLEN=3 -DPREFIX="s@" reach=set,created,refused
// sx-case: name=text_below -DTEXT -DLEN=3 -DPREFIX="s." reach=set,created,refused
// sx-case: name=index -DINDEX reach=set,created,refused
// sx-case: name=filled -DFILLED reach=set,created,refused
// sx-case: name=long -DLONGQ reach=created,refused
// sx-case: name=three -DSTEPS=3 -DFEW reach=set,created,refused tier=thorough time=900
// sx-case: name=text_long -DTEXT -DLEN=5 reach=set,created,refused tier=thorough time=900
// sx-bound: a mold of keyvals k (at most 2), w (0..100, any number), d (at least one) and sections s (at most 2) of the same with a section t (at most 1) below, a configuration of 0..2 of the sections, one or two (thorough three) values set by queries of up to 3 components with indices 0..3, wrong names, keyvals and sections mixed up; any 64 bit value
// sx-bound: filled: a section s (at most 2) whose section u (one or two required, at most 1 to 3) comes with it, any value set by s@i.u@j.k@l with i, j up to 3 and l up to 2; long: a query made long by zeroes before the index or a long name, of 2030 to 2070 characters
// sx-bound: text: any query of up to 4 (thorough 5) characters out of k w s t . @ 0 1 2 -; types: every setter against every type; limits: the entry limit in force at any 32 bit configuration version
#include "h.h"
#ifndef LEN
#define LEN 4
#endif
/* the model: 0 root, 1 a section s, 2 a section t */
#define MX 4
struct sec { int nk, nw, nd, nt, ns; int64_t k[MX], w[MX], d[MX]; int64_t tk; int tnk; int64_t tka[MX]; };
static struct sec root, sec[MX];
static int count (CTX *p, const char *name)
{
    struct disir_collection *col = NULL; int n = 0;
    ST s = name ? dc_find_elements (p, name, &col) : dc_get_elements (p, &col);
    if (s == OK) { n = dc_collection_size (col); dc_collection_finished (&col); }
    return n;
}
static int64_t int_of (CTX *p, const char *name, int i)
{
    CTX *k = NULL; int64_t v = 0;
    MUST (dc_find_element (p, name, i, &k));
    MUST (dc_get_value_integer (k, &v));
    dc_putcontext (&k);
    return v;
}
static void ints (CTX *p, const char *name, int n, int64_t *v)
{
    sx_assert (count (p, name) == n, "as many entries as there should be");
    for (int i = 0; i < n; i++) sx_assert (int_of (p, name, i) == v[i], "holding what was set");
}
static void same_state (CTX *c)
{
    CTX *s = NULL, *t = NULL; int i, j;
    ints (c, "k", root.nk, root.k); ints (c, "w", root.nw, root.w); ints (c, "d", root.nd, root.d);
    sx_assert (count (c, "s") == root.ns, "as many sections as there should be");
    sx_assert (count (c, NULL) == root.nk + root.nw + root.nd + root.ns, "and nothing else");
    for (i = 0; i < root.ns; i++)
    {
        MUST (dc_find_element (c, "s", i, &s));
        ints (s, "k", sec[i].nk, sec[i].k); ints (s, "w", sec[i].nw, sec[i].w); ints (s, "d", sec[i].nd, sec[i].d);
        sx_assert (count (s, "t") == sec[i].nt, "as many sections below");
        sx_assert (count (s, NULL) == sec[i].nk + sec[i].nw + sec[i].nd + sec[i].nt, "and nothing else below");
        for (j = 0; j < sec[i].nt; j++)
        {
            MUST (dc_find_element (s, "t", j, &t));
            ints (t, "k", sec[i].tnk, sec[i].tka);
            sx_assert (count (t, NULL) == sec[i].tnk, "and nothing else");
            dc_putcontext (&t);
        }
        dc_putcontext (&s);
    }
}
/* keyval name[idx] below e: 1 set, 2 created, 0 refused */
static int leaf (struct sec *e, int in_t, char name, int idx, int64_t v, int apply)
{
    int *n; int64_t *a;
    if (in_t) { if (name != 'k') return 0; n = &e->tnk; a = e->tka; }
    else if (name == 'k') { n = &e->nk; a = e->k; }
    else if (name == 'w') { n = &e->nw; a = e->w; }
    else if (name == 'd') { n = &e->nd; a = e->d; }
    else return 0;
    if (idx < 0 || idx > *n) return 0;
    if (idx == *n && ((name == 'k' && idx >= 2) || (name == 'd' && idx >= 1))) return 0;
    if (idx >= MX) return 0;
    if (name == 'w' && !DECIDE (v >= 0 && v <= 100)) return 0;
    if (apply) a[idx] = v;
    if (idx < *n) return 1;
    if (apply) (*n)++;
    return 2;
}
/* apply `name@idx.name@idx...` to the model: components of the path */
struct comp { char name; int idx; };
static int apply (struct comp *c, int n, int64_t v)
{
    struct sec fresh, *e = &root; int made = 0, r, st = 0, saved;
    memset (&fresh, 0, sizeof fresh); fresh.nd = 1; fresh.d[0] = 7;
    if (n == 1) return leaf (&root, 0, c[0].name, c[0].idx, v, 1);
    if (c[0].name != 's' || c[0].idx < 0 || c[0].idx > root.ns || c[0].idx >= 2) return 0;
    if (c[0].idx < root.ns) e = &sec[c[0].idx]; else { made = 1; e = &fresh; }
    if (n == 2) r = leaf (e, 0, c[1].name, c[1].idx, v, 1);
    else if (n == 3)
    {
        if (c[1].name != 't' || c[1].idx < 0 || c[1].idx > e->nt || c[1].idx >= 1) return 0;
        saved = e->nt;
        if (c[1].idx == e->nt) { made = 1; st = 1; e->tnk = 0; }
        r = leaf (e, 1, c[2].name, c[2].idx, v, 1);
        if (r && st) e->nt = saved + 1;
    }
    else return 0;
    if (!r) return 0;
    if (e == &fresh) sec[root.ns++] = fresh;
    return made ? 2 : r;
}
static void mold_level (CTX *p)
{
    CTX *k = kv_of (p, "k", INT, NULL);
    MUST (dc_add_restriction_entries_min (k, 0, NULL)); MUST (dc_add_restriction_entries_max (k, 2, NULL)); dc_putcontext (&k);
    k = kv_of (p, "w", INT, NULL);
    MUST (dc_add_restriction_value_range (k, 0, 100, "d", NULL, NULL));
    MUST (dc_add_restriction_entries_min (k, 0, NULL)); MUST (dc_add_restriction_entries_max (k, 0, NULL)); dc_putcontext (&k);
    k = NULL; MUST (dc_add_keyval_integer (p, "d", 7, "doc", NULL, &k));
    MUST (dc_add_restriction_entries_min (k, 1, NULL)); MUST (dc_add_restriction_entries_max (k, 1, NULL)); dc_putcontext (&k);
}
#if !defined TYPES && !defined LIMITS && !defined FILLED && !defined LONGQ
/* number of the text at *i, or -1 */
static int parse (const char *q, struct comp *out)
{
    int n = 0, i = 0;
    for (;;)
    {
        int len = 0, at = -1, j, idx = 0;
        while (q[i + len] && q[i + len] != '.') { if (q[i + len] == '@' && at < 0) at = len; len++; }
        if (len == 0 || at == 0 || n == 3) return -1;
        if (at < 0) { if (len != 1) return -1; }
        else
        {
            if (at != 1 || at + 1 == len) return -1;
            j = at + 1;
            int neg = q[i + j] == '-';
            if (neg) j++;
            if (j == len) return -1;
            for (; j < len; j++) { if (q[i + j] < '0' || q[i + j] > '9') return -1; if (idx < 1000000) idx = idx * 10 + q[i + j] - '0'; }
            if (neg) idx = -idx;
            if (neg && idx == 0) return -2;
        }
        out[n].name = q[i]; out[n].idx = idx; n++;
        if (!q[i + len]) return n;
        i += len + 1;
    }
}
#endif
void harness (void)
{
    CTX *m = NULL, *k = NULL, *s = NULL, *t = NULL, *c = NULL; struct disir_mold *mold = NULL; struct disir_config *cfg = NULL; ST st; int i, r;
    sx_fmt_abstract = 1;
    MUST (dc_mold_begin (&m));
#if defined TYPES
    /* every setter against every type, existing or new */
    static const enum disir_value_type ty[] = { STR, INT, FLT, BOO, ENU };
    int have = sx_pick (5, "type"), as = sx_pick (5, "as"), there = sx_pick (2, "exists"), below = sx_pick (2, "below"), high = sx_pick (2, "high level"), goodenum = sx_pick (2, "known text");
    int64_t iv = sx_i64 ("int"), oi = 0; double fv = sx_f64 ("float"), of = 0; uint8_t bv = sx_pick (2, "bool"), ob = 0; const char *text = goodenum ? "bb" : "zz", *ot = NULL; int32_t n;
    CTX *p = m;
    if (below) { s = section_of (m, "s"); p = s; }
    k = kv_of (p, "v", ty[have], NULL);
    if (have == 4) { MUST (dc_add_restriction_value_enum (k, "aa", "d", NULL, NULL)); MUST (dc_add_restriction_value_enum (k, "bb", "d", NULL, NULL)); }
    MUST (dc_add_restriction_entries_min (k, 0, NULL)); dc_putcontext (&k);
    if (below) { MUST (dc_add_restriction_entries_min (s, 0, NULL)); MUST (dc_finalize (&s)); }
    MUST (dc_mold_finalize (&m, &mold));
    MUST (dc_config_begin (mold, &c));
    if (there)
    {
        p = c; s = NULL;
        if (below) { MUST (dc_begin (c, DISIR_CONTEXT_SECTION, &s)); MUST (dc_set_name (s, "s", 1)); p = s; }
        k = ckv_begin (p, "v");
        if (have == 0) MUST (dc_set_value_string (k, "old", 3));
        if (have == 1) MUST (dc_set_value_integer (k, 5));
        if (have == 2) MUST (dc_set_value_float (k, 5));
        if (have == 3) MUST (dc_set_value_boolean (k, 1));
        if (have == 4) MUST (dc_set_value_enum (k, "aa", 2));
        MUST (dc_finalize (&k));
        if (below) MUST (dc_finalize (&s));
    }
    MUST (dc_config_finalize (&c, &cfg)); c = dc_config_getcontext (cfg);
    const char *q = below ? "s.v" : "v";
    switch (as)
    {
    case 0: st = high ? disir_config_set_keyval_string (cfg, text, q) : dc_config_set_keyval_string (c, text, q); break;
    case 1: st = high ? disir_config_set_keyval_integer (cfg, iv, q) : dc_config_set_keyval_integer (c, iv, q); break;
    case 2: st = high ? disir_config_set_keyval_float (cfg, fv, q) : dc_config_set_keyval_float (c, fv, q); break;
    case 3: st = high ? disir_config_set_keyval_boolean (cfg, bv, q) : dc_config_set_keyval_boolean (c, bv, q); break;
    default: st = high ? disir_config_set_keyval_enum (cfg, text, q) : dc_config_set_keyval_enum (c, text, q); break;
    }
    int ok = as == have && (as != 4 || goodenum);
    sx_assert ((st == OK) == ok, "set exactly when the type and value fit");
    if (as != have) sx_assert (st == DISIR_STATUS_WRONG_VALUE_TYPE, "of the wrong type");
    sx_reach (ok ? (there ? "set" : "created") : "refused");
    int want = there || ok;
    if (below)
    {
        sx_assert (count (c, "s") == want && count (c, NULL) == want, "the section is there exactly when needed");
        if (want) MUST (dc_find_element (c, "s", 0, &s));
    }
    if (want)
    {
        sx_assert (count (below ? s : c, "v") == 1, "one entry");
        MUST (dc_find_element (below ? s : c, "v", 0, &k));
        switch (have)
        {
        case 0: MUST (dc_get_value_string (k, &ot, &n)); sx_assert (n == (ok ? 2 : 3) && same_bytes (ot, ok ? text : "old", n), "the text"); break;
        case 1: MUST (dc_get_value_integer (k, &oi)); sx_assert (oi == (ok ? iv : 5), "the number"); break;
        case 2: MUST (dc_get_value_float (k, &of)); sx_assert (d2bits (of) == d2bits (ok ? fv : 5.0) || (of != of && fv != fv), "the number"); break;
        case 3: MUST (dc_get_value_boolean (k, &ob)); sx_assert (ob == (ok ? bv : 1), "the boolean"); break;
        default: MUST (dc_get_value_enum (k, &ot, &n)); sx_assert (n == 2 && same_bytes (ot, ok ? "bb" : "aa", 2), "the choice"); break;
        }
        dc_putcontext (&k);
    }
    else sx_assert (count (c, "v") == 0 && count (c, NULL) == 0, "nothing was created");
    if (s) dc_putcontext (&s);
    (void) i; (void) r; (void) t;
#elif defined LIMITS
    /* the limit in force at the version of the configuration */
    struct disir_version v1 = V (sx_u32 ("since"), 0), v2 = V (sx_u32 ("since"), 0), cv = V (sx_u32 ("config"), 0), top = V (0xffffffffu, 0xffffffffu);
    int kind = sx_pick (3, "of"), m1 = 1 + sx_pick (3, "max"), m2 = 1 + sx_pick (3, "max"), max; char q[8];
    sx_assume (v1.sv_major >= 1 && v2.sv_major > v1.sv_major && cv.sv_major >= 1);
    CTX *e;
    if (kind == 0) e = kv_of (m, "e", INT, NULL);
    else
    {
        e = section_of (m, "e");
        k = kv_of (e, "k", INT, NULL); MUST (dc_add_restriction_entries_min (k, 0, NULL)); dc_putcontext (&k);
        if (kind == 2) { t = section_of (e, "t"); k = kv_of (t, "k", INT, NULL); MUST (dc_add_restriction_entries_min (k, 0, NULL)); dc_putcontext (&k); MUST (dc_add_restriction_entries_min (t, 0, NULL)); MUST (dc_finalize (&t)); }
    }
    MUST (dc_add_restriction_entries_min (e, 0, NULL));
    MUST (dc_add_restriction_entries_max (e, m1, &v1)); MUST (dc_add_restriction_entries_max (e, m2, &v2));
    if (kind) MUST (dc_finalize (&e)); else dc_putcontext (&e);
    MUST (dc_set_version (m, &top));
    MUST (dc_mold_finalize (&m, &mold));
    MUST (dc_config_begin (mold, &c));
    MUST (dc_set_version (c, &cv));
    max = DECIDE (vle (v2, cv)) ? m2 : DECIDE (vle (v1, cv)) ? m1 : 1;
    for (i = 0; i < 4; i++)
    {
        strcpy (q, kind == 0 ? "e@0" : kind == 1 ? "e@0.k" : "e@0.t.k"); q[2] += i;
        st = dc_config_set_keyval_integer (c, 40 + i, q);
        if (i < max) { sx_assert (st == OK, "within the limit"); sx_reach ("created"); }
        else { sx_assert (st == DISIR_STATUS_RESTRICTION_VIOLATED, "past the limit"); sx_reach ("refused"); break; }
    }
    sx_assert (count (c, "e") == i && count (c, NULL) == i, "as many as were admitted");
    MUST (dc_config_finalize (&c, &cfg)); c = dc_config_getcontext (cfg);
    (void) r;
#elif defined FILLED
    /* a section that comes with sections of its own: what a refused query has begun to build is taken back */
    int umin = 1 + sx_pick (2, "required"), umax = sx_pick (4, "at most"), ns = sx_pick (3, "sections"), pi = sx_pick (4, "s"), pj = sx_pick (4, "u"), pl = sx_pick (3, "k"), other = sx_pick (3, "name"), j, made = 0, ok; char q[32]; int64_t v = sx_i64 ("value");
    sx_assume (umax == 0 || umax >= umin); sx_assume (!other || (pl == 0 && umin == 1)); sx_assume (pl < 2 || ns < 2);
    s = section_of (m, "s"); t = section_of (s, "u");
    MUST (dc_add_keyval_integer (t, "d", 7, "doc", NULL, &k)); MUST (dc_add_restriction_entries_min (k, 1, NULL)); dc_putcontext (&k);
    k = kv_of (t, "k", INT, NULL); MUST (dc_add_restriction_value_range (k, 0, 100, "d", NULL, NULL)); MUST (dc_add_restriction_entries_min (k, 0, NULL)); MUST (dc_add_restriction_entries_max (k, 2, NULL)); dc_putcontext (&k);
    MUST (dc_add_restriction_entries_min (t, umin, NULL)); MUST (dc_add_restriction_entries_max (t, umax, NULL)); MUST (dc_finalize (&t));
    MUST (dc_add_restriction_entries_min (s, 0, NULL)); MUST (dc_add_restriction_entries_max (s, 2, NULL)); MUST (dc_finalize (&s));
    MUST (dc_mold_finalize (&m, &mold));
    MUST (dc_config_begin (mold, &c));
    for (i = 0; i < ns; i++)
    {
        s = NULL; MUST (dc_begin (c, DISIR_CONTEXT_SECTION, &s)); MUST (dc_set_name (s, "s", 1));
        for (j = 0; j < umin; j++)
        {
            t = NULL; MUST (dc_begin (s, DISIR_CONTEXT_SECTION, &t)); MUST (dc_set_name (t, "u", 1));
            k = ckv_begin (t, "d"); MUST (dc_set_value_integer (k, 20 + 2 * i + j)); MUST (dc_finalize (&k));
            MUST (dc_finalize (&t));
        }
        MUST (dc_finalize (&s));
    }
    MUST (dc_config_finalize (&c, &cfg)); c = dc_config_getcontext (cfg);
    strcpy (q, other == 2 ? "s@0.d@0.k@0" : other ? "s@0.u@0.x@0" : "s@0.u@0.k@0"); q[2] += pi; q[6] += pj; q[10] += pl;
    st = dc_config_set_keyval_integer (c, v, q);
    ok = !other && pi <= ns && pi < 2 && pj <= umin && (umax == 0 || pj < umax) && pl == 0 && DECIDE (v >= 0 && v <= 100);
    made = ok && pi == ns;
    sx_assert ((st == OK) == ok, "accepted exactly when it can be");
    if (!other && pi == ns && pi < 2 && pj == umin && pj == umax) sx_assert (st == DISIR_STATUS_RESTRICTION_VIOLATED, "past the limit");
    sx_reach (!ok ? "refused" : pj == umin || made ? "created" : "set");
    sx_assert (count (c, "s") == ns + made && count (c, NULL) == ns + made, "as many sections as there should be");
    for (i = 0; i < ns + made; i++)
    {
        int nu = umin + (ok && i == pi && pj == umin);
        MUST (dc_find_element (c, "s", i, &s));
        sx_assert (count (s, "u") == nu && count (s, NULL) == nu, "as many sections below");
        for (j = 0; j < nu; j++)
        {
            int here = ok && i == pi && j == pj;
            MUST (dc_find_element (s, "u", j, &t));
            sx_assert (count (t, "k") == here && count (t, NULL) == here + 1 && count (t, "d") == 1, "with what belongs in it");
            sx_assert (int_of (t, "d", 0) == (i < ns && j < umin ? 20 + 2 * i + j : 7), "what was there is kept, what came new has its default");
            if (here) sx_assert (int_of (t, "k", 0) == v, "and what was set");
            dc_putcontext (&t);
        }
        dc_putcontext (&s);
    }
    sx_assert (disir_config_valid (cfg, NULL) == OK, "the configuration stays valid");
    (void) r;
#elif defined LONGQ
    /* the text of a query is limited, never cut */
    int shape = sx_pick (4, "shape"), len = 2030 + (int) sx_concretize (sx_range (0, 40, "length")), z, ok; char *q = malloc (len + 1);
    static char zeros[2100];
    s = section_of (m, "s");
    k = kv_of (s, "k", INT, NULL); MUST (dc_add_restriction_entries_min (k, 0, NULL)); dc_putcontext (&k);
    MUST (dc_add_restriction_entries_min (s, 0, NULL)); MUST (dc_finalize (&s));
    k = kv_of (m, "k", INT, NULL); MUST (dc_add_restriction_entries_min (k, 0, NULL)); dc_putcontext (&k);
    MUST (dc_mold_finalize (&m, &mold));
    MUST (dc_config_begin (mold, &c)); MUST (dc_config_finalize (&c, &cfg)); c = dc_config_getcontext (cfg);
    /* k@00..0, s@00..0.k, s.k@00..0, k<many letters> */
    strcpy (q, shape == 0 ? "k@" : shape == 1 ? "s@" : shape == 2 ? "s.k@" : "k"); z = (int) strlen (q);
    memset (q + z, shape == 3 ? 'k' : '0', len - z); q[len] = 0; if (shape == 1) { q[len - 2] = '.'; q[len - 1] = 'k'; }
    memset (zeros, '0', sizeof zeros);
    st = dc_config_set_keyval_integer (c, 5, q);
    if (len >= 2048 || shape == 3) { sx_assert (st != OK, "refused"); sx_assert (count (c, NULL) == 0, "and nothing made"); sx_reach ("refused"); ok = 0; }
    else { sx_assert (st == OK, "accepted"); ok = 1; sx_reach ("created"); }
    if (ok && (shape == 0)) { sx_assert (count (c, "k") == 1 && count (c, NULL) == 1 && int_of (c, "k", 0) == 5, "the value"); }
    if (ok && (shape == 1 || shape == 2)) { MUST (dc_find_element (c, "s", 0, &s)); sx_assert (count (c, NULL) == 1 && count (s, NULL) == 1 && int_of (s, "k", 0) == 5, "the value"); dc_putcontext (&s); }
    free (q); (void) r; (void) i; (void) t;
#else
    mold_level (m);
    s = section_of (m, "s"); mold_level (s);
    t = section_of (s, "t");
    k = kv_of (t, "k", INT, NULL); MUST (dc_add_restriction_entries_min (k, 0, NULL)); MUST (dc_add_restriction_entries_max (k, 2, NULL)); dc_putcontext (&k);
    MUST (dc_add_restriction_entries_min (t, 0, NULL)); MUST (dc_add_restriction_entries_max (t, 1, NULL)); MUST (dc_finalize (&t));
    MUST (dc_add_restriction_entries_min (s, 0, NULL)); MUST (dc_add_restriction_entries_max (s, 2, NULL)); MUST (dc_finalize (&s));
    MUST (dc_mold_finalize (&m, &mold));
    MUST (dc_config_begin (mold, &c));
    k = ckv_begin (c, "d"); MUST (dc_set_value_integer (k, 9)); MUST (dc_finalize (&k)); root.nd = 1; root.d[0] = 9;
    k = ckv_begin (c, "k"); MUST (dc_set_value_integer (k, 10)); MUST (dc_finalize (&k)); root.nk = 1; root.k[0] = 10;
    root.ns =
#if defined REL
      1 +
#endif
#if STEPS > 1 || defined TEXT || defined INDEX
      sx_pick (2, "sections");
#elif defined REL
      0;
#else
      sx_pick (3, "sections");
#endif
    for (i = 0; i < root.ns; i++)
    {
        s = NULL; MUST (dc_begin (c, DISIR_CONTEXT_SECTION, &s)); MUST (dc_set_name (s, "s", 1));
        k = ckv_begin (s, "d"); MUST (dc_set_value_integer (k, 20 + i)); MUST (dc_finalize (&k)); sec[i].nd = 1; sec[i].d[0] = 20 + i;
        if (!i)
        {
            k = ckv_begin (s, "k"); MUST (dc_set_value_integer (k, 30)); MUST (dc_finalize (&k)); sec[i].nk = 1; sec[i].k[0] = 30;
            t = NULL; MUST (dc_begin (s, DISIR_CONTEXT_SECTION, &t)); MUST (dc_set_name (t, "t", 1));
            k = ckv_begin (t, "k"); MUST (dc_set_value_integer (k, 40)); MUST (dc_finalize (&k)); sec[i].nt = 1; sec[i].tnk = 1; sec[i].tka[0] = 40;
            MUST (dc_finalize (&t));
        }
        MUST (dc_finalize (&s));
    }
    MUST (dc_config_finalize (&c, &cfg)); c = dc_config_getcontext (cfg);
    struct comp p[4]; int64_t v; int n;
#if defined TEXT || defined INDEX
    char q[40];
#ifndef PREFIX
#define PREFIX ""
#endif
#if defined TEXT
    strcpy (q, PREFIX);
    sx_string (q + strlen (q), LEN, "kwst.@012-", "text");
    n = parse (q, p);
    sx_assume (n != -2);
#else
    /* s@<digits>.w or k@<digits> */
    static const int digits[] = { 1, 2, 3, 9, 10 };
    int shape = sx_pick (2, "shape"), nd = digits[sx_pick (5, "digits")], z; uint64_t x = 0;
    int minus = sx_pick (2, "minus");
    strcpy (q, shape ? "s@" : "k@"); z = 2;
    if (minus) q[z++] = '-';
    for (i = 0; i < nd; i++) { uint8_t d = sx_u8 ("digit"); sx_assume (d >= '0' && d <= '9'); q[z++] = (char) d; x = x * 10 + (d - '0'); }
    q[z] = 0;
    if (minus) sx_assume (x != 0); /* -0 is left open */
    if (shape) strcat (q, ".w");
    p[0].name = shape ? 's' : 'k';
    p[0].idx = minus ? 100 : DECIDE (x == 0) ? 0 : DECIDE (x == 1) ? 1 : DECIDE (x == 2) ? 2 : 100;
    p[1].name = 'w'; p[1].idx = 0;
    n = 1 + shape;
#endif
    v = 50;
    st = dc_config_set_keyval_integer (c, v, q);
    r = n > 0 ? apply (p, n, v) : 0;
    sx_assert ((st == OK) == (r != 0), "accepted exactly when it can be");
    sx_reach (r == 0 ? "refused" : r == 1 ? "set" : "created");
    same_state (c);
#else
    static const char nm[] = { 'k', 'w', 's', 't', 'x', 'd' };
    char q[24]; int step, z, limit; CTX *from;
    for (step = 0; step < STEPS; step++)
    {
#if STEPS > 1
        static const char *qs[] = { "k", "k@1", "k@2", "w", "w@1", "s.w", "s@1.w", "s@1.k", "s@1.k@1", "s@2.k", "s@1.t.k", "s.t.k@1", "s.t@1.k", "s@1.x", "s@1.t.x" };
        n = sx_pick (
#ifdef FEW
        11
#else
        15
#endif
        , "query");
        strcpy (q, qs[n]);
        n = parse (q, p);
#else
        n = 1 + sx_pick (3, "components"); z = 0;
        for (i = 0; i < n; i++)
        {
            if (i) q[z++] = '.';
            p[i].name = i == 2 ? "kwx"[sx_pick (3, "name")] : i == 1 && n == 3 ? "tksx"[sx_pick (4, "name")] : nm[sx_pick (6, "name")];
            q[z++] = p[i].name;
            p[i].idx = sx_pick (i == 0 ? 4 : i == 1 && n == 3 ? 2 : 3, "index");
            q[z++] = '@'; q[z++] = '0' + p[i].idx;
        }
        q[z] = 0;
#endif
        v = sx_i64 ("value");
        from = c;
#if defined REL
        /* relative to the first section */
        MUST (dc_find_element (c, "s", 0, &from));
        st = dc_config_set_keyval_integer (from, v, q);
        dc_putcontext (&from);
        for (i = n; i > 0; i--) p[i] = p[i - 1];
        p[0].name = 's'; p[0].idx = 0; n++;
#elif defined HIGH
        st = disir_config_set_keyval_integer (cfg, v, q);
#else
        st = dc_config_set_keyval_integer (from, v, q);
#endif
        r = apply (p, n, v);
        sx_assert ((st == OK) == (r != 0), "accepted exactly when it can be");
        sx_reach (r == 0 ? "refused" : r == 1 ? "set" : "created");
        same_state (c);
    }
    (void) from; (void) limit; (void) nm; (void) z;
#endif
#endif
    sx_assert (disir_config_valid (cfg, NULL) == OK, "still a valid configuration");
    dc_putcontext (&c);
    MUST (disir_config_finished (&cfg));
    MUST (disir_mold_finished (&mold));
    sx_assert (sx_live_heap () == 0, "nothing is kept");
}
