// sx-case: name=one -DONE reach=kept,adopted,lucky,conflict
// sx-case: name=types -DONE -DTYPES reach=kept,adopted,lucky,conflict
// sx-case: name=refusals -DREFUSE reach=older,same,newest,beyond
// sx-case: name=several -DSEVERAL reach=conflict,clean
// sx-case: name=entries -DENTRIES reach=clean,conflict
// sx-case: name=appearing -DAPPEAR reach=appeared,vanished
// sx-case: name=restricted -DRESTR reach=kept,conflict
// sx-case: name=abandoned -DSEVERAL -DABANDON reach=conflict,clean
// sx-case: name=one_three -DONE -DND=3 reach=kept,adopted,lucky,conflict tier=thorough time=900
// sx-bound: any 64 bit user values and defaults, any 32 bit versions (some differing in the major number only), up to 2 (thorough 3) defaults; one keyval of each type, four keyvals in the root, two sections and a section below; up to 3 entries; resolution by the user's value, the mold's or another
#ifndef TYPES
#define VER_ANY
#endif
#include "h.h"
#ifndef ND
#define ND 2
#endif
#define ver sx_ver
static CTX *kv_begin (CTX *p, const char *name, enum disir_value_type t)
{
    CTX *k = NULL;
    MUST (dc_begin (p, DISIR_CONTEXT_KEYVAL, &k));
    MUST (dc_set_name (k, name, strlen (name)));
    MUST (dc_set_value_type (k, t));
    return k;
}
static int64_t int_of (CTX *p, const char *name, int i)
{
    CTX *k = NULL; int64_t v = 0;
    MUST (dc_find_element (p, name, i, &k));
    MUST (dc_get_value_integer (k, &v));
    dc_putcontext (&k);
    return v;
}
static void set_int (CTX *p, const char *name, int i, int64_t v)
{
    CTX *k = NULL;
    MUST (dc_find_element (p, name, i, &k));
    MUST (dc_set_value_integer (k, v));
    dc_putcontext (&k);
}
static int count (CTX *p, const char *name)
{
    struct disir_collection *col = NULL; int n = 0;
    ST s = name ? dc_find_elements (p, name, &col) : dc_get_elements (p, &col);
    if (s == OK) { n = dc_collection_size (col); dc_collection_finished (&col); }
    return n;
}
static void same_version (struct disir_config *cfg, struct disir_version want)
{
    struct disir_version got = V (77, 77);
    MUST (dc_config_get_version (cfg, &got));
    sx_assert (veq (got, want), "at the target version");
}
/* the effective default among n */
static int effective (struct disir_version *v, int n, struct disir_version q)
{
    int e = -1, o = 0;
    for (int i = 0; i < n; i++)
    {
        if (i && DECIDE (vlt (v[i], v[o]))) o = i;
        if (DECIDE (vle (v[i], q)) && (e < 0 || DECIDE (vlt (v[e], v[i])))) e = i;
    }
    return e < 0 ? o : e;
}
void harness (void)
{
    CTX *m = NULL, *k = NULL, *s = NULL, *t = NULL, *c = NULL, *o = NULL; struct disir_mold *mold = NULL; struct disir_config *cfg = NULL, *out = NULL; struct disir_update *up = NULL;
    struct disir_version top = V (0xffffffffu, 0xffffffffu), q0, q1; ST st;
    const char *name = NULL, *mine = NULL, *theirs = NULL;
    sx_fmt_abstract = 1;
    MUST (dc_mold_begin (&m));
#if defined ONE
    struct disir_version v[ND]; int64_t d[ND], u = 0; enum disir_value_type ty = INT;
    static const char *txt[3] = { "aa", "bbb", "cc" };
#ifdef TYPES
    static const enum disir_value_type tys[4] = { STR, FLT, BOO, ENU };
    ty = tys[sx_pick (4, "type")];
#endif
    k = kv_begin (m, "k", ty);
    for (int i = 0; i < ND; i++)
    {
        v[i] = ver ("since", 1);
        for (int j = 0; j < i; j++) sx_assume (!veq (v[i], v[j]));
        d[i] = ty == INT ? sx_i64 ("default") : sx_pick (ty == BOO ? 2 : 3, "default");
        if (ty == INT) MUST (dc_add_default_integer (k, d[i], &v[i]));
        else if (ty == FLT) MUST (dc_add_default_float (k, 0.25 * d[i], &v[i]));
        else if (ty == BOO) MUST (dc_add_default_boolean (k, d[i], &v[i]));
        else MUST (dc_add_default_string (k, txt[d[i]], strlen (txt[d[i]]), &v[i]));
    }
    if (ty == ENU) for (int i = 0; i < 3; i++) MUST (dc_add_restriction_value_enum (k, txt[i], "d", NULL, NULL));
    MUST (dc_finalize (&k));
    MUST (dc_set_version (m, &top));
    MUST (dc_mold_finalize (&m, &mold));
    q0 = ver ("from", 1); q1 = ver ("to", 1);
    sx_assume (vlt (q0, q1));
    int any = 0;
    for (int i = 0; i < ND; i++) any |= vle (v[i], q0);
    sx_assume (any);
    MUST (disir_generate_config_from_mold (mold, &q0, &cfg));
    c = dc_config_getcontext (cfg);
    u = ty == INT ? sx_i64 ("value") : sx_pick (ty == BOO ? 2 : 3, "value");
    MUST (dc_find_element (c, "k", 0, &k));
    if (ty == INT) MUST (dc_set_value_integer (k, u));
    else if (ty == FLT) MUST (dc_set_value_float (k, 0.25 * u));
    else if (ty == BOO) MUST (dc_set_value_boolean (k, u));
    else if (ty == STR) MUST (dc_set_value_string (k, txt[u], strlen (txt[u])));
    else MUST (dc_set_value_enum (k, txt[u], strlen (txt[u])));
    dc_putcontext (&k);
    dc_putcontext (&c);
    int e0 = effective (v, ND, q0), e1 = effective (v, ND, q1);
    int changed = DECIDE (vlt (q0, v[e1]));
    int64_t want = 0; int conflict = 0;
    if (!changed) { want = u; sx_reach ("kept"); }
    else if (DECIDE (u == d[e1])) { want = d[e1]; sx_reach ("lucky"); }
    else if (DECIDE (u == d[e0])) { want = d[e1]; sx_reach ("adopted"); }
    else { conflict = 1; sx_reach ("conflict"); }
    st = disir_update_config (cfg, &q1, &up);
    sx_assert (st == (conflict ? DISIR_STATUS_CONFLICT : OK), "conflict iff both changed");
    sx_assert (up != NULL, "update begun");
    if (conflict)
    {
        MUST (disir_update_conflict (up, &name, &mine, &theirs));
        sx_assert (!strcmp (name, "k"), "the keyval in conflict");
        if (ty == STR || ty == ENU) sx_assert (!strcmp (mine, txt[u]) && !strcmp (theirs, txt[d[e1]]), "alternatives");
        if (ty == BOO) sx_assert (!strcmp (mine, u ? "True" : "False") && !strcmp (theirs, d[e1] ? "True" : "False"), "alternatives");
        sx_assert (disir_update_continue (up) == DISIR_STATUS_CONFLICT, "still unresolved");
        const char *r = NULL;
        switch (ty)
        {
        case INT: r = "4711"; want = 4711; break;
        case FLT: r = "0.75"; want = 3; break;
        default: { int w = sx_pick (2, "resolution"); r = w ? mine : theirs; want = w ? u : d[e1]; }
        }
        MUST (disir_update_resolve (up, r));
        sx_assert (disir_update_conflict (up, &name, &mine, &theirs) == DISIR_STATUS_NO_CAN_DO, "resolved");
        sx_assert (disir_update_resolve (up, "1") == DISIR_STATUS_NO_CAN_DO, "nothing to resolve");
        MUST (disir_update_continue (up));
    }
    else
    {
        sx_assert (disir_update_conflict (up, &name, &mine, &theirs) == DISIR_STATUS_NO_CAN_DO, "no conflict");
        sx_assert (disir_update_resolve (up, "1") == DISIR_STATUS_NO_CAN_DO, "nothing to resolve");
    }
    MUST (disir_update_finished (&up, &out));
    sx_assert (up == NULL && out != NULL, "the updated configuration");
    same_version (out, q1);
    c = dc_config_getcontext (out);
    sx_assert (count (c, NULL) == 1, "one element");
    MUST (dc_find_element (c, "k", 0, &k));
    int64_t a = 0; double f = 0; uint8_t b = 9; const char *z = NULL; int32_t zn = 0;
    switch (ty)
    {
    case INT: MUST (dc_get_value_integer (k, &a)); sx_assert (a == want, "value"); break;
    case FLT: MUST (dc_get_value_float (k, &f)); sx_assert (f == 0.25 * want, "value"); break;
    case BOO: MUST (dc_get_value_boolean (k, &b)); sx_assert (b == want, "value"); break;
    case STR: MUST (dc_get_value_string (k, &z, &zn)); sx_assert (!strcmp (z, txt[want]) && zn == strlen (txt[want]), "value"); break;
    default: MUST (dc_get_value_enum (k, &z, &zn)); sx_assert (!strcmp (z, txt[want]) && zn == strlen (txt[want]), "value");
    }
    dc_putcontext (&k); dc_putcontext (&c);
    sx_assert (disir_config_valid (out, NULL) == OK, "valid");
#elif defined REFUSE
    k = kv_of (m, "k", INT, NULL);
    dc_putcontext (&k);
    q1 = sx_version1 (0, "mold");
    MUST (dc_set_version (m, &q1));
    MUST (dc_mold_finalize (&m, &mold));
    q0 = sx_version (0, "from"); sx_assume (vle (q0, q1)); sx_assume (vkey (q0) >= vkey (V (1, 0)));
    MUST (disir_generate_config_from_mold (mold, &q0, &cfg));
    struct disir_version tv = sx_version (0, "target"); int given = sx_pick (2, "target given");
    if (!given) tv = q1;
    uint64_t before = sx_live_heap ();
    st = disir_update_config (cfg, given ? &tv : NULL, &up);
    if (DECIDE (vlt (tv, q0))) { sx_reach ("older"); sx_assert (st == DISIR_STATUS_CONFLICTING_SEMVER, "older than the configuration"); }
    else if (DECIDE (veq (tv, q0))) { sx_reach ("same"); sx_assert (st == DISIR_STATUS_NO_CAN_DO, "nothing to do"); }
    else if (DECIDE (vlt (q1, tv))) { sx_reach ("beyond"); sx_assert (st == DISIR_STATUS_CONFLICTING_SEMVER, "newer than the mold"); }
    else
    {
        sx_reach ("newest");
        sx_assert (st == OK && up != NULL, "updated");
        MUST (disir_update_finished (&up, &out));
        same_version (out, tv);
    }
    if (st != OK)
    {
        sx_assert (up == NULL && sx_live_heap () == before, "nothing begun");
        same_version (cfg, q0);
    }
#elif defined SEVERAL
    /* a; s{ b; t{ c } }; d: who changed what is arbitrary */
    static const char *nm[4] = { "a", "b", "c", "d" };
    int64_t d0[4], d1[4], u[4], want[4]; int ch[4], mine_ch[4];
    struct disir_version one = V (1, 0), two = V (2, 0), three = V (3, 0);
    for (int i = 0; i < 4; i++)
    {
        if (i == 1) s = section_of (m, "s");
        if (i == 2) t = section_of (s, "t");
        k = kv_begin (i == 1 ? s : i == 2 ? t : m, nm[i], INT);
        d0[i] = 10 + i; d1[i] = 20 + i; u[i] = sx_i64 ("value");
        ch[i] = sx_pick (2, "default changes");
        MUST (dc_add_default_integer (k, d0[i], &one));
        if (ch[i]) MUST (dc_add_default_integer (k, d1[i], &two));
        MUST (dc_finalize (&k));
        if (i == 2) { MUST (dc_finalize (&t)); MUST (dc_finalize (&s)); }
    }
    MUST (dc_set_version (m, &three));
    MUST (dc_mold_finalize (&m, &mold));
    MUST (disir_generate_config_from_mold (mold, &one, &cfg));
    c = dc_config_getcontext (cfg);
    MUST (dc_find_element (c, "s", 0, &s));
    MUST (dc_find_element (s, "t", 0, &t));
    int nc = 0, order[4];
    for (int i = 0; i < 4; i++)
    {
        mine_ch[i] = DECIDE (u[i] != d0[i]);
        set_int (i == 1 ? s : i == 2 ? t : c, nm[i], 0, u[i]);
        want[i] = !ch[i] ? u[i] : d1[i];
        if (ch[i] && mine_ch[i] && DECIDE (u[i] != d1[i])) order[nc++] = i;
    }
    dc_putcontext (&t); dc_putcontext (&s); dc_putcontext (&c);
    if (nc) sx_reach ("conflict"); else sx_reach ("clean");
    st = disir_update_config (cfg, NULL, &up);
    for (int i = 0; i < nc; i++)
    {
        sx_assert (st == DISIR_STATUS_CONFLICT, "reported");
#ifdef ABANDON
        if (sx_pick (2, "abandon")) break;
#endif
        MUST (disir_update_conflict (up, &name, &mine, &theirs));
        int w = -1;
        for (int j = 0; j < nc; j++) if (order[j] >= 0 && !strcmp (nm[order[j]], name)) w = j;
        sx_assert (w >= 0, "a keyval in conflict, once");
        want[order[w]] = 1001 + i;
        order[w] = -1;
        MUST (disir_update_resolve (up, i == 0 ? "1001" : i == 1 ? "1002" : i == 2 ? "1003" : "1004"));
        st = disir_update_continue (up);
    }
#ifdef ABANDON
    MUST (disir_update_finished (&up, NULL));
    sx_assert (up == NULL, "abandoned");
#else
    sx_assert (st == OK, "complete");
    MUST (disir_update_finished (&up, &out));
    same_version (out, three);
    c = dc_config_getcontext (out);
    MUST (dc_find_element (c, "s", 0, &s));
    MUST (dc_find_element (s, "t", 0, &t));
    sx_assert (count (c, NULL) == 3 && count (s, NULL) == 2 && count (t, NULL) == 1, "the same elements");
    for (int i = 0; i < 4; i++)
        sx_assert (int_of (i == 1 ? s : i == 2 ? t : c, nm[i], 0) == want[i], "value");
    dc_putcontext (&t); dc_putcontext (&s); dc_putcontext (&c);
    sx_assert (disir_config_valid (out, NULL) == OK, "valid");
#endif
#elif defined ENTRIES
    /* several entries of a keyval and of a section */
    struct disir_version one = V (1, 0), two = V (2, 0); int ch = sx_pick (2, "default changes");
    k = kv_begin (m, "k", INT); MUST (dc_add_default_integer (k, 5, &one)); if (ch) MUST (dc_add_default_integer (k, 6, &two));
    MUST (dc_add_restriction_entries_min (k, 1, NULL)); MUST (dc_add_restriction_entries_max (k, 3, NULL)); MUST (dc_finalize (&k));
    s = section_of (m, "s");
    MUST (dc_add_restriction_entries_min (s, 1, NULL)); MUST (dc_add_restriction_entries_max (s, 3, NULL));
    k = kv_begin (s, "b", INT); MUST (dc_add_default_integer (k, 5, &one)); MUST (dc_finalize (&k));
    MUST (dc_finalize (&s));
    MUST (dc_set_version (m, &two));
    MUST (dc_mold_finalize (&m, &mold));
    MUST (dc_config_begin (mold, &c));
    int nk = 1 + sx_pick (3, "keyvals"), ns = 1 + sx_pick (3, "sections"), nc = 0; int64_t uk[3], us[3];
    for (int i = 0; i < nk; i++) { uk[i] = sx_i64 ("value"); k = ckv_begin (c, "k"); MUST (dc_set_value_integer (k, uk[i])); MUST (dc_finalize (&k)); }
    for (int i = 0; i < ns; i++)
    {
        us[i] = sx_i64 ("value"); s = section_of (c, "s");
        k = ckv_begin (s, "b"); MUST (dc_set_value_integer (k, us[i])); MUST (dc_finalize (&k));
        MUST (dc_finalize (&s));
    }
    MUST (dc_config_finalize (&c, &cfg));
    int64_t want[3];
    for (int i = 0; i < nk; i++)
    {
        want[i] = ch && DECIDE (uk[i] == 5) ? 6 : uk[i];
        if (ch && DECIDE ((uk[i] != 5) & (uk[i] != 6))) { want[i] = 1001 + nc; nc++; }
    }
    if (nc) sx_reach ("conflict"); else sx_reach ("clean");
    st = disir_update_config (cfg, &two, &up);
    for (int i = 0; i < nc; i++)
    {
        sx_assert (st == DISIR_STATUS_CONFLICT, "reported");
        MUST (disir_update_resolve (up, i == 0 ? "1001" : i == 1 ? "1002" : "1003"));
        st = disir_update_continue (up);
    }
    sx_assert (st == OK, "complete");
    MUST (disir_update_finished (&up, &out));
    c = dc_config_getcontext (out);
    sx_assert (count (c, "k") == nk && count (c, "s") == ns && count (c, NULL) == nk + ns, "every entry is kept");
    for (int i = 0; i < nk; i++) sx_assert (int_of (c, "k", i) == want[i], "value of the entry");
    for (int i = 0; i < ns; i++)
    {
        MUST (dc_find_element (c, "s", i, &s));
        sx_assert (count (s, NULL) == 1 && int_of (s, "b", 0) == us[i], "value in the entry");
        dc_putcontext (&s);
    }
    dc_putcontext (&c);
    sx_assert (disir_config_valid (out, NULL) == OK, "valid");
#elif defined APPEAR
    /* old is gone and new is there at the target, in the root and in a section */
    struct disir_version one = V (1, 0), in = ver ("introduced", 1), de = ver ("deprecated", 2);
    int64_t u = sx_i64 ("value"), n = sx_i64 ("default");
    for (int i = 0; i < 2; i++)
    {
        CTX *p = i ? (s = section_of (m, "s")) : m;
        k = kv_begin (p, "old", INT); MUST (dc_add_default_integer (k, 5, &one)); MUST (dc_add_deprecated (k, &de)); MUST (dc_finalize (&k));
        k = kv_begin (p, "new", INT); MUST (dc_add_default_integer (k, n, &in)); MUST (dc_finalize (&k));
        k = kv_begin (p, "k", INT); MUST (dc_add_default_integer (k, 5, &one)); MUST (dc_finalize (&k));
        if (i) MUST (dc_finalize (&s));
    }
    MUST (dc_set_version (m, &top));
    MUST (dc_mold_finalize (&m, &mold));
    q1 = ver ("to", 2);
    MUST (disir_generate_config_from_mold (mold, &one, &cfg));
    c = dc_config_getcontext (cfg);
    MUST (dc_find_element (c, "s", 0, &s));
    for (int i = 0; i < 2; i++) { set_int (i ? s : c, "old", 0, u); set_int (i ? s : c, "k", 0, u); }
    dc_putcontext (&s); dc_putcontext (&c);
    int had = DECIDE (vle (in, one)), has = DECIDE (vle (in, q1)), gone = DECIDE (vle (de, q1));
    if (has && !had) sx_reach ("appeared");
    if (gone) sx_reach ("vanished");
    MUST (disir_update_config (cfg, &q1, &up));
    MUST (disir_update_finished (&up, &out));
    same_version (out, q1);
    c = dc_config_getcontext (out);
    MUST (dc_find_element (c, "s", 0, &s));
    for (int i = 0; i < 2; i++)
    {
        CTX *p = i ? s : c;
        sx_assert (count (p, "old") == !gone && count (p, "new") == has && count (p, "k") == 1, "elements of the target version");
        sx_assert (int_of (p, "k", 0) == u, "kept");
        if (!gone) sx_assert (int_of (p, "old", 0) == u, "kept");
        if (has) sx_assert (int_of (p, "new", 0) == n, "holds its default");
    }
    dc_putcontext (&s); dc_putcontext (&c);
    sx_assert (disir_config_valid (out, NULL) == OK, "valid");
#elif defined RESTR
    /* the target no longer permits every value */
    struct disir_version one = V (1, 0), two = V (2, 0); int64_t u = sx_i64 ("value");
    int sec = sx_pick (2, "in a section");
    CTX *p = m;
    if (sec) p = s = section_of (m, "s");
    k = kv_begin (p, "k", INT); MUST (dc_add_default_integer (k, 15, &one));
    MUST (dc_add_restriction_value_range (k, 10, 20, "d", &two, NULL));
    MUST (dc_finalize (&k));
    if (sec) MUST (dc_finalize (&s));
    MUST (dc_mold_finalize (&m, &mold));
    MUST (disir_generate_config_from_mold (mold, &one, &cfg));
    c = dc_config_getcontext (cfg);
    p = c;
    if (sec) { MUST (dc_find_element (c, "s", 0, &s)); p = s; }
    set_int (p, "k", 0, u);
    if (sec) dc_putcontext (&s);
    dc_putcontext (&c);
    int fits = DECIDE ((u >= 10) & (u <= 20));
    st = disir_update_config (cfg, NULL, &up);
    int64_t want = u;
    if (fits) { sx_reach ("kept"); sx_assert (st == OK, "kept"); }
    else
    {
        sx_reach ("conflict");
        sx_assert (st == DISIR_STATUS_CONFLICT, "a value the target refuses is a conflict");
        int64_t r = sx_range (0, 99, "resolution"); r = (int64_t) sx_concretize (r);
        char b[8]; b[0] = '0' + r / 10; b[1] = '0' + r % 10; b[2] = 0;
        st = disir_update_resolve (up, b);
        sx_assert ((st == OK) == (r >= 10 && r <= 20), "resolved iff permitted");
        if (st == OK) want = r;
        else
        {
            sx_assert (st == DISIR_STATUS_RESTRICTION_VIOLATED && disir_update_continue (up) == DISIR_STATUS_CONFLICT, "still a conflict");
            MUST (disir_update_resolve (up, "12")); want = 12;
        }
        MUST (disir_update_continue (up));
    }
    MUST (disir_update_finished (&up, &out));
    c = dc_config_getcontext (out);
    p = c;
    if (sec) { MUST (dc_find_element (c, "s", 0, &s)); p = s; }
    sx_assert (int_of (p, "k", 0) == want, "value");
    if (sec) dc_putcontext (&s);
    dc_putcontext (&c);
    sx_assert (disir_config_valid (out, NULL) == OK, "valid");
#endif
    if (out) disir_config_finished (&out);
    disir_config_finished (&cfg);
    disir_mold_finished (&mold);
    sx_assert (sx_live_heap () == 0, "everything released");
}
