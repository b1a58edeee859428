// sx-case: name=lookup reach=older,newest,all_newer
// sx-case: name=manual -DMANUAL reach=older,newest,all_newer
// sx-case: name=set_default -DSETDEF reach=older,newest,all_newer
// sx-case: name=generate -DGENERATE reach=older,newest
// sx-case: name=types -DTYPES reach=older
// sx-case: name=same -DSAME reach=same
// sx-case: name=destroyed -DDESTROY reach=destroyed
// sx-case: name=lookup_four -DNM=4 reach=older,newest,all_newer tier=thorough time=1200
// sx-case: name=generate_three -DGENERATE -DNM=3 reach=older,newest tier=thorough time=1200
// sx-case: name=same_three -DSAME -DNM=3 reach=same tier=thorough time=1200
// sx-bound: up to 3 (generate, same: 2; thorough 4 resp. 3) defaults of distinct values with any distinct 32 bit introduction versions in any order; any queried version or none
#include "h.h"
#ifndef NM
#if defined GENERATE || defined SAME
#define NM 2
#else
#define NM 3
#endif
#endif
/* is default i the one that must be effective? (branch free) */
static int effective (int i, int nd, struct disir_version *in, int none, struct disir_version q)
{
    int any = 0, top = 1, low = 1;
    for (int j = 0; j < nd; j++)
    {
        int act = none ? 1 : vle (in[j], q);
        any |= act;
        top &= !act | vle (in[j], in[i]);
        low &= vle (in[i], in[j]);
    }
    int act = none ? 1 : vle (in[i], q);
    int all = 1;
    for (int j = 0; j < nd; j++) all &= vle (in[j], in[i]);
    if (!any) sx_reach ("all_newer");
    else if (all) sx_reach ("newest");
    else sx_reach ("older");
    return (any & act & top) | (!any & low);
}
void harness (void)
{
    CTX *m = NULL, *kv = NULL, *ckv = NULL, *c = NULL, *d = NULL;
    struct disir_mold *mold = NULL; struct disir_config *cfg = NULL;
    char out[16]; int32_t n;
    struct disir_version in[4], top = V (0xffffffffu, 0xffffffffu);
    CTX *dc[4] = { NULL, NULL, NULL, NULL };
    sx_fmt_abstract = 1;
    int nd = 1 + sx_pick (NM, "count");
    MUST (dc_mold_begin (&m));
    MUST (dc_begin (m, DISIR_CONTEXT_KEYVAL, &kv));
    MUST (dc_set_name (kv, "k", 1));
#ifdef TYPES
    static const enum disir_value_type types[5] = { STR, INT, FLT, BOO, ENU };
    enum disir_value_type t = types[sx_pick (5, "type")];
    MUST (dc_set_value_type (kv, t));
#else
    MUST (dc_set_value_type (kv, INT));
#endif
    int dup = 0;
    for (int i = 0; i < nd; i++)
    {
        in[i] = sx_version (0, "introduced");
#ifdef GENERATE
        sx_assume (in[i].sv_major >= 1);
#endif
        int same = 0;
        for (int j = 0; j < i; j++) same |= veq (in[i], in[j]);
#ifdef SAME
        if (same) { same = 1; dup = 1; } else same = 0;
#else
        sx_assume (!same);
#endif
        ST want = same ? DISIR_STATUS_INVALID_CONTEXT : OK;
#if defined MANUAL || defined DESTROY
        MUST (dc_begin (kv, DISIR_CONTEXT_DEFAULT, &dc[i]));
        if (sx_pick (2, "value first")) { MUST (dc_set_value_integer (dc[i], 10 * (i + 1))); MUST (dc_add_introduced (dc[i], &in[i])); }
        else { MUST (dc_add_introduced (dc[i], &in[i])); MUST (dc_set_value_integer (dc[i], 10 * (i + 1))); }
        MUST (dc_finalize_keep_reference (dc[i]));
#elif defined TYPES
        switch (t)
        {
        case INT: MUST (dc_add_default_integer (kv, i + 1, &in[i])); break;
        case FLT: MUST (dc_add_default_float (kv, i + 1, &in[i])); break;
        case BOO: MUST (dc_add_default_boolean (kv, i == 1, &in[i])); break;
        default: { char b[4] = { 'e', '1' + i, 0 }; MUST (dc_add_default_string (kv, b, 2, &in[i])); }
        }
#else
        sx_assert (dc_add_default_integer (kv, 10 * (i + 1), &in[i]) == want, "adding a default");
#endif
    }
#ifdef DESTROY
    /* a destroyed default is no longer effective */
    sx_reach ("destroyed");
    int gone = sx_pick (nd, "gone");
    MUST (dc_destroy (&dc[gone]));
    if (sx_pick (2, "keyval first"))
    {
        MUST (dc_destroy (&kv));
        for (int i = 0; i < nd; i++) if (dc[i]) MUST (dc_destroy (&dc[i]));
        MUST (dc_mold_finalize (&m, &mold));
        disir_mold_finished (&mold);
        sx_assert (sx_live_heap () == 0, "everything released");
        return;
    }
    for (int i = gone; i < nd - 1; i++) { in[i] = in[i + 1]; dc[i] = dc[i + 1]; }
    nd--;
#define VALUE(i) (10 * ((i) + 1 + ((i) >= gone)))
    if (!nd)
    {
        sx_assert (dc_get_default (kv, NULL, sizeof out, out, &n) == DISIR_STATUS_DEFAULT_MISSING, "no default left");
        MUST (dc_add_default_integer (kv, 10, NULL));
        in[0] = V (1, 0); dc[0] = NULL; nd = 1; gone = 9;
    }
#else
#define VALUE(i) (10 * ((i) + 1))
#endif
    /* listed in order of introduction */
    {
        struct disir_collection *col; CTX *x; int k = 0; struct disir_version prev = V (0, 0), v;
        MUST (dc_get_default_contexts (kv, &col));
        sx_assert (dc_collection_size (col) == (unsigned) nd, "all listed");
        while (dc_collection_next (col, &x) == OK)
        {
            MUST (dc_get_introduced (x, &v));
            sx_assert (k == 0 || vle (prev, v), "listed by introduction");
            prev = v; k++;
            dc_putcontext (&x);
        }
        sx_assert (k == nd, "each listed once");
        dc_collection_finished (&col);
    }
    for (int i = 0; i < nd; i++) if (dc[i]) dc_putcontext (&dc[i]);
    MUST (dc_add_documentation (kv, "d", 1));
#ifdef SAME
    ST s = dc_finalize (&kv);
    sx_assert (s == (dup ? DISIR_STATUS_INVALID_CONTEXT : OK), "same introduction twice makes the keyval invalid");
    if (dup) sx_reach ("same");
    if (kv) dc_putcontext (&kv);
    s = dc_mold_finalize (&m, &mold);
    sx_assert (s == (dup ? DISIR_STATUS_INVALID_CONTEXT : OK), "and the mold");
    if (mold) disir_mold_finished (&mold);
    else MUST (dc_destroy (&m));
    sx_assert (sx_live_heap () == 0, "everything released");
    return;
#endif
    /* reference */
    struct disir_version q = sx_version (0, "query");
    int none = 0;
#ifdef GENERATE
    sx_assume (q.sv_major >= 1);
#else
    none = sx_pick (2, "no version");
#endif
#ifdef TYPES
    static const char *txt[5][3] = { { "e1", "e2", "e3" }, { "1", "2", "3" }, { "1.", "2.", "3." }, { "False", "True", "False" }, { "e1", "e2", "e3" } };
    int ti = t == STR ? 0 : t == INT ? 1 : t == BOO ? 3 : t == ENU ? 4 : 2;
    MUST (dc_get_default (kv, none ? NULL : &q, sizeof out, out, &n));
    int right = 0;
    for (int i = 0; i < nd; i++)
        if (t == FLT ? !strncmp (out, txt[ti][i], 2) : !strcmp (out, txt[ti][i]))
            right |= effective (i, nd, in, none, q);
    sx_assert (right, "effective default");
#else
    MUST (dc_get_default (kv, none ? NULL : &q, sizeof out, out, &n));
    int best = -1;
    for (int i = 0; i < nd; i++)
        if (n == 2 && out[0] == '0' + VALUE (i) / 10 && out[1] == '0' && out[2] == 0) best = i;
    sx_assert (best >= 0, "one of the defaults");
    sx_assert (effective (best, nd, in, none, q), "effective default");
#endif
    MUST (dc_finalize (&kv));
    MUST (dc_set_version (m, &top));
    MUST (dc_mold_finalize (&m, &mold));
#ifdef SETDEF
    MUST (dc_config_begin (mold, &c));
    MUST (dc_set_version (c, &top));
    ckv = ckv_begin (c, "k");
    MUST (dc_keyval_set_default (ckv, none ? NULL : &q));
    int64_t iv = 0;
    MUST (dc_get_value_integer (ckv, &iv));
    sx_assert (iv == VALUE (best), "value set to the effective default");
    MUST (dc_get_default (ckv, none ? NULL : &q, sizeof out, out, &n));
    sx_assert (out[0] == '0' + VALUE (best) / 10 && out[2] == 0, "default through the configuration");
    MUST (dc_finalize (&ckv));
    MUST (dc_config_finalize (&c, &cfg));
#endif
#ifdef GENERATE
    MUST (disir_generate_config_from_mold (mold, &q, &cfg));
    c = dc_config_getcontext (cfg);
    ST fs = dc_find_element (c, "k", 0, &ckv);
    int all_newer = 1;
    for (int i = 0; i < nd; i++) all_newer &= vlt (q, in[i]);
    if (all_newer)
        sx_assert (fs == DISIR_STATUS_NOT_EXIST, "not introduced yet: absent");
    else
    {
        int64_t iv = 0;
        sx_assert (fs == OK, "present");
        MUST (dc_get_value_integer (ckv, &iv));
        sx_assert (iv == VALUE (best), "generated with the effective default");
        dc_putcontext (&ckv);
    }
    dc_putcontext (&c);
#endif
    if (cfg) disir_config_finished (&cfg);
    (void) d; (void) ckv;
    disir_mold_finished (&mold);
    sx_assert (sx_live_heap () == 0, "everything released");
}
