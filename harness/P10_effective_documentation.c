// sx-case: name=mold -DPT=0 reach=older,newest,all_newer,same
// sx-case: name=keyval -DPT=1 reach=older,newest,all_newer,same
// sx-case: name=section -DPT=2 reach=older,newest,all_newer,same
// sx-case: name=restriction -DPT=3 reach=older,newest,all_newer,same
// sx-case: name=config -DPT=4 reach=older,newest,all_newer,same
// sx-case: name=keyval_four -DPT=1 -DNM=4 reach=older,newest,all_newer,same tier=thorough time=1500
// sx-case: name=mold_destroyed -DPT=0 -DDESTROY -DNM=2 reach=newest,all_newer,orphan
// sx-case: name=keyval_destroyed -DPT=1 -DDESTROY -DNM=2 reach=newest,all_newer,orphan
// sx-case: name=section_destroyed -DPT=2 -DDESTROY -DNM=2 reach=newest,all_newer,orphan
// sx-case: name=restriction_destroyed -DPT=3 -DDESTROY -DNM=2 reach=newest,all_newer,orphan
// sx-case: name=keyval_destroyed_three -DPT=1 -DDESTROY reach=older,newest,all_newer,orphan tier=thorough time=900
// sx-case: name=simple -DSIMPLE reach=simple
// sx-bound: 1 to 3 (keyval thorough: 4) documentations, begun together and finalized in any order, with any 32 bit introduction versions (equal ones included); one of them destroyed again or the parent destroyed before them (not for configurations); parent mold, keyval, section, restriction of a mold, or the configuration of the mold; any queried version or none
#include "h.h"
#ifndef NM
#define NM 3
#endif
static void sections (CTX *parent)
{
    CTX *d; const char *t = NULL; int32_t n = -1;
    char b[4]; int len = sx_string (b, 3, NULL, "text");
    int size = sx_pick (4, "size");
    ST s = dc_get_documentation (parent, NULL, &t, &n);
    sx_assert (s != OK && t == NULL, "no documentation yet");
    s = dc_add_documentation (parent, b, size);
    if (size == 0) { sx_assert (s == DISIR_STATUS_INVALID_ARGUMENT, "empty documentation refused"); return; }
    if (size > len) return;
    sx_assert (s == OK, "documentation added");
    MUST (dc_get_documentation (parent, NULL, &t, &n));
    sx_assert (n == size && same_bytes (t, b, size) && t[size] == 0, "documentation text as given");
    s = dc_add_documentation (parent, "x", 1);
    sx_assert (s == DISIR_STATUS_EXISTS, "a second simple documentation is refused");
    s = dc_begin (parent, DISIR_CONTEXT_DOCUMENTATION, &d);
    sx_assert (s == DISIR_STATUS_EXISTS, "and so is beginning one");
    MUST (dc_get_documentation (parent, NULL, &t, NULL));
    sx_assert (same_bytes (t, b, size) && t[size] == 0, "documentation unchanged");
    sx_reach ("simple");
}
void harness (void)
{
    CTX *m = NULL, *kv = NULL, *sec = NULL, *r = NULL, *parent, *c = NULL;
    struct disir_mold *mold = NULL; struct disir_config *cfg = NULL;
    sx_fmt_abstract = 1;
    MUST (dc_mold_begin (&m));
#ifdef SIMPLE
    int pt = sx_pick (4, "parent");
#else
    int pt = PT;
#endif
    parent = m;
    if (pt == 1 || pt == 3)
    {
        MUST (dc_begin (m, DISIR_CONTEXT_KEYVAL, &kv));
        MUST (dc_set_name (kv, "k", 1));
        MUST (dc_set_value_type (kv, INT));
        MUST (dc_add_default_integer (kv, 1, NULL));
        parent = kv;
    }
    if (pt == 2) parent = sec = section_of (m, "s");
    if (pt == 3)
    {
        MUST (dc_begin (kv, DISIR_CONTEXT_RESTRICTION, &r));
        MUST (dc_set_restriction_type (r, RRAN));
        MUST (dc_restriction_set_range (r, 1, 5));
        parent = r;
    }
#ifdef SIMPLE
    sections (parent);
#else
    static const char *txt[4] = { "d0", "d1", "d2", "d3" };
    CTX *d[4]; struct disir_version in[4]; int live[4] = { 0, 0, 0, 0 };
    int nd = 1 + sx_pick (NM, "count");
    for (int i = 0; i < nd; i++)
    {
        MUST (dc_begin (parent, DISIR_CONTEXT_DOCUMENTATION, &d[i]));
        in[i] = sx_version (0, "introduced");
        MUST (dc_set_value_string (d[i], txt[i], 2));
        MUST (dc_add_introduced (d[i], &in[i]));
    }
    int first = sx_pick (nd, "first finalized");
    for (int k = 0; k < nd; k++)
    {
        int i = (first + k) % nd, same = 0;
        for (int j = 0; j < nd; j++) if (live[j]) same |= veq (in[i], in[j]);
        if (same)
        {
            sx_reach ("same");
            sx_assert (dc_finalize (&d[i]) == DISIR_STATUS_CONFLICTING_SEMVER, "same introduction refused");
            sx_assert (d[i] != NULL, "handle kept");
            MUST (dc_destroy (&d[i]));
        }
        else
        {
#ifdef DESTROY
            MUST (dc_finalize_keep_reference (d[i]));
#else
            MUST (dc_finalize (&d[i]));
            sx_assert (d[i] == NULL, "handle taken");
#endif
            live[i] = 1;
        }
    }
#ifdef DESTROY
    /* a destroyed documentation is no longer effective */
    int gone = sx_pick (nd, "gone"), left = 0;
    if (live[gone]) { MUST (dc_destroy (&d[gone])); live[gone] = 0; d[gone] = NULL; }
    for (int i = 0; i < nd; i++) left += live[i];
    if (left == 0 || sx_pick (2, "parent first"))
    {
        /* the documentations outlive the destroyed parent as long as they are referenced */
        const char *x = NULL;
        if (left == 0) sx_assert (dc_get_documentation (parent, NULL, &x, NULL) != OK && x == NULL, "no documentation left");
        if (r) MUST (dc_destroy (&r));
        if (kv) MUST (dc_destroy (&kv));
        if (sec) MUST (dc_destroy (&sec));
        MUST (dc_destroy (&m));
        for (int i = 0; i < nd; i++) if (live[i]) MUST (dc_destroy (&d[i]));
        sx_assert (sx_live_heap () == 0, "everything released");
        sx_reach ("orphan");
        return;
    }
#endif
    if (pt == 4)
    {
        MUST (dc_mold_finalize (&m, &mold));
        MUST (dc_config_begin (mold, &c));
        parent = c;
    }
    struct disir_version q = sx_version (0, "query");
    int none = sx_pick (2, "no version");
    const char *t = NULL; int32_t n = -1;
    MUST (dc_get_documentation (parent, none ? NULL : &q, &t, &n));
    sx_assert (n == 2 && t[0] == 'd' && t[2] == 0, "one of the documentations");
    int b = t[1] - '0';
    sx_assert (b >= 0 && b < nd && live[b], "an accepted one");
    int any = 0, top = 1, low = 1, all = 1;
    for (int j = 0; j < nd; j++)
    {
        if (!live[j]) continue;
        int act = none ? 1 : vle (in[j], q);
        any |= act;
        top &= !act | vle (in[j], in[b]);
        low &= vle (in[b], in[j]);
        all &= vle (in[j], in[b]);
    }
    int act = none ? 1 : vle (in[b], q);
    sx_assert ((any & act & top) | (!any & low), "effective documentation");
    if (!any) sx_reach ("all_newer"); else if (all) sx_reach ("newest"); else sx_reach ("older");
#endif
#ifdef DESTROY
    for (int i = 0; i < nd; i++) if (live[i]) dc_putcontext (&d[i]);
#endif
    if (r) MUST (dc_finalize (&r));
    if (kv) { if (pt != 1) MUST (dc_add_documentation (kv, "x", 1)); if (dc_finalize (&kv) != OK) dc_putcontext (&kv); }
    if (sec) { if (dc_finalize (&sec) != OK && sec) dc_putcontext (&sec); }
    if (c) { MUST (dc_config_finalize (&c, &cfg)); disir_config_finished (&cfg); }
    if (m && dc_mold_finalize (&m, &mold) != OK && !mold) MUST (dc_destroy (&m));
    if (mold) disir_mold_finished (&mold);
    sx_assert (sx_live_heap () == 0, "everything released");
}
