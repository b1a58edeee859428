// sx-case: name=config_build -DCFG -DINIT=0 reach=destroyed,orphan,found,finished time=110
// sx-case: name=config_inner -DCFG -DINIT=1 reach=destroyed,orphan,found,finished time=110
// sx-case: name=config_tree -DCFG -DINIT=2 reach=destroyed,found,finished time=110
// sx-case: name=mold_default -DATTR=0 -DINIT=0 reach=destroyed,orphan,finished time=110
// sx-case: name=mold_restriction -DATTR=1 -DINIT=1 reach=destroyed,orphan,found,finished time=110
// sx-case: name=mold_documentation -DATTR=2 -DINIT=1 reach=destroyed,orphan,found,finished time=110
// sx-case: name=mold_tree -DATTR=0 -DINIT=2 reach=destroyed,found,finished time=110
// sx-bound: trees of a root, a section and a keyval (molds: and a default, restriction or documentation of the keyval) with up to two handles each, begun or finalized at first; every sequence of 3 (thorough 4) of: finalize, finalize keeping, put, destroy, lookup, finish the root, release the mold; every live handle used after each step
// sx-assume: a context is released with dc_destroy by who began it, or with dc_putcontext after it was finalized or looked up; what an operation on a context below a destroyed one returns is not specified unless it would attach it
#include "h.h"
#ifndef LEN
#if SX_TIER_THOROUGH
#define LEN 4
#else
#define LEN 3
#endif
#endif
enum { R, S, K, D, NN };
enum { ABSENT, BUILDING, TREE, GONE };
static struct disir_mold *mold; static struct disir_config *cfg;
static int state[NN]; static const int par[NN] = { -1, R, S, K };
static CTX *h[NN][2]; /* handles: begun, looked up */
static int finished, released;
#ifdef CFG
#define MOLD 0
#else
#define MOLD 1
#endif
static int orphan (int n) { for (n = par[n]; n >= 0; n = par[n]) if (state[n] == GONE) return 1; return 0; }
static void gone (int n)
{
    state[n] = GONE;
    for (int i = 0; i < NN; i++) if (par[i] == n && state[i] == TREE) gone (i);
}
static void use (int n, CTX *c)
{
    const char *t = NULL; int64_t v = 0; struct disir_collection *col = NULL; CTX *x = NULL; struct disir_version ver = V (1, 1); ST s; enum disir_restriction_type rt; int32_t sz;
    if (state[n] == GONE)
    {
        sx_reach ("destroyed");
        sx_assert (dc_context_valid (c) == DISIR_STATUS_DESTROYED_CONTEXT, "a destroyed context is reported");
        sx_assert (dc_get_name (c, &t, NULL) == DISIR_STATUS_DESTROYED_CONTEXT && !t, "a destroyed context is reported");
        sx_assert (dc_get_value_integer (c, &v) == DISIR_STATUS_DESTROYED_CONTEXT && !v, "a destroyed context is reported");
        sx_assert (dc_set_value_integer (c, 4) == DISIR_STATUS_DESTROYED_CONTEXT, "a destroyed context is reported");
        sx_assert (dc_set_name (c, "k", 1) == DISIR_STATUS_DESTROYED_CONTEXT, "a destroyed context is reported");
        sx_assert (dc_get_elements (c, &col) == DISIR_STATUS_DESTROYED_CONTEXT && !col, "a destroyed context is reported");
        sx_assert (dc_find_element (c, "k", 0, &x) == DISIR_STATUS_DESTROYED_CONTEXT && !x, "a destroyed context is reported");
        sx_assert (dc_find_elements (c, "k", &col) == DISIR_STATUS_DESTROYED_CONTEXT && !col, "a destroyed context is reported");
        sx_assert (dc_begin (c, DISIR_CONTEXT_KEYVAL, &x) == DISIR_STATUS_DESTROYED_CONTEXT && !x, "a destroyed context is reported");
        sx_assert (dc_finalize_keep_reference (c) == DISIR_STATUS_DESTROYED_CONTEXT, "a destroyed context is reported");
        sx_assert (dc_add_documentation (c, "d", 1) == DISIR_STATUS_DESTROYED_CONTEXT, "a destroyed context is reported");
        sx_assert (dc_get_introduced (c, &ver) == DISIR_STATUS_DESTROYED_CONTEXT, "a destroyed context is reported");
        sx_assert (dc_get_default (c, NULL, 0, NULL, NULL) == DISIR_STATUS_DESTROYED_CONTEXT, "a destroyed context is reported");
        return;
    }
    if (orphan (n)) { sx_reach ("orphan"); }
    s = dc_context_valid (c); (void) s;
    s = dc_get_name (c, &t, &sz); if (n == S || n == K) { if (!orphan (n)) { MUST (s); sx_assert (!strcmp (t, n == S ? "s" : "k"), "its name"); } }
    s = dc_get_value_integer (c, &v); if (MOLD == 0 && n == K && !orphan (n)) { MUST (s); sx_assert (v == 7, "its value"); }
    s = dc_get_introduced (c, &ver); s = dc_get_restriction_type (c, &rt);
    s = dc_find_elements (c, "k", &col); if (s == OK) dc_collection_finished (&col);
    if (n <= S) { s = dc_get_elements (c, &col); if (s == OK) { while (dc_collection_next (col, &x) == OK) { sx_assert (dc_context_valid (x) != DISIR_STATUS_DESTROYED_CONTEXT, "no destroyed context is listed"); dc_putcontext (&x); } dc_collection_finished (&col); } }
}
/* changes, tried on every handle at the end */
static void poke (int n, CTX *c)
{
    CTX *x = NULL; ST s; char *t = NULL; struct disir_version ver = V (1, 0); int alive = state[n] != GONE && !orphan (n);
    s = dc_begin (c, DISIR_CONTEXT_KEYVAL, &x); if (s == OK) { MUST (dc_destroy (&x)); } else sx_assert (!x, "no context is handed out");
    s = dc_begin (c, DISIR_CONTEXT_DEFAULT, &x); if (s == OK) { MUST (dc_destroy (&x)); } else sx_assert (!x, "no context is handed out");
    s = dc_begin (c, DISIR_CONTEXT_RESTRICTION, &x); if (s == OK) { s = dc_set_restriction_type (x, RMIN); MUST (dc_destroy (&x)); } else sx_assert (!x, "no context is handed out");
    s = dc_begin (c, DISIR_CONTEXT_DOCUMENTATION, &x); if (s == OK) { s = dc_add_introduced (x, &ver); MUST (dc_destroy (&x)); } else sx_assert (!x, "no context is handed out");
    s = dc_resolve_root_name (c, &t); if (s == OK) free (t);
    s = dc_set_name (c, n == S ? "s" : "k", 1); s = dc_set_value_integer (c, 7); if (!MOLD && n == K && alive) MUST (s);
    s = dc_add_introduced (c, &ver); s = dc_set_value_type (c, INT);
    s = dc_add_default_integer (c, 3, NULL); if (alive && MOLD && n == K && state[D] == ABSENT) sx_assert (s == OK || s == DISIR_STATUS_INVALID_CONTEXT || s == DISIR_STATUS_CONFLICTING_SEMVER || s == DISIR_STATUS_EXISTS, "a default is added");
    s = dc_query_resolve_context (c, "s.k", &x); if (s == OK) { if (!orphan (n)) sx_assert (state[K] == TREE, "an element of the tree"); MUST (dc_putcontext (&x)); }
    s = dc_find_element (c, "k", 0, &x); if (s == OK) MUST (dc_putcontext (&x));
    s = dc_add_documentation (c, "x", 1); s = dc_add_restriction_entries_min (c, 0, NULL); s = dc_generate_from_config_root (c);
}
static void fin (int n, int keep)
{
    CTX *c = h[n][0]; ST s; int was = state[n], bad = state[n] == GONE || orphan (n);
    s = keep ? dc_finalize_keep_reference (c) : dc_finalize (&h[n][0]);
    if (keep) h[n][0] = c;
    if (was == GONE) { sx_assert (s == DISIR_STATUS_DESTROYED_CONTEXT && h[n][0] == c, "a destroyed context is reported"); return; }
    if (bad) { sx_assert (s != OK && s != DISIR_STATUS_INVALID_CONTEXT && h[n][0] == c, "cannot become part of a destroyed context"); return; }
    if (was == TREE) { sx_assert (s == DISIR_STATUS_CONTEXT_IN_WRONG_STATE && h[n][0] == c, "finalized only once"); return; }
    if (s == OK) { state[n] = TREE; if (!keep) sx_assert (h[n][0] == NULL, "the handle is taken"); }
    else if (s == DISIR_STATUS_INVALID_CONTEXT) { sx_assert (h[n][0] == c || (n == S && h[n][0] == NULL && !keep), "an invalid context is handed back"); state[n] = TREE; }
    else sx_assert (state[par[n]] == TREE && h[n][0] == c, "refused only by a finalized parent");
}
static void step (void)
{
    enum { FIN, KEEP, PUT, DESTROY, FIND, ROOTFIN, ROOTDONE, RELEASE }; struct { int op, n, i; } ops[40]; int k = 0, n, i; ST s; CTX *c;
    for (n = S; n < NN; n++)
    {
        for (i = 0; i < 2; i++) if (h[n][i])
        {
            if (i == 0) { ops[k].op = FIN, ops[k].n = n, ops[k++].i = i; if (state[n] == BUILDING) ops[k].op = KEEP, ops[k].n = n, ops[k++].i = i; }
            if (state[n] != BUILDING) ops[k].op = PUT, ops[k].n = n, ops[k++].i = i;
            ops[k].op = DESTROY, ops[k].n = n, ops[k++].i = i;
        }
        if (n <= K && !h[n][1] && h[par[n]][0]) ops[k].op = FIND, ops[k].n = n, ops[k++].i = 1;
    }
    if (h[R][0] && state[R] == BUILDING) { ops[k].op = DESTROY, ops[k].n = R, ops[k++].i = 0; ops[k++].op = ROOTFIN; }
    if (finished == 1) ops[k++].op = ROOTDONE;
    if (!MOLD && !released) ops[k++].op = RELEASE;
    if (!k) return;
    i = sx_pick (k, "operation"); n = ops[i].n;
    switch (ops[i].op)
    {
    case FIN: fin (n, 0); break;
    case KEEP: fin (n, 1); break;
    case PUT: MUST (dc_putcontext (&h[n][ops[i].i])); sx_assert (!h[n][ops[i].i], "the handle is taken"); break;
    case DESTROY: MUST (dc_destroy (&h[n][ops[i].i])); sx_assert (!h[n][ops[i].i], "the handle is taken"); if (state[n] != GONE) gone (n); break;
    case FIND:
        c = NULL; s = dc_find_element (h[par[n]][0], n == S ? "s" : "k", 0, &c);
        if (state[par[n]] == GONE) sx_assert (s == DISIR_STATUS_DESTROYED_CONTEXT && !c, "a destroyed context is reported");
        else if (orphan (par[n])) { if (s == OK) h[n][1] = c; else sx_assert (!c, "nothing is handed out"); }
        else if (state[n] == TREE) { MUST (s); h[n][1] = c; sx_reach ("found"); if (h[n][0]) sx_assert (h[n][0] == c, "the element"); }
        else sx_assert (s == DISIR_STATUS_NOT_EXIST && !c, "no such element");
        break;
    case ROOTFIN:
#ifdef CFG
        s = dc_config_finalize (&h[R][0], &cfg); sx_assert ((s == OK || s == DISIR_STATUS_INVALID_CONTEXT) && !h[R][0] && cfg, "the configuration is finalized");
        h[R][0] = dc_config_getcontext (cfg); sx_assert (h[R][0] != NULL, "its context");
#else
        s = dc_mold_finalize (&h[R][0], &mold); sx_assert ((s == OK || s == DISIR_STATUS_INVALID_CONTEXT) && !h[R][0] && mold, "the mold is finalized");
        h[R][0] = dc_mold_getcontext (mold); sx_assert (h[R][0] != NULL, "its context");
#endif
        state[R] = TREE; finished = 1; break;
    case ROOTDONE:
        sx_reach ("finished");
#ifdef CFG
        MUST (disir_config_finished (&cfg)); sx_assert (!cfg, "the handle is taken");
#else
        MUST (disir_mold_finished (&mold)); sx_assert (!mold, "the handle is taken");
#endif
        gone (R); finished = 2; break;
    default: MUST (disir_mold_finished (&mold)); released = 1; break;
    }
}
void harness (void)
{
    int i, n, e; ST s; CTX *c;
    sx_fmt_abstract = 1;
#ifdef CFG
    MUST (dc_mold_begin (&h[R][0])); c = section_of (h[R][0], "s"); MUST (dc_add_restriction_entries_max (c, 0, NULL));
    h[K][0] = kv_of (c, "k", INT, NULL); MUST (dc_putcontext (&h[K][0])); MUST (dc_finalize (&c)); MUST (dc_mold_finalize (&h[R][0], &mold));
    MUST (dc_config_begin (mold, &h[R][0]));
#else
    MUST (dc_mold_begin (&h[R][0]));
#endif
    h[S][0] = section_of (h[R][0], "s");
    if (INIT == 1 && MOLD) { s = dc_finalize_keep_reference (h[S][0]); sx_assert (s == OK || s == DISIR_STATUS_INVALID_CONTEXT, "added"); }
    MUST (dc_begin (h[S][0], DISIR_CONTEXT_KEYVAL, &h[K][0])); MUST (dc_set_name (h[K][0], "k", 1));
    if (MOLD) { MUST (dc_set_value_type (h[K][0], INT)); } else MUST (dc_set_value_integer (h[K][0], 7));
    state[R] = state[S] = state[K] = BUILDING;
#ifndef CFG
    if (INIT == 1) state[S] = TREE;
    state[D] = BUILDING;
    MUST (dc_begin (h[K][0], ATTR == 0 ? DISIR_CONTEXT_DEFAULT : ATTR == 1 ? DISIR_CONTEXT_RESTRICTION : DISIR_CONTEXT_DOCUMENTATION, &h[D][0]));
    if (ATTR == 0) MUST (dc_set_value_integer (h[D][0], 3));
    if (ATTR == 1) MUST (dc_set_restriction_type (h[D][0], sx_pick (2, "kind") ? RMAX : RRAN));
    if (ATTR == 2) MUST (dc_set_value_string (h[D][0], "doc", 3));
#endif
    if (INIT == 2) { for (n = MOLD ? D : K; n >= S; n--) fin (n, 1); }
    else if (INIT == 1 && !MOLD) { fin (S, 1); }
    for (e = 0; e < LEN; e++) { step (); for (n = 0; n < NN; n++) for (i = 0; i < 2; i++) if (h[n][i]) use (n, h[n][i]); }
    for (n = 0; n < NN; n++) for (i = 0; i < 2; i++) if (h[n][i]) { use (n, h[n][i]); poke (n, h[n][i]); }
    /* release, in either order */
    int down = sx_pick (2, "release");
    for (e = 0; e <= NN; e++)
    {
        int at = down ? e : NN - e;
        if (at == NN) { if (!MOLD && !released) { MUST (disir_mold_finished (&mold)); } continue; }
        for (i = 0; i < 2; i++) if (h[at][i])
        {
            if (state[at] == BUILDING) { MUST (dc_destroy (&h[at][i])); gone (at); } else MUST (dc_putcontext (&h[at][i]));
        }
        if (at == R && finished == 1)
        {
#ifdef CFG
            MUST (disir_config_finished (&cfg));
#else
            MUST (disir_mold_finished (&mold));
#endif
            gone (R);
        }
    }
    sx_assert (sx_live_heap () == 0, "everything is released");
}
