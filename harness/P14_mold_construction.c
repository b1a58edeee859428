// sx-case: name=kinds -DKINDS reach=begun,refused
// sx-case: name=restrictions -DRES reach=fits,unfit
// sx-case: name=restriction_calls -DRES -DCALLS reach=fits,unfit
// sx-case: name=defaults -DDEF reach=fits,unfit
// sx-case: name=keyval_parts -DPARTS reach=usable,unusable
// sx-case: name=section_parts -DPARTS -DSECT reach=usable,unusable
// sx-case: name=retype -DRETYPE reach=usable,unusable
// sx-case: name=untyped -DUNTYPED reach=refused
// sx-bound: every kind of context as parent and child, every value type and restriction kind (also out-of-range 32 bit numbers); keyvals and sections with every subset of their parts, names of up to 2 arbitrary bytes, in the root, in a section under construction and in a finalized one
#include "h.h"
/* value types: 0 none, then the five */
static const enum disir_value_type types[6] = { 0, STR, ENU, INT, FLT, BOO };
static ST add_default (CTX *kv, enum disir_value_type t)
{
    struct disir_version one = V (1, 0);
    switch (t)
    {
    case STR: case ENU: return dc_add_default_string (kv, "v", 1, &one);
    case INT: return dc_add_default_integer (kv, 3, &one);
    case FLT: return dc_add_default_float (kv, 2.5, &one);
    default: return dc_add_default_boolean (kv, 1, &one);
    }
}
static int n_restrictions (CTX *c)
{
    struct disir_collection *col = NULL; int n = 0;
    if (dc_restriction_collection (c, &col) == OK && col) { n = dc_collection_size (col); dc_collection_finished (&col); }
    return n;
}
static int res_fits (int rt, enum disir_value_type t)
{
    if (rt == RMIN || rt == RMAX) return 1;
    if (rt == RENU) return t == ENU;
    if (rt == RRAN || rt == RNUM) return t == INT || t == FLT;
    return 0;
}
static int usable (CTX **m, struct disir_mold **mold)
{
    ST s = dc_mold_finalize (m, mold);
    sx_assert (s == OK || s == DISIR_STATUS_INVALID_CONTEXT, "mold finalized");
    return s == OK;
}
void harness (void)
{
    CTX *m = NULL, *kv = NULL, *s = NULL, *x = NULL; struct disir_mold *mold = NULL;
    ST st;
    sx_fmt_abstract = 1;
    MUST (dc_mold_begin (&m));
#if defined KINDS
    CTX *c = NULL, *ck = NULL, *cs = NULL, *d = NULL, *r = NULL, *doc = NULL, *m2 = NULL, *k2 = NULL; struct disir_mold *base = NULL; struct disir_config *cfg = NULL;
    MUST (dc_mold_begin (&m2));
    k2 = kv_of (m2, "k", INT, NULL); dc_putcontext (&k2);
    s = section_of (m2, "s"); MUST (dc_finalize (&s));
    MUST (dc_mold_finalize (&m2, &base));
    MUST (dc_config_begin (base, &c));
    ck = ckv_begin (c, "k");
    cs = section_of (c, "s");
    MUST (dc_begin (m, DISIR_CONTEXT_KEYVAL, &kv));
    int typed = sx_pick (2, "typed");
    if (typed) MUST (dc_set_value_type (kv, INT));
    MUST (dc_begin (m, DISIR_CONTEXT_SECTION, &s));
    if (typed) MUST (dc_begin (kv, DISIR_CONTEXT_DEFAULT, &d));
    MUST (dc_begin (kv, DISIR_CONTEXT_RESTRICTION, &r));
    MUST (dc_begin (m, DISIR_CONTEXT_DOCUMENTATION, &doc));
    CTX *ps[9] = { m, kv, s, d, r, doc, c, ck, cs };
    int pi = sx_pick (9, "parent");
    CTX *p = ps[pi];
    sx_assume (p != NULL);
    uint32_t ct = sx_u32 ("child");
    int want;
    if (DECIDE (ct == DISIR_CONTEXT_KEYVAL) || DECIDE (ct == DISIR_CONTEXT_SECTION)) want = p == m || p == s || p == c || p == cs;
    else if (DECIDE (ct == DISIR_CONTEXT_DEFAULT)) want = p == kv && typed;
    else if (DECIDE (ct == DISIR_CONTEXT_RESTRICTION)) want = p == kv || p == s;
    else if (DECIDE (ct == DISIR_CONTEXT_DOCUMENTATION)) want = p == m || p == kv || p == s || p == r ? 1 : p == ck || p == cs ? 2 : 0;
    else want = 0;
    st = dc_begin (p, ct, &x);
    if (want != 2) sx_assert ((st == OK) == want, "begun iff the parent can hold it");
    if (st == OK)
    {
        sx_reach ("begun");
        sx_assert (dc_context_type (x) == ct, "of the kind asked for");
        dc_destroy (&x);
    }
    else
    {
        sx_reach ("refused");
        sx_assert (x == NULL, "nothing begun");
    }
    dc_destroy (&r); dc_destroy (&doc); if (d) dc_destroy (&d); dc_destroy (&s); dc_destroy (&kv);
    dc_destroy (&ck); dc_destroy (&cs); dc_destroy (&c); disir_mold_finished (&base);
    dc_destroy (&m);
#elif defined RES
    /* parent: keyval of each type, or a section */
    int pt = sx_pick (7, "parent");
    enum disir_value_type t = pt < 6 ? types[pt] : 0;
    if (pt < 6)
    {
        MUST (dc_begin (m, DISIR_CONTEXT_KEYVAL, &kv));
        MUST (dc_set_name (kv, "k", 1));
        if (pt) { MUST (dc_set_value_type (kv, t)); MUST (add_default (kv, t)); }
        x = kv;
    }
    else x = s = section_of (m, "s");
    int sf = sx_pick (2, "finalized parent");
    if (sf) { st = dc_finalize_keep_reference (x); sx_assume (st == OK); }
#ifdef CALLS
    int rt = RMIN + sx_pick (5, "call");
    switch (rt)
    {
    case RMIN: st = dc_add_restriction_entries_min (x, 0, NULL); break;
    case RMAX: st = dc_add_restriction_entries_max (x, 3, NULL); break;
    case RRAN: st = dc_add_restriction_value_range (x, 1, 5, "d", NULL, NULL); break;
    case RNUM: st = dc_add_restriction_value_numeric (x, 1, "d", NULL, NULL); break;
    default: st = dc_add_restriction_value_enum (x, "v", "d", NULL, NULL); break;
    }
    int fits = res_fits (rt, t);
    sx_assert ((st == OK) == fits, "accepted iff it fits the parent");
#else
    CTX *r = NULL;
    uint32_t rt = sx_u32 ("kind");
    MUST (dc_begin (x, DISIR_CONTEXT_RESTRICTION, &r));
    int k = DECIDE (rt == RMIN) ? RMIN : DECIDE (rt == RMAX) ? RMAX : DECIDE (rt == RRAN) ? RRAN : DECIDE (rt == RNUM) ? RNUM : DECIDE (rt == RENU) ? RENU : 0;
    int fits = k && res_fits (k, t);
    st = dc_set_restriction_type (r, rt);
    sx_assert ((st == OK) == fits, "accepted iff it fits the parent");
    if (fits)
    {
        enum disir_restriction_type got = 0;
        MUST (dc_get_restriction_type (r, &got));
        sx_assert (got == k, "kind");
        ST a = dc_restriction_set_range (r, 1, 5), b = dc_restriction_set_numeric (r, 4), e = dc_restriction_set_string (r, "v");
        sx_assert ((a == OK) == (k == RRAN), "range only on a range");
        sx_assert ((b == OK) == (k == RNUM || k == RMIN || k == RMAX), "number only on numeric and entry restrictions");
        sx_assert ((e == OK) == (k == RENU), "text only on an enumerator");
        MUST (dc_finalize (&r));
    }
    else
        MUST (dc_destroy (&r));
#endif
    if (fits) sx_reach ("fits"); else sx_reach ("unfit");
    sx_assert (n_restrictions (x) == fits, "restrictions of the parent");
    if (!sf)
    {
        st = dc_finalize (&x);
        sx_assert ((st == OK) == (pt != 0), "parent accepted");
    }
    if (x) dc_putcontext (&x);
    sx_assert (usable (&m, &mold) == (pt != 0), "mold usable");
    disir_mold_finished (&mold);
#elif defined DEF
    int ty = sx_pick (6, "type"), dt = sx_pick (7, "default");
    struct disir_version one = V (1, 0);
    MUST (dc_begin (m, DISIR_CONTEXT_KEYVAL, &kv));
    MUST (dc_set_name (kv, "k", 1));
    if (ty) MUST (dc_set_value_type (kv, types[ty]));
    int64_t i = sx_i64 ("value");
    enum disir_value_type t = types[ty];
    int fits;
    switch (dt)
    {
    case 0: st = dc_add_default_string (kv, "v", 1, &one); fits = t == STR || t == ENU; break;
    case 1: st = dc_add_default_integer (kv, i, &one); fits = t == INT; break;
    case 2: st = dc_add_default_float (kv, bits2d (i), &one); fits = t == FLT; break;
    case 3: st = dc_add_default_boolean (kv, i & 1, &one); fits = t == BOO; break;
    case 4: st = dc_add_default (kv, "12", 2, &one); fits = t == STR || t == INT || t == FLT; break;
    case 5: st = dc_add_default_string (kv, NULL, 1, &one); fits = 0; sx_assume (t != STR && t != ENU); break;
    default:
        /* begun and finalized by hand */
        st = dc_begin (kv, DISIR_CONTEXT_DEFAULT, &x);
        fits = t == BOO;
        sx_assert ((st == OK) == (ty != 0), "default begun iff the keyval has a type");
        if (st == OK)
        {
            st = dc_set_value_boolean (x, 1);
            if (st == OK) MUST (dc_finalize (&x)); else MUST (dc_destroy (&x));
        }
        break;
    }
    sx_assert ((st == OK) == fits, "default accepted iff of the keyval's type");
    if (fits) sx_reach ("fits"); else sx_reach ("unfit");
    MUST (dc_add_documentation (kv, "d", 1));
    st = dc_finalize (&kv);
    sx_assert ((st == OK) == fits, "keyval accepted iff it has a default");
    if (kv) dc_putcontext (&kv);
    sx_assert (usable (&m, &mold) == fits, "mold usable");
    disir_mold_finished (&mold);
#elif defined PARTS
    CTX *p = m;
    int place = sx_pick (3, "place"), good;
    if (place)
    {
        p = s = section_of (m, "s");
        if (place == 2) MUST (dc_finalize_keep_reference (s));
    }
    char b[4]; int len = sx_string (b, 2, NULL, "name");
    int ok = len > 0;
    for (int i = 0; i < len; i++)
        ok &= ((b[i] >= 'a') & (b[i] <= 'z')) | ((b[i] >= '0') & (b[i] <= '9')) | (b[i] == '_');
    ok = DECIDE (ok);
#ifdef SECT
    MUST (dc_begin (p, DISIR_CONTEXT_SECTION, &kv));
    good = ok;
#else
    int ty = sx_pick (2, "type"), de = sx_pick (2, "default"), dc = sx_pick (2, "documentation");
    MUST (dc_begin (p, DISIR_CONTEXT_KEYVAL, &kv));
    if (ty) MUST (dc_set_value_type (kv, INT));
    st = de ? dc_add_default_integer (kv, 1, NULL) : OK;
    sx_assert ((st == OK) == (ty || !de), "default needs a type");
    if (dc) MUST (dc_add_documentation (kv, "d", 1));
    good = ok & ty & de;
#endif
    st = len ? dc_set_name (kv, b, len) : OK;
    sx_assert (st == OK, "any name can be set");
    st = dc_finalize (&kv);
    sx_assert ((st == OK) == good && (kv == NULL) == good, "complete element accepted, others not");
    if (good) sx_reach ("usable"); else sx_reach ("unusable");
    /* an unnamed one never becomes part of the mold, nor does any incomplete one below a finalized parent */
    int part = good || (len && place != 2);
    struct disir_collection *col = NULL;
    st = dc_get_elements (p, &col);
    sx_assert ((st == OK ? (int) dc_collection_size (col) : 0) == part, "part of the mold");
    if (st == OK) dc_collection_finished (&col);
    if (kv) { if (part) dc_putcontext (&kv); else dc_destroy (&kv); }
    if (place == 1) { st = dc_finalize (&s); sx_assert ((st == OK) == (good || !part), "section accepted"); }
    if (s) dc_putcontext (&s);
    sx_assert (usable (&m, &mold) == (good || !part), "mold usable iff all it holds is complete");
    disir_mold_finished (&mold);
#elif defined RETYPE
    /* the type changes while parts of the former type exist */
    int a = 1 + sx_pick (5, "type"), b = 1 + sx_pick (5, "changed type"), late = sx_pick (2, "default later");
    int part = sx_pick (5, "part"), rt = 0, changed = 1, fit = 1;
    CTX *d = NULL, *r = NULL;
    MUST (dc_begin (m, DISIR_CONTEXT_KEYVAL, &kv));
    MUST (dc_set_name (kv, "k", 1));
    MUST (dc_set_value_type (kv, types[a]));
    if (part == 1) MUST (add_default (kv, types[a]));
    if (part == 2) MUST (dc_begin (kv, DISIR_CONTEXT_DEFAULT, &d));
    if (part >= 3)
    {
        MUST (dc_begin (kv, DISIR_CONTEXT_RESTRICTION, &r));
        rt = types[a] == ENU ? RENU : types[a] == INT || types[a] == FLT ? RRAN : RMAX;
        MUST (dc_set_restriction_type (r, rt));
        if (part == 4) MUST (dc_finalize (&r));
    }
    st = dc_set_value_type (kv, types[b]);
    if (part == 1)
    {
        changed = 0;
        sx_assert ((st == OK) == (a == b), "type of a keyval with a default is kept");
        sx_assert (dc_value_type (kv) == types[a], "type");
    }
    else sx_assert (st == OK && dc_value_type (kv) == types[b], "type changed");
    if (part != 1 && !late) MUST (add_default (kv, types[b]));
    if (part == 2)
    {
        struct disir_version two = V (2, 0);
        MUST (dc_add_introduced (d, &two));
        st = dc_finalize (&d);
        fit = a == b;
        sx_assert ((st == OK) == fit, "pending default accepted iff of the type");
        if (st != OK) dc_putcontext (&d);
    }
    if (part == 3)
    {
        st = dc_finalize (&r);
        fit = res_fits (rt, types[b]);
        sx_assert ((st == OK) == fit, "pending restriction accepted iff it fits");
        if (r) dc_putcontext (&r);
    }
    if (part == 4) fit = res_fits (rt, types[b]);
    if (part != 1 && late) MUST (add_default (kv, types[b]));
    MUST (dc_add_documentation (kv, "d", 1));
    st = dc_finalize (&kv);
    if (fit) sx_reach ("usable"); else sx_reach ("unusable");
    sx_assert ((st == OK) == fit, "keyval accepted iff consistent");
    if (kv) dc_putcontext (&kv);
    sx_assert (usable (&m, &mold) == fit, "mold usable iff consistent");
    disir_mold_finished (&mold);
#else
    /* restriction without a kind */
    CTX *r = NULL, *p;
    int sec = sx_pick (2, "section"), fin = sx_pick (2, "finalized parent");
    p = sec ? section_of (m, "s") : kv_of (m, "k", INT, NULL);
    if (sec && fin) MUST (dc_finalize_keep_reference (p));
    if (!sec) sx_assume (fin);
    MUST (dc_begin (p, DISIR_CONTEXT_RESTRICTION, &r));
    st = dc_finalize (&r);
    sx_assert (st != OK && r != NULL, "restriction without a kind refused");
    sx_reach ("refused");
    if (fin) { sx_assert (n_restrictions (p) == 0, "not part of the parent"); }
    MUST (dc_destroy (&r));
    sx_assert (n_restrictions (p) == 0, "not part of the parent");
    if (!fin) MUST (dc_finalize (&p)); else dc_putcontext (&p);
    sx_assert (usable (&m, &mold), "mold usable");
    disir_mold_finished (&mold);
#endif
    sx_assert (sx_live_heap () == 0, "everything released");
}
