// sx-case: name=integer -DT=INT reach=admitted,refused,inactive
// sx-case: name=float -DT=FLT reach=admitted,refused,inactive
// sx-case: name=integer_construct -DT=INT -DCONSTRUCT reach=admitted,refused
// sx-case: name=float_construct -DT=FLT -DCONSTRUCT reach=admitted,refused
// sx-case: name=integer_versions -DT=INT -DVERSIONS reach=admitted,refused,inactive
// sx-case: name=integer_three -DT=INT -DNR=3 reach=admitted,refused tier=thorough time=1500
// sx-case: name=float_three -DT=FLT -DNR=3 reach=admitted,refused tier=thorough time=1500
// sx-case: name=versions_two -DT=INT -DVERSIONS -DNR=2 reach=admitted,refused,inactive tier=thorough time=2400
// sx-bound: 0..2 restrictions (thorough 0..3), each a range or a number; integer values and bounds any integer of magnitude up to 2^53; float values and bounds any finite double
// sx-bound: introduction and configuration versions: any 32 bit components in the *_versions cases (one restriction; thorough two), otherwise the windows [1.0,..), [1.5,..), [1.0,1.5) at 1.0 and 1.5 (thorough: introduction 1.0, 1.5, 2.0 with deprecation none, 1.5, 2.5, at 1.0, 1.5 and 2.0)
// sx-bound: entry restrictions (minimum 0) are mixed in after the value restrictions and must not take part
#include "h.h"
#ifndef NR
#define NR 2
#endif
#define LIM53 (1ll << 53)
#if SX_TIER_THOROUGH && NR == 2
#define NWIN 9
#define NCV 3
#else
#define NWIN 3
#define NCV 2
#endif
#ifdef VERSIONS
#define MAXR (NR == 2 && !SX_TIER_THOROUGH ? 1 : NR)
#else
#define MAXR NR
#endif
static int64_t ival (const char *n) { return sx_range (-LIM53, LIM53, n); }
static double fval (const char *n)
{
    double d = sx_f64 (n);
    sx_assume (((d2bits (d) >> 52) & 0x7ff) != 0x7ff);
    return d;
}
void harness (void)
{
    CTX *m = NULL, *mk = NULL, *c = NULL, *kv = NULL;
    struct disir_mold *mold; struct disir_config *cfg;
    sx_fmt_abstract = 1;
#ifdef VERSIONS
    struct disir_version cv = sx_version1 (0, "cv"), top = V (0xffffffffu, 0xffffffffu);
#else
    static const struct disir_version cvs[3] = { { 1, 0 }, { 1, 5 }, { 2, 0 } };
    struct disir_version cv = cvs[sx_pick (NCV, "cv")], top = V (9, 0);
#endif
    MUST (dc_mold_begin (&m));
    mk = kv_of (m, "k", T, NULL);
    int nr = sx_pick (MAXR + 1, "count");
    int active[4], isrange[4];
    int64_t il[4], ih[4]; double fl[4], fh[4];
    for (int i = 0; i < nr; i++)
    {
        CTX *r = NULL;
        struct disir_version in, de;
        isrange[i] = sx_pick (2, "range");
        MUST (dc_begin (mk, DISIR_CONTEXT_RESTRICTION, &r));
        MUST (dc_set_restriction_type (r, isrange[i] ? RRAN : RNUM));
        if (T == INT)
        {
            il[i] = ival ("lo"); ih[i] = isrange[i] ? ival ("hi") : il[i];
            if (isrange[i]) MUST (dc_restriction_set_range (r, (double) il[i], (double) ih[i]));
            else MUST (dc_restriction_set_numeric (r, (double) il[i]));
        }
        else
        {
            fl[i] = fval ("lo"); fh[i] = isrange[i] ? fval ("hi") : fl[i];
            if (isrange[i]) MUST (dc_restriction_set_range (r, fl[i], fh[i]));
            else MUST (dc_restriction_set_numeric (r, fl[i]));
        }
#ifdef VERSIONS
        in = sx_version (0, "introduced");
        de = sx_version (0, "deprecated");
        MUST (dc_add_introduced (r, &in));
        MUST (dc_add_deprecated (r, &de));
#else
        static const struct disir_version ins[9] = { {1,0}, {1,5}, {1,0}, {1,0}, {1,5}, {1,5}, {2,0}, {2,0}, {2,0} };
        static const struct disir_version des[9] = { {0,0}, {0,0}, {1,5}, {2,5}, {1,5}, {2,5}, {0,0}, {1,5}, {2,5} };
        int a = sx_pick (NWIN, "window");
        in = ins[a];
        de = des[a];
        if (in.sv_minor || in.sv_major > 1) MUST (dc_add_introduced (r, &in));
        if (de.sv_major) MUST (dc_add_deprecated (r, &de));
#endif
        MUST (dc_finalize (&r));
        active[i] = vle (in, cv) & ((vkey (de) == 0) | vlt (cv, de));
    }
    MUST (dc_add_restriction_entries_min (mk, 0, NULL));
    dc_putcontext (&mk);
    MUST (dc_set_version (m, &top));
    MUST (dc_mold_finalize (&m, &mold));
    MUST (dc_config_begin (mold, &c));
    MUST (dc_set_version (c, &cv));
    kv = ckv_begin (c, "k");

    /* the value under test, and the reference verdict */
    int64_t iv = 0; double fv = 0;
    if (T == INT) iv = ival ("v"); else fv = fval ("v");
    int any = 0, hit = 0;
    for (int i = 0; i < nr; i++)
    {
        int ok = T == INT ? ((iv >= il[i]) & (iv <= ih[i])) : ((fv >= fl[i]) & (fv <= fh[i]));
        any |= active[i];
        hit |= active[i] & ok;
    }
    int admit = !any | hit;
#ifdef CONSTRUCT
    ST s = T == INT ? dc_set_value_integer (kv, iv) : dc_set_value_float (kv, fv);
    if (admit)
    {
        sx_reach ("admitted");
        sx_assert (s == OK, "permitted value accepted");
        sx_assert (dc_context_valid (kv) == OK, "keyval valid");
        sx_assert (dc_finalize_keep_reference (kv) == OK, "keyval finalizes valid");
        sx_assert (dc_config_finalize (&c, &cfg) == OK, "configuration valid");
        sx_assert (disir_config_valid (cfg, NULL) == OK, "configuration stays valid");
    }
    else
    {
        sx_reach ("refused");
        sx_assert (s == DISIR_STATUS_INVALID_CONTEXT, "violation under construction is remembered");
        sx_assert (dc_context_valid (kv) == DISIR_STATUS_INVALID_CONTEXT, "keyval invalid");
        sx_assert (dc_finalize_keep_reference (kv) == DISIR_STATUS_INVALID_CONTEXT, "keyval finalizes invalid");
        sx_assert (dc_config_finalize (&c, &cfg) == DISIR_STATUS_INVALID_CONTEXT, "configuration invalid");
        sx_assert (disir_config_valid (cfg, NULL) == DISIR_STATUS_INVALID_CONTEXT, "configuration stays invalid");
    }
#else
    /* a value that is admitted to begin with: 'def' by assumption */
    int64_t i0 = 0; double f0 = 0;
    if (nr && T == INT) i0 = il[0];
    if (nr && T == FLT) f0 = fl[0];
    {
        int h0 = 0;
        for (int i = 0; i < nr; i++)
            h0 |= active[i] & (T == INT ? ((i0 >= il[i]) & (i0 <= ih[i])) : ((f0 >= fl[i]) & (f0 <= fh[i])));
        sx_assume (!any | h0);
    }
    if (T == INT) MUST (dc_set_value_integer (kv, i0)); else MUST (dc_set_value_float (kv, f0));
    MUST (dc_finalize_keep_reference (kv));
    ST s = T == INT ? dc_set_value_integer (kv, iv) : dc_set_value_float (kv, fv);
    if (!any) sx_reach ("inactive");
    if (admit) { sx_reach ("admitted"); sx_assert (s == OK, "permitted value accepted"); }
    else { sx_reach ("refused"); sx_assert (s == DISIR_STATUS_RESTRICTION_VIOLATED, "other value refused"); }
    int64_t oi = 0; double of = 0;
    if (T == INT) { MUST (dc_get_value_integer (kv, &oi)); sx_assert (oi == (admit ? iv : i0), "value afterwards"); }
    else { MUST (dc_get_value_float (kv, &of)); sx_assert (d2bits (of) == (admit ? d2bits (fv) : d2bits (f0)), "value afterwards"); }
    sx_assert (dc_context_valid (kv) == OK, "keyval stays valid");
    MUST (dc_config_finalize (&c, &cfg));
    sx_assert (disir_config_valid (cfg, NULL) == OK, "configuration valid");
#endif
    dc_putcontext (&kv);
    disir_config_finished (&cfg);
    disir_mold_finished (&mold);
    sx_assert (sx_live_heap () == 0, "everything released");
}
