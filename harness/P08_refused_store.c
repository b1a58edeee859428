// sx-case: name=integer -DT=INT reach=valid,invalid,kept,repaired,refused_type,refused_value
// sx-case: name=float -DT=FLT reach=valid,invalid,kept,repaired,refused_type,refused_value
// sx-case: name=enum -DT=ENU reach=valid,invalid,kept,repaired,refused_type,refused_value
// sx-case: name=string -DT=STR reach=valid,invalid,kept,repaired,refused_type
// sx-case: name=boolean -DT=BOO reach=valid,invalid,kept,repaired,refused_type
// sx-case: name=section_integer -DT=INT -DSECTION reach=valid,invalid,kept,repaired,refused_type,refused_value
// sx-bound: every sequence of 4 (thorough 5) operations out of: store an integer, float, boolean, string or enum (through its own accessor), finalize the keyval; the keyval is then finalized if it was not, and the configuration finalized
// sx-bound: integers and floats restricted to the range -5..5 (values any integer up to 2^53 in magnitude, any finite double); enum to "aa" and "b" (texts "aa","b","a"); strings any 0..2 bytes; booleans any byte
#include "h.h"
#if SX_TIER_THOROUGH
#define N 5
#else
#define N 4
#endif
struct val { int set; enum disir_value_type t; int64_t i; double f; uint8_t b; char s[4]; int n; };
static void check_value (CTX *kv, const struct val *v)
{
    int64_t i; double f; uint8_t b; const char *s; int32_t n;
    switch (v->t)
    {
    case INT: i = 0; MUST (dc_get_value_integer (kv, &i)); sx_assert (i == v->i, "integer read back"); break;
    case FLT: f = 0; MUST (dc_get_value_float (kv, &f)); sx_assert (d2bits (f) == d2bits (v->f), "float read back"); break;
    case BOO: b = 9; MUST (dc_get_value_boolean (kv, &b)); sx_assert (!b == !v->b, "boolean read back"); break;
    case ENU: MUST (dc_get_value_enum (kv, &s, &n)); goto text;
    default:  MUST (dc_get_value_string (kv, &s, &n));
    text: sx_assert (n == v->n && same_bytes (s, v->s, v->n) && s[v->n] == 0, "text read back");
    }
}
void harness (void)
{
    CTX *m = NULL, *mk, *c = NULL, *kv = NULL, *sec = NULL, *msec = NULL;
    struct disir_mold *mold; struct disir_config *cfg;
    sx_fmt_abstract = 1;
    MUST (dc_mold_begin (&m));
#ifdef SECTION
    msec = section_of (m, "s");
    mk = kv_of (msec, "k", T, NULL);
#else
    mk = kv_of (m, "k", T, NULL);
#endif
    if (T == INT || T == FLT) MUST (dc_add_restriction_value_range (mk, -5, 5, NULL, NULL, NULL));
    if (T == ENU)
    {
        MUST (dc_add_restriction_value_enum (mk, "aa", "d", NULL, NULL));
        MUST (dc_add_restriction_value_enum (mk, "b", "d", NULL, NULL));
    }
    dc_putcontext (&mk);
    if (msec) MUST (dc_finalize (&msec));
    MUST (dc_mold_finalize (&m, &mold));
    MUST (dc_config_begin (mold, &c));
#ifdef SECTION
    sec = section_of (c, "s");
    kv = ckv_begin (sec, "k");
#else
    kv = ckv_begin (c, "k");
#endif
    /* reference state */
    struct val cur; memset (&cur, 0, sizeof cur);
    int final = 0, invalid = 0 /* as of the last validation or store */, ok_now = 0;
    for (int step = 0; step <= N; step++)
    {
        struct val v; memset (&v, 0, sizeof v);
        int op = step == N ? 5 : sx_pick (6, "op"), admit = 0;
        ST s = OK;
        if (op == 5)
        {
            if (final) { if (step < N) sx_assume (0); break; }
            sx_assume (cur.set || step == N);
            if (!cur.set) sx_assume (0);
            s = dc_finalize_keep_reference (kv);
            sx_assert (s == (ok_now ? OK : DISIR_STATUS_INVALID_CONTEXT), "finalizing succeeds exactly with a permitted value");
            sx_assert (dc_context_valid (kv) == s, "and validity says the same");
            final = 1; invalid = !ok_now;
            if (invalid) sx_reach ("invalid"); else sx_reach ("valid");
            check_value (kv, &cur);
            continue;
        }
        v.set = 1;
        switch (op)
        {
        case 0: v.t = INT; v.i = sx_range (-(1ll << 53), 1ll << 53, "i"); admit = (v.i >= -5) & (v.i <= 5); break;
        case 1: v.t = FLT; v.f = sx_f64 ("f"); sx_assume (((d2bits (v.f) >> 52) & 0x7ff) != 0x7ff); admit = (v.f >= -5) & (v.f <= 5); break;
        case 2: v.t = BOO; v.b = sx_u8 ("b"); admit = 1; break;
        case 3: v.t = STR; v.n = sx_string (v.s, 2, NULL, "s"); admit = 1; break;
        default: { static const char *e[3] = { "aa", "b", "a" }; v.t = ENU; int x = sx_pick (3, "e"); strcpy (v.s, e[x]); v.n = strlen (v.s); admit = x < 2; }
        }
        if (v.t == T && !(T == BOO || T == STR)) { if (admit) admit = 1; else admit = 0; }
        if (v.t != T) admit = 0;
        switch (v.t)
        {
        case INT: s = dc_set_value_integer (kv, v.i); break;
        case FLT: s = dc_set_value_float (kv, v.f); break;
        case BOO: s = dc_set_value_boolean (kv, v.b); break;
        case STR: s = dc_set_value_string (kv, v.s, v.n); break;
        default:  s = dc_set_value_enum (kv, v.s, v.n);
        }
        if (final && !invalid)
        {
            if (admit) { sx_assert (s == OK, "permitted value accepted"); cur = v; }
            else
            {
                sx_reach ("kept");
                if (v.t != T) { sx_reach ("refused_type"); sx_assert (s == DISIR_STATUS_WRONG_VALUE_TYPE, "wrong type refused"); }
                else { sx_reach ("refused_value"); sx_assert (s == DISIR_STATUS_RESTRICTION_VIOLATED, "restricted value refused"); }
            }
            sx_assert (dc_context_valid (kv) == OK, "a finalized keyval stays valid");
        }
        else if (final)
        {
            /* finalized while invalid: stays so until it is validated again */
            sx_assert (s == DISIR_STATUS_INVALID_CONTEXT, "invalid keyval says so");
            if (admit) sx_reach ("repaired");
            cur = v; ok_now = admit;
        }
        else
        {
            sx_assert (s == (admit ? OK : DISIR_STATUS_INVALID_CONTEXT), "store under construction");
            if (admit && cur.set && !ok_now) sx_reach ("repaired");
            cur = v; ok_now = admit;
        }
        check_value (kv, &cur);
    }
    ST want = ok_now ? OK : DISIR_STATUS_INVALID_CONTEXT;
#ifdef SECTION
    sx_assert (dc_finalize_keep_reference (sec) == want, "section reflects the keyval");
    sx_assert (dc_context_valid (kv) == want, "validated again");
    dc_putcontext (&sec);
#endif
    sx_assert (dc_config_finalize (&c, &cfg) == want, "configuration reflects the keyval");
    sx_assert (dc_context_valid (kv) == want, "validated again");
    sx_assert (disir_config_valid (cfg, NULL) == want, "configuration validity");
    check_value (kv, &cur);
    dc_putcontext (&kv);
    disir_config_finished (&cfg);
    disir_mold_finished (&mold);
    sx_assert (sx_live_heap () == 0, "everything released");
}
