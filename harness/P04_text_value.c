// sx-case: name=string -DT=STR reach=ok
// sx-case: name=integer -DT=INT reach=ok,bad
// sx-case: name=integer_big -DT=INT -DBIG reach=ok
// sx-case: name=float -DT=FLT reach=ok,bad
// sx-case: name=boolean -DT=BOO reach=ok,bad
// sx-case: name=enum -DT=ENU reach=ok,bad
// sx-case: name=string_construct -DT=STR -DCONSTRUCT reach=ok
// sx-case: name=integer_construct -DT=INT -DCONSTRUCT reach=ok,bad
// sx-case: name=float_construct -DT=FLT -DCONSTRUCT reach=ok,bad
// sx-case: name=boolean_construct -DT=BOO -DCONSTRUCT reach=ok,bad
// sx-case: name=default_string -DT=STR -DDEFAULT reach=ok
// sx-case: name=default_integer -DT=INT -DDEFAULT reach=ok,bad
// sx-case: name=default_float -DT=FLT -DDEFAULT reach=ok,bad
// sx-bound: texts of up to 4 (thorough 5) characters; integers over "0 1 9 - + blank a", floats over "0 5 . - e x", booleans and strings over every non-NUL byte (booleans: up to 2 characters); integer_big: five long prefixes (around 2^63/100, 10^16, 2^31) followed by any two digits
// sx-bound: finalized and unfinalized configuration keyvals, and defaults added to a mold keyval
#include "h.h"
#if SX_TIER_THOROUGH
#define L 5
#else
#define L 4
#endif
static int isblank_ (char c) { return c == ' '; }
/* reference: [blanks][sign]digits, anything may follow */
static int ref_int (const char *t, int64_t *out)
{
    int i = 0, neg = 0, any = 0;
    uint64_t v = 0;
    while (isblank_ (t[i])) i++;
    if (t[i] == '-') { neg = 1; i++; } else if (t[i] == '+') i++;
    while (t[i] >= '0' && t[i] <= '9') { v = v * 10 + (uint64_t) (t[i] - '0'); any = 1; i++; }
    *out = neg ? (int64_t) (0 - v) : (int64_t) v;
    return any;
}
static int text (char *b)
{
#ifdef BIG
    static const char *pre[] = { "922337203685477", "-922337203685477", "+100000000000000", "-000000000000000", "    214748364" };
    strcpy (b, pre[sx_pick (5, "prefix")]);
    int k = strlen (b);
    for (int i = 0; i < 2; i++)
    {
        uint8_t c = sx_u8 ("d");
        sx_assume (c >= '0'); sx_assume (c <= '9');
        b[k++] = (char) c;
    }
    b[k] = 0;
    return k;
#else
    return T == INT ? sx_string (b, L, "019-+ a", "t") : T == FLT ? sx_string (b, L, "05.-ex", "t")
         : T == BOO ? sx_string (b, 2, NULL, "t") : T == ENU ? sx_string (b, 3, "ab", "t") : sx_string (b, L, NULL, "t");
#endif
}
void harness (void)
{
    char b[24];
    CTX *m = NULL, *c = NULL, *kv = NULL, *mk;
    struct disir_mold *mold = NULL;
    struct disir_config *cfg = NULL;
    ST s;
    MUST (dc_mold_begin (&m));
#ifdef DEFAULT
    MUST (dc_begin (m, DISIR_CONTEXT_KEYVAL, &mk));
    MUST (dc_set_name (mk, "k", 1));
    MUST (dc_set_value_type (mk, T));
    int n = text (b);
    s = dc_add_default (mk, b, n, NULL);
#else
    mk = kv_of (m, "k", T, NULL);
    if (T == ENU) MUST (dc_add_restriction_value_enum (mk, "ab", "d", NULL, NULL));
    if (T == ENU) MUST (dc_add_restriction_value_enum (mk, "b", "d", NULL, NULL));
    dc_putcontext (&mk);
    MUST (dc_mold_finalize (&m, &mold));
    MUST (dc_config_begin (mold, &c));
    kv = ckv_begin (c, "k");
    switch (T)
    {
    case STR: MUST (dc_set_value_string (kv, "init", 4)); break;
    case INT: MUST (dc_set_value_integer (kv, -5)); break;
    case FLT: MUST (dc_set_value_float (kv, 2.5)); break;
    case BOO: MUST (dc_set_value_boolean (kv, 1)); break;
    default:  MUST (dc_set_value_enum (kv, "ab", 2)); break;
    }
#ifndef CONSTRUCT
    MUST (dc_finalize_keep_reference (kv));
#endif
    int n = text (b);
    s = dc_set_value (kv, b, n);
#endif
    sx_observe ("status", s);
    int ok = 1;
    int64_t ri = -5; double rf = 2.5; uint8_t rb = 1; const char *rs = "init"; int rn = 4;
    char *e = NULL;
    switch (T)
    {
    case STR: rs = b; rn = n; break;
    case INT: { int64_t v; ok = ref_int (b, &v); if (ok) ri = v; break; }
    case FLT: { double v = strtod (b, &e); ok = e != b; if (ok) rf = v; break; }
    case BOO:
        if (b[0] == '0' || b[0] == 'f' || b[0] == 'F') rb = 0;
        else if (b[0] == '1' || b[0] == 't' || b[0] == 'T') rb = 1;
        else ok = 0;
        break;
    default:
        ok = (n == 2 && b[0] == 'a' && b[1] == 'b') || (n == 1 && b[0] == 'b');
        if (ok) { rs = b; rn = n; } else { rs = "ab"; rn = 2; }
        break;
    }
    if (ok) { sx_reach ("ok"); sx_assert (s == OK, "text accepted"); }
    else
    {
        sx_reach ("bad");
        sx_assert (s == (T == ENU ? DISIR_STATUS_RESTRICTION_VIOLATED : DISIR_STATUS_INVALID_ARGUMENT), "text refused");
    }
#ifdef DEFAULT
    /* read the default back through a configuration keyval that adopts it */
    if (ok)
    {
        MUST (dc_add_documentation (mk, "d", 1));
        MUST (dc_finalize (&mk));
        MUST (dc_mold_finalize (&m, &mold));
        MUST (dc_config_begin (mold, &c));
        kv = ckv_begin (c, "k");
        MUST (dc_keyval_set_default (kv, NULL));
    }
    else
    {
        char o[8];
        sx_assert (dc_get_default (mk, NULL, 8, o, NULL) != OK, "no default was added");
        dc_destroy (&mk);
        dc_destroy (&m);
    }
    if (ok)
#endif
    {
        const char *os; int32_t on; int64_t oi; double of; uint8_t ob;
        switch (T)
        {
        case STR: MUST (dc_get_value_string (kv, &os, &on)); sx_assert (on == rn && same_bytes (os, rs, rn) && os[rn] == 0, "string stored"); break;
        case INT: MUST (dc_get_value_integer (kv, &oi)); sx_assert (oi == ri, "integer stored"); break;
        case FLT: MUST (dc_get_value_float (kv, &of)); sx_assert (d2bits (of) == d2bits (rf), "float stored"); break;
        case BOO: MUST (dc_get_value_boolean (kv, &ob)); sx_assert (ob == rb, "boolean stored"); break;
        default:  MUST (dc_get_value_enum (kv, &os, &on)); sx_assert (on == rn && same_bytes (os, rs, rn) && os[rn] == 0, "enumerator stored"); break;
        }
#if defined (CONSTRUCT) || defined (DEFAULT)
        sx_assert (dc_finalize (&kv) == OK, "keyval is valid");
#else
        dc_putcontext (&kv);
#endif
        MUST (dc_config_finalize (&c, &cfg));
        disir_config_finished (&cfg);
        disir_mold_finished (&mold);
    }
    sx_assert (sx_live_heap () == 0, "everything released");
}
