// sx-case: name=string -DT=STR reach=whole,cut,refused
// sx-case: name=enum -DT=ENU reach=whole,cut,refused
// sx-case: name=integer -DT=INT reach=whole,cut,refused
// sx-case: name=float -DT=FLT reach=whole,cut,refused
// sx-case: name=boolean -DT=BOO reach=whole,cut,refused
// sx-case: name=string_default -DT=STR -DDEFAULT reach=whole,cut,refused
// sx-case: name=enum_default -DT=ENU -DDEFAULT reach=whole,cut,refused
// sx-case: name=integer_default -DT=INT -DDEFAULT reach=whole,cut,refused
// sx-case: name=float_default -DT=FLT -DDEFAULT reach=whole,cut,refused
// sx-case: name=boolean_default -DT=BOO -DDEFAULT reach=whole,cut,refused
// sx-bound: buffer sizes -1..12 (thorough -1..24); string and enum texts of 0..4 (thorough 0..6) arbitrary bytes; integers: any value with up to 4 (thorough 9) digits either sign, or INT64_MIN/INT64_MAX; floats: eight constants including negatives, 1e300 and a fraction; booleans both
// sx-bound: dc_get_value of a configuration keyval and dc_get_default of a mold keyval (the default cases)
#include "h.h"
#if SX_TIER_THOROUGH
#define SL 6
#define BS 26
#define ILIM 1000000000
#else
#define SL 4
#define BS 14
#define ILIM 10000
#endif
static char ref[512];
static int rn;
static void ref_int (int64_t v)
{
    char t[24]; int k = 0; uint64_t u = v < 0 ? 0 - (uint64_t) v : (uint64_t) v;
    do { t[k++] = (char) ('0' + u % 10); u /= 10; } while (u);
    rn = 0;
    if (v < 0) ref[rn++] = '-';
    while (k) ref[rn++] = t[--k];
    ref[rn] = 0;
}
void harness (void)
{
    CTX *m = NULL, *c = NULL, *kv = NULL, *mk = NULL;
    struct disir_mold *mold = NULL;
    struct disir_config *cfg = NULL;
    char sv[16]; int64_t iv = 0; double fv = 0; uint8_t bv = 0;
    switch (T)
    {
    case STR: rn = sx_string (sv, SL, NULL, "s"); memcpy (ref, sv, rn + 1); break;
    case ENU: { static const char *en[] = { "a", "bcde", "" }; strcpy (sv, en[sx_pick (2, "e")]); rn = strlen (sv); strcpy (ref, sv); break; }
    case INT: {
        int k = sx_pick (3, "k");
        if (k == 1) iv = INT64_MIN;
        else if (k == 2) iv = INT64_MAX;
        else iv = sx_range (-(ILIM - 1), ILIM - 1, "i");
        ref_int (iv);
        break; }
    case FLT: {
        static const double fs[] = { 0.0, -0.0, 1.5, -2.25, 1e15, -123456.789, 0.000001, 1e300 };
        fv = fs[sx_pick (8, "f")];
        rn = snprintf (ref, sizeof ref, "%f", fv);
        break; }
    default: bv = sx_pick (2, "b"); strcpy (ref, bv ? "True" : "False"); rn = strlen (ref); break;
    }
    MUST (dc_mold_begin (&m));
#ifdef DEFAULT
    MUST (dc_begin (m, DISIR_CONTEXT_KEYVAL, &mk));
    MUST (dc_set_name (mk, "k", 1));
    MUST (dc_set_value_type (mk, T));
    switch (T)
    {
    case STR: case ENU: MUST (dc_add_default_string (mk, sv, rn, NULL)); break;
    case INT: MUST (dc_add_default_integer (mk, iv, NULL)); break;
    case FLT: MUST (dc_add_default_float (mk, fv, NULL)); break;
    default: MUST (dc_add_default_boolean (mk, bv, NULL)); break;
    }
#else
    mk = kv_of (m, "k", T, NULL);
    if (T == ENU)
    {
        MUST (dc_add_restriction_value_enum (mk, "a", "d", NULL, NULL));
        MUST (dc_add_restriction_value_enum (mk, "bcde", "d", NULL, NULL));
    }
    dc_putcontext (&mk);
    MUST (dc_mold_finalize (&m, &mold));
    MUST (dc_config_begin (mold, &c));
    kv = ckv_begin (c, "k");
    switch (T)
    {
    case STR: MUST (dc_set_value_string (kv, sv, rn)); break;
    case INT: MUST (dc_set_value_integer (kv, iv)); break;
    case FLT: MUST (dc_set_value_float (kv, fv)); break;
    case BOO: MUST (dc_set_value_boolean (kv, bv)); break;
    default:  MUST (dc_set_value_enum (kv, sv, rn)); break;
    }
    MUST (dc_finalize_keep_reference (kv));
#endif
    int size = sx_pick (BS, "size") - 1;
    char *b = malloc ((size > 0 ? size : 0) + 1);
    b[size > 0 ? size : 0] = '#';
    int32_t os = -9;
#ifdef DEFAULT
    ST s = dc_get_default (mk, NULL, size, b, &os);
#else
    ST s = dc_get_value (kv, size, b, &os);
#endif
    sx_observe ("status", s);
    sx_assert (b[size > 0 ? size : 0] == '#', "nothing written past the buffer");
    if (size <= 0)
    {
        sx_reach ("refused");
        sx_assert (s == DISIR_STATUS_INVALID_ARGUMENT, "no room at all is an invalid argument");
    }
    else
    {
        int keep = rn < size ? rn : size - 1;
        if (keep == rn) sx_reach ("whole"); else sx_reach ("cut");
        sx_assert (s == OK, "text is given");
        sx_assert (os == rn, "size of the full text is reported");
        sx_assert (same_bytes (b, ref, keep), "longest prefix that fits");
        sx_assert (b[keep] == 0, "terminated");
#ifdef DEFAULT
        sx_assert (dc_get_default (mk, NULL, size, b, NULL) == OK, "size output is optional");
#else
        sx_assert (dc_get_value (kv, size, b, NULL) == OK, "size output is optional");
#endif
    }
    free (b);
#ifdef DEFAULT
    dc_destroy (&mk);
    dc_destroy (&m);
#else
    dc_putcontext (&kv);
    MUST (dc_config_finalize (&c, &cfg));
    disir_config_finished (&cfg);
    disir_mold_finished (&mold);
#endif
    sx_assert (sx_live_heap () == 0, "everything released");
}
