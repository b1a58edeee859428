// sx-case: name=string -DT=STR reach=stored,refused
// sx-case: name=integer -DT=INT reach=stored,refused
// sx-case: name=float -DT=FLT reach=stored,refused
// sx-case: name=boolean -DT=BOO reach=stored,refused
// sx-case: name=enum -DT=ENU reach=stored,refused
// sx-case: name=default -DDEFAULTS reach=stored,refused
// sx-case: name=documentation -DDOCS
// sx-bound: sequences of 3 (thorough 4) stores through any of the five typed accessors, then all five readers after every store
// sx-bound: integers and floats: any 64 bit pattern; booleans: any byte; strings: length 0..3 (thorough 0..5), any bytes; enums: both enumerators of the mold
// sx-bound: a finalized keyval of a configuration, a default under construction, a documentation under construction
#include "h.h"
#if SX_TIER_THOROUGH
#define STEPS 4
#define SL 5
#else
#define STEPS 3
#define SL 3
#endif

/* reference state */
static int64_t mi; static uint64_t mf; static uint8_t mb; static char ms[16]; static int mn;

static ST store (CTX *kv, int acc, enum disir_value_type t)
{
    ST s = OK;
    switch (acc)
    {
    case 0: {
        char *b = malloc (SL + 1);
        int n = sx_pick (SL + 1, "size");
        for (int i = 0; i < n; i++) b[i] = (char) sx_u8 ("byte");
        b[n] = 0;
        s = dc_set_value_string (kv, b, n);
        if (s == OK && t == STR) { memcpy (ms, b, n); mn = n; }
        free (b);
        break; }
    case 1: { int64_t v = sx_i64 ("i"); s = dc_set_value_integer (kv, v); if (s == OK && t == INT) mi = v; break; }
    case 2: { uint64_t v = sx_u64 ("f"); s = dc_set_value_float (kv, bits2d (v)); if (s == OK && t == FLT) mf = v; break; }
    case 3: { uint8_t v = sx_u8 ("b"); s = dc_set_value_boolean (kv, v); if (s == OK && t == BOO) mb = v; break; }
    default: {
        int w = sx_pick (2, "e");
        const char *e = w ? "bbb" : "aa";
        s = dc_set_value_enum (kv, e, (int) strlen (e));
        if (s == OK && t == ENU) { strcpy (ms, e); mn = (int) strlen (e); }
        break; }
    }
    return s;
}
static int owner (enum disir_value_type t) { return t == STR ? 0 : t == INT ? 1 : t == FLT ? 2 : t == BOO ? 3 : 4; }

static void check (CTX *kv, enum disir_value_type t)
{
    const char *cs = (const char *) 1; int32_t n = -7; int64_t i = 1234; double f = 5.5; uint8_t b = 77;
    ST s;
    enum disir_value_type rt;
    s = dc_get_value_type (kv, &rt);
    sx_assert (s == OK && rt == t, "value type is the declared one");

    s = dc_get_value_string (kv, &cs, &n);
    if (t == STR)
        sx_assert (s == OK && n == mn && same_bytes (cs, ms, mn) && cs[mn] == 0, "string read back");
    else
        sx_assert (s == DISIR_STATUS_WRONG_VALUE_TYPE && cs == (const char *) 1 && n == -7, "string reader refused");

    cs = (const char *) 1; n = -7;
    s = dc_get_value_enum (kv, &cs, &n);
    if (t == ENU)
        sx_assert (s == OK && n == mn && same_bytes (cs, ms, mn) && cs[mn] == 0, "enum read back");
    else if (t != STR)   /* text of a string keyval may be read as an enumerator */
        sx_assert (s == DISIR_STATUS_WRONG_VALUE_TYPE && cs == (const char *) 1 && n == -7, "enum reader refused");

    s = dc_get_value_integer (kv, &i);
    if (t == INT) sx_assert (s == OK && i == mi, "integer read back");
    else sx_assert (s == DISIR_STATUS_WRONG_VALUE_TYPE && i == 1234, "integer reader refused");

    s = dc_get_value_float (kv, &f);
    if (t == FLT) sx_assert (s == OK && d2bits (f) == mf, "float read back");
    else sx_assert (s == DISIR_STATUS_WRONG_VALUE_TYPE && f == 5.5, "float reader refused");

    s = dc_get_value_boolean (kv, &b);
    if (t == BOO) sx_assert (s == OK && b == mb, "boolean read back");
    else sx_assert (s == DISIR_STATUS_WRONG_VALUE_TYPE && b == 77, "boolean reader refused");
}

#ifdef DEFAULTS
/* a default takes its type from its keyval; enum defaults are set as text */
void harness (void)
{
    static const enum disir_value_type ts[5] = { STR, INT, FLT, BOO, ENU };
    enum disir_value_type t = ts[sx_pick (5, "type")];
    CTX *m = NULL, *kv = NULL, *d = NULL;
    MUST (dc_mold_begin (&m));
    MUST (dc_begin (m, DISIR_CONTEXT_KEYVAL, &kv));
    MUST (dc_set_name (kv, "k", 1));
    MUST (dc_set_value_type (kv, t));
    MUST (dc_begin (kv, DISIR_CONTEXT_DEFAULT, &d));
    int have = 0;
    for (int k = 0; k < STEPS; k++)
    {
        int a = sx_pick (4, "accessor");
        ST s = store (d, a, t == ENU ? STR : t);
        if (a == owner (t) || (t == ENU && a == 0)) { sx_assert (s == OK, "own type accepted"); have = 1; sx_reach ("stored"); }
        else { sx_assert (s == DISIR_STATUS_WRONG_VALUE_TYPE, "other type refused"); sx_reach ("refused"); }
        if (have) check (d, t);
    }
    dc_destroy (&d); dc_destroy (&kv); dc_destroy (&m);
    sx_assert (sx_live_heap () == 0, "everything released");
}
#elif defined (DOCS)
void harness (void)
{
    CTX *m = NULL, *d = NULL;
    MUST (dc_mold_begin (&m));
    MUST (dc_begin (m, DISIR_CONTEXT_DOCUMENTATION, &d));
    for (int k = 0; k < STEPS; k++)
    {
        char *b = malloc (SL + 1);
        int n = sx_pick (SL + 1, "size");
        for (int i = 0; i < n; i++) b[i] = (char) sx_u8 ("byte");
        b[n] = 0;
        MUST (dc_set_value_string (d, b, n));
        const char *o = NULL; int32_t on = -1;
        MUST (dc_get_value_string (d, &o, &on));
        sx_assert (on == n && same_bytes (o, b, n) && o[n] == 0, "documentation text read back");
        free (b);
    }
    dc_destroy (&d); dc_destroy (&m);
    sx_assert (sx_live_heap () == 0, "everything released");
}
#else
void harness (void)
{
    CTX *m = NULL, *c = NULL, *kv = NULL;
    struct disir_mold *mold = NULL;
    struct disir_config *cfg = NULL;
    MUST (dc_mold_begin (&m));
    CTX *mk = kv_of (m, "k", T, NULL);
    if (T == ENU)
    {
        MUST (dc_add_restriction_value_enum (mk, "aa", "d", NULL, NULL));
        MUST (dc_add_restriction_value_enum (mk, "bbb", "d", NULL, NULL));
    }
    dc_putcontext (&mk);
    MUST (dc_mold_finalize (&m, &mold));
    MUST (dc_config_begin (mold, &c));
    kv = ckv_begin (c, "k");
    switch (T)
    {
    case STR: strcpy (ms, "init"); mn = 4; MUST (dc_set_value_string (kv, "init", 4)); break;
    case INT: mi = -5; MUST (dc_set_value_integer (kv, -5)); break;
    case FLT: mf = d2bits (2.5); MUST (dc_set_value_float (kv, 2.5)); break;
    case BOO: mb = 1; MUST (dc_set_value_boolean (kv, 1)); break;
    default:  strcpy (ms, "aa"); mn = 2; MUST (dc_set_value_enum (kv, "aa", 2)); break;
    }
    MUST (dc_finalize_keep_reference (kv));
    check (kv, T);
    for (int k = 0; k < STEPS; k++)
    {
        int a = sx_pick (5, "accessor");
        ST s = store (kv, a, T);
        if (a == owner (T)) { sx_assert (s == OK, "own type accepted"); sx_reach ("stored"); }
        else { sx_assert (s == DISIR_STATUS_WRONG_VALUE_TYPE, "other type refused"); sx_reach ("refused"); }
        check (kv, T);
    }
    dc_putcontext (&kv);
    MUST (dc_config_finalize (&c, &cfg));
    disir_config_finished (&cfg);
    disir_mold_finished (&mold);
    sx_assert (sx_live_heap () == 0, "everything released");
}
#endif
