// sx-case: name=windows reach=admitted,refused,inactive
// sx-case: name=windows_construct -DCONSTRUCT reach=admitted,refused
// sx-case: name=text -DTEXT reach=admitted,refused
// sx-case: name=text_construct -DTEXT -DCONSTRUCT reach=admitted,refused
// sx-case: name=text_generic -DTEXT -DGENERIC reach=admitted,refused
// sx-case: name=versions -DVERSIONS reach=admitted,refused,inactive
// sx-case: name=unset -DUNSET reach=unset
// sx-case: name=long_texts -DLONG reach=admitted,refused
// sx-case: name=versions_two -DVERSIONS -DNR=2 reach=admitted,refused,inactive tier=thorough time=1500
// sx-case: name=windows_three -DNR=3 reach=admitted,refused,inactive tier=thorough time=1500
// sx-bound: 0..2 enumerators (thorough 0..3) out of "aa", "a", "ab", "b"; the stored text up to 3 characters over "ab", given with any size up to its length (the rest of the buffer is not part of the text), optionally unterminated
// sx-bound: introduction, deprecation and configuration version: any 32 bit components in the versions cases, otherwise windows [1.0,..), [1.5,..), [1.0,1.5), [1.5,2.5), [2.0,1.5) at 1.0, 1.5 and 2.0
// sx-bound: long_texts: three enumerators, the first two of 1..5000 and 1..300 characters (all lengths about the size of the message that lists them)
#include "h.h"
#ifndef NR
#define NR 2
#endif
#ifdef VERSIONS
#define MAXR (NR == 2 && !SX_TIER_THOROUGH ? 1 : NR)
#else
#define MAXR NR
#endif
static const char *names[4] = { "aa", "a", "ab", "b" };
static int eq (const char *t, int n, const char *e)
{
    int m = strlen (e);
    return (n == m) && same_bytes (t, e, m);
}
#ifdef LONG
/* whatever the length of the enumerators, and of the message listing them */
void harness (void)
{
    CTX *m = NULL, *mk = NULL, *c = NULL, *kv = NULL;
    struct disir_mold *mold; struct disir_config *cfg;
    static const int l0[] = { 1, 2000, 4086, 4087, 4088, 4089, 4090, 4091, 4092, 4093, 4094, 4095, 4096, 4097, 5000 }, l1[] = { 1, 2, 3, 4, 5, 300 };
    int n[3] = { l0[sx_pick (15, "length")], l1[sx_pick (6, "length")], 2 }; char *t[3];
    MUST (dc_mold_begin (&m));
    mk = kv_of (m, "k", ENU, NULL);
    for (int i = 0; i < 3; i++)
    {
        t[i] = malloc (n[i] + 1);
        memset (t[i], "pqr"[i], n[i]); t[i][n[i]] = 0;
        MUST (dc_add_restriction_value_enum (mk, t[i], "d", NULL, NULL));
    }
    MUST (dc_add_restriction_entries_min (mk, 0, NULL));
    dc_putcontext (&mk);
    MUST (dc_mold_finalize (&m, &mold));
    MUST (dc_config_begin (mold, &c));
    kv = ckv_begin (c, "k");
    int first = sx_pick (3, "first"), next = sx_pick (4, "next"); const char *o; int32_t on;
    MUST (dc_set_value_enum (kv, t[first], n[first]));
    MUST (dc_finalize_keep_reference (kv));
    if (next < 3)
    {
        sx_reach ("admitted");
        MUST (dc_set_value_enum (kv, t[next], n[next]));
        first = next;
    }
    else
    {
        sx_reach ("refused");
        sx_assert (dc_set_value_enum (kv, "pqr", 3) == DISIR_STATUS_RESTRICTION_VIOLATED, "other text refused");
    }
    MUST (dc_get_value_enum (kv, &o, &on));
    sx_assert (on == n[first] && !memcmp (o, t[first], on + 1), "the last permitted text");
    MUST (dc_config_finalize (&c, &cfg));
    sx_assert (disir_config_valid (cfg, NULL) == OK, "configuration valid");
    dc_putcontext (&kv);
    disir_config_finished (&cfg);
    disir_mold_finished (&mold);
    for (int i = 0; i < 3; i++) free (t[i]);
    sx_assert (sx_live_heap () == 0, "everything released");
}
#else
void harness (void)
{
    CTX *m = NULL, *mk = NULL, *c = NULL, *kv = NULL;
    struct disir_mold *mold; struct disir_config *cfg;
    sx_fmt_abstract = 1;
    struct disir_version top = V (0xffffffffu, 0xffffffffu);
#ifdef VERSIONS
    struct disir_version cv = sx_version1 (0, "cv");
#elif defined TEXT || defined UNSET
    struct disir_version cv = V (1, 0);
#else
    static const struct disir_version cvs[3] = { { 1, 0 }, { 1, 5 }, { 2, 0 } };
    struct disir_version cv = cvs[sx_pick (3, "cv")];
#endif
    MUST (dc_mold_begin (&m));
    mk = kv_of (m, "k", ENU, NULL);
    int nr = sx_pick (MAXR + 1, "count");
    int act[4]; const char *en[4];
    for (int i = 0; i < nr; i++)
    {
        CTX *r = NULL;
        struct disir_version in = V (1, 0), de = V (0, 0);
#ifdef TEXT
        en[i] = names[sx_pick (4, "enumerator")];
#else
        en[i] = names[i];
#endif
        MUST (dc_begin (mk, DISIR_CONTEXT_RESTRICTION, &r));
        MUST (dc_set_restriction_type (r, RENU));
        MUST (dc_restriction_set_string (r, en[i]));
#ifdef VERSIONS
        in = sx_version (0, "introduced");
        de = sx_version (0, "deprecated");
        MUST (dc_add_introduced (r, &in));
        MUST (dc_add_deprecated (r, &de));
#elif !defined TEXT && !defined UNSET
        static const struct disir_version ins[5] = { {1,0}, {1,5}, {1,0}, {1,5}, {2,0} };
        static const struct disir_version des[5] = { {0,0}, {0,0}, {1,5}, {2,5}, {1,5} };
        int a = sx_pick (5, "window");
        in = ins[a]; de = des[a];
        MUST (dc_add_introduced (r, &in));
        if (de.sv_major) MUST (dc_add_deprecated (r, &de));
#endif
        MUST (dc_finalize (&r));
        act[i] = vle (in, cv) & ((vkey (de) == 0) | vlt (cv, de));
    }
    MUST (dc_add_restriction_entries_min (mk, 0, NULL));
    dc_putcontext (&mk);
    MUST (dc_set_version (m, &top));
    MUST (dc_mold_finalize (&m, &mold));
    MUST (dc_config_begin (mold, &c));
    MUST (dc_set_version (c, &cv));
    kv = ckv_begin (c, "k");
#ifdef UNSET
    /* nothing stored: there is no text, so nothing is accepted */
    sx_reach ("unset");
    sx_assert (dc_finalize_keep_reference (kv) == DISIR_STATUS_INVALID_CONTEXT, "enum without a text is invalid");
    sx_assert (dc_config_finalize (&c, &cfg) == DISIR_STATUS_INVALID_CONTEXT, "configuration invalid");
    dc_putcontext (&kv);
    disir_config_finished (&cfg);
    disir_mold_finished (&mold);
    sx_assert (sx_live_heap () == 0, "everything released");
    return;
#endif
    /* text under test */
    char *t = malloc (4);
    int len, size;
#ifdef TEXT
    len = sx_string (t, 3, "ab", "t");
    size = sx_pick (len + 1, "size");
#ifndef GENERIC
    if (size == len && sx_pick (2, "unterminated"))
    {
        /* exactly the bytes of the text are readable */
        char *u = malloc (len ? len : 1);
        memcpy (u, t, len);
        free (t);
        t = u;
        if (!len) t[0] = 'a';
    }
#endif
#else
    strcpy (t, names[sx_pick (4, "t")]);
    len = size = strlen (t);
#endif
    int any = 0, admit = 0;
    for (int i = 0; i < nr; i++)
    {
        any |= act[i];
        admit |= act[i] & eq (t, size, en[i]);
    }
    ST s;
    const char *out = NULL; int32_t on = -1;
#ifdef GENERIC
#define SET(t, n) dc_set_value (kv, t, n)
#else
#define SET(t, n) dc_set_value_enum (kv, t, n)
#endif
    if (!any) sx_reach ("inactive");
#ifdef CONSTRUCT
    s = SET (t, size);
    if (admit)
    {
        sx_reach ("admitted");
        sx_assert (s == OK, "active enumerator accepted");
        sx_assert (dc_finalize_keep_reference (kv) == OK, "keyval finalizes valid");
        sx_assert (dc_config_finalize (&c, &cfg) == OK, "configuration valid");
        MUST (dc_get_value_enum (kv, &out, &on));
        sx_assert (on == size && same_bytes (out, t, size) && out[size] == 0, "text stored");
    }
    else
    {
        sx_reach ("refused");
        sx_assert (s == DISIR_STATUS_INVALID_CONTEXT, "violation under construction is remembered");
        sx_assert (dc_finalize_keep_reference (kv) == DISIR_STATUS_INVALID_CONTEXT, "keyval finalizes invalid");
        sx_assert (dc_config_finalize (&c, &cfg) == DISIR_STATUS_INVALID_CONTEXT, "configuration invalid");
        sx_assert (disir_config_valid (cfg, NULL) == DISIR_STATUS_INVALID_CONTEXT, "configuration stays invalid");
    }
#else
    /* start from the first active enumerator */
    const char *d = NULL;
    for (int i = nr - 1; i >= 0; i--)
        if (act[i]) d = en[i];
    if (d)
    {
        MUST (SET (d, strlen (d)));
        MUST (dc_finalize_keep_reference (kv));
        s = SET (t, size);
        if (admit) { sx_reach ("admitted"); sx_assert (s == OK, "active enumerator accepted"); }
        else { sx_reach ("refused"); sx_assert (s == DISIR_STATUS_RESTRICTION_VIOLATED, "other text refused"); }
        MUST (dc_get_value_enum (kv, &out, &on));
        if (admit)
            sx_assert (on == size && same_bytes (out, t, size) && out[size] == 0, "text stored");
        else
            sx_assert (on == (int) strlen (d) && same_bytes (out, d, on) && out[on] == 0, "former text kept");
        MUST (dc_config_finalize (&c, &cfg));
        sx_assert (disir_config_valid (cfg, NULL) == OK, "configuration valid");
    }
    else
    {
        /* with no active enumerator nothing is accepted */
        sx_assert (SET (t, size) == DISIR_STATUS_INVALID_CONTEXT, "no text accepted");
        sx_assert (dc_finalize_keep_reference (kv) == DISIR_STATUS_INVALID_CONTEXT, "keyval invalid");
        sx_assert (dc_config_finalize (&c, &cfg) == DISIR_STATUS_INVALID_CONTEXT, "configuration invalid");
    }
#endif
    free (t);
    dc_putcontext (&kv);
    disir_config_finished (&cfg);
    disir_mold_finished (&mold);
    sx_assert (sx_live_heap () == 0, "everything released");
}
#endif
