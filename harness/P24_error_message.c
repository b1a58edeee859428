// sx-case: name=copy -DCOPY log=1 reach=fits,cut,toosmall,none
// sx-case: name=history -DHISTORY log=1 reach=shorter,longer,cleared,empty
// sx-case: name=formats -DFORMATS log=1 reach=done
// sx-case: name=calls -DCALLS log=1 reach=done
// sx-case: name=copy_long -DCOPY -DLEN=14 log=1 reach=fits,cut,toosmall,none tier=thorough time=900
// sx-case: name=history_long -DHISTORY -DSTEPS=5 log=1 reach=shorter,longer,cleared,empty tier=thorough time=900
// sx-case: name=context -DCONTEXT -DSTEPS=3 log=1 reach=shorter,longer,same
// sx-case: name=context_long -DCONTEXT -DSTEPS=4 log=1 reach=shorter,longer,same tier=thorough time=900
// sx-bound: context: every sequence of 3 (thorough 4) failing operations out of 6 on one configuration, their messages of 6 lengths, set on it or handed over from an element
// sx-bound: messages of every length up to 7 bytes (thorough 14), every byte; every buffer size from -2 to twice that; any 32-bit size below 4
// sx-bound: history: every sequence of 4 steps (thorough 5) out of setting a message of 0, 2 or 5 bytes (thorough also 9), clearing and copying into an exactly large buffer
#include "h.h"
#include <disir/plugin.h>
#ifndef LEN
#define LEN (7)
#endif
#ifndef STEPS
#define STEPS 4
#endif
extern int runtime_loglevel;
static struct disir_instance *ins;
static char msg[64]; static int mlen = 0, has = 0;
static void set (int n)
{
    char t[64]; int i;
    for (i = 0; i < n; i++) { uint8_t c = sx_u8 ("byte"); sx_assume (c != 0); t[i] = (char) c; }
    t[n] = 0;
    disir_error_set (ins, "%s", t);
    if (n) { memcpy (msg, t, n + 1); mlen = n; has = 1; }
}
static void text_is (void)
{
    const char *e = disir_error (ins);
    if (!has) { sx_assert (e == NULL, "no message"); return; }
    sx_assert (e != NULL, "there is a message");
    sx_assert (strlen (e) == (size_t) mlen && same_bytes (e, msg, mlen + 1), "the stored text is the last message");
}
/* copies into a buffer of exactly n bytes */
static void copy (int n)
{
    int32_t w = -7; int i, cut = n < mlen + 1;
    char *b = malloc (n > 0 ? n : 1);
    ST s;
    for (i = 0; i < n; i++) b[i] = 'x';
    s = disir_error_copy (ins, b, n, &w);
    if (n < 4)
    {
        sx_assert (s == DISIR_STATUS_INSUFFICIENT_RESOURCES, "a buffer below four bytes is refused");
        for (i = 0; i < n; i++) sx_assert (b[i] == 'x', "and left alone");
        sx_reach ("toosmall");
    }
    else if (!has)
    {
        sx_assert (s == OK && b[0] == 0 && w == 0, "no message copies as an empty text");
        sx_reach ("none");
    }
    else if (cut)
    {
        sx_assert (s == DISIR_STATUS_INSUFFICIENT_RESOURCES, "a cut message is reported");
        sx_assert (w == mlen, "the size of the message is reported");
        sx_assert (b[n - 1] == 0 && b[n - 2] == '.' && b[n - 3] == '.' && b[n - 4] == '.', "the cut is marked");
        sx_assert (same_bytes (b, msg, n - 4), "the beginning is copied");
        sx_reach ("cut");
    }
    else
    {
        sx_assert (s == OK && w == mlen, "the whole message fits");
        sx_assert (same_bytes (b, msg, mlen + 1), "and is copied with its terminator");
        sx_reach ("fits");
    }
    text_is ();
    free (b);
}
#ifdef CONTEXT
static ST fail (CTX *c, int op)
{
    switch (op)
    {
    case 0: return dc_config_set_keyval_integer (c, 1, "missing");
    case 1: return dc_config_set_keyval_integer (c, 1, "missing_with_a_name_quite_long_for_an_element_of_this_configuration_or_any_other");
    case 2: return dc_config_set_keyval_integer (c, 1, "e");
    case 3: return dc_config_set_keyval_enum (c, "b", "e");
    case 4: return dc_config_set_keyval_enum (c, "not_one_of_the_values_listed_for_this_enumeration_and_a_good_deal_longer_than_any", "e");
    default: return dc_config_set_keyval_integer (c, 1, "e@3");
    }
}
static struct disir_config *config (struct disir_mold *mold)
{
    CTX *c = NULL, *e = NULL; struct disir_config *cfg = NULL;
    MUST (dc_config_begin (mold, &c));
    MUST (dc_begin (c, DISIR_CONTEXT_KEYVAL, &e)); MUST (dc_set_name (e, "e", 1)); MUST (dc_set_value_enum (e, "aa", 2)); MUST (dc_finalize (&e));
    MUST (dc_config_finalize (&c, &cfg));
    return cfg;
}
static void on_contexts (void)
{
    CTX *m = NULL, *e = NULL, *c = NULL, *t = NULL; struct disir_mold *mold = NULL; struct disir_config *cfg = NULL;
    int i, op = 0, n, last = 0; ST s;
    MUST (dc_mold_begin (&m));
    e = kv_of (m, "e", ENU, NULL); MUST (dc_add_restriction_value_enum (e, "a", NULL, NULL, NULL)); MUST (dc_add_restriction_value_enum (e, "aa", NULL, NULL, NULL)); dc_putcontext (&e);
    MUST (dc_mold_finalize (&m, &mold));
    cfg = config (mold); c = dc_config_getcontext (cfg);
    for (i = 0; i < STEPS; i++)
    {
        struct disir_config *fresh;
        op = sx_pick (6, "operation");
        s = fail (c, op);
        sx_assert (s != OK, "it fails");
        sx_assert (dc_context_error (c) != NULL, "and is explained");
        n = (int) strlen (dc_context_error (c));
        if (i) sx_reach (n < last ? "shorter" : n > last ? "longer" : "same");
        last = n;
        /* the same operation on a configuration nothing failed on before */
        fresh = config (mold);
        t = dc_config_getcontext (fresh);
        sx_assert (fail (t, op) == s, "with the same status");
        sx_assert (dc_context_error (t) && !strcmp (dc_context_error (t), dc_context_error (c)), "the text is that of the last failure alone");
        dc_putcontext (&t);
        MUST (disir_config_finished (&fresh));
    }
    dc_putcontext (&c);
    MUST (disir_config_finished (&cfg)); MUST (disir_mold_finished (&mold));
    sx_assert (sx_live_heap () == 0, "everything is released");
}
#endif
void harness (void)
{
#ifdef CONTEXT
    runtime_loglevel = 1;
    on_contexts ();
    return;
#endif
    runtime_loglevel = 1;
    MUST (disir_instance_create (NULL, NULL, &ins));
    disir_error_clear (ins);
    text_is ();
#ifdef COPY
    set (sx_pick (LEN + 1, "length"));
    text_is ();
    copy (sx_pick (2 * LEN + 3, "buffer") - 2);
#endif
#ifdef HISTORY
    for (int i = 0; i < STEPS; i++)
        switch (sx_pick (3, "step"))
        {
        case 0:
        {
            static const int lens[] = { 0, 2, 5, 9 };
            int n = lens[sx_pick (STEPS > 4 ? 4 : 3, "length")];
            if (n == 0) sx_reach ("empty");
            else if (has) sx_reach (n < mlen ? "shorter" : "longer");
            set (n);
            text_is ();
            break;
        }
        case 1: disir_error_clear (ins); if (has) sx_reach ("cleared"); has = 0; mlen = 0; text_is (); break;
        case 2: copy (mlen + 1 < 4 ? 4 : mlen + 1); break;
        }
#endif
#ifdef FORMATS
    char e[64];
    int a = (int) sx_concretize (sx_range (-12, 12, "number")); unsigned int u = 4294967295u;
    disir_error_set (ins, "%s %d/%u '%c' 100%%", "entry", a, u, 'c');
    snprintf (e, sizeof e, "%s %d/%u '%c' 100%%", "entry", a, u, 'c');
    sx_assert (!strcmp (disir_error (ins), e), "the message is formatted once");
    disir_error_set (ins, "%s", "100% %d %s");
    sx_assert (!strcmp (disir_error (ins), "100% %d %s"), "arguments are no formats");
    sx_reach ("done");
#endif
#ifdef CALLS
    /* messages set and cleared by the library's own calls */
    struct disir_entry *en = (void *) 8; struct disir_config *cfg = NULL; struct disir_mold *mold = NULL; int32_t w; char b[200];
    ST s;
    disir_error_set (ins, "old");
    switch (sx_pick (5, "call"))
    {
    case 0: s = disir_config_read (ins, "grp", "some/entry", NULL, &cfg); sx_assert (s == DISIR_STATUS_NOT_EXIST, "missing"); break;
    case 1: s = disir_mold_read (ins, "grp", "some/entry", &mold); sx_assert (s == DISIR_STATUS_NOT_EXIST, "missing"); break;
    case 2: s = disir_config_query (ins, "grp", "some/entry", NULL); sx_assert (s == DISIR_STATUS_GROUP_MISSING, "missing"); break;
    case 3: s = disir_config_remove (ins, "grp", "some/entry"); sx_assert (s != OK, "missing"); break;
    default: s = disir_config_entries (ins, "grp", &en); sx_assert (s == OK && en == NULL, "empty"); sx_assert (disir_error (ins) == NULL, "a good call leaves no message"); break;
    }
    if (s != OK)
    {
        sx_assert (disir_error (ins) != NULL && strcmp (disir_error (ins), "old"), "the failure is explained");
        sx_assert (disir_error_copy (ins, b, sizeof b, &w) == OK && !strcmp (b, disir_error (ins)) && w == (int) strlen (b), "and can be copied");
    }
    sx_assert (disir_error_copy (NULL, b, 10, NULL) == DISIR_STATUS_INVALID_ARGUMENT, "no instance");
    sx_assert (disir_error_copy (ins, NULL, 10, NULL) == DISIR_STATUS_INVALID_ARGUMENT, "no buffer");
    if (s != OK) sx_assert (disir_error_copy (ins, b, 4, NULL) == DISIR_STATUS_INSUFFICIENT_RESOURCES && !strcmp (b, "..."), "the size is optional");
    disir_error_set (NULL, "x"); disir_error_set (ins, NULL);
    sx_reach ("done");
#endif
    MUST (disir_instance_destroy (&ins));
    sx_assert (ins == NULL && sx_live_heap () == 0, "everything is released");
}
