// sx-case: name=keyval -DKIND=0 reach=admitted,refused
// sx-case: name=section -DKIND=1 reach=admitted,refused
// sx-case: name=nested -DKIND=0 -DNESTED reach=admitted,refused
// sx-case: name=nested_section -DKIND=1 -DNESTED reach=admitted,refused
// sx-bound: rename: a finished element of one of two names, up to 3 elements of each there, given the other name; any maximum of 0..3 (the greater of two restrictions) of the other name
#include "h.h"
static CTX *element (CTX *p, const char *name)
{
    CTX *e = NULL;
    MUST (dc_begin (p, KIND ? DISIR_CONTEXT_SECTION : DISIR_CONTEXT_KEYVAL, &e)); MUST (dc_set_name (e, name, 1));
    if (KIND == 0) MUST (dc_set_value_integer (e, 4));
    MUST (dc_finalize_keep_reference (e));
    return e;
}
static int count (CTX *p, const char *name)
{
    struct disir_collection *col = NULL; int n = 0;
    if (dc_find_elements (p, name, &col) == OK) { n = dc_collection_size (col); dc_collection_finished (&col); }
    return n;
}
void harness (void)
{
    CTX *m = NULL, *p, *sec = NULL, *e = NULL, *c = NULL, *x = NULL; struct disir_mold *mold = NULL; struct disir_config *cfg = NULL;
    int i, na, nb, max, admit, unl; ST s; const char *name = NULL; int32_t len = 0; struct disir_version v1 = V (1, 0), v2 = V (2, 0);
    sx_fmt_abstract = 1;
    MUST (dc_mold_begin (&m)); p = m;
#ifdef NESTED
    p = sec = section_of (m, "s");
#endif
    max = (int) sx_range (0, 3, "maximum"); unl = DECIDE (max == 0); max = (int) sx_concretize (max);
    for (i = 0; i < 2; i++)
    {
        e = KIND ? section_of (p, i ? "b" : "a") : kv_of (p, i ? "b" : "a", INT, NULL);
        MUST (dc_add_restriction_entries_min (e, 0, NULL));
        if (i) MUST (dc_add_restriction_entries_max (e, 0, NULL));
        else { MUST (dc_add_restriction_entries_max (e, 5, &v1)); MUST (dc_add_restriction_entries_max (e, max, &v2)); }
        if (KIND) MUST (dc_finalize (&e)); else dc_putcontext (&e);
    }
    if (sec) MUST (dc_finalize (&sec));
    MUST (dc_mold_finalize (&m, &mold));
    MUST (dc_config_begin (mold, &c)); MUST (dc_set_version (c, &v2)); p = c;
#ifdef NESTED
    p = sec = section_of (c, "s");
#endif
    na = sx_pick (4, "of the name"); nb = 1 + sx_pick (3, "others"); sx_assume (unl || na <= max);
    for (i = 0; i < na; i++) { e = element (p, "a"); dc_putcontext (&e); }
    for (i = 0; i < nb; i++) { x = element (p, "b"); if (i < nb - 1) dc_putcontext (&x); }
    if (sec) MUST (dc_finalize_keep_reference (sec));
    MUST (dc_config_finalize (&c, &cfg)); c = dc_config_getcontext (cfg); if (!sec) p = c;
    admit = unl || na + 1 <= max;
    s = dc_set_name (x, "a", 1);
    sx_assert (s == (admit ? OK : DISIR_STATUS_RESTRICTION_VIOLATED), "renamed exactly if the maximum allows another");
    MUST (dc_get_name (x, &name, &len));
    sx_assert (len == 1 && name[0] == (admit ? 'a' : 'b') && name[1] == 0, "its name");
    sx_assert (count (p, "a") == na + admit && count (p, "b") == nb - admit, "listed under that name");
    sx_assert (dc_context_valid (x) == OK && disir_config_valid (cfg, NULL) == OK, "still valid");
    if (!admit) { MUST (dc_destroy (&x)); sx_assert (count (p, "b") == nb - 1, "removed from where it was"); }
    else dc_putcontext (&x);
    sx_reach (admit ? "admitted" : "refused");
    if (sec) dc_putcontext (&sec);
    dc_putcontext (&c);
    MUST (disir_config_finished (&cfg));
    MUST (disir_mold_finished (&mold));
    sx_assert (sx_live_heap () == 0, "everything released");
}
