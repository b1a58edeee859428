// sx-case: name=tree -DTREE reach=index,plain,section,keyval
// sx-case: name=removed -DTREE -DREMOVE reach=index,plain,section,keyval
// sx-case: name=deep -DDEEP reach=deep,shallow
// sx-case: name=many -DMANY reach=many
// sx-case: name=loose -DLOOSE reach=sibling,alone,inner steps=2000000
// sx-case: name=gone -DGONE reach=self,parent,sibling steps=2000000
// sx-case: name=names -DNAMES reach=named
// sx-case: name=deeper -DDEEP -DDEPTH=60 tier=thorough reach=deep,shallow time=600
// sx-case: name=names_long -DNAMES -DLEN=1 -DCS=\"abcdefghijklmnopqrstuvwxyz0123456789_\" tier=thorough reach=named time=800
// sx-bound: nesting up to 26 sections (thorough 61), up to three entries of each name and level over two levels, up to 101 entries of one name, names of up to 2 of the letters az_09 (thorough: any one letter)
// sx-assume: what is rendered for a context which is not (or no longer) part of its parents is not specified, only that the call ends with a status, without invalid accesses and with a releasable text on success
#include "h.h"
#ifndef DEPTH
#define DEPTH 25
#endif
#ifndef CS
#define CS "az_09"
#endif
#ifndef LEN
#define LEN 2
#endif
static struct disir_mold *mold; static CTX *mc, *cfgc, *parent; static struct disir_config *cfg;
static void unlimited (CTX *c) { MUST (dc_add_restriction_entries_max (c, 0, NULL)); }
static CTX *keyval (CTX *p, const char *name) { CTX *k = ckv_begin (p, name); MUST (dc_set_value_integer (k, 5)); MUST (dc_finalize_keep_reference (k)); return k; }
static void start (void) { MUST (dc_mold_finalize (&mc, &mold)); MUST (dc_config_begin (mold, &cfgc)); }
static void stop (void)
{
    MUST (dc_destroy (&cfgc)); MUST (disir_mold_finished (&mold));
    sx_assert (sx_live_heap () == 0, "everything is released");
}
static void names (CTX *c, const char *want, CTX *root)
{
    char *t = NULL; CTX *found = NULL; int n = strlen (want);
    MUST (dc_resolve_root_name (c, &t));
    sx_assert (strlen (t) == (size_t) n && same_bytes (t, want, n + 1), "the full name is the path to the element");
    MUST (dc_query_resolve_context (root, t, &found)); sx_assert (found == c, "which leads to it");
    MUST (dc_putcontext (&found)); free (t);
}
static void odd (CTX *c)
{
    char *t = (char *) "x"; ST s = dc_resolve_root_name (c, &t);
    if (s == OK) { sx_assert (strlen (t) < 400, "a text"); free (t); } else sx_assert (t && !strcmp (t, "x"), "nothing is handed out");
}
void harness (void)
{
    CTX *s, *k; int i, j; (void) i; (void) j; (void) s; (void) k; (void) names; (void) odd; (void) keyval; (void) stop; (void) start; (void) unlimited;
    sx_fmt_abstract = 0;
    MUST (dc_mold_begin (&mc));
#if defined TREE
    CTX *all[32], *owner[32], *in; const char *path[32]; char buf[32][24]; int n = 0, ns, nk[3], nt, w, g; char sec[16];
    s = section_of (mc, "sa"); unlimited (s); k = kv_of (s, "ka", INT, NULL); unlimited (k); MUST (dc_putcontext (&k)); MUST (dc_add_keyval_integer (s, "kb", 1, "doc", NULL, NULL)); MUST (dc_finalize (&s));
    k = kv_of (mc, "ka", INT, NULL); unlimited (k); MUST (dc_putcontext (&k));
    start ();
    ns = sx_pick (3, "sections") + 1; nt = sx_pick (3, "top");
    for (i = 0; i < ns; i++)
    {
        s = section_of (cfgc, "sa"); nk[i] = sx_pick (3, "inner");
        for (j = 0; j < nk[i]; j++) { all[n] = keyval (s, "ka"); if (!j) snprintf (buf[n], 24, i ? "sa@%d.ka" : "sa.ka", i); else (i ? snprintf (buf[n], 24, "sa@%d.ka@%d", i, j) : snprintf (buf[n], 24, "sa.ka@%d", j)); n++; }
        all[n] = keyval (s, "kb"); snprintf (buf[n], 24, i ? "sa@%d.kb" : "sa.kb", i); n++;
        ST e = dc_finalize_keep_reference (s); sx_assert (e == OK || e == DISIR_STATUS_INVALID_CONTEXT, "added"); all[n] = s; snprintf (buf[n], 24, i ? "sa@%d" : "sa", i); n++;
        if (i == 0) for (j = 0; j < nt; j++) { all[n] = keyval (cfgc, "ka"); snprintf (buf[n], 24, j ? "ka@%d" : "ka", j); n++; }
    }
    (void) owner; (void) in; (void) path; (void) sec;
#ifndef REMOVE
    w = sx_pick (n, "which");
    names (all[w], buf[w], cfgc);
    sx_reach (strchr (buf[w], '@') ? "index" : "plain"); sx_reach (dc_context_type (all[w]) == DISIR_CONTEXT_SECTION ? "section" : "keyval");
#else
    /* removing an element moves the later ones of its name up by one */
    g = sx_pick (n, "gone"); w = sx_pick (n, "which"); char *t = NULL; CTX *found = NULL; int sib = 0, at = -1; struct disir_collection *col; CTX *x; const char *nm;
    sx_assume (w != g);
    if (dc_context_type (all[g]) == DISIR_CONTEXT_SECTION) sx_assume (dc_context_type (all[w]) == DISIR_CONTEXT_SECTION);
    MUST (dc_destroy (&all[g]));
    MUST (dc_resolve_root_name (all[w], &t));
    MUST (dc_query_resolve_context (cfgc, t, &found)); sx_assert (found == all[w], "the full name leads to the element"); MUST (dc_putcontext (&found));
    /* the last index counts its siblings before it */
    MUST (dc_get_name (all[w], &nm, NULL));
    if (!strchr (buf[w], '.'))
    {
        char want[24];
        MUST (dc_find_elements (cfgc, nm, &col));
        while (dc_collection_next (col, &x) == OK) { if (x == all[w]) at = sib; sib++; MUST (dc_putcontext (&x)); }
        MUST (dc_collection_finished (&col));
        snprintf (want, 24, at ? "%s@%d" : "%s", nm, at); sx_assert (!strcmp (want, t), "the index is its place among its siblings");
    }
    sx_reach (strchr (t, '@') ? "index" : "plain"); sx_reach (dc_context_type (all[w]) == DISIR_CONTEXT_SECTION ? "section" : "keyval");
    free (t);
#endif
    for (i = 0; i < n; i++) if (all[i]) MUST (dc_putcontext (&all[i]));
    stop ();
#elif defined DEEP
    static char want[DEPTH * 4 + 16]; CTX *st[DEPTH + 2], *held[DEPTH + 2]; int depth = sx_pick (DEPTH + 1, "depth") + 1, dup = sx_pick (2, "twice"), l = 0;
    st[0] = mc;
    for (i = 0; i < depth; i++) { st[i + 1] = section_of (st[i], "s"); unlimited (st[i + 1]); }
    MUST (dc_add_keyval_integer (st[depth], "k", 1, "doc", NULL, NULL));
    for (i = depth; i > 0; i--) MUST (dc_finalize (&st[i]));
    start (); st[0] = cfgc;
    for (i = 0; i < depth; i++)
    {
        if (dup) { s = section_of (st[i], "s"); ST e = dc_finalize (&s); if (e == DISIR_STATUS_INVALID_CONTEXT) MUST (dc_putcontext (&s)); else sx_assert (e == OK, "added"); l += sprintf (want + l, "s@1."); } else l += sprintf (want + l, "s.");
        st[i + 1] = section_of (st[i], "s");
    }
    k = keyval (st[depth], "k"); strcpy (want + l, "k");
    for (i = depth; i > 0; i--) { held[i] = st[i]; ST e = dc_finalize_keep_reference (st[i]); sx_assert (e == OK || e == DISIR_STATUS_INVALID_CONTEXT, "added"); }
    names (k, want, cfgc);
    want[l - 1] = 0; names (held[depth], want, cfgc);
    sx_reach (depth > 20 ? "deep" : "shallow");
    for (i = depth; i > 0; i--) MUST (dc_putcontext (&held[i]));
    MUST (dc_putcontext (&k));
    stop ();
#elif defined MANY
    CTX *kk[101]; char want[24]; int w;
    k = kv_of (mc, "ka", INT, NULL); unlimited (k); MUST (dc_putcontext (&k));
    start ();
    for (i = 0; i < 101; i++) kk[i] = keyval (cfgc, "ka");
    w = (int[]) { 0, 9, 10, 99, 100 }[sx_pick (5, "which")];
    snprintf (want, 24, w ? "ka@%d" : "ka", w); names (kk[w], want, cfgc); sx_reach ("many");
    for (i = 0; i < 101; i++) MUST (dc_putcontext (&kk[i]));
    stop ();
#elif defined NAMES
    /* any names of the mold */
    char a[LEN + 1], b[LEN + 1], want[24]; int na, nb; static const char cs[] = CS;
    na = sx_string (a, LEN, cs, "section"); nb = sx_string (b, LEN, cs, "keyval"); sx_assume (na > 0); sx_assume (nb > 0);
    MUST (dc_begin (mc, DISIR_CONTEXT_SECTION, &s));
    ST st = dc_set_name (s, a, na); if (st != OK) sx_assume (0);
    MUST (dc_begin (s, DISIR_CONTEXT_KEYVAL, &k)); st = dc_set_name (k, b, nb); if (st != OK) sx_assume (0);
    MUST (dc_set_value_type (k, INT)); MUST (dc_add_default_integer (k, 2, NULL)); MUST (dc_finalize (&k)); MUST (dc_finalize (&s));
    start ();
    MUST (dc_begin (cfgc, DISIR_CONTEXT_SECTION, &s)); MUST (dc_set_name (s, a, na)); MUST (dc_begin (s, DISIR_CONTEXT_KEYVAL, &k)); MUST (dc_set_name (k, b, nb)); MUST (dc_set_value_integer (k, 4)); MUST (dc_finalize_keep_reference (k)); MUST (dc_finalize_keep_reference (s));
    memcpy (want, a, na); names (s, (want[na] = 0, want), cfgc); want[na] = '.'; memcpy (want + na + 1, b, nb + 1);
    names (k, want, cfgc); sx_reach ("named");
    MUST (dc_putcontext (&k)); MUST (dc_putcontext (&s));
    stop ();
#elif defined LOOSE
    /* while being constructed */
    int sib = sx_pick (3, "siblings"), named = sx_pick (2, "named"), what = sx_pick (4, "what"); CTX *o[2], *in = NULL;
    s = section_of (mc, "sa"); unlimited (s); k = kv_of (s, "ka", INT, NULL); unlimited (k); MUST (dc_putcontext (&k)); MUST (dc_finalize (&s));
    k = kv_of (mc, "ka", INT, NULL); unlimited (k); MUST (dc_putcontext (&k));
    if (sx_pick (2, "mold")) { s = section_of (mc, "sb"); k = NULL; MUST (dc_begin (s, DISIR_CONTEXT_KEYVAL, &k)); odd (k); if (named) MUST (dc_set_name (k, "kk", 2)); odd (k); odd (s); MUST (dc_destroy (&k)); MUST (dc_destroy (&s)); }
    start ();
    for (i = 0; i < sib; i++) o[i] = keyval (cfgc, "ka");
    MUST (dc_begin (cfgc, what == 0 ? DISIR_CONTEXT_KEYVAL : DISIR_CONTEXT_SECTION, &s));
    if (what == 1) { CTX *s2; for (i = 0; i < sib; i++) { s2 = section_of (cfgc, "sa"); ST e = dc_finalize (&s2); if (e != OK) MUST (dc_putcontext (&s2)); } }
    if (named) MUST (dc_set_name (s, what == 0 ? "ka" : "sa", 2));
    odd (s); sx_reach (sib ? "sibling" : "alone");
    if (what >= 2 && named)
    {
        /* inside a section under construction */
        if (what == 3) MUST (dc_putcontext (&((CTX *[]) { keyval (s, "ka") })[0]));
        in = ckv_begin (s, "ka"); odd (in); MUST (dc_set_value_integer (in, 4));
        MUST (dc_finalize_keep_reference (in)); odd (in); odd (s); sx_reach ("inner");
        MUST (dc_finalize_keep_reference (s));
        names (s, "sa", cfgc); names (in, what == 3 ? "sa.ka@1" : "sa.ka", cfgc);
        MUST (dc_putcontext (&in)); MUST (dc_putcontext (&s));
    }
    else MUST (dc_destroy (&s));
    for (i = 0; i < sib; i++) MUST (dc_putcontext (&o[i]));
    stop ();
#elif defined GONE
    /* destroyed, or below something destroyed */
    int what = sx_pick (5, "what"), two = sx_pick (2, "two"); CTX *k2 = NULL, *keep, *loose = NULL;
    s = section_of (mc, "sa"); unlimited (s); k = kv_of (s, "ka", INT, NULL); unlimited (k); MUST (dc_putcontext (&k)); MUST (dc_finalize (&s));
    start ();
    s = section_of (cfgc, "sa"); k = keyval (s, "ka"); if (two) k2 = keyval (s, "ka"); if (what == 4) loose = ckv_begin (s, "ka");
    MUST (dc_finalize_keep_reference (s));
    keep = what == 0 ? k : s; MUST (dc_find_element (what == 0 ? s : cfgc, what == 0 ? "ka" : "sa", 0, what == 0 ? &k : &s)); /* one more reference */
    MUST (dc_destroy (&keep));
    if (what == 0) { odd (k); if (two) names (k2, "sa.ka", cfgc); sx_reach ("self"); }
    else { odd (s); odd (k); if (two) odd (k2); sx_reach ("parent"); }
    if (what == 2) { MUST (dc_destroy (&cfgc)); odd (s); odd (k); MUST (disir_mold_finished (&mold)); }
    if (loose) { odd (loose); MUST (dc_destroy (&loose)); }
    MUST (dc_putcontext (&k)); if (k2) MUST (dc_putcontext (&k2)); sx_reach ("sibling");
    MUST (dc_putcontext (&s));
    if (cfgc) { MUST (dc_destroy (&cfgc)); MUST (disir_mold_finished (&mold)); }
    sx_assert (sx_live_heap () == 0, "everything is released");
#endif
}
