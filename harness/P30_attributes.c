// sx-case: name=restriction -DRESTRICTION reach=range,numeric,entries,enum,refused,badkind
// sx-case: name=versions -DVERSIONS reach=introduced,deprecated,refused,config
// sx-case: name=names -DNAMES reach=known,unknown
// sx-case: name=shortcuts -DSHORT reach=range,numeric,enum,min,max
// sx-case: name=text -DTEXT reach=stored,again,refused
// sx-case: name=collection -DCOLL reach=some,none
// sx-case: name=text_long -DTEXT -DLEN=10 reach=stored,again,refused tier=thorough time=600
// sx-case: name=names_long -DNAMES -DLEN=17 reach=known,unknown tier=thorough time=900
// sx-bound: every double except not-a-numbers as bounds (integer keyvals: those within 2^53), every version, every 32 bit kind; parents: a keyval of each type and a section
// sx-bound: names: every text up to 15 bytes (thorough 17); documentation of up to 4 bytes (thorough 10)
#include "h.h"
#ifndef LEN
#ifdef NAMES
#define LEN 15
#else
#define LEN 4
#endif
#endif
static double number (const char *n, int integral)
{
    double d = sx_f64 (n);
    sx_assume (d == d);
    if (integral) { sx_assume (d >= -9007199254740992.0); sx_assume (d <= 9007199254740992.0); }
    return d;
}
static int same (double a, double b, int integral) { return integral ? a == (double) (int64_t) b : a == b; }
static const enum disir_value_type tys[] = { STR, INT, FLT, BOO, ENU };
static CTX *mold_ctx, *parent; static int pt;
static void begin (void)
{
    pt = sx_pick (6, "parent");
    MUST (dc_mold_begin (&mold_ctx));
    MUST (dc_begin (mold_ctx, pt == 5 ? DISIR_CONTEXT_SECTION : DISIR_CONTEXT_KEYVAL, &parent));
    MUST (dc_set_name (parent, "nm", 2));
    if (pt < 5) MUST (dc_set_value_type (parent, tys[pt]));
}
static void end (void)
{
    MUST (dc_destroy (&parent)); MUST (dc_destroy (&mold_ctx));
    sx_assert (sx_live_heap () == 0, "everything is released");
}
static int fits (enum disir_restriction_type k) { return k == RMIN || k == RMAX || (pt < 5 && k == RENU && tys[pt] == ENU) || (pt < 5 && (k == RRAN || k == RNUM) && (tys[pt] == INT || tys[pt] == FLT)); }
static int version_is (CTX *c, int dep, struct disir_version v)
{
    struct disir_version w = V (77, 78); ST s = dep ? dc_get_deprecated (c, &w) : dc_get_introduced (c, &w);
    return (s == OK) & veq (v, w);
}
void harness (void)
{
    sx_fmt_abstract = 1; /* numbers in messages are not examined */
    ST s; (void) s; (void) same; (void) fits; (void) begin; (void) end; (void) number; (void) version_is;
#if defined RESTRICTION
    CTX *r = NULL; enum disir_restriction_type k, got = 0; double a = 1, b = 2, x, y; const char *t = NULL; int raw = sx_i32 ("kind"), intg, done = 0;
    begin (); intg = pt < 5 && tys[pt] == INT;
    MUST (dc_begin (parent, DISIR_CONTEXT_RESTRICTION, &r));
    MUST (dc_get_restriction_type (r, &got)); sx_assert (got == DISIR_RESTRICTION_UNKNOWN, "no kind yet");
    s = dc_set_restriction_type (r, (enum disir_restriction_type) raw);
    if (DECIDE ((raw <= 0) | (raw >= (int) DISIR_RESTRICTION_UNKNOWN)))
    {
        sx_assert (s == DISIR_STATUS_INVALID_ARGUMENT, "no such kind");
        MUST (dc_get_restriction_type (r, &got)); sx_assert (got == DISIR_RESTRICTION_UNKNOWN, "no kind yet");
        sx_reach ("badkind"); k = DISIR_RESTRICTION_UNKNOWN; done = 1;
    }
    else
    {
        k = (enum disir_restriction_type) sx_concretize (raw);
        if (!fits (k)) { sx_assert (s == (pt == 5 ? DISIR_STATUS_WRONG_CONTEXT : DISIR_STATUS_WRONG_VALUE_TYPE), "a kind the parent cannot have"); MUST (dc_get_restriction_type (r, &got)); sx_assert (got == DISIR_RESTRICTION_UNKNOWN, "no kind yet"); sx_reach ("refused"); k = DISIR_RESTRICTION_UNKNOWN; done = 1; }
        else { sx_assert (s == OK, "the kind is set"); MUST (dc_get_restriction_type (r, &got)); sx_assert (got == k && !strcmp (dc_restriction_context_string (r), dc_restriction_enum_string (k)), "and read back"); }
    }
    x = number ("a", intg); y = number ("b", intg);
    /* range */
    s = dc_restriction_set_range (r, x, y);
    sx_assert (s == (k == RRAN ? OK : DISIR_STATUS_WRONG_VALUE_TYPE), "only ranges have bounds");
    a = 1; b = 2; s = dc_restriction_get_range (r, &a, &b);
    sx_assert (s == (k == RRAN ? OK : DISIR_STATUS_WRONG_VALUE_TYPE), "only ranges have bounds");
    if (k == RRAN) { sx_assert (same (a, x, intg) & same (b, y, intg), "the bounds are read back"); sx_reach ("range"); }
    else sx_assert ((a == 1) & (b == 2), "nothing is handed out");
    /* number */
    s = dc_restriction_set_numeric (r, x);
    sx_assert (s == (k == RNUM || k == RMIN || k == RMAX ? OK : DISIR_STATUS_WRONG_VALUE_TYPE), "only numbers and limits have a value");
    a = 1; s = dc_restriction_get_numeric (r, &a);
    sx_assert (s == (k == RNUM || k == RMIN || k == RMAX ? OK : DISIR_STATUS_WRONG_VALUE_TYPE), "only numbers and limits have a value");
    if (s == OK) { sx_assert (same (a, x, intg), "the value is read back"); sx_reach (k == RNUM ? "numeric" : "entries"); }
    else sx_assert (a == 1, "nothing is handed out");
    if (k == RRAN) { MUST (dc_restriction_get_range (r, &a, &b)); sx_assert (same (a, x, intg) & same (b, y, intg), "a refused change changes nothing"); }
    /* text */
    char txt[4]; sx_string (txt, 3, NULL, "text");
    s = dc_restriction_set_string (r, txt);
    sx_assert (s == (k == RENU ? OK : DISIR_STATUS_WRONG_VALUE_TYPE), "only enumerators have a text");
    s = dc_restriction_get_string (r, &t);
    sx_assert (s == (k == RENU ? OK : DISIR_STATUS_WRONG_VALUE_TYPE), "only enumerators have a text");
    if (s == OK)
    {
        sx_assert (t != txt && same_bytes (t, txt, strlen (txt) + 1), "the text is read back"); sx_reach ("enum");
        MUST (dc_restriction_set_string (r, "other")); MUST (dc_restriction_get_string (r, &t)); sx_assert (!strcmp (t, "other"), "the latest text is read back");
    }
    if (!done)
    {
        /* finalized: still there, and fixed */
        struct disir_version vi = sx_version1 (0, "introduced"), vd = sx_version (0, "deprecated");
        if (pt < 5) { CTX *d = NULL; (void) d; }
        MUST (dc_add_introduced (r, &vi)); MUST (dc_add_deprecated (r, &vd));
        MUST (dc_get_restriction_type (r, &got)); sx_assert (got == k, "the kind is kept");
        sx_assert (version_is (r, 0, vi) & version_is (r, 1, vd), "versions are read back");
        CTX *keep = r;
        if (dc_finalize_keep_reference (r) == OK)
        {
            sx_assert (dc_set_restriction_type (keep, k == RMIN ? RMAX : RMIN) == DISIR_STATUS_CONTEXT_IN_WRONG_STATE, "the kind is fixed");
            MUST (dc_get_restriction_type (keep, &got)); sx_assert (got == k, "the kind is kept");
            sx_assert (version_is (keep, 0, vi) & version_is (keep, 1, vd), "versions are read back");
            if (k == RRAN) { MUST (dc_restriction_get_range (keep, &a, &b)); sx_assert (same (a, x, intg) & same (b, y, intg), "the bounds are kept"); }
            else if (k != RENU) { MUST (dc_restriction_get_numeric (keep, &a)); sx_assert (same (a, x, intg), "the value is kept"); }
            else { MUST (dc_restriction_get_string (keep, &t)); sx_assert (!strcmp (t, "other"), "the text is kept"); }
            MUST (dc_putcontext (&keep)); r = NULL;
        }
    }
    if (r) MUST (dc_destroy (&r));
    end ();
#elif defined VERSIONS
    /* each kind of context */
    struct disir_version vi = sx_version (0, "introduced"), vd = sx_version (0, "deprecated"), w; int what = sx_pick (7, "context"); CTX *c = NULL, *p = NULL; struct disir_mold *mold = NULL; struct disir_config *cfg = NULL;
    int again = sx_pick (2, "again"), hasi, hasd;
    MUST (dc_mold_begin (&mold_ctx));
    MUST (dc_begin (mold_ctx, what == 2 ? DISIR_CONTEXT_SECTION : DISIR_CONTEXT_KEYVAL, &p)); MUST (dc_set_name (p, "nm", 2)); if (what != 2) { MUST (dc_set_value_type (p, INT)); }
    switch (what)
    {
    case 0: MUST (dc_begin (p, DISIR_CONTEXT_DEFAULT, &c)); break;
    case 1: MUST (dc_begin (p, DISIR_CONTEXT_DOCUMENTATION, &c)); break;
    case 2: case 3: c = p; break;
    case 4: MUST (dc_begin (p, DISIR_CONTEXT_RESTRICTION, &c)); MUST (dc_set_restriction_type (c, RMIN)); break;
    case 5: c = mold_ctx; break;
    default: MUST (dc_add_default_integer (p, 4, NULL)); MUST (dc_finalize (&p)); w = V (4, 4); MUST (dc_set_version (mold_ctx, &w)); MUST (dc_mold_finalize (&mold_ctx, &mold)); MUST (dc_config_begin (mold, &c)); break;
    }
    hasi = what == 0 || what == 1 || what == 2 || what == 4; hasd = what == 2 || what == 3 || what == 4;
    if (hasi && what != 1) sx_assert (version_is (c, 0, V (1, 0)), "introduced from the start if not said");
    if (again) { w = V (9, 9); if (hasi) MUST (dc_add_introduced (c, &w)); if (hasd) MUST (dc_add_deprecated (c, &w)); }
    s = dc_add_introduced (c, &vi);
    if (hasi) { sx_assert (s == OK, "kept"); sx_assert (version_is (c, 0, vi), "the version is read back"); sx_reach ("introduced"); }
    else
    {
        sx_assert (s != OK, "no introduction"); w = V (7, 8); sx_reach ("refused");
        s = dc_get_introduced (c, &w);
        if (what != 5) sx_assert (s == DISIR_STATUS_WRONG_CONTEXT && veq (w, V (7, 8)), "none to read");
        else sx_assert (s == OK && veq (w, V (1, 0)), "a mold's own version");
    }
    s = dc_add_deprecated (c, &vd);
    if (hasd) { sx_assert (s == OK, "kept"); sx_assert (version_is (c, 1, vd), "the version is read back"); sx_reach ("deprecated"); }
    else { sx_assert (s != OK, "no deprecation"); w = V (7, 8); s = dc_get_deprecated (c, &w); sx_assert (s == DISIR_STATUS_WRONG_CONTEXT && veq (w, V (7, 8)), "none to read"); }
    if (hasi) sx_assert (version_is (c, 0, vi), "independently");
    /* own versions */
    w = V (7, 8);
    if (what == 5) { MUST (dc_set_version (c, &vi)); MUST (dc_get_version (c, &w)); sx_assert (veq (w, vi), "the mold's version is read back"); }
    else if (what == 6)
    {
        struct disir_version before; MUST (dc_get_version (c, &before));
        s = dc_set_version (c, &vi); MUST (dc_get_version (c, &w));
        if (DECIDE (vle (vi, V (4, 4)))) sx_assert (s == OK && veq (w, vi), "the configuration's version is read back");
        else sx_assert (s == DISIR_STATUS_CONFLICTING_SEMVER && veq (w, before), "at most the mold's");
        sx_reach ("config");
    }
    else { sx_assert (dc_get_version (c, &w) == DISIR_STATUS_WRONG_CONTEXT && veq (w, V (7, 8)), "no own version"); sx_assert (dc_set_version (c, &vi) == DISIR_STATUS_WRONG_CONTEXT, "no own version"); if (hasi) sx_assert (version_is (c, 0, vi), "unchanged"); }
    if (what == 2) { MUST (dc_finalize_keep_reference (c)); sx_assert (version_is (c, 0, vi) & version_is (c, 1, vd), "also when finalized"); MUST (dc_putcontext (&c)); p = NULL; MUST (dc_destroy (&mold_ctx)); }
    else if (what == 6) { MUST (dc_destroy (&c)); MUST (disir_mold_finished (&mold)); }
    else { if (c != p && c != mold_ctx) MUST (dc_destroy (&c)); MUST (dc_destroy (&p)); MUST (dc_destroy (&mold_ctx)); }
    (void) cfg;
    sx_assert (sx_live_heap () == 0, "everything is released");
#elif defined NAMES
    static const char *const names[] = { "MINIMUM_ENTRIES", "MAXIMUM_ENTRIES", "ENUM", "RANGE", "NUMERIC" };
    char t[LEN + 1]; int k = sx_i32 ("kind"), i, hit = 0, n; enum disir_restriction_type got; const char *z;
    n = sx_string (t, LEN, NULL, "text");
    /* a kind is known by its name and by nothing else */
    got = dc_restriction_string_to_enum (t);
    for (i = 1; i < (int) DISIR_RESTRICTION_UNKNOWN; i++)
        if (strlen (dc_restriction_enum_string (i)) == (size_t) n && DECIDE (same_bytes (t, dc_restriction_enum_string (i), n))) { hit = i; }
    sx_assert (got == (hit ? (enum disir_restriction_type) hit : DISIR_RESTRICTION_UNKNOWN), "the kind of that name");
    sx_reach (hit ? "known" : "unknown");
    if (sx_pick (2, "kinds"))
    {
        z = dc_restriction_enum_string ((enum disir_restriction_type) k);
        sx_assert (z != NULL, "always a text");
        if (DECIDE ((k > 0) & (k < (int) DISIR_RESTRICTION_UNKNOWN)))
        {
            k = (int) sx_concretize (k);
            sx_assert (dc_restriction_string_to_enum (z) == (enum disir_restriction_type) k, "names map back");
            for (i = 1; i < (int) DISIR_RESTRICTION_UNKNOWN; i++) sx_assert (i == k || strcmp (dc_restriction_enum_string (i), z), "names are distinct");
            sx_assert (!strcmp (dc_restriction_group_type (k), k <= RMAX ? "INCLUSIVE" : "EXCLUSIVE"), "the group");
        }
        else { sx_assert (dc_restriction_string_to_enum (z) == DISIR_RESTRICTION_UNKNOWN, "no kind's name"); sx_assert (!strcmp (dc_restriction_group_type (k), "UNKNOWN"), "no group"); }
    }
    (void) names;
    sx_assert (dc_restriction_string_to_enum (NULL) == DISIR_RESTRICTION_UNKNOWN && !strcmp (dc_restriction_context_string (NULL), "INVALID"), "nothing");
#elif defined SHORT
    int k = sx_pick (5, "kind") + 1, vers = sx_pick (2, "version"), doc = sx_pick (2, "doc"), out = sx_pick (2, "output"), intg, n = 0; struct disir_version v = sx_version1 (0, "version"), vd = V (0, 0), *vp = vers ? &v : NULL, w; CTX *o = NULL, *x = NULL; double a, b, p, q; struct disir_collection *col = NULL; enum disir_restriction_type got; const char *t = NULL; int32_t tn = 0; int64_t lim = 0;
    begin (); intg = pt < 5 && tys[pt] == INT;
    (void) vd;
    p = number ("a", intg); q = number ("b", intg); sx_assume (q > p);
    if (k == RRAN) { s = dc_add_restriction_value_range (parent, p, q, doc ? "text" : NULL, vp, out ? &o : NULL); }
    else if (k == RNUM) s = dc_add_restriction_value_numeric (parent, p, doc ? "text" : NULL, vp, out ? &o : NULL);
    else if (k == RENU) s = dc_add_restriction_value_enum (parent, "val", doc ? "text" : NULL, vp, out ? &o : NULL);
    else { lim = sx_range (0, 1 << 30, "limit"); s = k == RMIN ? dc_add_restriction_entries_min (parent, lim, vp) : dc_add_restriction_entries_max (parent, lim, vp); out = 0; doc = 0; }
    if (!fits (k)) { sx_assert (s != OK && o == NULL, "a kind the parent cannot have"); sx_assert (dc_restriction_collection (parent, &col) == DISIR_STATUS_NOT_EXIST, "nothing is added"); }
    else
    {
        sx_assert (s == OK && (o != NULL) == out, "added");
        MUST (dc_restriction_collection (parent, &col));
        while (dc_collection_next (col, &x) == OK)
        {
            n++;
            if (out) sx_assert (x == o, "the one added");
            MUST (dc_get_restriction_type (x, &got)); sx_assert (got == (enum disir_restriction_type) k, "of its kind");
            MUST (dc_get_introduced (x, &w)); sx_assert (veq (w, vers ? v : V (1, 0)), "with its version");
            if (k == RRAN) { MUST (dc_restriction_get_range (x, &a, &b)); sx_assert (same (a, p, intg) & same (b, q, intg), "with its bounds"); sx_reach ("range"); }
            else if (k == RENU) { MUST (dc_restriction_get_string (x, &t)); sx_assert (!strcmp (t, "val"), "with its text"); sx_reach ("enum"); }
            else if (k == RNUM) { MUST (dc_restriction_get_numeric (x, &a)); sx_assert (same (a, p, intg), "with its value"); sx_reach ("numeric"); }
            else { MUST (dc_restriction_get_numeric (x, &a)); sx_assert (a == (double) lim, "with its limit"); sx_reach (k == RMIN ? "min" : "max"); }
            s = dc_get_documentation (x, NULL, &t, &tn);
            if (doc) sx_assert (s == OK && tn == 4 && !strcmp (t, "text"), "with its documentation"); else sx_assert (s != OK, "without documentation");
            MUST (dc_putcontext (&x));
        }
        sx_assert (n == 1, "one is added");
        MUST (dc_collection_finished (&col));
        if (o) MUST (dc_putcontext (&o));
    }
    end ();
#elif defined COLL
    /* restrictions are listed in the order they were added */
    int n = sx_pick (4, "number"), i, at = 0; CTX *x = NULL; double d[3], a; struct disir_collection *col = NULL; struct disir_version w, v[3];
    MUST (dc_mold_begin (&mold_ctx)); MUST (dc_begin (mold_ctx, DISIR_CONTEXT_KEYVAL, &parent)); MUST (dc_set_name (parent, "nm", 2)); MUST (dc_set_value_type (parent, FLT));
    for (i = 0; i < n; i++) { d[i] = number ("value", 0); v[i] = sx_version1 (0, "version"); MUST (dc_add_restriction_value_numeric (parent, d[i], "doc", &v[i], NULL)); }
    s = dc_restriction_collection (parent, &col);
    if (n == 0) { sx_assert (s == DISIR_STATUS_NOT_EXIST && col == NULL, "none"); sx_reach ("none"); }
    else
    {
        sx_assert (s == OK && dc_collection_size (col) == (uint32_t) n, "all");
        while (dc_collection_next (col, &x) == OK)
        {
            MUST (dc_restriction_get_numeric (x, &a)); MUST (dc_get_introduced (x, &w));
            sx_assert ((a == d[at]) & veq (w, v[at]), "in order");
            at++; MUST (dc_putcontext (&x));
        }
        sx_assert (at == n, "each once");
        MUST (dc_collection_finished (&col)); sx_reach ("some");
    }
    pt = 2; end ();
#elif defined TEXT
    /* documentation */
    int what = sx_pick (6, "context"), n, low = sx_pick (2, "stepwise"), sz; char b[LEN + 1]; CTX *c = NULL, *p = NULL, *d = NULL; struct disir_mold *mold = NULL; const char *t = NULL; int32_t tn = -1; struct disir_version v = V (1, 0);
    n = sx_string (b, LEN, NULL, "documentation"); sz = n;
    MUST (dc_mold_begin (&mold_ctx));
    MUST (dc_begin (mold_ctx, what == 1 ? DISIR_CONTEXT_SECTION : DISIR_CONTEXT_KEYVAL, &p)); MUST (dc_set_name (p, "nm", 2)); if (what != 1) MUST (dc_set_value_type (p, INT));
    switch (what)
    {
    case 0: case 1: c = p; break;
    case 2: c = mold_ctx; break;
    case 3: MUST (dc_begin (p, DISIR_CONTEXT_RESTRICTION, &c)); MUST (dc_set_restriction_type (c, RMAX)); break;
    case 4: MUST (dc_begin (p, DISIR_CONTEXT_DEFAULT, &c)); break;
    default: MUST (dc_add_default_integer (p, 4, NULL)); MUST (dc_finalize (&p)); MUST (dc_mold_finalize (&mold_ctx, &mold)); MUST (dc_config_begin (mold, &c)); break;
    }
    if (low)
    {
        s = dc_begin (c, DISIR_CONTEXT_DOCUMENTATION, &d);
        if (s == OK)
        {
            v = sx_version1 (0, "version"); MUST (dc_set_value_string (d, b, sz)); MUST (dc_add_introduced (d, &v));
            sx_assert (version_is (d, 0, v), "its version is read back");
            MUST (dc_finalize (&d));
        }
    }
    else s = dc_add_documentation (c, b, sz);
    if (what >= 4) { sx_assert (s != OK, "no documentation"); sx_reach ("refused"); }
    else if (!low && n == 0) { sx_assert (s == DISIR_STATUS_INVALID_ARGUMENT, "no text"); sx_assert (dc_get_documentation (c, NULL, &t, &tn) != OK, "none"); }
    else
    {
        sx_assert (s == OK, "documented");
        MUST (dc_get_documentation (c, sx_pick (2, "by version") ? &v : NULL, &t, &tn));
        if (n) sx_assert (tn == n && t != b && same_bytes (t, b, n + 1), "the text is read back"); else sx_assert (tn == 0 && (t == NULL || *t == 0), "an empty text is read back");
        sx_reach ("stored");
        sx_assert (dc_add_documentation (c, "more", 4) == DISIR_STATUS_EXISTS, "one is enough"); sx_reach ("again");
        MUST (dc_get_documentation (c, NULL, &t, &tn)); sx_assert (tn == n && (!n || same_bytes (t, b, n + 1)), "the first is kept");
    }
    if (what == 5) { MUST (dc_destroy (&c)); MUST (disir_mold_finished (&mold)); }
    else { if (c != p && c != mold_ctx) MUST (dc_destroy (&c)); MUST (dc_destroy (&p)); MUST (dc_destroy (&mold_ctx)); }
    sx_assert (sx_live_heap () == 0, "everything is released");
#endif
}
