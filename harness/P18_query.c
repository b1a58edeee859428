// sx-case: name=parts -DPARTS reach=found,missing,malformed
// sx-case: name=parts_section -DPARTS -DREL reach=found,missing,malformed
// sx-case: name=parts_mold -DPARTS -DINMOLD reach=found,missing,malformed
// sx-case: name=index -DINDEX reach=found,missing
// sx-case: name=index_section -DINDEX -DMID reach=found,missing
// sx-case: name=text -DTEXT -DLEN=5 reach=found,missing,malformed
// sx-case: name=text_index -DTEXT -DLEN=4 -DPREFIX="s@" reach=found,missing,malformed
// sx-case: name=text_below -DTEXT -DLEN=4 -DPREFIX="s." reach=found,missing,malformed
// sx-case: name=typed -DTYPED reach=found,missing
// sx-case: name=types -DTYPES reach=found,mistyped
// sx-case: name=size -DSIZE reach=missing,refused steps=400000000
// sx-case: name=arguments -DFORMAT reach=found,missing
// sx-case: name=parts_four -DPARTS -DDEPTH=4 reach=found,missing,malformed tier=thorough time=900
// sx-case: name=text_long -DTEXT -DLEN=6 reach=found,missing,malformed tier=thorough time=900
// sx-case: name=index_long -DINDEX -DDIGITS=20 reach=found,missing tier=thorough time=900
// sx-bound: types: every reader against every type, any value (strings up to 2 bytes), through either interface, in the root and in a section; the caller's output is untouched on refusal
// sx-bound: up to 3 (thorough 4) components of known and unknown names, each without index, with an index of one symbolic digit or a malformed one, on a configuration, a section and a mold; indices of 1, 2, 3, 9, 10 (thorough 1..20) any digits, negative ones included; any text of up to 5 (thorough 6) characters out of k s x . @ 0 1 9 - and blank, also after "s@" and "s."; queries of 2040..2060 characters
#include "h.h"
#ifndef DEPTH
#define DEPTH 3
#endif
#ifndef DIGITS
#define DIGITS 10
#endif
static CTX *root, *all[40]; static int nall;
static CTX *keep (CTX *c) { all[nall++] = c; return c; }
/* independent description of the tree: children of each element, by name */
struct node { CTX *c; int is_kv; struct node *k[3], *s[3]; int nk, ns; };
static struct node pool[20]; static int np;
static struct node *node (CTX *c, int kv) { struct node *n = &pool[np++]; n->c = c; n->is_kv = kv; return n; }
static struct node *add_kv (struct node *p, int64_t v)
{
    CTX *k = ckv_begin (p->c, "k"); struct node *n;
    MUST (dc_set_value_integer (k, v));
    MUST (dc_finalize_keep_reference (k));
    n = node (keep (k), 1); p->k[p->nk++] = n;
    return n;
}
static struct node *add_sec (struct node *p)
{
    CTX *s = NULL; struct node *n;
    MUST (dc_begin (p->c, DISIR_CONTEXT_SECTION, &s)); MUST (dc_set_name (s, "s", 1));
    n = node (keep (s), 0); p->s[p->ns++] = n;
    return n;
}
/* what the text means below n: the element, NULL and why not */
enum { FOUND, MISSING, MALFORMED, THROUGH };
static int odd;
static int meaning (struct node *n, const char *q, struct node **out)
{
    *out = NULL;
    for (;;)
    {
        int i, len = 0, at = -1, name = -1, neg = 0; uint64_t idx = 0; struct node **kids; int nk;
        while (q[len] && q[len] != '.') { if (q[len] == '@' && at < 0) at = len; len++; }
        if (n->is_kv) return THROUGH;
        if (len == 0) return q[0] == '.' ? MALFORMED : MISSING;
        if (at == 0) return MALFORMED;
        name = at < 0 ? len : at;
        if (at >= 0)
        {
            i = at + 1;
            if (i == len) return MALFORMED;
            if (q[i] == '-' || q[i] == '+' || q[i] == ' ')
            {
                odd = 1;
                while (q[i] == ' ') i++;
                if (q[i] == '-' || q[i] == '+') { neg = q[i] == '-'; i++; }
            }
            if (i == len) return MALFORMED;
            for (; i < len; i++)
            {
                if (q[i] < '0' || q[i] > '9') return MALFORMED;
                if (idx < 1000000) idx = idx * 10 + (q[i] - '0');
            }
        }
        if (name != 1) return MISSING;
        kids = q[0] == 'k' ? n->k : q[0] == 's' ? n->s : NULL; nk = q[0] == 'k' ? n->nk : q[0] == 's' ? n->ns : 0;
        if (!kids || (neg && idx) || idx >= (uint64_t) nk) return MISSING;
        n = kids[idx];
        if (!q[len]) { *out = n; return FOUND; }
        q += len + 1;
    }
}
static void judge (ST st, CTX *out, int how, struct node *want)
{
    if (odd)
    {
        /* signs and blanks: a malformed index or the number they make */
        if (st == DISIR_STATUS_INVALID_ARGUMENT) { sx_assert (out == NULL, "nothing handed out"); return; }
    }
    switch (how)
    {
    case FOUND: sx_assert (st == OK && out == want->c, "resolves to the element it names"); sx_reach ("found"); break;
    case MISSING: sx_assert (st == DISIR_STATUS_NOT_EXIST, "no such element"); sx_reach ("missing"); break;
    case MALFORMED: sx_assert (st == DISIR_STATUS_INVALID_ARGUMENT, "malformed"); sx_reach ("malformed"); break;
    default: sx_assert (st != OK, "nothing below a keyval"); break;
    }
    if (st != OK) sx_assert (out == NULL, "nothing handed out");
    if (out) dc_putcontext (&out);
}
void harness (void)
{
    CTX *m = NULL, *k = NULL, *s = NULL, *t = NULL, *c = NULL, *out = NULL; struct disir_mold *mold = NULL; struct disir_config *cfg = NULL;
    struct node *r, *a, *want = NULL, *from; int i, j, how; ST st;
    sx_fmt_abstract = 1;
    MUST (dc_mold_begin (&m));
#ifdef TYPES
    static const char *nm[] = { "t", "i", "f", "b", "e" }, *qs[2][5] = { { "t", "i", "f", "b", "e" }, { "s.t", "s.i", "s@0.f", "s.b", "s.e@0" } };
    static const enum disir_value_type ty[] = { STR, INT, FLT, BOO, ENU };
    int have = sx_pick (5, "type"), as = sx_pick (5, "as"), below = sx_pick (2, "below"), high = sx_pick (2, "high level"), len = sx_pick (3, "length");
    int64_t iv = sx_i64 ("int"), oi = 77; double fv = sx_f64 ("float"), of = 77; uint8_t bv = sx_pick (2, "bool"), ob = 77; char tv[3] = { 0 }; const char *ot = nm[0], *q;
    sx_assume (!__builtin_isnan (fv));
    for (i = 0; i < len; i++) { tv[i] = sx_u8 ("text"); sx_assume (tv[i] != 0); }
    if (have != 0) sx_assume (len == 0);
    s = section_of (m, "s");
    for (i = 0; i < 10; i++)
    {
        k = kv_of (i < 5 ? m : s, nm[i % 5], ty[i % 5], NULL);
        if (ty[i % 5] == ENU) { MUST (dc_add_restriction_value_enum (k, "aa", "x", NULL, NULL)); MUST (dc_add_restriction_value_enum (k, "bb", "x", NULL, NULL)); }
        dc_putcontext (&k);
    }
    MUST (dc_finalize (&s));
    MUST (dc_mold_finalize (&m, &mold));
    MUST (dc_config_begin (mold, &c));
    MUST (dc_begin (c, DISIR_CONTEXT_SECTION, &s)); MUST (dc_set_name (s, "s", 1));
    for (j = 0; j < 2; j++)
        for (i = 0; i < 5; i++)
        {
            int mine = j == below;
            k = ckv_begin (j ? s : c, nm[i]);
            switch (i)
            {
            case 0: MUST (dc_set_value_string (k, mine ? tv : "other", mine ? len : 5)); break;
            case 1: MUST (dc_set_value_integer (k, mine ? iv : 5)); break;
            case 2: MUST (dc_set_value_float (k, mine ? fv : 5.0)); break;
            case 3: MUST (dc_set_value_boolean (k, mine ? bv : !bv)); break;
            default: MUST (dc_set_value_enum (k, mine ? "bb" : "aa", 2)); break;
            }
            MUST (dc_finalize (&k));
        }
    MUST (dc_finalize (&s));
    if (high) MUST (dc_config_finalize (&c, &cfg));
    q = qs[below][have];
    switch (as)
    {
    case 0: st = high ? disir_config_get_keyval_string (cfg, &ot, q) : dc_config_get_keyval_string (c, &ot, q); break;
    case 1: st = high ? disir_config_get_keyval_integer (cfg, &oi, q) : dc_config_get_keyval_integer (c, &oi, q); break;
    case 2: st = high ? disir_config_get_keyval_float (cfg, &of, q) : dc_config_get_keyval_float (c, &of, q); break;
    case 3: st = high ? disir_config_get_keyval_boolean (cfg, &ob, q) : dc_config_get_keyval_boolean (c, &ob, q); break;
    default: st = high ? disir_config_get_keyval_enum (cfg, &ot, q) : dc_config_get_keyval_enum (c, &ot, q); break;
    }
    if (as == have || (as == 4 && have == 0))
    {
        sx_assert (st == OK, "read"); sx_reach ("found");
        if (have == 0) sx_assert (ot && strlen (ot) == (size_t) len && same_bytes (ot, tv, len), "its text");
        if (have == 4) sx_assert (ot && !strcmp (ot, "bb"), "its enumerator");
        sx_assert (oi == (have == 1 ? iv : 77), "its integer");
        sx_assert (have == 2 ? of == fv : of == 77, "its float");
        sx_assert (ob == (have == 3 ? bv : 77), "its boolean");
    }
    else
    {
        sx_assert (st == DISIR_STATUS_WRONG_VALUE_TYPE, "not of that type"); sx_reach ("mistyped");
        sx_assert (oi == 77 && of == 77 && ob == 77 && (as != 0 || ot == nm[0] || !ot), "nothing is handed out");
    }
    if (cfg) MUST (disir_config_finished (&cfg)); else MUST (dc_destroy (&c));
    MUST (disir_mold_finished (&mold));
    sx_assert (sx_live_heap () == 0, "looking keeps nothing");
    (void) r; (void) a; (void) want; (void) from; (void) how; (void) t; (void) out;
}
#else
    for (i = 0; i < 3; i++)
    {
        CTX *p = i == 0 ? m : i == 1 ? (s = section_of (m, "s")) : (t = section_of (s, "s"));
        k = kv_of (p, "k", INT, NULL);
        MUST (dc_add_restriction_entries_min (k, 0, NULL)); MUST (dc_add_restriction_entries_max (k, 0, NULL));
        dc_putcontext (&k);
    }
    for (i = 0; i < 2; i++)
    {
        CTX **p = i ? &s : &t;
        MUST (dc_add_restriction_entries_min (*p, 0, NULL)); MUST (dc_add_restriction_entries_max (*p, 0, NULL));
        MUST (dc_finalize_keep_reference (*p));
    }
    MUST (dc_mold_finalize (&m, &mold));
    m = dc_mold_getcontext (mold);
#ifdef INMOLD
    MUST (dc_find_element (m, "k", 0, &k));
    r = node (m, 0); root = m;
    r->k[r->nk++] = node (keep (k), 1);
    a = r->s[r->ns++] = node (keep (s), 0);
    MUST (dc_find_element (s, "k", 0, &k));
    a->k[a->nk++] = node (keep (k), 1);
    a = a->s[a->ns++] = node (keep (t), 0);
    MUST (dc_find_element (t, "k", 0, &k));
    a->k[a->nk++] = node (keep (k), 1);
#else
    dc_putcontext (&s); dc_putcontext (&t);
    MUST (dc_config_begin (mold, &c));
    r = node (c, 0); root = c;
    /* k k  s { k }  s { k k  s { k } s {} } */
    add_kv (r, 1); add_kv (r, 2);
    a = add_sec (r); add_kv (a, 3); MUST (dc_finalize_keep_reference (a->c));
    a = add_sec (r); add_kv (a, 4); add_kv (a, 5);
    struct node *b = add_sec (a); add_kv (b, 6); MUST (dc_finalize_keep_reference (b->c));
    b = add_sec (a); MUST (dc_finalize_keep_reference (b->c));
    MUST (dc_finalize_keep_reference (a->c));
#endif
    from = r;
#if defined REL
    from = r->s[1];
#endif
#if defined PARTS
    char q[64]; int n = 0, d = 1 + sx_pick (DEPTH, "components");
    static const char nm[] = { 'k', 's', 'x' };
    for (i = 0; i < d; i++)
    {
        int what;
        if (i) q[n++] = '.';
        q[n++] = nm[sx_pick (i + 1 < d ? 3 : 3, "name")];
        what = sx_pick (4, "index");
        if (what) q[n++] = '@';
        if (what == 1) { char x = (char) sx_u8 ("digit"); sx_assume (x >= '0' && x <= '9'); q[n++] = x; }
        if (what == 2) q[n++] = 'b';
    }
    q[n] = 0;
    st = dc_query_resolve_context (from->c, q, &out);
    how = meaning (from, q, &want);
    judge (st, out, how, want);
#elif defined INDEX
    static const int digits[] = { 1, 2, 3, 9, 10 };
    char q[64]; int n, nd = DIGITS > 10 ? 1 + sx_pick (DIGITS, "digits") : digits[sx_pick (5, "digits")]; uint64_t v = 0; int over = 0;
#ifdef MID
    strcpy (q, "s@");
#else
    strcpy (q, "k@");
#endif
    n = 2;
    int minus = sx_pick (2, "minus");
    if (minus) { q[n++] = '-'; odd = 1; }
    for (i = 0; i < nd; i++)
    {
        uint8_t x = sx_u8 ("digit");
        sx_assume (x >= '0' && x <= '9');
        q[n++] = (char) x;
        over |= v > (1ull << 58); v = v * 10 + (x - '0');
    }
    q[n] = 0;
#ifdef MID
    strcat (q, ".k");
#endif
    st = dc_query_resolve_context (c, q, &out);
    if (DECIDE (!over && (minus ? v == 0 : v < 2)))
    {
#ifdef MID
        want = r->s[DECIDE (v == 1)]->k[0];
#else
        want = r->k[DECIDE (v == 1)];
#endif
        judge (st, out, FOUND, want);
    }
    else judge (st, out, MISSING, NULL);
#elif defined TEXT
    char q[32]; int n, p;
#ifndef PREFIX
#define PREFIX ""
#endif
    strcpy (q, PREFIX); p = strlen (q);
    n = sx_string (q + p, LEN, "ksx.@019- ", "text");
    st = dc_query_resolve_context (c, q, &out);
    how = meaning (r, q, &want);
    judge (st, out, how, want);
#elif defined TYPED
    /* reading by query, through either interface */
    static const char *qs[] = { "k", "k@1", "k@2", "s.k", "s@1.k@1", "s@1.s.k", "s@1.s@1.k", "x" };
    static const int64_t val[] = { 1, 2, 0, 3, 5, 6, 0, 0 };
    static const int there[] = { 1, 1, 0, 1, 1, 1, 0, 0 };
    int w = sx_pick (8, "query"), as = sx_pick (5, "as"), high = sx_pick (2, "high level"); int64_t iv = 99; double fv; uint8_t bv; const char *tv;
    if (high) { MUST (dc_config_finalize (&c, &cfg)); c = dc_config_getcontext (cfg); root = c; }
    switch (as)
    {
    case 0: st = high ? disir_config_get_keyval_integer (cfg, &iv, qs[w]) : dc_config_get_keyval_integer (c, &iv, qs[w]); break;
    case 1: st = high ? disir_config_get_keyval_float (cfg, &fv, qs[w]) : dc_config_get_keyval_float (c, &fv, qs[w]); break;
    case 2: st = high ? disir_config_get_keyval_boolean (cfg, &bv, qs[w]) : dc_config_get_keyval_boolean (c, &bv, qs[w]); break;
    case 3: st = high ? disir_config_get_keyval_string (cfg, &tv, qs[w]) : dc_config_get_keyval_string (c, &tv, qs[w]); break;
    default: st = high ? disir_config_get_keyval_enum (cfg, &tv, qs[w]) : dc_config_get_keyval_enum (c, &tv, qs[w]); break;
    }
    if (!there[w]) { sx_assert (st == DISIR_STATUS_NOT_EXIST, "no such keyval"); sx_reach ("missing"); }
    else if (as) sx_assert (st == DISIR_STATUS_WRONG_VALUE_TYPE, "not of that type");
    else { sx_assert (st == OK && iv == val[w], "its value"); sx_reach ("found"); }
#elif defined SIZE
    static char q[2100]; int size = 2040 + sx_pick (21, "length"), shape = sx_pick (4, "shape");
    for (i = 0; i < size; i++) q[i] = shape == 0 ? 'x' : shape == 1 ? "s."[i & 1] : shape == 2 ? (i == 0 ? 'k' : i == 1 ? '@' : '0') : (i == 0 ? 's' : i == 1 ? '.' : 'x');
    q[size] = 0;
    st = dc_query_resolve_context (c, q, &out);
    if (shape == 2 && size < 2048) { sx_assert (st == OK && out == r->k[0]->c, "leading zeroes are fine"); dc_putcontext (&out); }
    else sx_assert (st != OK && out == NULL, "nothing of that name");
    if (st == DISIR_STATUS_NOT_EXIST) { sx_assert (size < 2048, "judged by the whole text"); sx_reach ("missing"); }
    if (st == DISIR_STATUS_INSUFFICIENT_RESOURCES) { sx_assert (size >= 2047, "only what does not fit"); sx_reach ("refused"); }
#elif defined FORMAT
    /* the query is a format with arguments */
    char nm[4] = { 0 }; int i1 = sx_pick (4, "section"), i2 = sx_pick (4, "keyval");
    nm[0] = sx_u8 ("name"); sx_assume (nm[0] == 'k' || nm[0] == 's' || nm[0] == 'x');
    st = dc_query_resolve_context (c, "s@%d.%s@%d", &out, i1, nm, i2);
    how = MISSING;
    if (i1 < 2)
    {
        a = r->s[i1];
        if (DECIDE (nm[0] == 'k')) { if (i2 < a->nk) { how = FOUND; want = a->k[i2]; } }
        else if (DECIDE (nm[0] == 's')) { if (i2 < a->ns) { how = FOUND; want = a->s[i2]; } }
    }
    judge (st, out, how, want);
    int64_t iv = 0;
    st = dc_config_get_keyval_integer (c, &iv, "%s@%d.k@%d", "s", i1, i2);
    if (i1 < 2 && i2 < r->s[i1]->nk) sx_assert (st == OK && iv == (i1 ? 4 + i2 : 3), "the value there");
    else sx_assert (st == DISIR_STATUS_NOT_EXIST, "not there");
#endif
    (void) j; (void) how; (void) cfg; (void) root;
    for (i = 0; i < nall; i++) dc_putcontext (&all[i]);
    dc_putcontext (&m);
    if (cfg) { dc_putcontext (&c); MUST (disir_config_finished (&cfg)); }
    else if (c) dc_destroy (&c);
    MUST (disir_mold_finished (&mold));
    sx_assert (sx_live_heap () == 0, "looking keeps nothing");
}
#endif
