// sx-case: name=tree -DPART=0 reach=wrong,missing,gone,plain time=120
// sx-case: name=values -DPART=1 reach=wrong,missing,gone,plain time=120
// sx-case: name=attributes -DPART=2 reach=wrong,missing,gone,plain time=120
// sx-case: name=limits -DPART=3 reach=wrong,missing,gone,plain time=120
// sx-case: name=queries -DPART=4 reach=wrong,missing,gone,plain time=120
// sx-case: name=begin -DBEGIN reach=refused,begun
// sx-case: name=others -DOTHERS reach=missing
// sx-case: name=update -DUPDATE reach=missing
// sx-bound: 34 contexts (every kind, under construction and finalized, of molds and configurations, with and without name, type, mold counterpart, and destroyed ones, and none) x every context operation of the public interface x each required argument missing, or none; begin: every 32 bit kind
// sx-assume: arguments documented as optional are not counted as missing; what an operation does on a kind it supports is not examined here, only that it ends without an invalid access or leak
#include "h.h"
#include <disir/plugin.h>
#include <disir/archive.h>
enum { bM = 1, bC = 2, bSM = 4, bSC = 8, bKM = 16, bKC = 32, bD = 64, bT = 128, bR = 256 };
#define bS (bSM | bSC)
#define bK (bKM | bKC)
static struct disir_mold *mold; static struct disir_config *cfg; static CTX *mc, *cc, *tmp[6]; static int ntmp;
static CTX *c; static int kind, cls, dead;
static void *SENT = &SENT;
/* -- the context under examination ------------------------------------------------ */
static void a_mold (void)
{
    CTX *s, *k;
    MUST (dc_mold_begin (&mc));
    s = section_of (mc, "s"); MUST (dc_add_restriction_entries_max (s, 0, NULL)); k = kv_of (s, "k", INT, NULL); MUST (dc_putcontext (&k)); MUST (dc_add_documentation (s, "sec", 3)); MUST (dc_finalize (&s));
    k = kv_of (mc, "k", INT, NULL); MUST (dc_putcontext (&k)); MUST (dc_add_keyval_string (mc, "t", "x", "doc", NULL, NULL));
}
static void a_config (void) { a_mold (); MUST (dc_mold_finalize (&mc, &mold)); MUST (dc_config_begin (mold, &cc)); }
static CTX *child (CTX *p, enum disir_context_type t) { CTX *x = NULL; MUST (dc_begin (p, t, &x)); return x; }
static CTX *keep (CTX *x) { tmp[ntmp++] = x; return x; }
static void create (void)
{
    ST s; CTX *k;
    kind = sx_pick (34, "kind");
    switch (kind)
    {
    case 0: c = NULL; cls = 0; break;
    case 1: a_mold (); c = mc; cls = bM; break;
    case 2: a_mold (); MUST (dc_mold_finalize (&mc, &mold)); c = dc_mold_getcontext (mold); cls = bM; break;
    case 3: a_config (); c = cc; cls = bC; break;
    case 4: a_config (); s = dc_config_finalize (&cc, &cfg); c = dc_config_getcontext (cfg); cls = bC; break;
    case 5: a_mold (); c = child (mc, DISIR_CONTEXT_SECTION); cls = bSM; break;
    case 6: a_mold (); MUST (dc_find_element (mc, "s", 0, &c)); cls = bSM; break;
    case 7: a_config (); c = child (cc, DISIR_CONTEXT_SECTION); cls = bSC; break;
    case 8: a_config (); c = child (cc, DISIR_CONTEXT_SECTION); s = dc_set_name (c, "unknown", 7); sx_assert (s != OK, "unknown"); cls = bSC; break;
    case 9: a_config (); c = section_of (cc, "s"); k = ckv_begin (c, "k"); MUST (dc_set_value_integer (k, 2)); MUST (dc_finalize (&k)); MUST (dc_finalize_keep_reference (c)); cls = bSC; break;
    case 10: a_mold (); c = child (mc, DISIR_CONTEXT_KEYVAL); cls = bKM; break;
    case 11: case 12: case 13: case 14: case 15:
        a_mold (); c = child (mc, DISIR_CONTEXT_KEYVAL); MUST (dc_set_name (c, "nm", 2)); MUST (dc_set_value_type (c, (enum disir_value_type[]) { STR, INT, FLT, BOO, ENU }[kind - 11])); cls = bKM; break;
    case 16: a_mold (); MUST (dc_find_element (mc, "k", 0, &c)); cls = bKM; break;
    case 17: a_config (); c = child (cc, DISIR_CONTEXT_KEYVAL); cls = bKC; break;
    case 18: a_config (); c = child (cc, DISIR_CONTEXT_KEYVAL); s = dc_set_name (c, "unknown", 7); sx_assert (s != OK, "unknown"); cls = bKC; break;
    case 19: a_config (); c = ckv_begin (cc, "t"); cls = bKC; break;
    case 20: a_config (); c = ckv_begin (cc, "k"); MUST (dc_set_value_integer (c, 3)); MUST (dc_finalize_keep_reference (c)); cls = bKC; break;
    case 21: case 22:
        a_mold (); k = keep (child (mc, DISIR_CONTEXT_KEYVAL)); MUST (dc_set_name (k, "nm", 2)); MUST (dc_set_value_type (k, kind == 21 ? INT : STR)); c = child (k, DISIR_CONTEXT_DEFAULT); cls = bD; break;
    case 23: a_mold (); k = keep (child (mc, DISIR_CONTEXT_KEYVAL)); MUST (dc_set_name (k, "nm", 2)); MUST (dc_set_value_type (k, INT)); c = child (k, DISIR_CONTEXT_DEFAULT); MUST (dc_set_value_integer (c, 3)); MUST (dc_finalize_keep_reference (c)); cls = bD; break;
    case 24: a_mold (); c = child (mc, DISIR_CONTEXT_DOCUMENTATION); cls = bT; break;
    case 25: a_mold (); c = child (mc, DISIR_CONTEXT_DOCUMENTATION); MUST (dc_set_value_string (c, "doc", 3)); MUST (dc_finalize_keep_reference (c)); cls = bT; break;
    case 26: case 27: case 28: case 29:
        a_mold (); k = keep (child (mc, DISIR_CONTEXT_KEYVAL)); MUST (dc_set_name (k, "nm", 2)); MUST (dc_set_value_type (k, kind == 29 ? ENU : INT)); c = child (k, DISIR_CONTEXT_RESTRICTION); if (kind > 26) { MUST (dc_set_restriction_type (c, kind == 27 ? RMIN : kind == 28 ? RRAN : RENU)); } cls = bR; break;
    case 30: /* finalized limit of a section */
        a_mold (); k = keep (section_of (mc, "nm")); c = child (k, DISIR_CONTEXT_RESTRICTION); MUST (dc_set_restriction_type (c, RMAX)); MUST (dc_restriction_set_numeric (c, 3)); MUST (dc_finalize_keep_reference (c)); cls = bR; break;
    case 31: /* destroyed element */
        a_config (); c = ckv_begin (cc, "k"); MUST (dc_set_value_integer (c, 3)); MUST (dc_finalize_keep_reference (c)); MUST (dc_find_element (cc, "k", 0, &k)); MUST (dc_destroy (&k)); dead = 1; cls = 0; break;
    case 32: /* destroyed configuration */
        a_config (); s = dc_config_finalize (&cc, &cfg); c = dc_config_getcontext (cfg); MUST (disir_config_finished (&cfg)); dead = 1; cls = 0; break;
    default: /* below a destroyed section */
        a_config (); k = section_of (cc, "s"); c = ckv_begin (k, "k"); MUST (dc_destroy (&k)); dead = 1; cls = 0; break;
    }
}
static void release (void)
{
    int i, built = kind == 5 || kind == 7 || kind == 8 || (kind >= 10 && kind <= 15) || (kind >= 17 && kind <= 19) || kind == 21 || kind == 22 || kind == 24 || (kind >= 26 && kind <= 29) || kind == 33;
    if (c && c != mc && c != cc) { if (built) MUST (dc_destroy (&c)); else MUST (dc_putcontext (&c)); }
    for (i = ntmp - 1; i >= 0; i--) MUST (dc_destroy (&tmp[i]));
    if (cfg) MUST (disir_config_finished (&cfg));
    if (cc) MUST (dc_destroy (&cc));
    if (mold) MUST (disir_mold_finished (&mold));
    if (mc) MUST (dc_destroy (&mc));
    sx_assert (sx_live_heap () == 0, "everything is released");
}
/* what can be observed of it */
struct seen { int valid, type, vtype, nelem, rtype, size; int64_t i; const char *name, *text, *doc; struct disir_version in, de, ve; double num; uint8_t b; };
static struct seen look (void)
{
    struct seen o; struct disir_collection *col = NULL; enum disir_restriction_type rt = 0; ST s; double d2 = 0;
    memset (&o, 0, sizeof o);
    if (!c || dead) return o;
    o.valid = dc_context_valid (c); o.type = dc_context_type (c); o.vtype = dc_value_type (c);
    if (dc_get_elements (c, &col) == OK) { o.nelem = dc_collection_size (col); dc_collection_finished (&col); }
    if (dc_get_restriction_type (c, &rt) == OK) o.rtype = rt;
    s = dc_get_value_integer (c, &o.i); s = dc_get_value_string (c, &o.text, &o.size); s = dc_get_value_boolean (c, &o.b); s = dc_get_name (c, &o.name, NULL);
    s = dc_get_introduced (c, &o.in); s = dc_get_deprecated (c, &o.de); s = dc_get_version (c, &o.ve); s = dc_get_documentation (c, NULL, &o.doc, NULL);
    s = dc_restriction_get_numeric (c, &o.num); s = dc_restriction_get_range (c, &o.num, &d2); o.num += d2; (void) s;
    return o;
}
/* -- the operations ---------------------------------------------------------------- */
#define A(n, x) (m == (n) ? NULL : (x))
typedef ST (*fun) (int m);
static CTX *ox; static struct disir_collection *oc; static const char *ot; static int32_t on; static struct disir_version ov; static struct disir_mold *om; static struct disir_config *og; static char buf[32]; static enum disir_restriction_type ort; static enum disir_value_type ovt; static double of, of2; static int64_t oi; static uint8_t ob; static int od; static char *os; static struct disir_diff_report *orep;
static ST col (ST s) { if (s == OK) { sx_assert (oc != NULL, "a collection"); dc_collection_finished (&oc); } else sx_assert (!oc, "nothing is handed out"); return s; }
static ST ctx (ST s) { if (s == OK || s == DISIR_STATUS_INVALID_CONTEXT) { if (ox) dc_putcontext (&ox); } else sx_assert (!ox, "nothing is handed out"); return s; }
static ST txt (ST s) { sx_assert (s == OK || ot == NULL, "nothing is handed out"); return s; }
static ST ver (ST s) { sx_assert (s == OK || veq (ov, V (41, 42)), "nothing is handed out"); return s; }
static ST num (ST s) { sx_assert (s == OK || ((of == 7) & (of2 == 7) & (oi == 7) & (ob == 7) & (od == 7)), "nothing is handed out"); return s; }
/* a: tree */
static ST f_fin (int m) { (void) m; CTX *x = c; ST s = cls & (bM | bC) || !c || dead ? dc_finalize (&x) : DISIR_STATUS_NO_CAN_DO; sx_assert (x == c, "the handle is kept"); return s; }
static ST f_fink (int m) { (void) m; return cls & (bM | bC) || !c || dead ? dc_finalize_keep_reference (c) : DISIR_STATUS_NO_CAN_DO; }
static ST f_mfin (int m) { CTX *x = c; if (cls == bM) { return m ? dc_mold_finalize (&x, NULL) : OK; } ST s = dc_mold_finalize (&x, A (1, &om)); sx_assert (x == c && !om, "the handle is kept"); return s; }
static ST f_cfin (int m) { CTX *x = c; if (cls == bC) { return m ? dc_config_finalize (&x, NULL) : OK; } ST s = dc_config_finalize (&x, A (1, &og)); sx_assert (x == c && !og, "the handle is kept"); return s; }
static ST f_valid (int m) { (void) m; return dc_context_valid (c) == OK ? OK : DISIR_STATUS_INTERNAL_ERROR; }
static ST f_setname (int m) { const char *nm = cls & bC ? "k" : "nm"; ST s = dc_set_name (c, A (1, nm), m == 2 ? 0 : (int) strlen (nm)); return s; }
static ST f_getname (int m) { ST s = dc_get_name (c, A (1, &ot), &on); return txt (s); }
static ST f_root (int m) { ST s = dc_resolve_root_name (c, A (1, &os)); if (s == OK) free (os); else sx_assert (!os, "nothing is handed out"); return s; }
static ST f_elems (int m) { return col (dc_get_elements (c, A (1, &oc))); }
static ST f_finds (int m) { ST s = dc_find_elements (c, A (1, "k"), A (2, &oc)); return col (s == DISIR_STATUS_NOT_EXIST && !m ? s : s); }
static ST f_find (int m) { return ctx (dc_find_element (c, A (1, "k"), 0, A (2, &ox))); }
static ST f_cmpl (int m) { ST s = dc_compare (c, A (1, c), &orep); int i; sx_assert (!orep || s != OK, "no report without a difference"); if (orep) { for (i = 0; i < orep->dr_entries; i++) free (orep->dr_diff_string[i]); free (orep->dr_diff_string); free (orep); orep = NULL; } return s; }
static ST f_cmpk (int m) { (void) m; CTX *o = mc ? mc : cc; ST s; if (!o || o == c || !c) return DISIR_STATUS_NO_CAN_DO; s = dc_compare (c, o, NULL); return s == DISIR_STATUS_CONFLICT ? OK : s; }
static ST f_gen (int m) { (void) m; return cls & (bC | bSC) ? OK : dc_generate_from_config_root (c); }
static ST f_fatal (int m) { return cls && !m ? OK : dc_fatal_error (c, A (1, "bad")); }
static ST f_getctx (int m) { (void) m; sx_assert (dc_config_getcontext (NULL) == NULL && dc_mold_getcontext (NULL) == NULL, "no context of nothing"); return DISIR_STATUS_NO_CAN_DO; }
/* b: values */
static ST f_settype (int m) { return dc_set_value_type (c, m ? DISIR_VALUE_TYPE_UNKNOWN : INT); }
static ST f_gettype (int m) { ovt = 55; ST s = dc_get_value_type (c, A (1, &ovt)); sx_assert (s == OK || (int) ovt == 55 || ovt == DISIR_VALUE_TYPE_UNKNOWN, "nothing is handed out"); return s; }
static ST f_setv (int m) { return dc_set_value (c, A (1, "4"), 1); }
static ST f_sets (int m) { return dc_set_value_string (c, A (1, "v"), 1); }
static ST f_sete (int m) { return dc_set_value_enum (c, A (1, "v"), 1); }
static ST f_seti (int m) { (void) m; return dc_set_value_integer (c, 4); }
static ST f_setf (int m) { (void) m; return dc_set_value_float (c, 4.5); }
static ST f_setb (int m) { (void) m; return dc_set_value_boolean (c, 1); }
static ST f_getv (int m) { buf[0] = 'z'; ST s = dc_get_value (c, m == 2 ? 0 : 32, A (1, buf), &on); if (s != OK) sx_assert (buf[0] == 'z' || buf[0] == 0, "nothing is handed out"); return s; }
static ST f_gets (int m) { return txt (dc_get_value_string (c, A (1, &ot), &on)); }
static ST f_gete (int m) { return txt (dc_get_value_enum (c, A (1, &ot), &on)); }
static ST f_geti (int m) { return num (dc_get_value_integer (c, A (1, &oi))); }
static ST f_getf (int m) { return num (dc_get_value_float (c, A (1, &of))); }
static ST f_getb (int m) { return num (dc_get_value_boolean (c, A (1, &ob))); }
static ST f_kdef (int m) { (void) m; return dc_keyval_set_default (c, NULL); }
/* c: attributes */
static ST f_addi (int m) { struct disir_version v = V (1, 0); return dc_add_introduced (c, A (1, &v)); }
static ST f_addd (int m) { struct disir_version v = V (2, 0); return dc_add_deprecated (c, A (1, &v)); }
static ST f_geti2 (int m) { return ver (dc_get_introduced (c, A (1, &ov))); }
static ST f_getd (int m) { return ver (dc_get_deprecated (c, A (1, &ov))); }
static ST f_getver (int m) { return ver (dc_get_version (c, A (1, &ov))); }
static ST f_setver (int m) { struct disir_version v = V (1, 0); return dc_set_version (c, A (1, &v)); }
static ST f_adddoc (int m) { return dc_add_documentation (c, A (1, "dd"), m == 2 ? 0 : 2); }
static ST f_getdoc (int m) { return txt (dc_get_documentation (c, NULL, A (1, &ot), &on)); }
static ST f_kvs (int m) { return ctx (dc_add_keyval_string (c, A (1, "nw"), A (2, "d"), A (3, "doc"), NULL, &ox)); }
static ST f_kve (int m) { return ctx (dc_add_keyval_enum (c, A (1, "nw"), A (2, "d"), A (3, "doc"), NULL, &ox)); }
static ST f_kvi (int m) { return ctx (dc_add_keyval_integer (c, A (1, "nw"), 4, A (2, "doc"), NULL, &ox)); }
static ST f_kvf (int m) { return ctx (dc_add_keyval_float (c, A (1, "nw"), 4, A (2, "doc"), NULL, &ox)); }
static ST f_kvb (int m) { return ctx (dc_add_keyval_boolean (c, A (1, "nw"), 1, A (2, "doc"), NULL, &ox)); }
static ST f_def (int m) { return dc_add_default (c, A (1, "4"), 1, NULL); }
static ST f_defs (int m) { return dc_add_default_string (c, A (1, "4"), 1, NULL); }
static ST f_defi (int m) { (void) m; return dc_add_default_integer (c, 4, NULL); }
static ST f_deff (int m) { (void) m; return dc_add_default_float (c, 4, NULL); }
static ST f_defb (int m) { (void) m; return dc_add_default_boolean (c, 1, NULL); }
static ST f_getdef (int m) { buf[0] = 'z'; ST s = dc_get_default (c, NULL, m == 2 ? 0 : 32, A (1, buf), &on); if (s != OK) sx_assert (buf[0] == 'z' || buf[0] == 0, "nothing is handed out"); return s; }
static ST f_defc (int m) { return col (dc_get_default_contexts (c, A (1, &oc))); }
/* d: restrictions */
static ST f_rcol (int m) { return col (dc_restriction_collection (c, A (1, &oc))); }
static ST f_rmin (int m) { return num (dc_restriction_entries_minimum (c, A (1, &od))); }
static ST f_rmax (int m) { return num (dc_restriction_entries_maximum (c, A (1, &od))); }
static ST f_rgt (int m) { ort = 66; ST s = dc_get_restriction_type (c, A (1, &ort)); sx_assert (s == OK || (int) ort == 66, "nothing is handed out"); return s; }
static ST f_rst (int m) { return dc_set_restriction_type (c, m ? DISIR_RESTRICTION_UNKNOWN : RMAX); }
static ST f_rgs (int m) { return txt (dc_restriction_get_string (c, A (1, &ot))); }
static ST f_rss (int m) { return dc_restriction_set_string (c, A (1, "st")); }
static ST f_rgr (int m) { return num (dc_restriction_get_range (c, A (1, &of), A (2, &of2))); }
static ST f_rsr (int m) { (void) m; return dc_restriction_set_range (c, 1, 2); }
static ST f_rgn (int m) { return num (dc_restriction_get_numeric (c, A (1, &of))); }
static ST f_rsn (int m) { (void) m; return dc_restriction_set_numeric (c, 3); }
static ST f_ran (int m) { (void) m; return ctx (dc_add_restriction_value_numeric (c, 3, "doc", NULL, &ox)); }
static ST f_rar (int m) { (void) m; return ctx (dc_add_restriction_value_range (c, 3, 4, "doc", NULL, &ox)); }
static ST f_rae (int m) { return ctx (dc_add_restriction_value_enum (c, A (1, "e"), "doc", NULL, &ox)); }
static ST f_rami (int m) { (void) m; return dc_add_restriction_entries_min (c, 1, NULL); }
static ST f_rama (int m) { (void) m; return dc_add_restriction_entries_max (c, 1, NULL); }
/* e: queries */
static ST f_q (int m) { return ctx (dc_query_resolve_context (c, A (1, "k"), A (2, &ox))); }
static ST f_qgs (int m) { return txt (dc_config_get_keyval_string (c, A (1, &ot), A (2, "t"))); }
static ST f_qss (int m) { return dc_config_set_keyval_string (c, A (1, "v"), A (2, "t")); }
static ST f_qge (int m) { return txt (dc_config_get_keyval_enum (c, A (1, &ot), A (2, "t"))); }
static ST f_qse (int m) { return dc_config_set_keyval_enum (c, A (1, "v"), A (2, "t")); }
static ST f_qgb (int m) { return num (dc_config_get_keyval_boolean (c, A (1, &ob), A (2, "k"))); }
static ST f_qsb (int m) { return dc_config_set_keyval_boolean (c, 1, A (1, "k")); }
static ST f_qgf (int m) { return num (dc_config_get_keyval_float (c, A (1, &of), A (2, "k"))); }
static ST f_qsf (int m) { return dc_config_set_keyval_float (c, 1, A (1, "k")); }
static ST f_qgi (int m) { return num (dc_config_get_keyval_integer (c, A (1, &oi), A (2, "k"))); }
static ST f_qsi (int m) { return dc_config_set_keyval_integer (c, 1, A (1, "k")); }
static const struct { int part; const char *name; fun f; int args; unsigned may; } ops[] = {
    { 0, "finalize", f_fin, 0, bS | bK | bD | bT | bR }, { 0, "finalize keeping", f_fink, 0, bS | bK | bD | bT | bR }, { 0, "finalize mold", f_mfin, 1, bM }, { 0, "finalize config", f_cfin, 1, bC }, { 0, "valid", f_valid, 0, -1 }, { 0, "set name", f_setname, 2, bS | bK }, { 0, "get name", f_getname, 1, bS | bK }, { 0, "root name", f_root, 1, bS | bK }, { 0, "elements", f_elems, 1, bM | bC | bS }, { 0, "find all", f_finds, 2, bM | bC | bS }, { 0, "find", f_find, 2, bM | bC | bS }, { 0, "compare", f_cmpl, 1, -1 }, { 0, "compare other", f_cmpk, 0, -1 }, { 0, "generate", f_gen, 0, bC | bSC }, { 0, "fatal", f_fatal, 1, -1 }, { 0, "get context", f_getctx, 0, 0 },
    { 1, "set type", f_settype, 1, bKM }, { 1, "get type", f_gettype, 1, bK | bD }, { 1, "set value", f_setv, 1, bKC }, { 1, "set string", f_sets, 0, bKC | bD | bT }, { 1, "set enum", f_sete, 0, bKC | bD | bT }, { 1, "set integer", f_seti, 0, bKC | bD }, { 1, "set float", f_setf, 0, bKC | bD }, { 1, "set boolean", f_setb, 0, bKC | bD }, { 1, "get value", f_getv, 2, bKC }, { 1, "get string", f_gets, 1, bKC | bD | bT }, { 1, "get enum", f_gete, 1, bKC | bD }, { 1, "get integer", f_geti, 1, bKC | bD }, { 1, "get float", f_getf, 1, bKC | bD }, { 1, "get boolean", f_getb, 1, bKC | bD }, { 1, "set default", f_kdef, 0, bKC },
    { 2, "introduced", f_addi, 1, bSM | bD | bT | bR }, { 2, "deprecated", f_addd, 1, bSM | bKM | bR }, { 2, "get introduced", f_geti2, 1, bM | bSM | bKM | bD | bT | bR }, { 2, "get deprecated", f_getd, 1, bSM | bKM | bR | bD }, { 2, "get version", f_getver, 1, bM | bC }, { 2, "set version", f_setver, 1, bM | bC }, { 2, "add documentation", f_adddoc, 2, bM | bS | bK | bR }, { 2, "get documentation", f_getdoc, 1, bM | bC | bS | bK | bR }, { 2, "add string", f_kvs, 3, bM | bSM }, { 2, "add enum", f_kve, 3, bM | bSM }, { 2, "add integer", f_kvi, 2, bM | bSM }, { 2, "add float", f_kvf, 2, bM | bSM }, { 2, "add boolean", f_kvb, 2, bM | bSM }, { 2, "default", f_def, 1, bKM }, { 2, "default string", f_defs, 0, bKM }, { 2, "default integer", f_defi, 0, bKM }, { 2, "default float", f_deff, 0, bKM }, { 2, "default boolean", f_defb, 0, bKM }, { 2, "get default", f_getdef, 2, bK | bD }, { 2, "default contexts", f_defc, 1, bKM },
    { 3, "restrictions", f_rcol, 1, bS | bK }, { 3, "minimum", f_rmin, 1, bS | bK }, { 3, "maximum", f_rmax, 1, bS | bK }, { 3, "get kind", f_rgt, 1, bR }, { 3, "set kind", f_rst, 1, bR }, { 3, "get text", f_rgs, 1, bR }, { 3, "set text", f_rss, 1, bR }, { 3, "get range", f_rgr, 2, bR }, { 3, "set range", f_rsr, 0, bR }, { 3, "get number", f_rgn, 1, bR }, { 3, "set number", f_rsn, 0, bR }, { 3, "add number", f_ran, 0, bKM }, { 3, "add range", f_rar, 0, bKM }, { 3, "add enumerator", f_rae, 1, bKM }, { 3, "add minimum", f_rami, 0, bSM | bKM }, { 3, "add maximum", f_rama, 0, bSM | bKM },
    { 4, "query", f_q, 2, bM | bC | bS }, { 4, "get string", f_qgs, 2, bC | bSC }, { 4, "set string", f_qss, 2, bC | bSC }, { 4, "get enum", f_qge, 2, bC | bSC }, { 4, "set enum", f_qse, 2, bC | bSC }, { 4, "get boolean", f_qgb, 2, bC | bSC }, { 4, "set boolean", f_qsb, 1, bC | bSC }, { 4, "get float", f_qgf, 2, bC | bSC }, { 4, "set float", f_qsf, 1, bC | bSC }, { 4, "get integer", f_qgi, 2, bC | bSC }, { 4, "set integer", f_qsi, 1, bC | bSC },
};
#define NOPS ((int) (sizeof ops / sizeof ops[0]))
void harness (void)
{
    ST s; (void) s;
    sx_fmt_abstract = 1;
#if defined PART
    int first = 0, count = 0, i, m; struct seen a, b;
    for (i = 0; i < NOPS; i++) { if (ops[i].part < PART) first++; if (ops[i].part == PART) count++; }
    i = first + sx_pick (count, "operation"); m = sx_pick (ops[i].args + 1, "missing");
    create ();
    ov = V (41, 42); of = of2 = 7; oi = ob = od = 7;
    a = look ();
    s = ops[i].f (m);
    if (m || !(ops[i].may & (unsigned) cls))
    {
        sx_assert (s != OK && (s != DISIR_STATUS_INVALID_CONTEXT || kind == 10), ops[i].name);
        if (c == NULL && ops[i].f != f_getctx) sx_assert (s == DISIR_STATUS_INVALID_ARGUMENT || ops[i].f == f_valid || ops[i].f == f_cmpk, "no context: an invalid argument");
        if (m && cls && (ops[i].may & (unsigned) cls)) sx_reach ("missing");
        if (dead) sx_reach ("gone"); else if (!m && c) sx_reach ("wrong");
        b = look ();
        sx_assert ((a.type == b.type) & (a.vtype == b.vtype) & (a.nelem == b.nelem) & (a.rtype == b.rtype) & (a.size == b.size) & (a.i == b.i) & (a.b == b.b) & (a.num == b.num) & veq (a.in, b.in) & veq (a.de, b.de) & veq (a.ve, b.ve), "a refused operation changes nothing");
        sx_assert (a.name == b.name && a.text == b.text && a.doc == b.doc, "a refused operation changes no text");
    }
    else sx_reach ("plain");
    release ();
#elif defined BEGIN
    int t = sx_i32 ("kind"), may = 0, m = sx_pick (2, "missing"); CTX *x = NULL;
    create ();
    if (DECIDE ((t > 0) & (t < (int) DISIR_CONTEXT_UNKNOWN))) t = (int) sx_concretize (t);
    s = dc_begin (c, (enum disir_context_type) t, m ? NULL : &x);
    if (DECIDE ((t > 0) & (t < (int) DISIR_CONTEXT_UNKNOWN)))
        switch ((int) sx_concretize (t))
        {
        case DISIR_CONTEXT_SECTION: case DISIR_CONTEXT_KEYVAL: may = cls & (bM | bC | bS); break;
        case DISIR_CONTEXT_DOCUMENTATION: may = cls & (bM | bS | bK | bR); break;
        case DISIR_CONTEXT_DEFAULT: may = cls & bKM; break;
        case DISIR_CONTEXT_RESTRICTION: may = cls & (bKM | bSM); break;
        }
    if (!may || m) { sx_assert (s != OK && x == NULL, "refused"); if (dead) sx_assert (s == DISIR_STATUS_DESTROYED_CONTEXT, "a destroyed context is reported"); sx_reach ("refused"); }
    else if (s == OK) { sx_assert (x != NULL && dc_context_type (x) == (enum disir_context_type) t, "begun"); MUST (dc_destroy (&x)); sx_reach ("begun"); }
    else sx_assert (x == NULL && (t == DISIR_CONTEXT_DOCUMENTATION || (t == DISIR_CONTEXT_DEFAULT && kind == 10)), "begun");
    release ();
#elif defined UPDATE
    /* an update in conflict, and one which is not */
    CTX *k = NULL; struct disir_update *up = NULL, *noup = NULL; struct disir_config *upd = NULL; struct disir_version two = V (2, 0), v; int i = sx_pick (11, "call"), conflict = sx_pick (2, "conflict"); const char *n = "n", *a = "a", *b = "b"; int64_t now = 0;
    const char *n0 = n, *a0 = a, *b0 = b;
    MUST (dc_mold_begin (&mc));
    k = kv_of (mc, "k", INT, NULL); MUST (dc_add_default_integer (k, 5, &two)); MUST (dc_putcontext (&k));
    MUST (dc_mold_finalize (&mc, &mold)); MUST (dc_config_begin (mold, &cc));
    k = ckv_begin (cc, "k"); MUST (dc_set_value_integer (k, conflict ? 77 : 0)); MUST (dc_finalize (&k));
    MUST (dc_config_finalize (&cc, &cfg));
    #define NO(e) sx_assert ((e) != OK, "refused: " #e)
    if (i == 0) { NO (disir_update_config (cfg, &two, NULL)); NO (disir_update_config (NULL, &two, &up)); NO (disir_update_config (NULL, NULL, &up)); sx_assert (!up, "nothing is handed out"); }
    s = disir_update_config (cfg, &two, &up);
    sx_assert (s == (conflict ? DISIR_STATUS_CONFLICT : OK) && up, "updating");
    switch (i)
    {
    case 1: NO (disir_update_conflict (NULL, &n, &a, &b)); break;
    case 2: NO (disir_update_conflict (up, NULL, &a, &b)); break;
    case 3: NO (disir_update_conflict (up, &n, NULL, &b)); break;
    case 4: NO (disir_update_conflict (up, &n, &a, NULL)); break;
    case 5: NO (disir_update_resolve (up, NULL)); break;
    case 6: NO (disir_update_resolve (NULL, "3")); break;
    case 7: NO (disir_update_continue (NULL)); break;
    case 8: NO (disir_update_finished (NULL, &upd)); NO (disir_update_finished (&noup, &upd)); sx_assert (!upd, "nothing is handed out"); break;
    case 9: if (conflict) sx_assert (disir_update_continue (up) == DISIR_STATUS_CONFLICT, "the conflict remains"); break;
    case 10: if (!conflict) { NO (disir_update_conflict (up, &n, &a, &b)); NO (disir_update_resolve (up, "3")); } break;
    }
    sx_assert (n == n0 && a == a0 && b == b0, "nothing is handed out");
    if (conflict)
    {
        MUST (disir_update_conflict (up, &n, &a, &b));
        sx_assert (!strcmp (n, "k") && !strcmp (a, "77") && !strcmp (b, "5"), "the conflict is as it was");
        MUST (disir_update_resolve (up, "6"));
        MUST (disir_update_continue (up));
    }
    MUST (disir_update_finished (&up, &upd)); sx_assert (!up && upd, "finished");
    MUST (disir_config_get_keyval_integer (upd, &now, "k")); sx_assert (now == (conflict ? 6 : 5), "updated");
    MUST (dc_config_get_version (upd, &v)); sx_assert (veq (v, two), "to the target");
    MUST (disir_config_finished (&upd));
    sx_reach ("missing");
    release ();
#elif defined OTHERS
    CTX *none = NULL; struct disir_collection *nocol = NULL; struct disir_mold *nomold = NULL; struct disir_config *nocfg = NULL; struct disir_update *noup = NULL; struct disir_entry *noentry = NULL; struct disir_instance *noins = NULL, *ins = NULL; struct disir_plugin *plug = NULL; struct disir_import *noimp = NULL; struct import_report *norep = NULL; struct disir_version v = V (1, 0); const char *t = NULL; int32_t n;
    int i = sx_pick (48, "call"); int32_t size = sx_i32 ("size"); char b[8];
    a_config ();
    #define NO(e) sx_assert ((e) != OK, "refused: " #e)
    switch (i)
    {
    case 0: NO (dc_destroy (NULL)); break;
    case 1: NO (dc_destroy (&none)); break;
    case 2: NO (dc_putcontext (NULL)); break;
    case 3: NO (dc_putcontext (&none)); break;
    case 4: NO (dc_finalize (NULL)); break;
    case 5: NO (dc_finalize_keep_reference (NULL)); break;
    case 6: NO (dc_mold_begin (NULL)); break;
    case 7: NO (dc_mold_finalize (NULL, &nomold)); break;
    case 8: NO (dc_mold_finalize (&none, &nomold)); break;
    case 9: NO (dc_mold_get_version (NULL, &v)); break;
    case 10: NO (dc_mold_get_version (mold, NULL)); break;
    case 11: NO (dc_config_begin (NULL, &none)); sx_assert (!none, "nothing is handed out"); break;
    case 12: NO (dc_config_begin (mold, NULL)); break;
    case 13: NO (dc_config_finalize (NULL, &nocfg)); break;
    case 14: NO (dc_config_get_version (NULL, &v)); break;
    case 15: NO (disir_mold_finished (NULL)); NO (disir_mold_finished (&nomold)); break;
    case 16: NO (disir_config_finished (NULL)); NO (disir_config_finished (&nocfg)); break;
    case 17: NO (disir_config_valid (NULL, NULL)); NO (disir_config_valid (NULL, &nocol)); sx_assert (!nocol, "nothing is handed out"); break;
    case 18: NO (disir_mold_valid (NULL, NULL)); NO (disir_mold_valid (NULL, &nocol)); sx_assert (!nocol, "nothing is handed out"); break;
    case 19: NO (disir_config_get_mold (NULL, &nomold)); sx_assert (!nomold, "nothing is handed out"); break;
    case 20: NO (disir_generate_config_from_mold (NULL, NULL, &nocfg)); sx_assert (!nocfg, "nothing is handed out"); break;
    case 21: NO (disir_generate_config_from_mold (mold, NULL, NULL)); break;
    case 22: NO (dc_collection_push_context (NULL, cc)); break;
    case 23: nocol = dc_collection_create (); NO (dc_collection_push_context (nocol, NULL)); NO (dc_collection_next (nocol, NULL)); MUST (dc_collection_finished (&nocol)); break;
    case 24: NO (dc_collection_next (NULL, &none)); sx_assert (!none, "nothing is handed out"); break;
    case 25: NO (dc_collection_reset (NULL)); break;
    case 26: sx_assert (dc_collection_size (NULL) <= 0, "nothing"); break;
    case 27: NO (dc_collection_finished (NULL)); NO (dc_collection_finished (&nocol)); break;
    case 28: NO (disir_update_config (NULL, &v, &noup)); sx_assert (!noup, "nothing is handed out"); break;
    case 29: NO (disir_update_conflict (NULL, &t, &t, &t)); break;
    case 30: NO (disir_update_resolve (NULL, "x")); break;
    case 31: NO (disir_update_continue (NULL)); break;
    case 32: NO (disir_update_finished (NULL, &nocfg)); break;
    case 33: NO (disir_update_finished (&noup, &nocfg)); break;
    case 34: NO (disir_entry_finished (NULL)); NO (disir_entry_finished (&noentry)); break;
    case 35: NO (disir_instance_destroy (NULL)); NO (disir_instance_destroy (&noins)); break;
    case 36: NO (disir_config_get_keyval_string (NULL, &t, "t")); NO (disir_config_get_keyval_enum (NULL, &t, "t")); NO (disir_config_set_keyval_string (NULL, "x", "t")); NO (disir_config_set_keyval_enum (NULL, "x", "t")); break;
    case 37: NO (disir_config_get_keyval_integer (NULL, &oi, "k")); NO (disir_config_set_keyval_integer (NULL, 4, "k")); NO (disir_config_get_keyval_float (NULL, &of, "k")); NO (disir_config_set_keyval_float (NULL, 4, "k")); break;
    case 38: NO (disir_config_get_keyval_boolean (NULL, &ob, "k")); NO (disir_config_set_keyval_boolean (NULL, 1, "k")); break;
    case 39: NO (dc_version_convert (NULL, &v)); NO (dc_version_convert ("1.0", NULL)); break;
    case 40: sx_assume (size <= 0); sx_assert (dc_version_string (b, size, &v) == NULL || size > 0, "no room"); sx_assert (dc_version_string (NULL, 8, &v) == NULL && dc_version_string (b, 8, NULL) == NULL, "nothing"); break;
    case 41: s = disir_plugin_finished (NULL); s = disir_plugin_finished (&plug); break;
    case 42: NO (disir_import_entry_status (NULL, 0, &t, &t, &t, &t)); NO (disir_import_resolve_entry (NULL, 0, DISIR_IMPORT_DISCARD)); break;
    case 43: NO (disir_import_finalize (NULL, DISIR_IMPORT_DISCARD, &noimp, &norep)); NO (disir_import_report_destroy (NULL)); break;
    case 44: NO (disir_import_report_destroy (&norep)); break;
    case 45: NO (disir_instance_create (NULL, NULL, NULL)); NO (disir_plugin_registered (NULL, &plug)); NO (disir_plugin_register (NULL, NULL, "io", "gr")); break;
    case 46:
        MUST (disir_instance_create (NULL, NULL, &ins));
        NO (disir_config_read (ins, "g", NULL, NULL, &nocfg)); NO (disir_config_read (ins, NULL, "e", NULL, &nocfg)); NO (disir_config_read (NULL, "g", "e", NULL, &nocfg)); NO (disir_config_read (ins, "g", "e", NULL, NULL));
        NO (disir_config_write (ins, "g", "e", NULL)); NO (disir_config_write (NULL, "g", "e", NULL)); NO (disir_config_remove (NULL, "g", "e")); NO (disir_config_remove (ins, NULL, "e")); NO (disir_config_remove (ins, "g", NULL));
        NO (disir_config_entries (NULL, "g", &noentry)); NO (disir_config_entries (ins, NULL, &noentry)); NO (disir_config_entries (ins, "g", NULL)); NO (disir_config_query (ins, "g", NULL, &noentry)); NO (disir_config_query (NULL, "g", "e", &noentry));
        NO (disir_plugin_registered (ins, NULL)); NO (disir_plugin_register (ins, NULL, "io", "gr"));
        MUST (disir_instance_destroy (&ins)); break;
    default:
        MUST (disir_instance_create (NULL, NULL, &ins));
        NO (disir_mold_read (ins, "g", NULL, &nomold)); NO (disir_mold_read (NULL, "g", "e", &nomold)); NO (disir_mold_read (ins, NULL, "e", &nomold)); NO (disir_mold_read (ins, "g", "e", NULL));
        NO (disir_mold_write (ins, "g", "e", NULL)); NO (disir_mold_write (NULL, "g", "e", mold)); NO (disir_mold_entries (NULL, "g", &noentry)); NO (disir_mold_entries (ins, NULL, &noentry)); NO (disir_mold_entries (ins, "g", NULL)); NO (disir_mold_query (ins, "g", NULL, &noentry)); NO (disir_mold_query (ins, NULL, "e", &noentry));
        MUST (disir_instance_destroy (&ins)); break;
    }
    sx_reach ("missing"); (void) n;
    sx_assert (!noentry && !nomold && !nocfg, "nothing is handed out");
    release ();
#endif
    (void) SENT; (void) look; (void) release; (void) ops;
}
