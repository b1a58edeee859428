// sx-case: name=resolve -DRESOLVE reach=imported,refused,discarded,again
// sx-case: name=update -DUPDATE reach=updated,violated,withdiscard,invalid
// sx-case: name=status -DSTATUS reach=ok,conflict,semver,nocando,invalid
// sx-case: name=finish -DFINISH log=1 reach=written,failed,skipped
// sx-case: name=arguments -DARGS reach=done
// sx-case: name=resolve_long -DRESOLVE -DSTEPS=4 reach=imported,refused,discarded,again tier=thorough time=900
// sx-case: name=finish_long -DFINISH -DN=4 log=1 reach=written,failed,skipped tier=thorough time=900
// sx-bound: resolve: one entry of any status, conflict mark and validity; every sequence of 3 resolutions (thorough 4) of any 32 bit option; finishing with either option
// sx-bound: finish: up to 3 entries (thorough 4), each importable or not, resolved or not, written successfully or not
// sx-bound: status: every outcome of looking up the group, the backend, the mold, the archive's file, the existing entry; versions 1.0 and 2.0 and any 64 bit values of the two configurations
// sx-bound: update: values from -10 to 120 (thorough 1290) against a limit of 0 to 100 or none
#include "h.h"
#include <disir/plugin.h>
#include <disir/archive.h>
#include "import.h"
#include "context_private.h"
#include "mold.h"
#include "restriction.h"
#include <errno.h>
#ifndef STEPS
#define STEPS 3
#endif
#ifndef N
#define N 3
#endif
static struct disir_instance *ins; static struct disir_mold *mold; static struct disir_version mv[2];
static int writes, wret[8]; static char wname[8][8]; static int64_t wval[8]; static struct disir_version wver[8];
static int64_t int_of (CTX *p, const char *name)
{
    CTX *k = NULL; int64_t v = 0;
    MUST (dc_find_element (p, name, 0, &k)); MUST (dc_get_value_integer (k, &v)); dc_putcontext (&k);
    return v;
}
static int64_t value_of (struct disir_config *cfg) { CTX *c = dc_config_getcontext (cfg); int64_t v = int_of (c, "k"); dc_putcontext (&c); return v; }
static ST do_write (struct disir_instance *i, struct disir_register_plugin *p, const char *e, struct disir_config *c)
{
    (void) i; (void) p;
    sx_assert (writes < 8, "no more writes than entries");
    strcpy (wname[writes], e); wval[writes] = value_of (c); MUST (dc_config_get_version (c, &wver[writes]));
    return wret[writes++] ? DISIR_STATUS_FS_ERROR : OK;
}
/* plugins of groups named alike: never asked */
static ST decoy_write (struct disir_instance *i, struct disir_register_plugin *p, const char *e, struct disir_config *c) { (void) i; (void) p; (void) e; (void) c; sx_assert (0, "the plugin of the entry's group, no other"); return OK; }
static ST decoy_mold (struct disir_instance *i, struct disir_register_plugin *p, const char *e, struct disir_mold **m) { (void) i; (void) p; (void) e; (void) m; sx_assert (0, "the plugin of the entry's group, no other"); return OK; }
static void decoys (void)
{
    struct disir_register_plugin d;
    memset (&d, 0, sizeof d);
    d.dp_name = "name"; d.dp_description = "d"; d.dp_config_entry_type = "t"; d.dp_mold_entry_type = "u"; d.dp_config_write = decoy_write; d.dp_mold_read = decoy_mold;
    MUST (disir_plugin_register (ins, &d, "io", "grpx"));
    MUST (disir_plugin_register (ins, &d, "io", "gr"));
    MUST (disir_plugin_register (ins, &d, "io", "Grp"));
}
/* a mold whose keyval k changes its default, and from version 2 is limited to at most 100 */
static void make_mold (int limited)
{
    CTX *m = NULL, *k = NULL;
    MUST (dc_mold_begin (&m));
    MUST (dc_begin (m, DISIR_CONTEXT_KEYVAL, &k)); MUST (dc_set_name (k, "k", 1)); MUST (dc_set_value_type (k, INT));
    MUST (dc_add_default_integer (k, 1, NULL));
    mv[1] = V (2, 0);
    if (limited) MUST (dc_add_restriction_value_range (k, 0, 100, "limits", &mv[1], NULL));
    MUST (dc_add_default_integer (k, 2, &mv[1]));
    MUST (dc_add_restriction_entries_min (k, 1, NULL));
    MUST (dc_finalize (&k));
    MUST (dc_mold_finalize (&m, &mold));
}
static struct disir_config *make_config (struct disir_version v, int64_t value)
{
    struct disir_config *cfg = NULL; CTX *c = NULL, *k = NULL;
    MUST (disir_generate_config_from_mold (mold, &v, &cfg));
    c = dc_config_getcontext (cfg);
    MUST (dc_find_element (c, "k", 0, &k)); MUST (dc_set_value_integer (k, value));
    dc_putcontext (&k); dc_putcontext (&c);
    return cfg;
}
/* without its required entry */
static struct disir_config *make_invalid (struct disir_version v)
{
    CTX *c = NULL; struct disir_config *cfg = NULL;
    MUST (dc_config_begin (mold, &c)); MUST (dc_set_version (c, &v));
    sx_assert (dc_config_finalize (&c, &cfg) == DISIR_STATUS_INVALID_CONTEXT && cfg, "setup: invalid");
    return cfg;
}
static struct disir_import *make_import (int n)
{
    struct disir_import *im = calloc (1, sizeof *im);
    im->di_num_entries = n;
    im->di_entries = calloc (n ? n : 1, sizeof (void *));
    return im;
}
static struct disir_import_entry *make_entry (const char *id, ST st, int conflict, struct disir_config *cfg)
{
    struct disir_import_entry *e = calloc (1, sizeof *e);
    e->ie_entry_id = strdup (id); e->ie_group_id = strdup ("grp"); e->ie_backend_id = strdup ("name"); e->ie_version = strdup ("1.0");
    e->ie_status = st; e->ie_conflict = conflict; e->ie_config = cfg;
    return e;
}
static const ST sts[] = { OK, DISIR_STATUS_CONFLICT, DISIR_STATUS_CONFLICTING_SEMVER, DISIR_STATUS_NO_CAN_DO, DISIR_STATUS_CONFIG_INVALID };
static struct disir_register_plugin pl;
/* STATUS */
static int p_mold, p_fd, p_read; static struct disir_config *archived, *existing; static int opened, closed;
static ST mold_read_ (struct disir_instance *i, struct disir_register_plugin *p, const char *e, struct disir_mold **m)
{
    (void) i; (void) p; (void) e;
    if (p_mold == 1) return DISIR_STATUS_NOT_EXIST;
    if (p_mold == 2) return DISIR_STATUS_FS_ERROR;
    { CTX *c = dc_mold_getcontext (mold); struct disir_config *t = NULL; (void) t; dc_putcontext (&c); }
    mold->mo_reference_count++;
    *m = mold; return OK;
}
static ST fd_read_ (struct disir_instance *i, FILE *f, struct disir_mold *m, struct disir_config **c)
{
    (void) i; (void) m;
    sx_assert (f != NULL && opened == 1 && closed == 0, "the archive's file is open");
    if (p_fd == 1) return DISIR_STATUS_CONFLICTING_SEMVER;
    if (p_fd == 2) return DISIR_STATUS_FS_ERROR;
    *c = archived; archived = NULL;
    return p_fd == 3 ? DISIR_STATUS_INVALID_CONTEXT : OK;
}
static ST config_read_ (struct disir_instance *i, struct disir_register_plugin *p, const char *e, struct disir_mold *m, struct disir_config **c)
{
    (void) i; (void) p; (void) m;
    sx_assert (!strcmp (e, "en/try"), "the entry is passed on");
    if (p_read == 1) return DISIR_STATUS_NOT_EXIST;
    if (p_read == 2) return DISIR_STATUS_FS_ERROR;
    *c = existing; existing = NULL;
    return p_read == 3 ? DISIR_STATUS_INVALID_CONTEXT : OK;
}
static char token; static int p_open;
FILE *sxfs_fopen (const char *p, const char *m) { sx_assert (!strcmp (p, "/arch/file") && m[0] == 'r', "reads the archive's file"); if (!p_open) { errno = ENOENT; return NULL; } opened++; return (FILE *) &token; }
int sxfs_fclose (FILE *f) { sx_assert (f == (FILE *) &token, "closes what it opened"); closed++; return 0; }

void harness (void)
{
    struct disir_import *im = NULL; struct disir_import_entry *e = NULL; ST s; int i; struct import_report *rep = NULL;
#ifndef UPDATE
    sx_fmt_abstract = 1;
#endif
#ifdef FINISH
    { extern int runtime_loglevel; runtime_loglevel = 1; }
#endif
    (void) make_invalid; (void) e; (void) i; (void) rep; (void) sts; (void) mold_read_; (void) fd_read_; (void) config_read_;
    MUST (disir_instance_create (NULL, NULL, &ins));
    decoys ();
    pl.dp_name = "name"; pl.dp_description = "d"; pl.dp_config_entry_type = "t"; pl.dp_mold_entry_type = "u"; pl.dp_config_write = do_write;
#ifdef STATUS
    static const struct { int m, f, r; } lack[] = { { 1, 1, 1 }, { 0, 1, 1 }, { 1, 0, 1 }, { 1, 1, 0 } };
    int l = 0, g, b;
    (void) im;
#else
    MUST (disir_plugin_register (ins, &pl, "io", "grp"));
#endif
#if defined RESOLVE
    int sti = sx_pick (5, "status"), conf = 0, bad = 0, wasbad = 0, imp = 0, did = 0; ST st = sts[sti]; struct disir_config *cfg; int64_t val = sx_i64 ("value");
    if (sti == 0) conf = sx_pick (2, "conflict"); else if (sti == 1) conf = 1; else if (sti == 2) conf = sx_pick (2, "conflict");
    make_mold (0);
    if (sti == 4 && sx_pick (2, "unread")) cfg = NULL;
    else if (sti == 3) cfg = NULL;
    else { bad = sti < 4 ? sx_pick (2, "invalid") : 1; cfg = bad ? make_invalid (V (1, 0)) : make_config (V (1, 0), val); }
    im = make_import (1); e = im->di_entries[0] = make_entry ("en", st, conf, cfg);
    const char *id = NULL, *gr = NULL, *vs = NULL, *info = (void *) 8; int updated = 0;
    for (i = 0; i < STEPS; i++)
    {
        int opt = (int) sx_u32 ("option"); int o = (int) sx_concretize ((opt < 1) | (opt > 5) ? 9 : (uint64_t) opt); ST want; int was = imp;
        s = disir_import_entry_status (im, 0, &id, &gr, &vs, &info);
        sx_assert (s == (st == OK && conf ? DISIR_STATUS_CONFLICT : st), "the status is told");
        sx_assert (!strcmp (id, "en") && !strcmp (gr, "grp") && !strcmp (vs, "1.0") && info == NULL, "and the entry");
        if (sti >= 3) want = DISIR_STATUS_NO_CAN_DO;
        else if (st == OK && imp && o != DISIR_IMPORT_DISCARD && o != 9) { want = DISIR_STATUS_NO_CAN_DO; sx_reach ("again"); }
        else if (o == 9) want = DISIR_STATUS_INVALID_ARGUMENT;
        else if (o == DISIR_IMPORT_DISCARD) want = OK;
        else if (o == DISIR_IMPORT_DO) want = conf ? DISIR_STATUS_NO_CAN_DO : bad ? DISIR_STATUS_INVALID_CONTEXT : OK;
        else if (o == DISIR_IMPORT_FORCE) want = bad ? DISIR_STATUS_INVALID_CONTEXT : OK;
        else want = st != DISIR_STATUS_CONFLICT && st != DISIR_STATUS_CONFLICTING_SEMVER ? DISIR_STATUS_NO_CAN_DO : bad ? DISIR_STATUS_INVALID_CONTEXT : OK;
        s = disir_import_resolve_entry (im, 0, opt);
        if (o == 9) sx_assert (s != OK, "an unknown option is refused");
        else if (bad && want == DISIR_STATUS_INVALID_CONTEXT) sx_assert (s != OK || o == DISIR_IMPORT_UPDATE || o == DISIR_IMPORT_UPDATE_WITH_DISCARD, "an invalid config is refused");
        else sx_assert (s == want, "exactly the allowed resolutions succeed");
        if (s != OK) sx_reach ("refused");
        if (s == OK && o == DISIR_IMPORT_DISCARD) { imp = 0; sx_reach ("discarded"); }
        else if (s == OK)
        {
            /* resolved for writing: the configuration is valid now */
            imp = 1; st = OK; sx_reach ("imported");
            if (o == DISIR_IMPORT_UPDATE || o == DISIR_IMPORT_UPDATE_WITH_DISCARD) updated = 1;
            sx_assert (disir_config_valid (e->ie_config, NULL) == OK, "only valid configurations are resolved");
            if (bad) wasbad = 1;
            bad = 0;
        }
        (void) was;
    }
    did = sx_pick (2, "finish");
    if (did == 0)
    {
        MUST (disir_import_finalize (ins, DISIR_IMPORT_DISCARD, &im, NULL));
        sx_assert (writes == 0, "a discarded import writes nothing");
    }
    else
    {
        MUST (disir_import_finalize (ins, DISIR_IMPORT_DO, &im, NULL));
        sx_assert (im == NULL && writes == imp, "exactly what was resolved is written");
        if (imp)
        {
            sx_assert (!strcmp (wname[0], "en"), "under its name");
            sx_assert (veq (wver[0], V (updated ? 2 : 1, 0)), "updated only if asked for");
            if (!updated && !wasbad) sx_assert (wval[0] == val, "with its values");
        }
    }
#elif defined UPDATE
    /* the imported value against the mold's newer limit */
    /* the values to be weighed are handed on as text */
    int64_t val = (int64_t) sx_concretize (sx_range (0, SX_TIER_THOROUGH ? 1300 : 130, "value")) - 10; int with = sx_pick (2, "discard"), lim = sx_pick (2, "limited"); struct disir_config *cfg;
    make_mold (lim);
    cfg = make_config (V (1, 0), val);
    im = make_import (1); e = im->di_entries[0] = make_entry ("en", sx_pick (2, "status") ? DISIR_STATUS_CONFLICT : DISIR_STATUS_CONFLICTING_SEMVER, 1, cfg);
    int fits = lim ? DECIDE ((val >= 0) & (val <= 100)) : 1, keep = DECIDE (val != 1);
    s = disir_import_resolve_entry (im, 0, with ? DISIR_IMPORT_UPDATE_WITH_DISCARD : DISIR_IMPORT_UPDATE);
    if (!fits && !with) { sx_assert (s == DISIR_STATUS_RESTRICTION_VIOLATED, "a violation is reported"); sx_reach ("violated"); }
    else sx_assert (s == OK, "the update succeeds");
    if (s != OK)
    {
        /* as it was; may still be forced */
        sx_assert (value_of (e->ie_config) == val, "the configuration is kept");
        if (sx_pick (2, "force")) { MUST (disir_import_resolve_entry (im, 0, DISIR_IMPORT_FORCE)); with = 7; }
    }
    MUST (disir_import_finalize (ins, DISIR_IMPORT_DO, &im, NULL));
    sx_assert (writes == (s == OK || with == 7), "written iff resolved");
    if (s == OK)
    {
        sx_assert (veq (wver[0], V (2, 0)), "at the mold's version");
        if (!keep) sx_assert (wval[0] == 2, "an untouched default follows the mold");
        else if (fits) sx_assert (wval[0] == val, "the imported value wins");
        else { sx_assert (wval[0] == 2, "a violating value is discarded"); sx_reach ("withdiscard"); }
        sx_reach ("updated");
    }
    sx_reach ("invalid");
#elif defined STATUS
    /* l: what the plugin lacks, g/b: the group or backend is another */
    struct disir_version va = V (sx_u32 ("archived"), 0), ve = V (sx_u32 ("existing"), 0); int64_t xa = sx_i64 ("archived value"), xe = sx_i64 ("existing value"); const char *why = NULL, *x = NULL;
    int cand = 1; ST want = OK; int wconf = 0;
    sx_assume (va.sv_major >= 1 && va.sv_major <= 2); sx_assume (ve.sv_major >= 1 && ve.sv_major <= 2);
    va.sv_major = sx_concretize (va.sv_major); ve.sv_major = sx_concretize (ve.sv_major);
    l = sx_pick (4, "lacks"); 
    g = sx_pick (2, "other group"); b = g ? 0 : sx_pick (2, "other backend");
    make_mold (0);
    archived = make_config (va, xa); existing = make_config (ve, xe);
    p_mold = sx_pick (3, "mold"); p_open = !p_mold ? sx_pick (2, "open") : 1; p_fd = !p_mold && p_open ? sx_pick (4, "archive") : 0; p_read = !p_mold && p_open && !p_fd ? sx_pick (4, "system") : 0;
    if (lack[l].m) pl.dp_mold_read = mold_read_; if (lack[l].f) pl.dp_config_fd_read = fd_read_; if (lack[l].r) pl.dp_config_read = config_read_;
    MUST (disir_plugin_register (ins, &pl, "io", "grp"));
    e = make_entry ("en/try", OK, 0, NULL);
    if (g) e->ie_group_id[0] = 'x';
    if (b) e->ie_backend_id[0] = 'x';
    im = make_import (1); im->di_entries[0] = e;
    e->ie_status = dx_resolve_config_import_status (ins, "/arch/file", e);
    if (g || b || !lack[l].m || p_mold) { want = DISIR_STATUS_NO_CAN_DO; cand = 0; }
    else if (!p_open) { want = DISIR_STATUS_CONFIG_INVALID; cand = 0; }
    else if (!lack[l].f || p_fd == 1) { want = DISIR_STATUS_NO_CAN_DO; cand = 0; }
    else if (p_fd) { want = DISIR_STATUS_CONFIG_INVALID; cand = 0; }
    else if (!lack[l].r) { want = DISIR_STATUS_NO_CAN_DO; cand = 0; }
    else if (p_read == 1) want = veq (va, V (2, 0)) ? OK : DISIR_STATUS_CONFLICTING_SEMVER;
    else if (p_read == 3) { want = DISIR_STATUS_CONFIG_INVALID; cand = 0; }
    else if (p_read == 2) { cand = -1; }
    else
    {
        wconf = 1;
        if (!veq (va, ve)) want = DISIR_STATUS_CONFLICTING_SEMVER;
        else want = OK;
        if (DECIDE (xa != xe)) want = DISIR_STATUS_CONFLICT;
    }
    if (cand >= 0)
    {
        ST t = want == OK && wconf ? DISIR_STATUS_CONFLICT : want, got = disir_import_entry_status (im, 0, &x, &x, &x, &why);
        /* differing in version and value: either conflict will do */
        if (wconf && !veq (va, ve)) sx_assert (got == DISIR_STATUS_CONFLICTING_SEMVER || got == DISIR_STATUS_CONFLICT, "told as a conflict");
        else sx_assert (got == t, "told as what it is");
        sx_assert (why != NULL || (want == OK && !wconf) || !lack[l].m || !lack[l].r || p_mold == 2, "explained");
        sx_reach (t == OK ? "ok" : t == DISIR_STATUS_CONFLICT ? "conflict" : t == DISIR_STATUS_CONFLICTING_SEMVER ? "semver" : t == DISIR_STATUS_NO_CAN_DO ? "nocando" : "invalid");
        s = disir_import_resolve_entry (im, 0, DISIR_IMPORT_DO);
        sx_assert ((s == OK) == (cand && !wconf), "importing as it is needs to be free of conflict");
    }
    sx_assert (opened == closed, "the file is closed");
    if (archived) disir_config_finished (&archived);
    if (existing) disir_config_finished (&existing);
    MUST (disir_import_finalize (ins, DISIR_IMPORT_DISCARD, &im, NULL));
    sx_assert (writes == 0, "nothing is written");
#elif defined FINISH
    int n = sx_pick (N + 1, "entries"), w = 0, want_rep = sx_pick (2, "report"), kind[N], wi[N]; static const char *ids[] = { "e0", "e1", "e2", "e3" };
    make_mold (0);
    im = make_import (n);
    for (i = 0; i < n; i++)
    {
        /* 0: resolved, 1: left alone, 2: not importable, 3: invalid, 4: conflict left alone, 5: resolved, write fails */
        kind[i] = sx_pick (6, "entry");
        e = make_entry (ids[i], OK, kind[i] == 4, kind[i] == 2 || kind[i] == 3 ? NULL : make_config (V (1 + i % 2, 0), 10 + i));
        if (kind[i] == 2) e->ie_status = DISIR_STATUS_NO_CAN_DO;
        if (kind[i] == 3) e->ie_status = DISIR_STATUS_CONFIG_INVALID;
        if (kind[i] == 4) e->ie_status = DISIR_STATUS_CONFLICT;
        im->di_entries[i] = e;
        if (kind[i] == 0 || kind[i] == 5) { MUST (disir_import_resolve_entry (im, i, DISIR_IMPORT_DO)); wi[w] = i; wret[w++] = kind[i] == 5; }
    }
    s = disir_import_finalize (ins, DISIR_IMPORT_DO, &im, want_rep ? &rep : NULL);
    sx_assert (s == OK && im == NULL, "the import finishes");
    sx_assert (writes == w, "each resolved entry is written once, also after a failure");
    for (i = 0; i < w; i++)
        sx_assert (!strcmp (wname[i], ids[wi[i]]) && wval[i] == 10 + wi[i] && veq (wver[i], V (1 + wi[i] % 2, 0)), "in order, with its own content");
    { int failed = 0; for (i = 0; i < w; i++) failed += wret[i]; sx_assert ((disir_error (ins) != NULL) == (failed > 0) || !failed, "a failure is told"); }
    if (want_rep)
    {
        static const char *words[] = { "Imported:", "Discarded:", "Not importable:", "Not importable:", "Discarded:", "Failed:" };
        sx_assert (rep && rep->ir_entries == n, "the report covers all");
        for (i = 0; i < n; i++)
        {
            sx_assert (rep->ir_entry[i] && !strncmp (rep->ir_entry[i], words[kind[i]], strlen (words[kind[i]])) && strstr (rep->ir_entry[i], ids[i]), "each entry is reported as what became of it");
            sx_reach (kind[i] == 0 ? "written" : kind[i] == 5 ? "failed" : "skipped");
        }
        MUST (disir_import_report_destroy (&rep)); sx_assert (rep == NULL, "the pointer is cleared");
    }
#elif defined ARGS
    const char *x = NULL; int at = sx_i32 ("index");
    make_mold (0);
    im = make_import (2); im->di_entries[0] = make_entry ("a", OK, 0, make_config (V (1, 0), 4)); im->di_entries[1] = make_entry ("b", OK, 0, make_config (V (1, 0), 5));
    sx_assume (at < 0 || at > 1);
    sx_assert (disir_import_entry_status (im, at, &x, &x, &x, NULL) == DISIR_STATUS_INVALID_ARGUMENT, "out of bounds");
    sx_assert (disir_import_resolve_entry (im, at, DISIR_IMPORT_DO) == DISIR_STATUS_INVALID_ARGUMENT, "out of bounds");
    sx_assert (disir_import_entry_status (NULL, 0, &x, &x, &x, NULL) == DISIR_STATUS_INVALID_ARGUMENT, "no import");
    sx_assert (disir_import_entry_status (im, 0, NULL, &x, &x, NULL) == DISIR_STATUS_INVALID_ARGUMENT, "no output");
    sx_assert (disir_import_entry_status (im, 0, &x, NULL, &x, NULL) == DISIR_STATUS_INVALID_ARGUMENT, "no output");
    sx_assert (disir_import_entry_status (im, 0, &x, &x, NULL, NULL) == DISIR_STATUS_INVALID_ARGUMENT, "no output");
    sx_assert (disir_import_entry_status (im, 1, &x, &x, &x, NULL) == OK, "the reason is optional");
    sx_assert (disir_import_resolve_entry (NULL, 0, DISIR_IMPORT_DO) == DISIR_STATUS_INVALID_ARGUMENT, "no import");
    MUST (disir_import_resolve_entry (im, 1, DISIR_IMPORT_DO));
    sx_assert (disir_import_finalize (NULL, DISIR_IMPORT_DO, &im, NULL) == DISIR_STATUS_INVALID_ARGUMENT, "no instance");
    sx_assert (disir_import_finalize (ins, DISIR_IMPORT_DO, NULL, NULL) == DISIR_STATUS_INVALID_ARGUMENT, "no import");
    { struct disir_import *no = NULL; sx_assert (disir_import_finalize (ins, DISIR_IMPORT_DO, &no, NULL) == DISIR_STATUS_INVALID_ARGUMENT, "no import"); }
    { int opt = sx_i32 ("option"); sx_assume (opt != DISIR_IMPORT_DO && opt != DISIR_IMPORT_DISCARD);
      sx_assert (disir_import_finalize (ins, opt, &im, NULL) == DISIR_STATUS_INVALID_ARGUMENT && im && writes == 0, "an import is either done or discarded"); }
    MUST (disir_import_finalize (ins, DISIR_IMPORT_DO, &im, NULL));
    sx_assert (writes == 1 && !strcmp (wname[0], "b"), "the resolved entry is written");
    sx_assert (disir_import_report_destroy (NULL) == DISIR_STATUS_INVALID_ARGUMENT, "no report");
    /* a group name longer than the explanation can hold */
    { int len = 960 + sx_range (0, 20, "length"); char *big; len = (int) sx_concretize (len); big = malloc (len + 1); memset (big, 'g', len); big[len] = 0; e = make_entry ("c", OK, 0, NULL); free (e->ie_group_id); e->ie_group_id = big;
      sx_assert (dx_resolve_config_import_status (ins, "/arch/file", e) == DISIR_STATUS_NO_CAN_DO && e->ie_info != NULL, "explained"); dx_import_entry_destroy (e); }
    sx_reach ("done");
#endif
    if (mold) MUST (disir_mold_finished (&mold));
    MUST (disir_instance_destroy (&ins));
    sx_assert (sx_live_heap () == 0, "everything is released");
}
