// sx-case: name=register -DREG reach=done,some,none
// sx-case: name=strings -DSTRINGS reach=refused,accepted
// sx-case: name=load -DLOAD reach=done
// sx-case: name=loaded -DLOADED reach=good,failed,undone
// sx-case: name=loaded_three -DLOADED -DNL=3 reach=good,failed,undone tier=thorough time=900
// sx-case: name=register_long -DREG -DNP=5 reach=done,some,none tier=thorough time=900
// sx-bound: up to 3 plugins (thorough 5) in any of 3 groups, with or without either base directory and finish callback, the caller's strings changed and released after registering
// sx-bound: strings: any of the four texts missing; any string of up to 3 bytes
// sx-bound: loaded: up to 2 (thorough 3) plugins of the configuration, from files of their own or a shared one, each of which cannot be opened, has no register function, fails to register with any status, registers without a name, or registers with any subset of operations; base directories by default, empty or of 600 characters
// sx-assume: the dynamic loader is the harness' model (dlopen, dlsym, dlclose, dlerror)
#include "h.h"
#include <disir/plugin.h>
#ifndef NP
#define NP 3
#endif
static struct disir_instance *ins;
#ifdef LOADED
#ifndef NL
#define NL 2
#endif
/* the model of the loader: object i is "file<i>.so" */
enum { UNOPENED, NOSYMBOL, REFUSES, NAMELESS, GOOD, QUIET };
static char objects[8]; static int file[8], loads[8], ndl; static int what[8], opened[8], fin[8], regs[8], base[8], npl, cur; static int32_t why[8]; static char longbase[8][640]; static struct disir_instance *seen; static int calls;
static const char *base_of (int i) { return base[i] == 0 ? "/etc/disir/configs" : base[i] == 1 ? "" : longbase[i]; }
static int which (void *h) { int i = (int) ((char *) h - objects); sx_assert (i >= 0 && i < npl && loads[i] > 0, "a handle that was opened"); return i; }
void *sxfs_dlopen (const char *f, int flags)
{
    (void) flags;
    sx_assert (strlen (f) == 8 && !strncmp (f, "file", 4) && f[4] >= '0' && f[4] < '0' + npl && !strcmp (f + 5, ".so"), "a configured file");
    cur = ndl++;
    sx_assert (cur < npl && file[cur] == f[4] - '0', "each plugin in turn, from its file");
    if (what[cur] == UNOPENED) return NULL;
    opened[cur] = 1; loads[file[cur]]++;
    return &objects[file[cur]];
}
static ST finish_ (struct disir_instance *i, struct disir_register_plugin *p)
{
    long k = (long) p->dp_storage;
    sx_assert (i == seen, "the instance");
    sx_assert (k >= 0 && k < npl && opened[k] == 1 && loads[file[k]] > 0 && !fin[k], "finished once, while loaded");
    sx_assert (!strcmp (p->dp_name, "name") && !strcmp (p->dp_config_base_id, base_of (k)), "still intact");
    fin[k] = 1;
    return OK;
}
static ST lquery (struct disir_instance *i, struct disir_register_plugin *p, const char *e, struct disir_entry **o)
{
    long k = (long) p->dp_storage; (void) o;
    sx_assert (i == ins && !strcmp (e, "e") && opened[k] && loads[file[k]] > 0, "the operation");
    sx_assert (!strcmp (p->dp_config_base_id, base_of (k)) && !strcmp (p->dp_mold_base_id, "/etc/disir/configs"), "with its base directories");
    calls |= 1 << k;
    return DISIR_STATUS_EXISTS;
}
static ST lremove (struct disir_instance *i, struct disir_register_plugin *p, const char *e) { (void) i; (void) e; calls |= 16 << (long) p->dp_storage; return OK; }
static ST reg_ (struct disir_instance *i, struct disir_register_plugin *p)
{
    sx_assert (i != NULL && (!seen || seen == i) && !regs[cur], "registered once, in the instance");
    seen = i; regs[cur] = 1;
    sx_assert (p->dp_config_base_id && !strcmp (p->dp_config_base_id, base_of (cur)), "the configured base directory");
    sx_assert (p->dp_mold_base_id && !strcmp (p->dp_mold_base_id, "/etc/disir/configs"), "and the molds'");
    if (what[cur] == REFUSES) return why[cur];
    if (what[cur] != NAMELESS) p->dp_name = "name";
    p->dp_description = "desc"; p->dp_config_entry_type = "c"; p->dp_mold_entry_type = "m";
    p->dp_storage = (void *) (long) cur; p->dp_plugin_finished = finish_;
    if (what[cur] == GOOD) { p->dp_config_query = lquery; if (cur & 1) p->dp_config_remove = lremove; }
    return OK;
}
void *sxfs_dlsym (void *h, const char *n)
{
    int i = which (h);
    sx_assert (i == file[cur] && !strcmp (n, "dio_register_plugin"), "the register function");
    return what[cur] == NOSYMBOL ? NULL : (void *) reg_;
}
int sxfs_dlclose (void *h) { loads[which (h)]--; return 0; }
char *sxfs_dlerror (void) { return "because"; }
#endif
static int finished[8], order[8], nf;
static char seen_base[8][8], seen_mold[8][8], seen_type[8][8];
static ST done (struct disir_instance *i, struct disir_register_plugin *st)
{
    long p;
    sx_assert (i == ins && sx_valid (st, sizeof *st), "instance and plugin are passed on");
    p = (long) st->dp_storage;
    sx_assert (!strcmp (st->dp_name, "name"), "the plugin is still intact");
    sx_assert (p >= 0 && p < 8, "the plugin's storage is passed on");
    finished[p]++; order[nf++] = (int) p;
    return OK;
}
static int asked = -1;
static ST query (struct disir_instance *i, struct disir_register_plugin *p, const char *e, struct disir_entry **o)
{
    long k = (long) p->dp_storage; (void) i; (void) e; (void) o;
    asked = (int) k;
    sx_assert (!strcmp (p->dp_name, "name") && !strcmp (p->dp_description, "desc"), "the texts are kept");
    sx_assert (!strcmp (p->dp_config_entry_type, seen_type[k]) && !strcmp (p->dp_mold_entry_type, "mold"), "the entry types are kept");
    sx_assert (p->dp_config_base_id ? !strcmp (p->dp_config_base_id, seen_base[k]) : !seen_base[k][0], "the base is kept");
    sx_assert (p->dp_mold_base_id ? !strcmp (p->dp_mold_base_id, seen_mold[k]) : !seen_mold[k][0], "the mold base is kept");
    return DISIR_STATUS_EXISTS;
}
void harness (void)
{
    int p, n, cb[8]; ST s; struct disir_register_plugin pl; static const char *gs[] = { "g", "gh", "other" }; int g[8]; struct disir_plugin *l = NULL, *q, *nx;
    sx_fmt_abstract = 1;
    memset (&pl, 0, sizeof pl);
#ifdef LOAD
    /* a plugin that cannot be loaded: the instance is not created */
    struct disir_mold *mold = NULL; struct disir_config *cfg = NULL; CTX *c = NULL; int what;
    (void) p; (void) n; (void) cb; (void) gs; (void) g; (void) l; (void) q; (void) nx; (void) query; (void) done;
    MUST (disir_libdisir_mold (&mold));
    MUST (disir_generate_config_from_mold (mold, NULL, &cfg));
    c = dc_config_getcontext (cfg);
    what = sx_pick (4, "missing");
    if (what != 0) MUST (dc_config_set_keyval_string (c, "file.so", "plugin.plugin_filepath")); else MUST (dc_config_set_keyval_string (c, "", "plugin.plugin_filepath"));
    if (what != 1) MUST (dc_config_set_keyval_string (c, "grp", "plugin.group_id"));
    if (what != 2) MUST (dc_config_set_keyval_string (c, "io", "plugin.io_id"));
    s = disir_instance_create (NULL, cfg, &ins);
    sx_assert (s == (what == 3 ? DISIR_STATUS_LOAD_ERROR : DISIR_STATUS_CONFIG_INVALID) && ins == NULL, "the instance is refused");
    sx_assert (disir_instance_create (NULL, NULL, NULL) == DISIR_STATUS_INVALID_ARGUMENT, "no output");
    sx_assert (disir_instance_destroy (NULL) == DISIR_STATUS_INVALID_ARGUMENT && disir_instance_destroy (&ins) == DISIR_STATUS_INVALID_ARGUMENT, "no instance");
    dc_putcontext (&c);
    disir_config_finished (&cfg);
    MUST (disir_mold_finished (&mold));
    sx_reach ("done");
#elif defined LOADED
    struct disir_mold *mold = NULL; struct disir_config *cfg = NULL; CTX *c = NULL; int bad = -1;
    (void) cb; (void) gs; (void) g; (void) l; (void) q; (void) nx; (void) query; (void) done; (void) n;
    npl = sx_pick (NL, "plugins") + 1;
    MUST (disir_libdisir_mold (&mold));
    MUST (disir_generate_config_from_mold (mold, NULL, &cfg));
    c = dc_config_getcontext (cfg);
    for (p = 0; p < npl; p++)
    {
        char k[64], v[16];
        file[p] = p && sx_pick (2, "same file") ? 0 : p;
        what[p] = sx_pick (6, "outcome"); base[p] = sx_pick (3, "base");
        memset (longbase[p], 'x', 600); longbase[p][0] = '/'; longbase[p][599] = (char) ('0' + p); longbase[p][600] = 0;
        if (what[p] == REFUSES) { int st = sx_i32 ("status"); sx_assume (st > 0 && st < 64); why[p] = st; }
        snprintf (k, 64, "plugin@%d.plugin_filepath", p); snprintf (v, 16, "file%d.so", file[p]); MUST (dc_config_set_keyval_string (c, v, k));
        snprintf (k, 64, "plugin@%d.group_id", p); snprintf (v, 16, "g%d", p); MUST (dc_config_set_keyval_string (c, v, k));
        snprintf (k, 64, "plugin@%d.io_id", p); MUST (dc_config_set_keyval_string (c, "io", k));
        snprintf (k, 64, "plugin@%d.config_base_id", p); if (base[p]) MUST (dc_config_set_keyval_string (c, base_of (p), k));
        if (bad < 0 && what[p] < GOOD) bad = p;
    }
    dc_putcontext (&c);
    s = disir_instance_create (NULL, cfg, &ins);
    if (bad >= 0)
    {
        sx_reach (bad ? "undone" : "failed");
        sx_assert (ins == NULL, "no instance");
        sx_assert (what[bad] == NAMELESS ? s != OK : s == (what[bad] == UNOPENED ? DISIR_STATUS_LOAD_ERROR : DISIR_STATUS_PLUGIN_ERROR), "the failure is told");
        disir_config_finished (&cfg);
    }
    else
    {
        sx_reach ("good");
        sx_assert (s == OK && ins != NULL && ins == seen, "the instance");
        for (p = 0; p < npl; p++)
        {
            char gr[3] = { 'g', (char) ('0' + p), 0 };
            calls = 0;
            s = disir_config_query (ins, gr, "e", NULL);
            sx_assert (what[p] == GOOD ? s == DISIR_STATUS_EXISTS && calls == 1 << p : s != OK && s != DISIR_STATUS_EXISTS && !calls, "a plugin provides what it registered");
            calls = 0;
            s = disir_config_remove (ins, gr, "e");
            sx_assert (what[p] == GOOD && (p & 1) ? s == OK && calls == 16 << p : s != OK && !calls, "and nothing else");
            sx_assert (disir_mold_query (ins, gr, "e", NULL) != OK, "and nothing else");
            struct disir_config *none = NULL; struct disir_mold *nonem = NULL; struct disir_entry *ent = NULL;
            sx_assert (disir_config_read (ins, gr, "e", NULL, &none) != OK && none == NULL, "and nothing else");
            sx_assert (disir_mold_read (ins, gr, "e", &nonem) != OK && nonem == NULL, "and nothing else");
            sx_assert (disir_mold_write (ins, gr, "e", mold) != OK, "and nothing else");
            disir_config_entries (ins, gr, &ent); sx_assert (ent == NULL, "and nothing else");
            disir_mold_entries (ins, gr, &ent); sx_assert (ent == NULL, "and nothing else");
        }
        struct disir_instance *x = ins;
        MUST (disir_instance_destroy (&x));
        sx_assert (x == NULL, "gone");
    }
    for (p = 0; p < npl; p++)
    {
        int tried = bad < 0 || p <= bad;
        sx_assert (opened[p] == (tried && what[p] != UNOPENED), "opened in order, until one fails");
        sx_assert (loads[p] == 0, "whatever was opened is closed, as often");
        sx_assert (fin[p] == (bad < 0 || p < bad), "whoever was registered is finished");
    }
    MUST (disir_mold_finished (&mold));
#else
    MUST (disir_instance_create (NULL, NULL, &ins));
#endif
#ifdef REG
    n = sx_pick (NP + 1, "plugins");
    for (p = 0; p < n; p++)
    {
        int base = sx_pick (4, "bases"); char *cb_ = NULL, *mb = NULL, *t = strdup ("type"), *nm = strdup ("name"), *io = strdup ("io"), *gr;
        g[p] = sx_pick (3, "group"); gr = strdup (gs[g[p]]);
        cb[p] = sx_pick (2, "finish");
        memset (&pl, 0, sizeof pl);
        t[3] = (char) ('0' + p); strcpy (seen_type[p], t);
        if (base & 1) { cb_ = strdup ("cbase"); strcpy (seen_base[p], "cbase"); }
        if (base & 2) { mb = strdup ("mbase"); strcpy (seen_mold[p], "mbase"); }
        pl.dp_name = nm; pl.dp_description = "desc"; pl.dp_config_entry_type = t; pl.dp_mold_entry_type = "mold";
        pl.dp_config_base_id = cb_; pl.dp_mold_base_id = mb; pl.dp_storage = (void *) (long) p; pl.dp_config_query = query;
        if (cb[p]) pl.dp_plugin_finished = done;
        MUST (disir_plugin_register (ins, &pl, io, gr));
        /* the caller's own copies are the caller's */
        t[0] = nm[0] = io[0] = gr[0] = '#'; if (base & 1) cb_[0] = '#'; if (base & 2) mb[0] = '#';
        free (t); free (nm); free (io); free (gr); free (cb_); free (mb);
        memset (&pl, 255, sizeof pl);
    }
    MUST (disir_plugin_registered (ins, &l));
    for (p = 0, q = l; q && p < n; q = q->next) { sx_assert (!strcmp (q->pl_group_id, gs[g[p]]), "listed in order with their groups"); p++; }
    sx_assert (p == n && q == NULL, "each is listed once");
    while (l) { nx = l->next; MUST (disir_plugin_finished (&l)); l = nx; }
    for (int k = 0; k < 3; k++)
    {
        int first = -1;
        for (p = n - 1; p >= 0; p--) if (g[p] == k) first = p;
        asked = -1;
        s = disir_config_query (ins, gs[k], "e", NULL);
        sx_assert (s == (first < 0 ? DISIR_STATUS_GROUP_MISSING : DISIR_STATUS_EXISTS) && asked == first, "found by its group");
    }
    sx_reach (n ? "some" : "none");
    { struct disir_instance *x = ins; MUST (disir_instance_destroy (&x)); sx_assert (x == NULL, "the pointer is cleared"); }
    int k = 0;
    for (p = 0; p < n; p++)
    {
        sx_assert (finished[p] == cb[p], "each finish callback is called once");
        if (cb[p]) k++;
    }
    sx_assert (nf == k, "and no other");
    sx_reach ("done");
#endif
#ifdef STRINGS
    int miss = sx_pick (9, "missing"); char t[4]; (void) cb; (void) gs; (void) g; (void) nx; (void) done; (void) p; (void) n; (void) query;
    sx_string (t, 3, NULL, "text");
    pl.dp_name = miss == 0 ? NULL : t; pl.dp_description = miss == 1 ? NULL : t; pl.dp_config_entry_type = miss == 2 ? NULL : t; pl.dp_mold_entry_type = miss == 3 ? NULL : t;
    s = disir_plugin_register (miss == 4 ? NULL : ins, miss == 5 ? NULL : &pl, miss == 6 ? NULL : t, miss == 7 ? NULL : t);
    if (miss < 8 && miss > 3) { sx_assert (s == DISIR_STATUS_INVALID_ARGUMENT, "a missing argument is refused"); sx_reach ("refused"); }
    if (miss == 8) { sx_assert (s == OK, "any text will do"); sx_reach ("accepted"); }
    MUST (disir_plugin_registered (ins, &l));
    if (s == OK) { sx_assert (l && !l->next && !strcmp (l->pl_group_id, t), "it is registered"); }
    else sx_assert (l == NULL, "it is not registered");
    while ((q = l)) { l = q->next; MUST (disir_plugin_finished (&q)); }
    sx_assert (disir_plugin_registered (NULL, &l) == DISIR_STATUS_INVALID_ARGUMENT && disir_plugin_registered (ins, NULL) == DISIR_STATUS_INVALID_ARGUMENT, "missing arguments");
    MUST (disir_instance_destroy (&ins));
#endif
#ifdef LOAD
    if (what == 3 && sx_native ()) return; /* dlerror keeps its text */
#endif
    sx_assert (sx_live_heap () == 0, "everything is released");
}
