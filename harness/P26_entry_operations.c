// sx-case: name=config_read -DOP=0 reach=served,lacks,none,second
// sx-case: name=mold_read -DOP=1 reach=served,lacks,none,second
// sx-case: name=config_query -DOP=2 reach=served,none,second,unknown
// sx-case: name=mold_query -DOP=3 reach=served,none,second,unknown
// sx-case: name=config_write -DOP=4 reach=served,lacks,unknown
// sx-case: name=config_remove -DOP=5 reach=served,lacks,unknown
// sx-case: name=mold_write -DOP=6 reach=served,lacks,unknown
// sx-case: name=entry_names -DOP=4 -DENTRIES reach=refused,passed
// sx-case: name=entry_names_remove -DOP=5 -DENTRIES reach=refused,passed
// sx-case: name=groups -DOP=2 -DGROUPS reach=served,unknown
// sx-case: name=arguments -DOP=0 -DARGS reach=done
// sx-case: name=any_config_read -DOP=0 -DANY -DNP=2 reach=served,lacks,none,second
// sx-case: name=any_mold_read -DOP=1 -DANY -DNP=2 reach=served,lacks,none,second
// sx-case: name=any_config_query -DOP=2 -DANY -DNP=2 reach=served,none,second,unknown
// sx-case: name=any_mold_query -DOP=3 -DANY -DNP=2 reach=served,none,second,unknown
// sx-case: name=any_config_write -DOP=4 -DANY -DNP=2 reach=served,lacks,unknown
// sx-case: name=any_config_remove -DOP=5 -DANY -DNP=2 reach=served,lacks,unknown
// sx-case: name=any_mold_write -DOP=6 -DANY -DNP=2 reach=served,lacks,unknown
// sx-case: name=config_read_long -DOP=0 -DNP=4 reach=served,lacks,none,second tier=thorough time=900
// sx-case: name=config_query_long -DOP=2 -DNP=4 reach=served,none,second,unknown tier=thorough time=900
// sx-case: name=mold_query_long -DOP=3 -DNP=4 reach=served,none,second,unknown tier=thorough time=900
// sx-bound: up to 3 plugins (thorough 4), each in the group or another one, having the entry, not having it, failing or lacking the query, lacking the operation or returning any of three statuses
// sx-bound: any: up to 2 plugins whose query and operation return any status there is
// sx-bound: entry names of up to 3 bytes and group names of up to 2 bytes, every byte
#include "h.h"
#include <disir/plugin.h>
#ifdef ANY
#define ANYRET(x) 0
#define ANYDEF 1
#else
#define ANYDEF 0
#define ANYRET(x) x
#endif
#ifndef NP
#define NP 3
#endif
#define NOTYET DISIR_STATUS_FS_ERROR
static struct disir_instance *ins;
static struct { int in, query, op; ST ret, fail; } pl_[NP];
static ST any_status (const char *n) { return (ST) sx_concretize (sx_range (0, DISIR_STATUS_UNKNOWN - 1, n)); }
static int asked[NP], ran[NP], np, qfail; static const char *want; static void *arg; static struct disir_entry **want_out;
static char mold_token, cfg_token; static int outs;
static ST do_query (int p, const char *e)
{
    asked[p]++;
    sx_assert (!strcmp (e, want), "the entry's name is passed on");
    return pl_[p].query == 0 ? DISIR_STATUS_EXISTS : pl_[p].query == 1 ? DISIR_STATUS_NOT_EXIST : pl_[p].fail;
}
static ST do_op (int p, const char *e, void *a)
{
    ran[p]++;
    sx_assert (!strcmp (e, want), "the entry's name is passed on");
    sx_assert (a == arg, "the object is passed on");
    return pl_[p].ret;
}
#define PLUGIN(n) \
static ST query_##n (struct disir_instance *i, struct disir_register_plugin *p, const char *e, struct disir_entry **o) \
{ sx_assert (i == ins && (long) p->dp_storage == n, "instance and plugin are passed on"); if (o) { outs++; sx_assert (o == want_out, "the output is passed on"); } return do_query (n, e); } \
static ST cread_##n (struct disir_instance *i, struct disir_register_plugin *p, const char *e, struct disir_mold *m, struct disir_config **c) \
{ ST s = do_op (n, e, m); sx_assert (i == ins && (long) p->dp_storage == n, "instance and plugin are passed on"); if (s == OK) *c = (void *) &cfg_token; return s; } \
static ST mread_##n (struct disir_instance *i, struct disir_register_plugin *p, const char *e, struct disir_mold **m) \
{ ST s = do_op (n, e, NULL); sx_assert (i == ins && (long) p->dp_storage == n, "instance and plugin are passed on"); if (s == OK) *m = (void *) &mold_token; return s; } \
static ST cwrite_##n (struct disir_instance *i, struct disir_register_plugin *p, const char *e, struct disir_config *c) \
{ sx_assert (i == ins && (long) p->dp_storage == n, "instance and plugin are passed on"); return do_op (n, e, c); } \
static ST mwrite_##n (struct disir_instance *i, struct disir_register_plugin *p, const char *e, struct disir_mold *m) \
{ sx_assert (i == ins && (long) p->dp_storage == n, "instance and plugin are passed on"); return do_op (n, e, m); } \
static ST cremove_##n (struct disir_instance *i, struct disir_register_plugin *p, const char *e) \
{ sx_assert (i == ins && (long) p->dp_storage == n, "instance and plugin are passed on"); return do_op (n, e, NULL); }
PLUGIN (0) PLUGIN (1) PLUGIN (2) PLUGIN (3)
#define ROW(n) { query_##n, cread_##n, mread_##n, cwrite_##n, mwrite_##n, cremove_##n }
static const struct { config_query q; config_read cr; mold_read mr; config_write cw; mold_write mw; config_remove rm; } row[] = { ROW (0), ROW (1), ROW (2), ROW (3) };
static void plug (int p, const char *group)
{
    struct disir_register_plugin pl;
    memset (&pl, 0, sizeof pl);
    pl.dp_name = "n"; pl.dp_description = "d"; pl.dp_config_entry_type = "t"; pl.dp_mold_entry_type = "u"; pl.dp_storage = (void *) (long) p;
    if (pl_[p].query != 3) { if (OP == 1 || OP == 3 || OP == 6) pl.dp_mold_query = row[p].q; else pl.dp_config_query = row[p].q; }
    if (pl_[p].op)
    {
        if (OP == 0) pl.dp_config_read = row[p].cr;
        if (OP == 1) pl.dp_mold_read = row[p].mr;
        if (OP == 4) pl.dp_config_write = row[p].cw;
        if (OP == 5) pl.dp_config_remove = row[p].rm;
        if (OP == 6) pl.dp_mold_write = row[p].mw;
    }
    else
    {
        /* every other operation is there */
        if (OP == 4) pl.dp_config_remove = row[p].rm;
        if (OP == 5) pl.dp_config_write = row[p].cw;
        if (OP == 0) pl.dp_mold_read = row[p].mr;
        if (OP == 1) pl.dp_config_read = row[p].cr;
        if (OP == 6) pl.dp_config_write = row[p].cw;
    }
    MUST (disir_plugin_register (ins, &pl, "io", group));
}
static struct disir_config *cfg = (void *) 16; static struct disir_mold *mold = (void *) 16; static struct disir_entry *en = (void *) 16;
static ST call (const char *g, const char *e)
{
    want = e;
    switch (OP)
    {
    case 0: arg = sx_pick (2, "mold") ? (void *) &mold_token : NULL; return disir_config_read (ins, g, e, arg, &cfg);
    case 1: arg = NULL; return disir_mold_read (ins, g, e, &mold);
    case 2: want_out = sx_pick (2, "out") ? &en : NULL; return disir_config_query (ins, g, e, want_out);
    case 3: want_out = sx_pick (2, "out") ? &en : NULL; return disir_mold_query (ins, g, e, want_out);
    case 4: arg = &cfg_token; return disir_config_write (ins, g, e, arg);
    case 5: arg = NULL; return disir_config_remove (ins, g, e);
    default: arg = &mold_token; return disir_mold_write (ins, g, e, arg);
    }
}
void harness (void)
{
    int p, i, who = -1, first = -1, skipped = 0; ST s;
    sx_fmt_abstract = 1;
    MUST (disir_instance_create (NULL, NULL, &ins));
#if defined ARGS
    struct disir_config *c = NULL; struct disir_mold *m = NULL;
    (void) p; (void) i; (void) who; (void) first; (void) skipped; (void) row; (void) plug; (void) call; (void) qfail; (void) np; (void) asked; (void) ran; (void) outs;
#define REF(e) s = (e); sx_assert (s == DISIR_STATUS_INVALID_ARGUMENT, #e)
    pl_[0].query = 0; pl_[0].op = 1; pl_[0].ret = OK; plug (0, "g");
    REF (disir_config_read (NULL, "g", "e", NULL, &c)); REF (disir_config_read (ins, NULL, "e", NULL, &c));
    REF (disir_config_read (ins, "g", NULL, NULL, &c)); REF (disir_config_read (ins, "g", "e", NULL, NULL));
    REF (disir_mold_read (NULL, "g", "e", &m)); REF (disir_mold_read (ins, NULL, "e", &m));
    REF (disir_mold_read (ins, "g", NULL, &m)); REF (disir_mold_read (ins, "g", "e", NULL));
    REF (disir_config_query (NULL, "g", "e", NULL)); REF (disir_config_query (ins, NULL, "e", NULL)); REF (disir_config_query (ins, "g", NULL, NULL));
    REF (disir_mold_query (NULL, "g", "e", NULL)); REF (disir_mold_query (ins, NULL, "e", NULL)); REF (disir_mold_query (ins, "g", NULL, NULL));
    REF (disir_config_write (NULL, "g", "e", (void *) &cfg_token)); REF (disir_config_write (ins, NULL, "e", (void *) &cfg_token));
    REF (disir_config_write (ins, "g", NULL, (void *) &cfg_token)); REF (disir_config_write (ins, "g", "e", NULL));
    REF (disir_mold_write (NULL, "g", "e", (void *) &mold_token)); REF (disir_mold_write (ins, NULL, "e", (void *) &mold_token));
    REF (disir_mold_write (ins, "g", NULL, (void *) &mold_token)); REF (disir_mold_write (ins, "g", "e", NULL));
    REF (disir_config_remove (NULL, "g", "e")); REF (disir_config_remove (ins, NULL, "e")); REF (disir_config_remove (ins, "g", NULL));
    sx_assert (ran[0] == 0 && asked[0] == 0, "no plugin was called");
    REF (disir_config_finished (NULL)); REF (disir_config_finished (&c)); REF (disir_mold_finished (NULL)); REF (disir_mold_finished (&m));
    REF (disir_config_valid (NULL, NULL)); REF (disir_mold_valid (NULL, NULL));
    sx_reach ("done");
#elif defined ENTRIES
    char e[8]; int n = sx_string (e, 3, NULL, "entry"), bad;
    (void) p; (void) i; (void) who; (void) first; (void) skipped; (void) np; (void) qfail;
    pl_[0].op = 1; pl_[0].ret = OK; plug (0, "grp");
    bad = n == 0 ? 1 : DECIDE (e[n - 1] == '/');
    s = call ("grp", e);
    if (bad) { sx_assert (s != OK && ran[0] == 0 && asked[0] == 0, "an empty or directory-like name is refused before the plugin"); sx_reach ("refused"); }
    else { sx_assert (s == OK && ran[0] == 1, "any other name reaches the plugin"); sx_reach ("passed"); }
#elif defined GROUPS
    static const char *gs[] = { "g", "gh", "h" }; char g[4];
    (void) first; (void) skipped; (void) qfail; (void) np;
    for (p = 0; p < NP && p < 3; p++) { pl_[p].query = 0; plug (p, gs[p]); }
    sx_string (g, 2, NULL, "group");
    s = call (g, "e");
    for (p = 0; p < 3; p++) if (DECIDE (!strcmp (g, gs[p]))) who = p;
    sx_assert (s == (who < 0 ? DISIR_STATUS_GROUP_MISSING : DISIR_STATUS_EXISTS), "the group decides");
    for (i = 0; i < 3; i++) sx_assert (asked[i] == (i == who), "only the group's plugin is asked");
    sx_reach (who < 0 ? "unknown" : "served");
#else
    int quer = 0;
    static const ST rets[] = { OK, DISIR_STATUS_FS_ERROR, DISIR_STATUS_INVALID_CONTEXT };
    np = sx_pick (NP + 1, "plugins");
    for (p = 0; p < np; p++)
    {
        pl_[p].in = OP >= 4 || !ANYDEF ? 1 - sx_pick (2, "other group") : 1;
        pl_[p].query = OP < 4 ? sx_pick (4, "query") : 3;
        pl_[p].op = OP == 2 || OP == 3 ? 0 : 1 - sx_pick (2, "lacks");
        pl_[p].ret = pl_[p].op && (OP >= 4 || pl_[p].query == 0) ? rets[ANYRET (sx_pick (3, "returns"))] : OK;
        pl_[p].fail = NOTYET;
#ifdef ANY
        if (pl_[p].query == 2) { pl_[p].fail = any_status ("fails"); sx_assume (pl_[p].fail != DISIR_STATUS_EXISTS && pl_[p].fail != DISIR_STATUS_NOT_EXIST); }
        if (pl_[p].op && (OP >= 4 || pl_[p].query == 0)) pl_[p].ret = any_status ("returns");
#endif
        plug (p, pl_[p].in ? "grp" : "gr");
        if (!pl_[p].in) continue;
        if (first < 0) first = p;
        if (OP < 4)
        {
            if (pl_[p].query == 3) continue;
            quer++;
            if (who < 0 && pl_[p].query == 0) who = p;
            if (who < 0) skipped++;
            if (who < 0 && pl_[p].query == 2) qfail = 1;
        }
        else who = first;
    }
    s = call ("grp", "some/entry");
    if (OP == 0 || OP == 1)
    {
        void *got = OP == 0 ? (void *) cfg : (void *) mold, *tok = OP == 0 ? (void *) &cfg_token : (void *) &mold_token;
        if (who < 0) { sx_assert (s == DISIR_STATUS_NOT_EXIST, "nobody has it"); sx_reach ("none"); }
        else if (!pl_[who].op) { sx_assert (s == DISIR_STATUS_NO_CAN_DO, "the plugin cannot read"); sx_reach ("lacks"); }
        else
        {
            sx_assert (s == pl_[who].ret, "the plugin's status");
            sx_assert (s != OK || got == tok, "and its object");
            sx_reach ("served"); if (skipped) sx_reach ("second");
        }
    }
    else if (OP == 2 || OP == 3)
    {
        if (!quer) { sx_assert (s == DISIR_STATUS_GROUP_MISSING, "no plugin for the group"); sx_reach ("unknown"); }
        else if (who >= 0) { sx_assert (s == DISIR_STATUS_EXISTS, "a plugin has it"); sx_reach ("served"); if (skipped) sx_reach ("second"); }
        else if (!qfail) { sx_assert (s == DISIR_STATUS_NOT_EXIST, "no plugin has it"); sx_reach ("none"); }
        else sx_assert (s == pl_[0].fail || (np > 1 && s == pl_[1].fail) || s == DISIR_STATUS_NOT_EXIST, "a failing plugin does not make it exist");
        sx_assert (!want_out || outs > 0 || !quer, "the output is passed on");
    }
    else
    {
        if (who < 0) { sx_assert (s == DISIR_STATUS_NOT_EXIST || s == DISIR_STATUS_GROUP_MISSING, "no plugin for the group"); sx_reach ("unknown"); }
        else if (!pl_[who].op)
        {
            if (OP == 6) sx_assert (s != OK, "the plugin cannot write");
            else sx_assert (s == DISIR_STATUS_NO_CAN_DO, "the plugin lacks the operation");
            sx_reach ("lacks");
        }
        else { sx_assert (s == pl_[who].ret, "the plugin's status"); sx_reach ("served"); }
    }
    for (p = 0; p < np; p++)
    {
        sx_assert (ran[p] == (p == who && pl_[p].op), "exactly the right plugin operates");
        sx_assert (pl_[p].in || asked[p] == 0, "other groups are not asked");
    }
    (void) i;
#endif
    MUST (disir_instance_destroy (&ins));
    sx_assert (sx_live_heap () == 0, "everything is released");
}
