// sx-case: name=config_two -DNP=2 -DNE=3 reach=merged,duplicate,other,lacking,failing,empty steps=2000000
// sx-case: name=mold_two -DMOLD -DNP=2 -DNE=3 reach=merged,duplicate,other,lacking,failing,empty steps=2000000
// sx-case: name=config_three -DNP=3 -DNE=2 -DNAMES=2 -DMODES=2 reach=merged,duplicate,other,empty steps=2000000
// sx-case: name=mold_three -DMOLD -DNP=3 -DNE=2 -DNAMES=2 -DMODES=2 reach=merged,duplicate,other,empty steps=2000000
// sx-case: name=release -DNP=2 -DNE=2 -DNAMES=3 -DMODES=1 -DRELEASE reach=merged,duplicate steps=2000000
// sx-case: name=names -DSYMNAMES -DNP=2 -DNE=2 -DMODES=1 reach=merged,duplicate steps=2000000
// sx-case: name=arguments -DARGS reach=done steps=2000000
// sx-case: name=config_three_long -DNP=3 -DNE=3 -DNAMES=3 -DMODES=2 reach=merged,duplicate,other,empty tier=thorough time=900 steps=2000000
// sx-case: name=mold_three_long -DMOLD -DNP=3 -DNE=3 -DNAMES=3 -DMODES=2 reach=merged,duplicate,other,empty tier=thorough time=900 steps=2000000
// sx-case: name=names_long -DSYMNAMES -DNP=2 -DNE=3 -DMODES=1 reach=merged,duplicate tier=thorough time=900 steps=2000000
// sx-bound: two plugins of up to 3 entries or three plugins of up to 2 entries each (thorough 3), every assignment of names (three, or any two letters of three: case names), the plugin in the group or another, lacking the listing or failing
// sx-bound: release: the listed entries released in every order
#include "h.h"
#include <disir/plugin.h>
#ifndef NAMES
#define NAMES 3
#endif
#ifndef MODES
#define MODES 4
#endif
#ifndef NP
#define NP 1
#define NE 1
#endif
static struct disir_instance *ins;
static int mode[NP], len[NP], called[NP];
static char name[NP][NE][4]; static int nidx[NP][NE];
static ST list (int p, struct disir_entry **out)
{
    struct disir_entry *head = NULL; int i;
    called[p]++;
    if (mode[p] == 3) return DISIR_STATUS_FS_ERROR;
    for (i = 0; i < len[p]; i++)
    {
        struct disir_entry *e = calloc (1, sizeof *e);
        e->de_entry_name = strdup (name[p][i]);
        e->de_attributes = 1 + p * 4 + i;
        if (!head) { head = e; e->prev = e; }
        else { e->prev = head->prev; head->prev->next = e; head->prev = e; }
    }
    *out = head;
    return OK;
}
static ST list0 (struct disir_instance *i, struct disir_register_plugin *p, struct disir_entry **o) { (void) i; (void) p; return list (0, o); }
#if NP > 1
static ST list1 (struct disir_instance *i, struct disir_register_plugin *p, struct disir_entry **o) { (void) i; (void) p; return list (1, o); }
#endif
#if NP > 2
static ST list2 (struct disir_instance *i, struct disir_register_plugin *p, struct disir_entry **o) { (void) i; (void) p; return list (2, o); }
#endif
static const config_entries lists[] = { list0,
#if NP > 1
 list1,
#endif
#if NP > 2
 list2,
#endif
};
#ifdef MOLD
#define ENTRIES disir_mold_entries
#else
#define ENTRIES disir_config_entries
#endif
static const char *names[] = { "ab/", "c", "d" };
void harness (void)
{
    struct disir_register_plugin pl; struct disir_entry *es = NULL, *e, *arr[NP * NE + 1];
    int i, j, p, n = 0, failing = 0, exp_p[NP * NE + 1], exp_i[NP * NE + 1], ne = 0; ST s;
    sx_fmt_abstract = 1;
    MUST (disir_instance_create (NULL, NULL, &ins));
#ifdef ARGS
    (void) pl; (void) e; (void) arr; (void) i; (void) j; (void) p; (void) n; (void) failing; (void) exp_p; (void) exp_i; (void) ne; (void) s; (void) lists; (void) names;
    sx_assert (disir_config_entries (NULL, "g", &es) == DISIR_STATUS_INVALID_ARGUMENT, "no instance");
    sx_assert (disir_config_entries (ins, NULL, &es) == DISIR_STATUS_INVALID_ARGUMENT, "no group");
    sx_assert (disir_config_entries (ins, "g", NULL) == DISIR_STATUS_INVALID_ARGUMENT, "no output");
    sx_assert (disir_mold_entries (NULL, "g", &es) == DISIR_STATUS_INVALID_ARGUMENT, "no instance");
    sx_assert (disir_mold_entries (ins, NULL, &es) == DISIR_STATUS_INVALID_ARGUMENT, "no group");
    sx_assert (disir_mold_entries (ins, "g", NULL) == DISIR_STATUS_INVALID_ARGUMENT, "no output");
    sx_assert (disir_entry_finished (NULL) == DISIR_STATUS_INVALID_ARGUMENT, "no entry");
    sx_assert (disir_entry_finished (&es) == DISIR_STATUS_INVALID_ARGUMENT && es == NULL, "no entry");
    sx_reach ("done");
#else
    for (p = 0; p < NP; p++)
    {
        mode[p] = MODES > 1 ? sx_pick (MODES, "plugin") : 0; /* 0: lists, 1: in another group, 2: lacks listing, 3: fails */
        len[p] = mode[p] < 2 ? sx_pick (NE + 1, "entries") : 0;
        for (i = 0; i < len[p]; i++)
        {
#ifdef SYMNAMES
            for (j = 0; j < 2; j++) { uint8_t c = sx_u8 ("name"); sx_assume (c >= 'a' && c <= 'c'); name[p][i][j] = (char) c; }
#else
            nidx[p][i] = sx_pick (NAMES, "name");
            strcpy (name[p][i], names[nidx[p][i]]);
#endif
        }
        memset (&pl, 0, sizeof pl);
        pl.dp_name = "n"; pl.dp_description = "d"; pl.dp_config_entry_type = "t"; pl.dp_mold_entry_type = "u";
        if (mode[p] != 2)
        {
#ifdef MOLD
            pl.dp_mold_entries = lists[p];
#else
            pl.dp_config_entries = lists[p];
#endif
        }
        MUST (disir_plugin_register (ins, &pl, "io", mode[p] == 1 ? "gr" : "grp"));
    }
    /* expectation */
    for (p = 0; p < NP; p++)
    {
        if (mode[p] == 1) { sx_reach ("other"); continue; }
        if (mode[p] == 2) { sx_reach ("lacking"); continue; }
        if (mode[p] == 3) { sx_reach ("failing"); failing = 1; continue; }
        for (i = 0; i < len[p]; i++)
        {
            int dup = 0;
            for (j = 0; j < ne; j++)
#ifdef SYMNAMES
                if (DECIDE (same_bytes (name[exp_p[j]][exp_i[j]], name[p][i], 2))) dup = 1;
#else
                if (nidx[exp_p[j]][exp_i[j]] == nidx[p][i]) dup = 1;
#endif
            if (dup) { sx_reach ("duplicate"); continue; }
            exp_p[ne] = p; exp_i[ne++] = i;
        }
    }
    s = ENTRIES (ins, "grp", &es);
    sx_assert (s == OK || failing, "the listing succeeds");
    for (p = 0; p < NP; p++)
        sx_assert (called[p] == (mode[p] == 0 || mode[p] == 3), "exactly the plugins of the group are asked, once");
    if (ne == 0) sx_reach ("empty"); else sx_reach ("merged");
    for (e = es; e && n <= ne; e = e->next)
    {
        if (n < ne)
        {
            sx_assert (!strcmp (e->de_entry_name, name[exp_p[n]][exp_i[n]]), "names in order, each once");
            sx_assert (e->de_attributes == (unsigned) (1 + exp_p[n] * 4 + exp_i[n]), "the first plugin naming it wins");
        }
        arr[n < ne ? n : ne] = e;
        n++;
    }
    sx_assert (n == ne, "nothing missing and nothing more");
    sx_assert (ne == 0 || es->prev == arr[ne - 1], "the head leads to the tail");
    for (i = 1; i < ne; i++) sx_assert (arr[i]->prev == arr[i - 1], "linked both ways");
#ifdef RELEASE
    for (i = ne; i > 0; i--)
    {
        int k = sx_pick (i, "release");
        struct disir_entry *x = arr[k], *head = k == 0 ? (i > 1 ? arr[1] : NULL) : arr[0];
        MUST (disir_entry_finished (&x)); sx_assert (x == NULL, "the pointer is cleared");
        for (j = k; j + 1 < i; j++) arr[j] = arr[j + 1];
        for (j = 0, e = head; e && j < i; e = e->next) { sx_assert (j < i - 1 && e == arr[j], "the others stay linked"); j++; }
        sx_assert (j == i - 1, "none is lost");
        if (head) sx_assert (head->prev == arr[i - 2], "the head leads to the tail");
    }
#else
    while (es) { e = es->next; MUST (disir_entry_finished (&es)); es = e; }
#endif
#endif
    MUST (disir_instance_destroy (&ins));
    sx_assert (sx_live_heap () == 0, "everything is released");
}
