// sx-case: name=lookup -DLOOKUP cxx=1 reach=own,namespace,none,override,illformed
// sx-case: name=config -DCONFIG cxx=1 reach=there,missing,denied,nomold,illformed
// sx-case: name=read -DREAD cxx=1 reach=own,namespace,none,override
// sx-case: name=list -DLIST cxx=1 reach=own,namespace,overridden,ignored
// sx-case: name=list_config -DLIST -DCFG cxx=1 reach=own,nomold
// sx-case: name=list_made -DMADE cxx=1 reach=made,failed
// sx-case: name=file -DFILEPATH cxx=1 reach=own,namespace,none,override
// sx-case: name=file_any -DFILEANY cxx=1 reach=done
// sx-case: name=limit -DLIMIT cxx=1 reach=refused,found
// sx-case: name=file_limit -DFLIMIT cxx=1 reach=refused,found
// sx-case: name=entry_of -DNSENTRY cxx=1 reach=some,none
// sx-bound: lookup, config, read: entries of 1 to 3 names, one of them of 1 or 2 symbolic bytes; own, override and namespace file of the entry's directory each there, missing or unreadable, any other file there or not; through the generic functions and the JSON plugin's
// sx-bound: list: a base directory and one below it (its name one symbolic byte), in each any subset of an entry's mold, its override and the namespace mold, and one more file among an ill-formed name, another suffix, a name shorter than the suffix, a name of two symbolic bytes; the files in any of two orders
// sx-bound: limit: molds whose paths are 4072 to 4100 characters long, by a long base directory or a long entry name; file_any: every path of up to 5 (thorough 6) characters out of 'a', '.', 'o', '/'
// sx-assume: the file system is a model; text streams are the ones of engine/cxx (the native replay uses the real ones)
#include "h.h"
#include <disir/plugin.h>
#include <disir/fslib/util.h>
#include <disir/fslib/json.h>
#include "context_private.h"
#include "mold.h"
#include <errno.h>
#include <limits.h>
#include <dirent.h>
static struct disir_instance *ins; static struct disir_register_plugin pl;
static struct disir_mold *mold = (struct disir_mold *) &pl;
/* the files of interest; every other file is there or not (others) */
enum { MAXF = 16 };
static struct { char path[64]; int dir; const char *name; int there; int err; int type; } fl[MAXF]; static int nf, others, stats;
static struct { char path[64]; int there; } dr[6]; static int nd, flip;
/* equal but for repeated slashes */
static int same_path (const char *a, const char *b)
{
    for (;;)
    {
        if (DECIDE (*a != *b)) return 0;
        if (!*b) return 1;
        if (*b == '/') { while (a[1] == '/') a++; while (b[1] == '/') b++; }
        a++; b++;
    }
}
int sxfs_stat (const char *p, struct stat *b)
{
    int i;
    stats++;
    memset (b, 0, sizeof *b);
    for (i = 0; i < nd; i++) if (same_path (p, dr[i].path)) { if (!dr[i].there) { errno = ENOENT; return -1; } b->st_mode = S_IFDIR | 0700; return 0; }
    for (i = 0; i < nf; i++)
        if (same_path (p, fl[i].path))
        {
            if (!fl[i].there) { errno = fl[i].err ? fl[i].err : ENOENT; return -1; }
            b->st_mode = S_IFREG | 0600; b->st_size = 1000 + i; return 0;
        }
    if (others) { b->st_mode = S_IFREG | 0600; b->st_size = 1; return 0; }
    errno = ENOENT; return -1;
}
static int made;
int sxfs_mkdir (const char *p, unsigned m) { int i; (void) m; for (i = 0; i < nd; i++) if (same_path (p, dr[i].path)) { if (dr[i].there) { errno = EEXIST; return -1; } if (made < 0) { errno = EACCES; return -1; } dr[i].there = 1; made++; return 0; } errno = EACCES; return -1; }
static struct { int open, dir, at; } cur[6]; static struct dirent de; static int open_dirs;
void *sxfs_opendir (const char *p)
{
    int i, k;
    for (i = 0; i < nd; i++) if (dr[i].there && same_path (p, dr[i].path)) break;
    if (i == nd) { errno = ENOENT; return NULL; }
    for (k = 0; k < 6 && cur[k].open; k++) ;
    sx_assert (k < 6, "directories are closed again");
    cur[k].open = 1; cur[k].dir = i; cur[k].at = 0; open_dirs++;
    return &cur[k];
}
void *sxfs_readdir (void *d)
{
    int k, n = nf + 3, at, i;
    for (k = 0; k < 6; k++) if ((void *) &cur[k] == d) break;
    sx_assert (k < 6 && cur[k].open, "an open directory");
    while (cur[k].at < n)
    {
        at = cur[k].at++;
        if (flip) at = n - 1 - at;
        memset (&de, 0, sizeof de);
        if (at == 0) { strcpy (de.d_name, "."); de.d_type = DT_DIR; return &de; }
        if (at == 1) { strcpy (de.d_name, ".."); de.d_type = DT_DIR; return &de; }
        if (at == 2)
        {
            /* a directory below */
            if (cur[k].dir + 1 >= nd || !dr[cur[k].dir + 1].there) continue;
            strcpy (de.d_name, strrchr (dr[cur[k].dir + 1].path, '/') + 1); de.d_type = DT_DIR; return &de;
        }
        i = at - 3;
        if (fl[i].dir != cur[k].dir || !fl[i].there || !fl[i].name) continue;
        strcpy (de.d_name, fl[i].name); de.d_type = DT_REG; return &de;
    }
    return NULL;
}
int sxfs_closedir (void *d) { int k; for (k = 0; k < 6; k++) if ((void *) &cur[k] == d) break; sx_assert (k < 6 && cur[k].open, "closed once"); cur[k].open = 0; open_dirs--; return 0; }
static char token; static const char *opened; static int opens, reads; static char want_own[64], want_over[64];
FILE *sxfs_fopen (const char *p, const char *m) { (void) m; opens++; sx_assert (same_path (p, want_own), "the mold's file is opened"); opened = p; return (FILE *) &token; }
int sxfs_fclose (FILE *f) { sx_assert (f == (FILE *) &token && opens == 1, "closed once"); opens--; return 0; }
static ST unserm (struct disir_instance *i, FILE *f, struct disir_mold **m) { sx_assert (i == ins && f == (FILE *) &token && opens == 1, "read from the open file"); reads++; *m = mold; return OK; }
ST dio_json_unserialize_mold_filepath (struct disir_instance *i, const char *p, const char *o, struct disir_mold **m)
{
    sx_assert (i == ins && same_path (p, want_own), "the mold's file");
    if (want_over[0]) sx_assert (o != NULL && same_path (o, want_over), "with its override"); else sx_assert (o == NULL, "without an override");
    reads++; *m = mold; return OK;
}
#define REFUSED ST s_ = DISIR_STATUS_INTERNAL_ERROR; sx_assert (0, "not asked for"); return s_
ST dio_json_unserialize_config (struct disir_instance *i, FILE *f, struct disir_mold *m, struct disir_config **c) { (void) i; (void) f; (void) m; (void) c; REFUSED; }
ST dio_json_serialize_config (struct disir_instance *i, struct disir_config *c, FILE *f) { (void) i; (void) f; (void) c; REFUSED; }
ST dio_json_serialize_mold (struct disir_instance *i, struct disir_mold *c, FILE *f) { (void) i; (void) f; (void) c; REFUSED; }
static int add_file (int dir, const char *dirpath, const char *name, int there)
{
    strcpy (fl[nf].path, dirpath); strcat (fl[nf].path, "/"); strcat (fl[nf].path, name);
    fl[nf].dir = dir; fl[nf].name = strrchr (fl[nf].path, '/') + 1; fl[nf].there = there;
    return nf++;
}
static int legal (unsigned char c) { return (c >= 'a' && c <= 'z') || (c >= '0' && c <= '9') || c == '_'; }
static int json;
static void plugin_setup (void)
{
    memset (&pl, 0, sizeof pl);
    pl.dp_mold_base_id = "/b"; pl.dp_mold_entry_type = "json"; pl.dp_config_base_id = "/c"; pl.dp_config_entry_type = "conf";
    pl.dp_mold_query = fslib_plugin_mold_query;
#if !defined LIMIT && !defined FLIMIT && !defined FILEPATH && !defined FILEANY && !defined NSENTRY
    json = sx_pick (2, "plugin");
#endif
    if (json) pl.dp_mold_query = dio_json_mold_query;
}
static char dirpart[24], last[8], entry[40];
/* an entry's name and whether it is well-formed */
static int any_entry (void)
{
    static const char *const above[] = { "", "d", "d/e" };
    int n = 1 + sx_pick (2, "length"), i, ok = 1;
    strcpy (dirpart, above[sx_pick (3, "directory")]);
    for (i = 0; i < n; i++)
    {
        last[i] = (char) sx_u8 ("byte"); sx_assume (last[i] != 0 && last[i] != '/');
        ok = ok && DECIDE (legal (last[i]));
    }
    last[n] = 0;
    strcpy (entry, dirpart); if (*dirpart) strcat (entry, "/"); strcat (entry, last);
    return ok;
}
/* own, override and namespace file of the entry: there, missing or not to be looked at */
enum { OWN, OVER, NS };
static void any_files (void)
{
    char dir[40], name[24]; int i;
    strcpy (dir, "/b"); if (*dirpart) { strcat (dir, "/"); strcat (dir, dirpart); }
    strcpy (name, last); strcat (name, ".json"); add_file (0, dir, name, 0);
    strcpy (name, last); strcat (name, ".o.json"); add_file (0, dir, name, 0);
    add_file (0, dir, "__namespace.json", 0);
    for (i = 0; i < 3; i++) { int k = sx_pick (3, "there"); fl[i].there = k == 1; if (k == 2) fl[i].err = i == 0 ? ENOENT : EACCES; if (i == 0) sx_assume (k < 2); }
    others = sx_pick (2, "others");
}
void harness (void)
{
    ST s; int i, j, n = 0; char f[PATH_MAX], o[PATH_MAX]; struct stat st; int ns = 0; struct disir_entry *e = NULL;
    (void) i; (void) j; (void) s; (void) n; (void) f; (void) o; (void) st; (void) ns; (void) unserm; (void) any_entry; (void) any_files; (void) e;
    MUST (disir_instance_create (NULL, NULL, &ins));
    plugin_setup ();
#if defined LOOKUP
    int ok = any_entry (), found, how = sx_pick (3, "how");
    any_files ();
    found = fl[OWN].there || fl[NS].there;
    if (how == 0)
    {
        /* the files themselves; names are not looked at here */
        s = fslib_mold_resolve_entry_id (ins, &pl, entry, f, o, &st, &ns);
        sx_assert ((s == OK) == found, "found exactly if its own or its directory's mold is there");
        if (found)
        {
            i = fl[OWN].there ? OWN : NS;
            sx_assert (same_path (f, fl[i].path), "its own mold, else the one of its directory");
            sx_assert (st.st_size == 1000 + i, "and that file's state");
        }
        else sx_assert (f[0] == 0, "no file named");
        if (fl[OVER].there) sx_assert (same_path (o, fl[OVER].path), "its override"); else sx_assert (o[0] == 0, "no override");
        if (found) sx_assert (ns == (!fl[OWN].there && !fl[OVER].there), "only the directory's mold covers it");
    }
    else if (how == 1 && ok && sx_pick (2, "without override"))
    {
        s = fslib_mold_resolve_entry_id (ins, &pl, entry, f, NULL, &st, NULL);
        sx_assert ((s == OK) == found, "found exactly if its own or its directory's mold is there");
        if (found) sx_assert (same_path (f, fl[fl[OWN].there ? OWN : NS].path), "its own mold, else the one of its directory");
    }
    else
    {
        int want = sx_pick (2, "entry wanted");
        s = pl.dp_mold_query (ins, &pl, entry, want ? &e : NULL);
        if (!ok) { sx_assert (s == DISIR_STATUS_RESTRICTION_VIOLATED && stats == 0 && e == NULL, "an ill-formed name is refused"); sx_reach ("illformed"); goto out; }
        sx_assert ((s == DISIR_STATUS_EXISTS) == found, "found exactly if its own or its directory's mold is there");
        if (!found) sx_assert (s != OK && e == NULL, "told so");
        else if (want)
        {
            sx_assert (e != NULL && !strcmp (e->de_entry_name, entry), "the entry asked for");
            sx_assert (e->flag.DE_READABLE && e->flag.DE_WRITABLE, "usable");
            sx_assert (e->flag.DE_OVERRIDE == fl[OVER].there, "whether an override is there");
            sx_assert (e->flag.DE_NAMESPACE_ENTRY == (!fl[OWN].there && !fl[OVER].there), "whether only its directory covers it");
        }
        if (e) MUST (disir_entry_finished (&e));
    }
    if (found) sx_reach (fl[OWN].there ? "own" : "namespace"); else sx_reach ("none");
    if (fl[OVER].there) sx_reach ("override");
out:;
#elif defined CONFIG
    int ok = any_entry (), found, c; char name[24], dir[40];
    any_files ();
    strcpy (dir, "/c"); if (*dirpart) { strcat (dir, "/"); strcat (dir, dirpart); }
    strcpy (name, last); strcat (name, ".conf"); c = add_file (0, dir, name, 0);
    i = sx_pick (3, "configuration"); fl[c].there = i == 1; if (i == 2) fl[c].err = EACCES;
    found = fl[OWN].there || fl[NS].there;
    j = sx_pick (2, "entry wanted");
    s = json ? dio_json_config_query (ins, &pl, entry, j ? &e : NULL) : fslib_plugin_config_query (ins, &pl, entry, j ? &e : NULL);
    if (!ok) { sx_assert (s != OK && s != DISIR_STATUS_EXISTS && e == NULL, "an ill-formed name is refused"); sx_reach ("illformed"); }
    else if (!found)
    {
        sx_assert (s != DISIR_STATUS_EXISTS && s != OK && e == NULL, "no mold, no entry");
        if (!fl[NS].err) sx_assert (s == DISIR_STATUS_MOLD_MISSING, "told that the mold is missing");
        sx_reach ("nomold");
    }
    else if (fl[c].there)
    {
        sx_assert (s == DISIR_STATUS_EXISTS, "there");
        if (j) { sx_assert (e != NULL && !strcmp (e->de_entry_name, entry), "the entry asked for"); MUST (disir_entry_finished (&e)); }
        sx_reach ("there");
    }
    else
    {
        sx_assert (s == (fl[c].err ? DISIR_STATUS_PERMISSION_ERROR : DISIR_STATUS_NOT_EXIST) && e == NULL, "not there, and why");
        sx_reach (fl[c].err ? "denied" : "missing");
    }
#elif defined READ
    int ok = any_entry (), found; struct disir_mold *m = NULL;
    sx_assume (ok);
    any_files (); found = fl[OWN].there || fl[NS].there;
    if (found) strcpy (want_own, fl[fl[OWN].there ? OWN : NS].path);
    if (fl[OVER].there) { strcpy (want_over, fl[OVER].path); sx_reach ("override"); }
    s = json ? dio_json_mold_read (ins, &pl, entry, &m) : fslib_plugin_mold_read (ins, &pl, entry, &m, unserm);
    if (found) { sx_assert (s == OK && m == mold && reads == 1 && opens == 0, "read once"); sx_reach (fl[OWN].there ? "own" : "namespace"); }
    else { sx_assert (s != OK && m == NULL && reads == 0 && opens == 0, "nothing to read"); sx_reach ("none"); }
#elif defined LIST
    /* /b and /b/<c> with an entry x (mold, override) and the namespace mold each, and one more file */
    struct disir_entry *es = NULL, *nx; char sub[40], c; int own[2], over[2], nsf[2], extra, ex, subok, got[2][4] = { { 0 } }, at = sx_pick (2, "where"), wok = 1; char w[8] = { 0 }, full[40];
    c = (char) sx_u8 ("directory"); sx_assume (c != 0 && c != '/' && c != '.'); subok = DECIDE (legal (c));
    strcpy (sub, "/b/"); sub[3] = c; sub[4] = 0;
#ifdef CFG
    static const char *const cdir[] = { "/c", "/c/d" };
    sx_assume (c == 'd'); sub[3] = 'd'; extra = 0;
#else
    extra = sx_pick (6, "extra");
    if (extra == 0) sx_assume (at == 0); else { sx_assume (c == 'd'); sub[3] = 'd'; }
#endif
    strcpy (dr[0].path, "/b"); strcpy (dr[1].path, sub); dr[0].there = dr[1].there = 1; nd = 2;
    flip = sx_pick (2, "order");
    for (i = 0; i < 2; i++)
    {
        own[i] = add_file (i, dr[i].path, "x.json", sx_pick (2, "own"));
        over[i] = add_file (i, dr[i].path, "x.o.json", sx_pick (2, "override"));
        nsf[i] = add_file (i, dr[i].path, "__namespace.json", sx_pick (2, "namespace"));
    }
#ifdef CFG
    struct { int at; const char *name; const char *entry; int mold, cfg; } t[] = { { 0, "x.conf", "x", 0, 0 }, { 0, "y.conf", "y", 0, 0 }, { 1, "x.conf", "d/x", 0, 0 }, { 1, "y.conf", "d/y", 0, 0 }, { 1, "X.conf", "d/X", 0, 0 }, { 0, "x.json", NULL, 0, 0 } };
    (void) extra; (void) ex; (void) got; (void) at; (void) w; (void) full; (void) wok; (void) subok; (void) over;
    strcpy (dr[2].path, cdir[0]); strcpy (dr[3].path, cdir[1]); dr[2].there = dr[3].there = 1; nd = 4;
    for (i = 0; i < 6; i++)
    {
        t[i].cfg = add_file (2 + t[i].at, cdir[t[i].at], t[i].name, i < 4 ? sx_pick (2, "configuration") : 1);
        if (i < 4) t[i].mold = fl[nsf[t[i].at]].there || (t[i].name[0] == 'x' && fl[own[t[i].at]].there);
    }
    s = json ? dio_json_config_entries (ins, &pl, &es) : fslib_config_query_entries (ins, &pl, NULL, &es);
    sx_assert (s == OK && open_dirs == 0, "listed");
    for (i = 0; i < 6; i++)
    {
        n = 0;
        for (nx = es; nx; nx = nx->next) n += t[i].entry && !strcmp (nx->de_entry_name, t[i].entry);
        sx_assert (n == (fl[t[i].cfg].there && t[i].mold), "each configuration covered by a mold once");
        if (n) sx_reach ("own"); else if (fl[t[i].cfg].there) sx_reach ("nomold");
    }
    n = 0; for (nx = es; nx; nx = nx->next) n++;
    for (i = 0; i < 4; i++) n -= fl[t[i].cfg].there && t[i].mold;
    sx_assert (n == 0, "and nothing else");
#else
    if (extra == 5) sx_assume (!fl[own[!at]].there && !fl[over[!at]].there && !fl[nsf[!at]].there && !fl[over[at]].there);
    if (extra == 0) { ex = -1; }
    else if (extra == 1) ex = add_file (at, dr[at].path, "X.json", 1);
    else if (extra == 2) ex = add_file (at, dr[at].path, "x.jsonx", 1);
    else if (extra == 3) { sx_assume (at == 0); ex = add_file (at, dr[at].path, ".json", 1); }
    else if (extra == 4) ex = add_file (at, dr[at].path, ".o.json", 1);
    else
    {
        w[0] = (char) sx_u8 ("name"); w[1] = (char) sx_u8 ("name"); sx_assume (w[0] != 0 && w[0] != '/' && w[1] != 0 && w[1] != '/');
        wok = DECIDE (legal (w[0])) && DECIDE (legal (w[1]));
        strcpy (full, w); strcat (full, ".json"); ex = add_file (at, dr[at].path, full, 1);
    }
    s = json ? dio_json_mold_entries (ins, &pl, &es) : fslib_mold_query_entries (ins, &pl, NULL, &es);
    sx_assert (s == OK && open_dirs == 0, "listed");
    for (nx = es; nx; nx = nx->next)
    {
        const char *p = nx->de_entry_name; int d = p[0] && p[1] == '/', k;
        if (d) { sx_assert (DECIDE (p[0] == c), "the directory's name"); p += 2; }
        if (!strcmp (p, "x")) k = 0;
        else if (!strcmp (p, d ? "" : "/")) k = 1;
        else { k = 2; sx_assert (extra == 5 && wok && d == at && same_bytes (p, w, 3), "only molds"); }
        sx_assert (!got[d][k], "each once"); got[d][k] = 1;
        sx_assert (nx->flag.DE_READABLE && nx->flag.DE_WRITABLE, "usable");
        sx_assert (nx->flag.DE_NAMESPACE_ENTRY == (k == 1), "whether it stands for a directory");
    }
    for (i = 0; i < 2; i++)
    {
        int in = i == 0 || subok;
        sx_assert (got[i][0] == (in && (fl[own[i]].there || (fl[over[i]].there && fl[nsf[i]].there))), "an entry with a mold, or an override below a namespace mold");
        sx_assert (got[i][1] == (in && fl[nsf[i]].there), "the namespace mold");
        sx_assert (got[i][2] == (in && extra == 5 && wok && at == i), "any other mold");
        if (got[i][0]) sx_reach (fl[own[i]].there ? "own" : "overridden"); else if (fl[over[i]].there) sx_reach ("ignored");
        if (got[i][1]) sx_reach ("namespace");
    }
    /* what is listed can be looked up */
    for (nx = es; nx; nx = nx->next) { sx_assert (fslib_plugin_mold_query (ins, &pl, nx->de_entry_name, NULL) == DISIR_STATUS_EXISTS, "can be looked up"); }
#endif
    while (es) { nx = es->next; MUST (disir_entry_finished (&es)); es = nx; }
#elif defined MADE
    struct disir_entry *es = NULL; int cfg = sx_pick (2, "configurations");
    strcpy (dr[0].path, "/b"); strcpy (dr[1].path, "/c"); nd = 2; made = sx_pick (2, "fails") ? -1 : 0; dr[!cfg].there = sx_pick (2, "other there");
    s = cfg ? fslib_config_query_entries (ins, &pl, NULL, &es) : fslib_mold_query_entries (ins, &pl, NULL, &es);
    if (made < 0) { sx_assert (s != OK && es == NULL, "no directory, no listing"); sx_reach ("failed"); }
    else { sx_assert (s == OK && es == NULL && made == 1 && dr[cfg].there, "a missing base directory is made"); sx_reach ("made"); }
    sx_assert (open_dirs == 0, "closed");
#elif defined FILEPATH
    char asked[64]; int over; static const char *const dirs[] = { "/b", "/b/d", "r" };
    /* x.<type> or x.o.<type> somewhere */
    static const char *const types[] = { "json", "t", "longer" };
    const char *d = dirs[sx_pick (3, "directory")], *t = types[sx_pick (3, "type")]; char name[40];
    strcpy (name, "x."); strcat (name, t); add_file (0, d, name, sx_pick (2, "own"));
    strcpy (name, "x.o."); strcat (name, t); add_file (0, d, name, sx_pick (2, "override"));
    strcpy (name, "__namespace."); strcat (name, t); add_file (0, d, name, sx_pick (2, "namespace"));
    others = sx_pick (2, "others");
    over = sx_pick (2, "asked for the override"); strcpy (asked, fl[over ? OVER : OWN].path);
    if (over) sx_assume (fl[OVER].there);
    ns = 0; j = sx_pick (2, "flag wanted");
    s = fslib_mold_resolve_entry_filepath (ins, asked, f, o, &st, j ? &ns : NULL);
    if (fl[OWN].there || fl[NS].there)
    {
        i = fl[OWN].there ? OWN : NS;
        sx_assert (s == OK && same_path (f, fl[i].path), "the entry's own mold, else the one of its directory");
        sx_assert (st.st_size == 1000 + i, "and that file's state");
        if (over) { sx_assert (same_path (o, asked), "with the override asked for"); sx_reach ("override"); } else sx_assert (o[0] == 0, "without an override");
        if (j) sx_assert (ns == (i == NS && !over), "only the directory's mold covers it");
        sx_reach (i == OWN ? "own" : "namespace");
    }
    else { sx_assert (s != OK, "nothing there"); sx_reach ("none"); }
#elif defined FILEANY
    char *p; n = 1 + sx_pick (SX_TIER_THOROUGH ? 6 : 5, "length"); p = malloc (n + 1);
    for (i = 0; i < n; i++) p[i] = "a.o/"[sx_pick (4, "character")];
    p[n] = 0; others = sx_pick (2, "others"); ns = 0;
    s = fslib_mold_resolve_entry_filepath (ins, p, f, o, &st, &ns);
    if (!others) sx_assert (s != OK, "nothing there");
    if (s == OK) sx_assert (f[0] != 0 && strlen (f) < PATH_MAX && strlen (o) < PATH_MAX, "a file");
    sx_reach ("done"); free (p);
#elif defined LIMIT
    int total = 4072 + (int) sx_concretize (sx_range (0, 28, "length")), longbase = sx_pick (2, "long base"), bn = longbase ? total - 7 : 2, en = longbase ? 1 : total - 8; char *b = malloc (bn + 1), *id = malloc (en + 1);
    int sep = sx_pick (2, "separator"), len[3], k;
    memset (b, 'b', bn); b[bn] = 0; b[0] = '/'; memset (id, 'e', en); id[en] = 0; if (sep && !longbase) id[en - 1 - sx_pick (4, "name's length")] = '/';
    pl.dp_mold_base_id = b; others = sx_pick (2, "others");
    len[OWN] = bn + 1 + en + 5; len[OVER] = len[OWN] + 2; len[NS] = bn + 1 + (strrchr (id, '/') ? (int) (strrchr (id, '/') - id) + 1 : 0) + 16;
    k = sx_pick (3, "how");
    if (k == 0) { s = fslib_mold_resolve_entry_id (ins, &pl, id, f, o, &st, &ns); if (s == OK) s = DISIR_STATUS_EXISTS; }
    else if (k == 1) { s = fslib_mold_resolve_entry_id (ins, &pl, id, f, NULL, &st, &ns); if (s == OK) s = DISIR_STATUS_EXISTS; }
    else s = fslib_plugin_mold_query (ins, &pl, id, NULL);
    if (others && len[OWN] < PATH_MAX && (k == 1 || len[OVER] < PATH_MAX)) { sx_assert (s == DISIR_STATUS_EXISTS, "there"); sx_reach ("found"); }
    else sx_assert (s != DISIR_STATUS_EXISTS, "not there");
    if (len[OWN] >= PATH_MAX || (!others && len[NS] >= PATH_MAX)) { sx_assert (s == DISIR_STATUS_INSUFFICIENT_RESOURCES, "a path that does not fit is refused"); sx_reach ("refused"); }
    free (b); free (id);
#elif defined FLIMIT
    int total = 4072 + (int) sx_concretize (sx_range (0, 28, "length")), suf = 1 + sx_pick (3, "suffix"), sl = suf == 1 ? 4 : suf == 2 ? 126 : 200, over = sx_pick (2, "override"); char *p = malloc (total + 1);
    memset (p, 'a', total); p[total] = 0; p[0] = '/'; p[total - sl - 1] = '.'; if (over) { p[total - sl - 2] = 'o'; p[total - sl - 3] = '.'; }
    if (sx_pick (2, "separator")) p[total - sl - 5] = '/';
    others = sx_pick (2, "others");
    s = fslib_mold_resolve_entry_filepath (ins, p, f, o, &st, &ns);
    if (total >= PATH_MAX) { sx_assert (s == DISIR_STATUS_INSUFFICIENT_RESOURCES, "a path that does not fit is refused"); sx_reach ("refused"); }
    else if (others) { sx_assert (s == OK && strlen (f) == (size_t) total - 2 * over && strlen (o) == (over ? (size_t) total : 0), "there"); sx_reach ("found"); }
    else sx_assert (s != OK, "not there");
    free (p);
#elif defined NSENTRY
    char name[8], out[8]; const char *r; n = sx_string (name, 5, NULL, "name");
    for (j = n - 1; j >= 0; j--) if (DECIDE (name[j] == '/')) break;
    memset (out, 'z', sizeof out);
    r = fslib_namespace_entry (name, out);
    if (j < 0) { sx_assert (r == NULL && out[0] == 0, "at the top: none"); sx_reach ("none"); }
    else { sx_assert (r == out && same_bytes (out, name, j + 1) && out[j + 1] == 0, "everything up to the last slash"); sx_reach ("some"); }
#endif
    MUST (disir_instance_destroy (&ins));
    sx_assert (sx_live_heap () == 0, "everything is released");
}
