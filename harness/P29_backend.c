// sx-case: name=config_write -DWRITE reach=written,nomold,unknown,notafile,denied,nodir,noopen,unwritten,unclosed
// sx-case: name=mold_write -DWRITE -DMOLD reach=written,notafile,denied,nodir,noopen,unwritten,unclosed
// sx-case: name=remove -DREMOVE reach=removed,nomold,unknown,missing,denied,kept
// sx-case: name=config_read -DREAD reach=read,missing,denied,nomold,badmold,noopen,unread
// sx-case: name=mold_read -DREADM reach=read,missing,noopen,unread
// sx-case: name=toolong -DLONG reach=refused
// sx-bound: every combination of outcomes of each step: the mold's query or reading (any 32 bit status), looking at the file (any errno, any file type), making each directory (any errno), opening, the serializer (any 32 bit status), closing, removing; entries nested one to three deep
// sx-assume: the file system is a model whose calls succeed or fail at will; the serializers and the mold query are callbacks
#include "h.h"
#include <disir/plugin.h>
#include <disir/fslib/util.h>
#include "context_private.h"
#include "mold.h"
#include <errno.h>
#include <limits.h>
static struct disir_instance *ins; static struct disir_register_plugin pl;
static const char *const ids[] = { "e", "d/e", "d/f/e" };
static int id; static const char *ids_long; static char path[64];
static char token; static int opens, closes, serialized, removes, mkdirs, stats, queries, moldreads;
/* outcomes */
static int q_status = DISIR_STATUS_EXISTS, st_ret, st_errno, st_mode, mk_fail = -1, mk_errno, o_fail, ser_status, c_fail, r_fail;
static struct disir_config *const cfg = (struct disir_config *) &cfg; static struct disir_mold *mold;
static int dir_ready (void) { int n = 0; for (const char *p = ids[id]; *p; p++) n += *p == '/'; return n; }
FILE *sxfs_fopen (const char *p, const char *m)
{
    sx_assert (!strcmp (p, path), "the entry's own file");
#if defined WRITE
    sx_assert (m[0] == 'w', "opened for writing");
#else
    sx_assert (m[0] == 'r', "opened for reading");
#endif
    sx_assert (opens == 0, "opened once");
    opens++;
    if (o_fail) { errno = o_fail; return NULL; }
    return (FILE *) &token;
}
int sxfs_fclose (FILE *f) { sx_assert (f == (FILE *) &token && closes == 0, "closed once"); closes++; if (c_fail) { errno = c_fail; return -1; } return 0; }
int sxfs_fflush (FILE *f) { (void) f; return 0; }
int sxfs_ferror (FILE *f) { (void) f; return 0; }
int sxfs_stat (const char *p, struct stat *b)
{
    if (strcmp (p, path))
    {
        /* a directory above */
        sx_assert (strlen (p) < strlen (path) && !strncmp (p, path, strlen (p)), "only looks along the path");
        memset (b, 0, sizeof *b); b->st_mode = S_IFDIR | 0700; return 0;
    }
    stats++;
    if (removes && !r_fail) { errno = ENOENT; return -1; }
    if (st_ret) { errno = st_errno; return -1; }
    memset (b, 0, sizeof *b); b->st_mode = st_mode; return 0;
}
int sxfs_mkdir (const char *p, unsigned m)
{
    (void) m;
    sx_assert (strlen (p) < strlen (path) && !strncmp (p, path, strlen (p)) && path[strlen (p)] == '/', "only directories above the file are made");
    if (!strcmp (p, "/b")) { errno = EEXIST; return -1; }
    if (mkdirs == mk_fail) { errno = mk_errno; return -1; }
    mkdirs++; return 0;
}
int sxfs_remove (const char *p) { sx_assert (!strcmp (p, path), "only the entry's own file"); removes++; if (r_fail) { errno = r_fail; return -1; } return 0; }
static ST mold_query_ (struct disir_instance *i, struct disir_register_plugin *p, const char *e, struct disir_entry **en)
{
    sx_assert (i == ins && p == &pl && (e == ids_long || !strcmp (e, ids[id])), "asked for the entry's mold"); if (en) *en = NULL;
    queries++; return q_status;
}
static ST mold_read_ (struct disir_instance *i, struct disir_register_plugin *p, const char *e, struct disir_mold **m)
{
    sx_assert (i == ins && p == &pl && !strcmp (e, ids[id]), "asked for the entry's mold");
    moldreads++;
    /* an invalid mold may be handed out, too */
    if (q_status == OK || q_status == DISIR_STATUS_INVALID_CONTEXT) { mold->mo_reference_count++; *m = mold; }
    return q_status;
}
static ST ser_ (struct disir_instance *i, void *o, FILE *f)
{
    sx_assert (i == ins && f == (FILE *) &token && opens == 1 && closes == 0, "serialized into the open file");
#ifdef MOLD
    sx_assert (o == (void *) mold, "what was given");
#else
    sx_assert (o == (void *) cfg, "what was given");
#endif
    serialized++;
    return ser_status;
}
static ST unser_ (struct disir_instance *i, FILE *f, struct disir_mold *m, struct disir_config **c)
{
    sx_assert (i == ins && f == (FILE *) &token && opens == 1 && closes == 0, "read from the open file");
    sx_assert (m == mold && m->mo_reference_count >= 1, "with the mold");
    serialized++;
    if (ser_status == OK) *c = cfg;
    return ser_status;
}
static ST unserm_ (struct disir_instance *i, FILE *f, struct disir_mold **m)
{
    sx_assert (i == ins && f == (FILE *) &token && opens == 1 && closes == 0, "read from the open file");
    serialized++;
    if (ser_status == OK) *m = mold;
    return ser_status;
}
static ST any_status (const char *name) { int s = sx_i32 (name); sx_assume (s >= 0 && s < 64); return (ST) sx_concretize (s); }
/* a failure with any reason, or none */
static int any_errno (const char *name) { if (!sx_pick (2, name)) return 0; int e = sx_i32 (name); sx_assume (e > 0 && e < 134); return e; }
#ifdef READM
enum disir_status fslib_mold_resolve_entry_id (struct disir_instance *i, struct disir_register_plugin *p, const char *e, char *f, char *o, struct stat *b, int *n)
{
    sx_assert (i == ins && p == &pl && !strcmp (e, ids[id]), "asked for the entry's mold");
    (void) b; if (o) *o = 0; if (n) *n = 0;
    if (q_status == OK) strcpy (f, path); else f[0] = 0;
    return q_status;
}
#endif
void harness (void)
{
    ST s = OK; int fmt; CTX *m = NULL;
    static const int modes[] = { S_IFREG, S_IFDIR, S_IFIFO, S_IFBLK, S_IFSOCK };
    (void) unser_; (void) unserm_; (void) ser_; (void) mold_read_; (void) mold_query_; (void) fmt; (void) modes; (void) any_status; (void) dir_ready;
    MUST (disir_instance_create (NULL, NULL, &ins));
    MUST (dc_mold_begin (&m)); MUST (dc_mold_finalize (&m, &mold));
    sx_fmt_abstract = 1;
    id = sx_pick (3, "entry");
    pl.dp_name = "name"; pl.dp_mold_query = mold_query_; pl.dp_mold_read = mold_read_;
#if defined MOLD || defined READM
    pl.dp_config_base_id = "/c"; pl.dp_mold_base_id = "/b"; pl.dp_config_entry_type = "cfg"; pl.dp_mold_entry_type = "json";
#else
    pl.dp_config_base_id = "/b"; pl.dp_mold_base_id = "/m"; pl.dp_config_entry_type = "json"; pl.dp_mold_entry_type = "mld";
#endif
    snprintf (path, sizeof path, "/b/%s.json", ids[id]);
#if defined WRITE
    int good = 1, dirs = dir_ready (), made = 0; const char *why = "written";
#ifndef MOLD
    if (sx_pick (2, "query")) { q_status = any_status ("query status"); }
#endif
    if (q_status == DISIR_STATUS_NOT_EXIST) { good = 0; why = "nomold"; }
    else if (q_status != DISIR_STATUS_EXISTS) { good = 0; why = "unknown"; }
    if (good)
    {
        st_ret = sx_pick (2, "no file");
        if (st_ret)
        {
            static const int errs[] = { ENOENT, EACCES, ENOTDIR };
            st_errno = errs[sx_pick (3, "errno")];
            if (st_errno != ENOENT) { good = 0; why = "denied"; }
            else
            {
                made = dirs;
                mk_fail = sx_pick (dirs + 1, "directory fails"); if (mk_fail == dirs) mk_fail = -1;
                if (mk_fail >= 0) { mk_errno = sx_i32 ("mkdir errno"); sx_assume (mk_errno > 0 && mk_errno < 134 && mk_errno != EEXIST); good = 0; why = "nodir"; made = mk_fail; }
            }
        }
        else { st_mode = modes[sx_pick (5, "file type")] | 0600; if (!S_ISREG (st_mode)) { good = 0; why = "notafile"; } }
    }
    int reached = good;
    if (good) { o_fail = any_errno ("open fails"); if (o_fail) { good = 0; why = "noopen"; } }
    if (good) { ser_status = sx_pick (2, "serializer") ? any_status ("serializer status") : OK; if (ser_status != OK) { good = 0; why = "unwritten"; } c_fail = any_errno ("close fails"); if (c_fail && good) { good = 0; why = "unclosed"; } }
#ifdef MOLD
    s = fslib_plugin_mold_write (ins, &pl, ids[id], mold, (dio_serialize_mold) ser_);
#else
    s = fslib_plugin_config_write (ins, &pl, ids[id], cfg, (dio_serialize_config) ser_);
    sx_assert (queries == 1, "the mold is looked up first");
#endif
    sx_assert ((s == OK) == good || q_status == OK, "success exactly if every step succeeded");
    if (!strcmp (why, "nomold")) sx_assert (s == DISIR_STATUS_MOLD_MISSING, "without a mold");
    if (!strcmp (why, "unknown")) sx_assert (s == q_status, "the failed lookup is told");
    if (!strcmp (why, "unwritten")) sx_assert (s == ser_status, "the serializer's failure is told");
    if (!strcmp (why, "denied")) sx_assert (s == (st_errno == EACCES ? DISIR_STATUS_PERMISSION_ERROR : DISIR_STATUS_FS_ERROR), "the failure is told");
    if (!strcmp (why, "notafile") || !strcmp (why, "noopen")) sx_assert (s == DISIR_STATUS_FS_ERROR, "the failure is told");
    sx_assert (opens == reached, "opened only if there is a mold, the place is ready and nothing else is there");
    sx_assert (closes == (reached && !o_fail) && serialized == (reached && !o_fail), "written and closed once opened");
    sx_assert (mkdirs == made, "the missing directories are made first");
    sx_assert (removes == 0, "nothing is removed");
    if (good) sx_assert (disir_error (ins) == NULL, "no error is left behind");
    sx_reach (why);
#elif defined REMOVE
    int good = 1; const char *why = "removed";
    if (sx_pick (2, "query")) q_status = any_status ("query status");
    if (q_status == DISIR_STATUS_NOT_EXIST) { good = 0; why = "nomold"; }
    else if (q_status != DISIR_STATUS_EXISTS) { good = 0; why = "unknown"; }
    if (good)
    {
        st_ret = sx_pick (2, "no file"); st_mode = S_IFREG | 0600;
        if (st_ret) { st_errno = sx_i32 ("errno"); sx_assume (st_errno > 0 && st_errno < 134); good = 0; why = DECIDE (st_errno == ENOENT) ? "missing" : "denied"; }
        else { r_fail = sx_pick (2, "remove fails"); if (r_fail) { r_fail = sx_i32 ("remove errno"); sx_assume (r_fail > 0 && r_fail < 134); good = 0; why = "kept"; } }
    }
    s = fslib_plugin_config_remove (ins, &pl, ids[id]);
    sx_assert ((s == OK) == good || q_status == OK, "success exactly if the file was removed");
    if (!strcmp (why, "nomold")) sx_assert (s == DISIR_STATUS_MOLD_MISSING, "without a mold");
    if (!strcmp (why, "unknown")) sx_assert (s == q_status, "the failed lookup is told");
    if (!strcmp (why, "missing")) sx_assert (s == DISIR_STATUS_NOT_EXIST, "there is no such configuration");
    sx_assert (removes == (good || !strcmp (why, "kept")), "removed only then");
    sx_assert (opens == 0 && mkdirs == 0, "nothing is written");
    sx_reach (why);
#elif defined READ
    int good = 1, given = sx_pick (2, "mold given"); const char *why = "read"; struct disir_config *c = NULL; unsigned refs = mold->mo_reference_count;
    static const int errs[] = { ENOENT, EACCES, ENOTDIR };
    q_status = OK;
    st_ret = sx_pick (2, "no file"); st_mode = S_IFREG | 0600; if (st_ret) st_errno = errs[sx_pick (3, "errno")];
    if (st_ret) { good = 0; why = st_errno == ENOENT ? "missing" : "denied"; }
    if (good && !given && sx_pick (2, "mold")) { q_status = any_status ("mold status"); if (q_status == DISIR_STATUS_INVALID_CONTEXT) why = "badmold"; else if (q_status) why = "nomold"; if (q_status) good = 0; }
    if (good) { o_fail = any_errno ("open fails"); if (o_fail) { good = 0; why = "noopen"; } }
    if (good && sx_pick (2, "serializer")) { ser_status = any_status ("serializer status"); if (ser_status) { good = 0; why = "unread"; } }
    s = fslib_plugin_config_read (ins, &pl, ids[id], given ? mold : NULL, &c, unser_);
    sx_assert ((s == OK) == good, "success exactly if every step succeeded");
    sx_assert ((c == cfg) == good, "read only then");
    if (!strcmp (why, "missing")) sx_assert (s == DISIR_STATUS_NOT_EXIST, "there is no such configuration");
    if (!strcmp (why, "denied")) sx_assert (s == (st_errno == EACCES ? DISIR_STATUS_PERMISSION_ERROR : DISIR_STATUS_FS_ERROR), "the failure is told");
    if (!strcmp (why, "badmold")) sx_assert (s == DISIR_STATUS_MOLD_MISSING, "without a valid mold");
    if (!strcmp (why, "nomold")) sx_assert (s == q_status, "the mold's failure is told");
    if (!strcmp (why, "noopen")) sx_assert (s == DISIR_STATUS_FS_ERROR, "the failure is told");
    if (!strcmp (why, "unread")) sx_assert (s == ser_status, "the failure is told");
    sx_assert (mold->mo_reference_count == refs, "the mold's references are balanced");
    sx_assert (closes == (opens && !o_fail), "the file is closed");
    sx_assert (moldreads <= !given, "a given mold is used");
    sx_assert (mkdirs == 0 && removes == 0, "nothing is changed");
    sx_reach (why);
#elif defined READM
    int good = 1; const char *why = "read"; struct disir_mold *c = NULL;
    q_status = OK; strcpy (path, "/resolved/file");
    if (sx_pick (2, "resolving fails")) { q_status = any_status ("resolve status"); if (q_status) { good = 0; why = "missing"; } }
    if (good) { o_fail = any_errno ("open fails"); if (o_fail) { good = 0; why = "noopen"; } }
    if (good && sx_pick (2, "serializer")) { ser_status = any_status ("serializer status"); if (ser_status) { good = 0; why = "unread"; } }
    s = fslib_plugin_mold_read (ins, &pl, ids[id], &c, unserm_);
    sx_assert ((s == OK) == good && (c == mold) == good, "success exactly if every step succeeded");
    if (!strcmp (why, "missing")) sx_assert (s == q_status && opens == 0, "the failure is told");
    if (!strcmp (why, "noopen")) sx_assert (s == DISIR_STATUS_FS_ERROR, "the failure is told");
    if (!strcmp (why, "unread")) sx_assert (s == ser_status, "the failure is told");
    sx_assert (closes == (opens && !o_fail) && serialized == closes, "the file is closed");
    sx_reach (why);
#elif defined LONG
    /* too long to be a file's name: refused before anything is touched */
    int n = 4080 + (int) sx_concretize (sx_range (0, 40, "length")), w = sx_pick (4, "operation"); char *e = malloc (n + 1); struct disir_config *c = NULL;
    memset (e, 'a', n); e[n] = 0; e[n / 2] = '/';
    sx_assume (n + 7 >= PATH_MAX);
    ids_long = e;
    s = w == 0 ? fslib_plugin_config_write (ins, &pl, e, cfg, (dio_serialize_config) ser_) : w == 1 ? fslib_plugin_mold_write (ins, &pl, e, mold, (dio_serialize_mold) ser_)
        : w == 2 ? fslib_plugin_config_remove (ins, &pl, e) : fslib_plugin_config_read (ins, &pl, e, mold, &c, unser_);
    sx_assert (s == DISIR_STATUS_INSUFFICIENT_RESOURCES && opens + removes + mkdirs == 0, "refused");
    sx_reach ("refused");
    free (e);
#endif
    MUST (disir_mold_finished (&mold));
    MUST (disir_instance_destroy (&ins));
    sx_assert (sx_live_heap () == 0, "everything is released");
}
