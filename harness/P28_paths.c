// sx-case: name=text -DTEXT reach=built
// sx-case: name=limit -DLIMIT reach=built,refused
// sx-case: name=stat -DSTAT reach=there,missing,notdir,denied,other
// sx-case: name=mkdir -DMKDIR reach=created,existed,denied,failed,file
// sx-case: name=mkdir_limit -DMKLIMIT reach=created,refused
// sx-case: name=text_long -DTEXT -DLEN=4 reach=built tier=thorough time=600
// sx-case: name=mkdir_long -DMKDIR -DLEN=7 reach=created,existed,denied,failed,file tier=thorough time=900
// sx-bound: text: base directory, entry name and suffix of every length up to 3 (thorough 4), any bytes; limit: every split of paths of 4090 to 4101 bytes with one part long
// sx-bound: mkdir: every path up to 5 (thorough 7) characters of 'a' and '/', any number of its directories already there or the next one a file, a pipe, a device, a socket or a dangling link, creation failing at any step with any error
// sx-assume: the file system is a model with the calls' documented results: existing names fail with EEXIST, missing or non-directory parents with ENOENT and ENOTDIR; a directory without owner write and search permission admits no children
#include "h.h"
#include <disir/plugin.h>
#include <disir/fslib/util.h>
#include <errno.h>
#include <limits.h>
#ifndef LEN
#ifdef TEXT
#define LEN 3
#else
#define LEN 5
#endif
#endif
static struct disir_instance *ins;
/* the model's directory tree: only prefixes of one path of components exist, by number of components */
static int ndirs;          /* this many of the path's components are directories */
static int file;           /* the next one is there and no directory: 1 a file, 2 a pipe, 3 a device, 4 a socket, 5 a link to nothing */
static int nomore;         /* a directory was made its owner cannot use */
static int fail_at = -1, fail_errno, created, calls;
static char asked[64];     /* the path asked for */
static int components (const char *p) { int n = 0; for (; *p; p++) n += *p != '/' && (p[1] == '/' || p[1] == 0); return n; }
#ifdef MKDIR
int sxfs_mkdir (const char *p, unsigned mode)
{
    int k = components (p), abs = asked[0] == '/';
    calls++;
    sx_assert (strlen (p) <= strlen (asked) && !strncmp (p, asked, strlen (p)), "only parts of the path are created");
    sx_assert (p[strlen (p)] == 0 && (asked[strlen (p)] == '/' || asked[strlen (p)] == 0 || p[strlen (p) - 1] == '/'), "only whole components are created");
    if (!*p) { errno = ENOENT; return -1; }
    if (k <= ndirs) { errno = EEXIST; return -1; }
    if (k == ndirs + 1 && file) { errno = EEXIST; return -1; }
    if (k > ndirs + 1) { errno = file && file != 5 ? ENOTDIR : ENOENT; return -1; }
    if (nomore) { errno = EACCES; return -1; }
    if (created == fail_at) { errno = fail_errno; return -1; }
    ndirs = k; created++;
    if ((mode & 0300) != 0300) nomore = 1;
    (void) abs;
    return 0;
}
int sxfs_stat (const char *p, struct stat *b)
{
    int k = components (p);
    if (!*p) { errno = ENOENT; return -1; }
    memset (b, 0, sizeof *b);
    if (k <= ndirs) { b->st_mode = S_IFDIR | 0700; return 0; }
    if (k == ndirs + 1 && file) { if (file != 5 && p[strlen (p) - 1] == '/') { errno = ENOTDIR; return -1; } if (file == 5) { errno = ENOENT; return -1; } b->st_mode = (file == 1 ? S_IFREG : file == 2 ? S_IFIFO : file == 3 ? S_IFBLK : S_IFSOCK) | 0600; return 0; }
    errno = file && file != 5 ? ENOTDIR : ENOENT; return -1;
}
#elif defined MKLIMIT
int sxfs_mkdir (const char *p, unsigned mode) { (void) mode; calls++; sx_assert (strlen (p) < PATH_MAX, "within the limit"); created = (int) strlen (p); return 0; }
#elif defined STAT
static int st_ret, st_errno; static const char *st_path;
int sxfs_stat (const char *p, struct stat *b) { calls++; sx_assert (!strcmp (p, st_path), "the file asked for"); if (st_ret) { errno = st_errno; return -1; } memset (b, 0, sizeof *b); b->st_mode = S_IFREG | 0600; b->st_size = 77; return 0; }
#endif
void harness (void)
{
    ST s; int i, j;
    struct disir_register_plugin pl; memset (&pl, 0, sizeof pl);
    (void) i; (void) j; (void) s;
    (void) ndirs; (void) file; (void) nomore; (void) fail_at; (void) fail_errno; (void) created; (void) calls; (void) asked; (void) components;
    MUST (disir_instance_create (NULL, NULL, &ins));
#if defined TEXT
    char base[8], id[8], type[8], want[40]; char *out = malloc (PATH_MAX); int mold = sx_pick (2, "mold"), a, b, c;
    a = sx_string (base, LEN, NULL, "base"); b = sx_string (id, LEN, NULL, "entry"); c = sx_string (type, LEN, NULL, "type");
    memcpy (want, base, a); want[a] = '/'; memcpy (want + a + 1, id, b); want[a + b + 1] = '.'; memcpy (want + a + b + 2, type, c); want[a + b + c + 2] = 0;
    if (mold) { pl.dp_mold_base_id = base; pl.dp_mold_entry_type = type; pl.dp_config_base_id = "other"; pl.dp_config_entry_type = "cfg"; s = fslib_mold_resolve_filepath (ins, &pl, id, out); }
    else { pl.dp_config_base_id = base; pl.dp_config_entry_type = type; pl.dp_mold_base_id = "other"; pl.dp_mold_entry_type = "mld"; s = fslib_config_resolve_filepath (ins, &pl, id, out); }
    sx_assert (s == OK && same_bytes (out, want, a + b + c + 3), "base directory, entry and suffix");
    sx_reach ("built");
    free (out);
#elif defined LIMIT
    int mold = sx_pick (2, "mold"), at = sx_pick (3, "long part"), total = 4090 + (int) sx_concretize (sx_range (0, SX_TIER_THOROUGH ? 40 : 11, "length")), n[3] = { 3, 2, 1 };
    char *out = malloc (PATH_MAX), *part[3];
    n[at] = 0; n[at] = total - 2 - n[0] - n[1] - n[2];
    for (i = 0; i < 3; i++) { part[i] = malloc (n[i] + 1); memset (part[i], 'a' + i, n[i]); part[i][n[i]] = 0; }
    pl.dp_mold_base_id = pl.dp_config_base_id = part[0]; pl.dp_mold_entry_type = pl.dp_config_entry_type = part[2];
    s = mold ? fslib_mold_resolve_filepath (ins, &pl, part[1], out) : fslib_config_resolve_filepath (ins, &pl, part[1], out);
    if (total >= PATH_MAX) { sx_assert (s == DISIR_STATUS_INSUFFICIENT_RESOURCES, "a path that does not fit is refused"); sx_reach ("refused"); }
    else
    {
        sx_assert (s == OK && strlen (out) == (size_t) total, "a path that fits is built completely");
        for (i = 0; i < n[0]; i++) sx_assert (out[i] == 'a', "base");
        sx_assert (out[n[0]] == '/', "separator");
        for (i = 0; i < n[1]; i++) sx_assert (out[n[0] + 1 + i] == 'b', "entry");
        sx_assert (out[n[0] + n[1] + 1] == '.', "suffix");
        for (i = 0; i < n[2]; i++) sx_assert (out[n[0] + n[1] + 2 + i] == 'c', "suffix");
        sx_reach ("built");
    }
    for (i = 0; i < 3; i++) free (part[i]);
    free (out);
#elif defined STAT
    struct stat b; st_path = "/some/file.json"; st_ret = sx_pick (2, "fails"); st_errno = sx_i32 ("errno"); sx_assume (st_errno > 0 && st_errno < 134);
    s = fslib_stat_filepath (ins, st_path, &b);
    sx_assert (calls == 1, "asked once");
    if (!st_ret) { sx_assert (s == OK && b.st_size == 77 && S_ISREG (b.st_mode), "what it is"); sx_reach ("there"); }
    else
    {
        sx_assert (s != OK, "a failure is reported");
        if (DECIDE (st_errno == ENOTDIR)) { sx_assert (s == DISIR_STATUS_FS_ERROR, "not a directory"); sx_reach ("notdir"); }
        else if (DECIDE (st_errno == EACCES)) { sx_assert (s == DISIR_STATUS_PERMISSION_ERROR, "no permission"); sx_reach ("denied"); }
        else if (DECIDE (st_errno == ENOENT)) { sx_assert (s == DISIR_STATUS_NOT_EXIST, "does not exist"); sx_reach ("missing"); }
        else sx_reach ("other");
    }
#elif defined MKDIR
    int n = sx_pick (LEN + 1, "length"), d, had; static const int errs[] = { EACCES, ENOSPC, EROFS };
    char *p = malloc (n + 1);
    for (i = 0; i < n; i++) p[i] = "a/"[sx_pick (2, "character")];
    p[n] = 0; strcpy (asked, p);
    d = components (p);
    had = ndirs = sx_pick (d + 1, "there");
    file = ndirs < d ? sx_pick (6, "file") : 0;
    fail_at = file ? -1 : sx_pick (d - ndirs + 1, "fails"); if (fail_at == d - ndirs) fail_at = -1;
    fail_errno = fail_at >= 0 ? errs[sx_pick (3, "errno")] : 0;
    s = fslib_mkdir_p (ins, p);
    sx_assert (!strcmp (p, asked), "the path is only read");
    if (n == 0) sx_assert (s != OK, "an empty path names no directory");
    else sx_assert ((s == OK) == (ndirs == d), "success exactly if all are directories");
    if (file) { sx_assert (s == DISIR_STATUS_FS_ERROR && ndirs == had, "a file in the way"); sx_reach ("file"); }
    else if (fail_at >= 0) { sx_assert (s == (fail_errno == EACCES ? DISIR_STATUS_PERMISSION_ERROR : DISIR_STATUS_FS_ERROR), "the failure is told"); sx_reach (fail_errno == EACCES ? "denied" : "failed"); }
    else if (n) { sx_assert (s == OK, "all can be made"); sx_reach (had == d ? "existed" : "created"); }
    free (p);
#elif defined MKLIMIT
    int n = 4090 + (int) sx_concretize (sx_range (0, 11, "length")); char *p = malloc (n + 1);
    memset (p, 'a', n); p[n] = 0; p[0] = '/'; p[n / 2] = '/';
    s = fslib_mkdir_p (ins, p);
    if (n >= PATH_MAX) { sx_assert (s == DISIR_STATUS_INSUFFICIENT_RESOURCES && calls == 0, "too long"); sx_reach ("refused"); }
    else { sx_assert (s == OK && calls == 2 && created == n, "made"); sx_reach ("created"); }
    free (p);
#endif
    MUST (disir_instance_destroy (&ins));
    sx_assert (sx_live_heap () == 0, "everything is released");
}
