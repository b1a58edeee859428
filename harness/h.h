/* shared helpers of the harnesses; public API of the library only */
#ifndef H_H
#define H_H
#include "sx.h"
#include <disir/disir.h>
#include <disir/context.h>
#include <disir/util.h>
#include <disir/config.h>
#include <disir/mold.h>

typedef struct disir_context CTX;
typedef enum disir_status ST;
#define OK DISIR_STATUS_OK

/* setup step that must succeed on the way to the property */
#define MUST(e) do { ST s__ = (e); sx_assert (s__ == OK, "setup: " #e " succeeds"); } while (0)

static inline struct disir_version V (uint32_t a, uint32_t b) { struct disir_version v; v.sv_major = a; v.sv_minor = b; return v; }
/* arbitrary version with both components below the bound */
static inline struct disir_version
sx_version (uint32_t lim, const char *name)
{
    struct disir_version v;
    v.sv_major = sx_u32 (name);
    v.sv_minor = sx_u32 (name);
    if (lim) { sx_assume (v.sv_major < lim); sx_assume (v.sv_minor < lim); }
    return v;
}
/* arbitrary version >= 1.0, components below the bound */
static inline struct disir_version
sx_version1 (uint32_t lim, const char *name)
{
    struct disir_version v = sx_version (lim, name);
    sx_assume (v.sv_major >= 1);
    return v;
}
/* a version with major >= least of a family in which one comparison decides: the major number ascending
 * and the minor descending, the minor number alone, or (both) any two numbers */
static inline struct disir_version
sx_ver (const char *name, int least)
{
    struct disir_version v;
#if defined VER_ANY
    v = sx_version (0, name);
    sx_assume (v.sv_major >= least);
#elif defined VER_MINOR
    v = V (least, sx_u32 (name));
#else
    uint32_t x = sx_u32 (name);
    sx_assume (x >= least);
    v = V (x, ~x);
#endif
    return v;
}
/* reference order, not the library's (branch free) */
static inline uint64_t vkey (struct disir_version v) { return ((uint64_t) v.sv_major << 32) | v.sv_minor; }
static inline int vle (struct disir_version a, struct disir_version b) { return vkey (a) <= vkey (b); }
static inline int vlt (struct disir_version a, struct disir_version b) { return vkey (a) < vkey (b); }
static inline int veq (struct disir_version a, struct disir_version b) { return vkey (a) == vkey (b); }

/* a condition as a concrete 0 or 1: forks, unless the path already implies it */
#define DECIDE(c) ((int) sx_concretize (!!(c)))

#define STR DISIR_VALUE_TYPE_STRING
#define INT DISIR_VALUE_TYPE_INTEGER
#define FLT DISIR_VALUE_TYPE_FLOAT
#define BOO DISIR_VALUE_TYPE_BOOLEAN
#define ENU DISIR_VALUE_TYPE_ENUM
#define RMIN DISIR_RESTRICTION_INC_ENTRY_MIN
#define RMAX DISIR_RESTRICTION_INC_ENTRY_MAX
#define RENU DISIR_RESTRICTION_EXC_VALUE_ENUM
#define RRAN DISIR_RESTRICTION_EXC_VALUE_RANGE
#define RNUM DISIR_RESTRICTION_EXC_VALUE_NUMERIC

static inline double bits2d (uint64_t u) { double d; memcpy (&d, &u, 8); return d; }
static inline uint64_t d2bits (double d) { uint64_t u; memcpy (&u, &d, 8); return u; }
/* branch free n-byte comparison (text comparison without forking) */
static inline int
same_bytes (const char *a, const char *b, int n)
{
    int d = 0;
    for (int i = 0; i < n; i++) d |= a[i] ^ b[i];
    return d == 0;
}

/* a keyval of a mold with a default of its type; returns a held reference */
static inline CTX *
kv_of (CTX *parent, const char *name, enum disir_value_type t, struct disir_version *intro)
{
    CTX *kv = NULL;
    switch (t)
    {
    case STR: MUST (dc_add_keyval_string (parent, name, "def", "doc", intro, &kv)); break;
    case INT: MUST (dc_add_keyval_integer (parent, name, 0, "doc", intro, &kv)); break;
    case FLT: MUST (dc_add_keyval_float (parent, name, 0.0, "doc", intro, &kv)); break;
    case BOO: MUST (dc_add_keyval_boolean (parent, name, 0, "doc", intro, &kv)); break;
    default:  MUST (dc_add_keyval_enum (parent, name, "aa", "doc", intro, &kv)); break;
    }
    return kv;
}
static inline CTX *
section_of (CTX *parent, const char *name)
{
    CTX *s = NULL;
    MUST (dc_begin (parent, DISIR_CONTEXT_SECTION, &s));
    MUST (dc_set_name (s, name, strlen (name)));
    return s;
}
/* unfinished keyval of a configuration, named */
static inline CTX *
ckv_begin (CTX *parent, const char *name)
{
    CTX *kv = NULL;
    MUST (dc_begin (parent, DISIR_CONTEXT_KEYVAL, &kv));
    MUST (dc_set_name (kv, name, strlen (name)));
    return kv;
}
#endif
