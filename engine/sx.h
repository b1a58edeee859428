/* Interface between a harness and its executor.
 *
 * A harness is one C function `void harness(void)`.  It is compiled twice from
 * the same source:
 *   - to LLVM bitcode, linked with the bitcode of the repository's own sources,
 *     and executed symbolically by build/sx (every sx_u64() etc. is a fresh
 *     SMT variable, sx_assert() is a solver query);
 *   - natively (ASan), linked with the repository's own sources compiled
 *     natively, where sx_u64() etc. read the values of a solver model: this is
 *     how counterexamples are replayed and how explored paths are
 *     cross-validated against the real machine code.
 */
#ifndef SX_H
#define SX_H
#include <stdint.h>
#include <stddef.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>

#ifdef __cplusplus
extern "C" {
#endif

uint64_t sx_u64 (const char *name);
uint32_t sx_u32 (const char *name);
uint16_t sx_u16 (const char *name);
uint8_t  sx_u8  (const char *name);
double   sx_f64 (const char *name);
static inline int64_t sx_i64 (const char *name) { return (int64_t) sx_u64 (name); }
static inline int32_t sx_i32 (const char *name) { return (int32_t) sx_u32 (name); }

/* constrain: a path on which the condition is infeasible is dropped */
void sx_assume (int cond);
/* the property: a feasible negation is a violation */
void sx_assert_ (int cond, const char *msg);
#define sx_assert(c, m) sx_assert_ (!!(c), m)
/* a path got here (non-vacuity witness) */
void sx_reach (const char *label);
/* value compared between the symbolic run and the native replay */
void sx_observe (const char *label, uint64_t v);
void sx_observe_str (const char *label, const char *s);
/* fork over all feasible values and return the concrete one */
uint64_t sx_concretize (uint64_t v);
/* number of live heap allocations made through malloc & co */
uint64_t sx_live_heap (void);
/* 1 when [p,p+n) is entirely inside one live object (native: always 1) */
int sx_valid (const void *p, size_t n);
/* replayed natively? */
int sx_native (void);
/* 1 iff v depends on a symbolic value on this path (native: 0) */
int sx_is_symbolic (uint64_t v);
/* message texts are not observed: input dependent numbers render as 0 in the encoding */
extern int sx_fmt_abstract;
/* native snprintf on a concretised double */
int sx_fmt_double (char *out, size_t size, const char *fmt, double d);

/* [lo, hi] signed, stays symbolic */
static inline int64_t
sx_range (int64_t lo, int64_t hi, const char *name)
{
    int64_t v = sx_i64 (name);
    sx_assume (v >= lo);
    sx_assume (v <= hi);
    return v;
}
/* 0..n-1, forked to a concrete value */
int sx_pick (int n, const char *name);
/* NUL terminated string of symbolic length <= max, bytes from alphabet (NULL: any non NUL) */
static inline int
sx_string (char *buf, int max, const char *alphabet, const char *name)
{
    int n = sx_pick (max + 1, name);
    for (int i = 0; i < n; i++)
    {
        uint8_t c = sx_u8 (name);
        if (alphabet)
        {
            int ok = 0;
            for (const char *a = alphabet; *a; a++)
                ok |= (c == (uint8_t) *a);
            sx_assume (ok);
        }
        else
            sx_assume (c != 0);
        buf[i] = (char) c;
    }
    buf[n] = 0;
    return n;
}

#ifdef __cplusplus
}
#endif
#endif
