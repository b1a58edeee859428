// sx-case: name=roundtrip reach=fits
// sx-case: name=buffer -DBUFS reach=fits,small
// sx-case: name=parse -DPARSE=1 reach=ok,bad
// sx-case: name=parse_range -DPARSE=2 reach=ok,bad
// sx-case: name=parse_any -DPARSE=3 -DPL=4 reach=ok,bad
// sx-case: name=null -DNULLS
// sx-bound: round trip: both components over the stated symbolic range (quick 0..999, thorough 0..99999) or one of the extreme constants 2^31-1, 2^31, 2^32-1, 10^9
// sx-bound: buffer: sizes 0..24 with components from 0, 7, 10, 2^31-1, 2^31, 2^32-1, 10^9
// sx-bound: parse: every text of up to 5 (quick) / 7 (thorough) characters over the alphabet 0 1 7 9 . a, every text of up to 4 bytes, and texts of 10, 11 and 20 digits in either component
#include "h.h"
#if SX_TIER_THOROUGH
#define LIM 100000
#define PLD 7
#else
#define LIM 1000
#define PLD 5
#endif
#ifndef PL
#define PL PLD
#endif
#ifdef PARSE
/* the number at t + *i: its value (all ones when it cannot be represented) or -1 when there is none;
 * blanks and a sign before it may be accepted or refused */
static int64_t number (const char *t, int *i, int *odd)
{
    uint64_t v = 0; int d = 0, neg = 0;
    while (t[*i] == ' ' || (t[*i] >= 9 && t[*i] <= 13)) { *odd = 1; ++*i; }
    if (t[*i] == '-' || t[*i] == '+') { *odd = 1; neg = t[*i] == '-'; ++*i; }
    while (t[*i] >= '0' && t[*i] <= '9') { v = v * 10 + (t[*i] - '0'); ++*i; d++; }
    if (d == 0) return -1;
    if (v > 0xffffffffu || (neg && v)) return -2;
    return (int64_t) v;
}
void harness (void)
{
    char t[64];
    int n = 0, i = 0, odd = 0;
#if PARSE == 2
    /* ten or eleven digits around 2^32, in either component */
    int at = sx_pick (2, "component"), more = sx_pick (3, "more digits");
    if (at) { memcpy (t, "7.", 2); n = 2; }
    memcpy (t + n, "42949672", 8); n += 8;
    for (int k = 0; k < 2; k++) { t[n] = (char) sx_u8 ("digit"); sx_assume (t[n] >= '0' && t[n] <= '9'); n++; }
    if (more == 1) t[n++] = '0';
    if (more == 2) { memcpy (t + n, "0000000000", 10); n += 10; }
    if (!at) { memcpy (t + n, ".7", 2); n += 2; }
    t[n] = 0;
#else
    n = sx_string (t, PL, PARSE == 3 ? NULL : "0179.a", "t");
#endif
    struct disir_version v = V (77, 78);
    ST s = dc_version_convert (t, &v);
    int64_t ma = number (t, &i, &odd), mi = -1;
    if (ma != -1 && t[i] == '.') { i++; mi = number (t, &i, &odd); }
    sx_observe ("st", s);
    if (ma >= 0 && mi >= 0)
    {
        sx_reach ("ok");
        sx_assert (s == OK || odd, "number.number accepted");
        if (s == OK) sx_assert (v.sv_major == ma && v.sv_minor == mi, "parsed components");
    }
    else
    {
        sx_reach ("bad");
        sx_assert (s == DISIR_STATUS_INVALID_ARGUMENT, "other text refused as invalid argument");
    }
}
#elif defined (NULLS)
void harness (void)
{
    struct disir_version v = V (3, 4);
    char b[8];
    sx_assert (dc_version_string (NULL, 8, &v) == NULL, "no buffer");
    sx_assert (dc_version_string (b, 8, NULL) == NULL, "no version");
    sx_assert (dc_version_convert (NULL, &v) == DISIR_STATUS_INVALID_ARGUMENT, "no text");
    sx_assert (v.sv_major == 3 && v.sv_minor == 4, "version untouched");
    sx_assert (dc_version_convert ("1.0", NULL) == DISIR_STATUS_INVALID_ARGUMENT, "no output");
}
#else
static uint32_t comp (const char *n)
{
    static const uint32_t big[] = { 2147483647u, 2147483648u, 4294967295u, 1000000000u };
    int k = sx_pick (5, n);
    if (k) return big[k - 1];
#ifdef BUFS
    { static const uint32_t sm[] = { 0, 7, 10 }; return sm[sx_pick (3, n)]; }
#endif
    uint32_t v = sx_u32 (n);
    sx_assume (v < LIM);
    return v;
}
/* reference rendering */
static int digits (char *o, uint32_t v)
{
    char t[12];
    int n = 0, i;
    do { t[n++] = (char) ('0' + v % 10); v /= 10; } while (v);
    for (i = 0; i < n; i++) o[i] = t[n - 1 - i];
    return n;
}
void harness (void)
{
    struct disir_version v, w = V (0, 0);
    v.sv_major = comp ("major");
    v.sv_minor = comp ("minor");
    char ref[32];
    int n = digits (ref, v.sv_major);
    ref[n++] = '.';
    n += digits (ref + n, v.sv_minor);
    ref[n] = 0;
#ifdef BUFS
    int size = sx_pick (25, "size");
#else
    int size = 24;
#endif
    char *b = malloc (size + 1);           /* exactly sized: any overrun is a memory error */
    b[size] = '#';
    char *r = dc_version_string (b, size, &v);
    sx_assert (b[size] == '#', "nothing written past the buffer");
    if (n < size)
    {
        sx_reach ("fits");
        sx_assert (r == b, "rendering fits");
        int same = 1;
        for (int i = 0; i <= n; i++) same &= b[i] == ref[i];
        sx_assert (same, "text is major.minor");
        sx_assert (dc_version_convert (b, &w) == OK, "rendered text parses");
        sx_assert (veq (v, w), "round trip");
    }
    else
    {
        sx_reach ("small");
        sx_assert (r == NULL, "too small a buffer is refused");
        if (size > 0)
        {
            int term = 0;
            for (int i = 0; i < size; i++) term |= b[i] == 0;
            sx_assert (term, "terminated inside the buffer");
        }
    }
    free (b);
}
#endif
