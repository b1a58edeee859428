// sx-case: name=libc reach=done
#include "h.h"
#include <ctype.h>
#include <math.h>
#include <stdlib.h>
static int cmp (const void *a, const void *b) { int x = *(const int *) a, y = *(const int *) b; return (x > y) - (x < y); }
void harness (void)
{
    unsigned char c = sx_u8 ("c"); int a[4], i, j; double d = sx_f64 ("d"); char buf[8];
    sx_assume (c < 128);
    sx_assert (!!isdigit (c) == (c >= '0' && c <= '9'), "isdigit");
    sx_assert (!!isspace (c) == (c == ' ' || (c >= 9 && c <= 13)), "isspace");
    sx_assert (tolower (c) == (c >= 'A' && c <= 'Z' ? c + 32 : c), "tolower");
    sx_observe ("digit", !!isalnum (c));
    for (i = 0; i < 3; i++) { a[i] = sx_i32 ("v"); sx_assume (a[i] > -100 && a[i] < 100); }
    qsort (a, 3, sizeof (int), cmp);
    sx_assert (a[0] <= a[1] && a[1] <= a[2], "sorted");
    sx_assert (!!isnan (d) == (d != d), "isnan");
    sx_assert (!!isinf (d) == (d == INFINITY || d == -INFINITY), "isinf");
    sx_assert (!!isfinite (d) == (d - d == 0), "isfinite");
    if (d == d) { sx_assert (fabs (d) >= 0, "fabs"); sx_assume (d > -1e6 && d < 1e6); sx_assert (floor (d) <= d && ceil (d) >= d && ceil (d) - floor (d) <= 1, "floor"); sx_assert (fmin (d, 3) <= 3, "fmin"); }
    strlcpy (buf, "abcdefghijk", 8); sx_assert (strlen (buf) == 7, "cut");
    (void) j;
    sx_reach ("done");
}
