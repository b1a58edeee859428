// sx-case: name=pair reach=lt,eq,gt
// sx-case: name=triple -DTRIPLE
// sx-case: name=set -DSETV
// sx-bound: all pairs and triples of versions, both components over the full unsigned 32-bit range; no loops
#include "h.h"
void harness (void)
{
#ifdef SETV
    struct disir_version a = sx_version (0, "a"), b = sx_version (0, "b"), keep = a;
    dc_version_set (&b, &a);
    sx_assert (vkey (b) == vkey (keep) && vkey (a) == vkey (keep), "dc_version_set copies both components");
    dc_version_set (NULL, &a);
    dc_version_set (&b, NULL);
    sx_assert (vkey (b) == vkey (keep), "dc_version_set ignores NULL");
#elif defined (TRIPLE)
    struct disir_version a = sx_version (0, "a"), b = sx_version (0, "b"), c = sx_version (0, "c");
    int ab = dc_version_compare (&a, &b), bc = dc_version_compare (&b, &c), ac = dc_version_compare (&a, &c);
    if (ab <= 0 && bc <= 0)
        sx_assert (ac <= 0, "transitive");
#else
    struct disir_version a = sx_version (0, "a"), b = sx_version (0, "b");
    struct disir_version a0 = a, b0 = b;
    int r = dc_version_compare (&a, &b), q = dc_version_compare (&b, &a);
    sx_observe ("sign", (r > 0) - (r < 0) + 1);
    sx_assert (veq (a, a0) && veq (b, b0), "arguments unchanged");
    if (vlt (a, b)) { sx_reach ("lt"); sx_assert (r < 0, "older compares negative"); sx_assert (q > 0, "antisymmetric"); }
    else if (veq (a, b)) { sx_reach ("eq"); sx_assert (r == 0, "equal compares zero"); sx_assert (q == 0, "equal compares zero"); }
    else { sx_reach ("gt"); sx_assert (r > 0, "newer compares positive"); sx_assert (q < 0, "antisymmetric"); }
#endif
}
