/* included before everything: templates the standard library usually takes
 * from its binary are instantiated here, so that their code is encoded too */
#include <bits/c++config.h>
#undef _GLIBCXX_EXTERN_TEMPLATE
#define _GLIBCXX_EXTERN_TEMPLATE 0
