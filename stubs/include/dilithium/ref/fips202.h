// Stand-in for the header of the (absent) Dilithium submodule: same prototypes as the library's own.
#include <xmss-alt/fips202.h>
