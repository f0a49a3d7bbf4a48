// The second translation unit that mentions the types of internal linkage (see types.h).
#include "types.h"

namespace worlds { namespace typesw {

void twins() { family<Twin<0>>(); family<Twin<1>>(); family<TwinE>(); }
} }
