#ifndef VERIF_GHEAP_SHIM
#define VERIF_GHEAP_SHIM
#include <cstddef>
template <size_t Fanout = 2, size_t PageChunks = 1> class gheap {};
#endif
