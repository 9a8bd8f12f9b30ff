#ifndef VERIF_ALLOC_COUNT_HPP
#define VERIF_ALLOC_COUNT_HPP
namespace mc { long live_blocks(); }
#endif
