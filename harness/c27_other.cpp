#include "formats/addr_ps3.hpp"
size_t c27_other(size_t x, size_t y, size_t w, size_t h) { return MortonAddr(x, y, MortonSettings(w, h)); }
