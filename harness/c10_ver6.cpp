#define VER 6
#include "c10_ver.hpp"
