#define VER 4
#include "c10_ver.hpp"
