#define VER 3
#include "c10_ver.hpp"
