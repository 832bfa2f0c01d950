#define VER 2
#include "c10_ver.hpp"
