#define VER 1
#include "c10_ver.hpp"
