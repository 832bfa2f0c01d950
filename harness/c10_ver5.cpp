#define VER 5
#include "c10_ver.hpp"
