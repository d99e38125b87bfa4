#include "/usr/include/fmt/core.h"
