#include "/usr/include/fmt/format.h"
