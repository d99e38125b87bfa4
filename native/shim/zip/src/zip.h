#include <zip.h>
