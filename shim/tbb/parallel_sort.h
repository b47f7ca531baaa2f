#include <tbb/blocked_range.h>
