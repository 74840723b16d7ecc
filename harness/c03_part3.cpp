#define VP_PART 3
#include "c03_arrays.cpp"
