#define VP_PART 1
#include "c03_arrays.cpp"
