#define VP_PART 2
#include "c03_arrays.cpp"
