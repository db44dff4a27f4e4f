// Stand-in for a header that only exists in Google's own tree. The code takes
// the address of an int for a char32*.
#ifndef SHIM_BASE_CHAR32_H_
#define SHIM_BASE_CHAR32_H_
typedef int char32;
#endif
