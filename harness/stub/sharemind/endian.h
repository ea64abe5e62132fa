// Stand-in for SharemindCHeaders' header of the same name (not available here).
#ifndef SHAREMIND_ENDIAN_H
#define SHAREMIND_ENDIAN_H
#include <endian.h>
#endif
