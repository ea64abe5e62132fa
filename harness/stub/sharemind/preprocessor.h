// Stand-in for SharemindCHeaders' header of the same name (not available here).
#ifndef SHAREMIND_PREPROCESSOR_H
#define SHAREMIND_PREPROCESSOR_H
#define SHAREMIND_CAT2(a, b) a ## b
#define SHAREMIND_CAT(a, b) SHAREMIND_CAT2(a, b)
#define SHAREMIND_2S2(a) #a
#define SHAREMIND_2S(a) SHAREMIND_2S2(a)
#define SHAREMIND_C_(a, b) a ## b
#define SHAREMIND_C(a, b) SHAREMIND_C_(a, b)
#define SHAREMIND_C3_(a, b, c) a ## b ## c
#define SHAREMIND_C3(a, b, c) SHAREMIND_C3_(a, b, c)
#include <boost/preprocessor/tuple/elem.hpp>
#define SHAREMIND_T(n, i, t) BOOST_PP_TUPLE_ELEM(n, i, t)
#endif
