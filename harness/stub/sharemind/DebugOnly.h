// Stand-in for SharemindCHeaders' header of the same name (not available here).
#ifndef SHAREMIND_DEBUGONLY_H
#define SHAREMIND_DEBUGONLY_H
#ifndef NDEBUG
#define SHAREMIND_DEBUG_ONLY(...) __VA_ARGS__
#else
#define SHAREMIND_DEBUG_ONLY(...)
#endif
#endif
