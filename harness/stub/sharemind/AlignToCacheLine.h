// Stand-in for SharemindCHeaders' header of the same name (not available here).
#ifndef SHAREMIND_ALIGNTOCACHELINE_H
#define SHAREMIND_ALIGNTOCACHELINE_H
#define SHAREMIND_ALIGN_TO_CACHE_SIZE alignas(64)
#endif
