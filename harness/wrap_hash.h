/* redirects the string hash and rand() of the engine to functions of the harness */
#ifndef H_WRAPSELF
#include <stddef.h>
#include <stdlib.h>
int h_hash(const void *p, size_t n) __attribute__((weak));
int h_rand(void) __attribute__((weak));
#define genhash_string_hash h_hash
#define rand h_rand
#endif
