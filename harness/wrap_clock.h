#ifndef WRAP_CLOCK_H
#define WRAP_CLOCK_H
#include <sys/time.h>
/* when on, the library's clock is what vck_next returns; each thread can ask what it was last told */
extern bool vck_on; extern void (*vck_next)(struct timeval*); extern __thread struct timeval vck_told; extern __thread uint64_t vck_asked;
#endif
