/* --wrap=sleep,usleep: a second of library sleeping lasts 1.5 ms, so pausing can be repeated often. Short naps stay what they are. */
#include "vp.h"
int __real_usleep(useconds_t);
static void nap(void) { struct timespec ts = {0, 1500000}; nanosleep(&ts, 0); }
unsigned __wrap_sleep(unsigned s) { if (s) nap(); return 0; }
int __wrap_usleep(useconds_t u) { if (u < 500000) return __real_usleep(u); nap(); return 0; }
