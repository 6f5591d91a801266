#ifndef WRAP_LOCKS_H
#define WRAP_LOCKS_H
void vpk_begin(void); long vpk_live(void); long vpk_made(void); const char* vpk_bad(void); void vpk_dump(char* out, size_t cap);
long vpk_owed(void);
#endif
