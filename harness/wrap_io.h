#ifndef WRAP_IO_H
#define WRAP_IO_H
extern long vio_calls, vio_failed, vio_collisions; extern bool vio_noise; extern long vio_bad_at, vio_bad_hits;
void vio_arm(unsigned partial_percent, long fail_at, int err); void vio_off(void);
#endif
