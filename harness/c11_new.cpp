/* C11: new and delete of a program that includes mem_debug.h */
#include "mem/mem_debug.h"
struct S { long a, b, c; S() : a(1), b(2), c(3) { ++made; } ~S() { if (a == 1 && b == 2 && c == 3) ++gone; } static int made, gone; };
int S::made, S::gone;
extern "C" {
const char* cxx_file(void) { return __FILE__; }
int cxx_made(void) { return S::made; } int cxx_gone(void) { return S::gone; }
void* cxx_new(int kind, size_t n, int* line, const char** func) {
    *func = __func__;
    switch (kind) {
    case 0: *line = __LINE__; return new char[n];
    case 1: *line = __LINE__; return new long(42);
    case 2: *line = __LINE__; return new S;
    default: *line = __LINE__; return new S[n]; }
}
void cxx_delete(int kind, void* p) {
    switch (kind) {
    case 0: delete[] (char*)p; break;
    case 1: delete (long*)p; break;
    case 2: delete (S*)p; break;
    default: delete[] (S*)p; }
}
}
