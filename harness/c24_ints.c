/* C24: integer helpers over all 2^32 arguments, hash helpers. */
#include "vp.h"
#include "data/integer.h"
#include "data/hash_functions.h"
#include "data/hashmap.h"
static void m_sweep(void) { /* case k covers [k*2^24, (k+1)*2^24) */
    uint64_t lo = vp_case << 24, hi = lo + (1u << 24);
    for (uint64_t x = lo; x < hi; x++) {
        uint32_t i = (uint32_t)x;
        bool p2 = i > 1 && (i & (i - 1)) == 0;
        uint32_t down = i < 2 ? 0 : 1u << (31 - __builtin_clz(i));
        if (integer_is_power_of_two(i) != p2) vp_fail("int.is-pow2", "integer_is_power_of_two(%u) = %d", i, !p2);
        if (integer_rounddown_pow_of_two(i) != down) vp_fail("int.rounddown", "integer_rounddown_pow_of_two(%u) = %u, expected %u", i, integer_rounddown_pow_of_two(i), down);
        if (i <= 0x80000000u) { /* above that the result has no 32-bit value */
            uint32_t up = i == 0 ? 0 : i == 1 ? 2 : p2 ? i : 1u << (32 - __builtin_clz(i));
            if (integer_roundup_pow_of_two(i) != up) vp_fail("int.roundup", "integer_roundup_pow_of_two(%u) = %u, expected %u", i, integer_roundup_pow_of_two(i), up);
        } else (void)integer_roundup_pow_of_two(i);
        if (!(x & 0xfffff)) vp_beat();
    }
    vp_count("integers", hi - lo); vp_case_mix(vp_case + 1); vp_nontrivial(); vp_seen(vp_case);
    if (vp_want_sample()) vp_sample("every integer from %llu to %llu", (unsigned long long)lo, (unsigned long long)hi - 1);
}
static void m_edges(void) { /* under the sanitizers */
    for (int b = 0; b < 32; b++) for (int d = -3; d <= 3; d++) { uint32_t i = (1u << b) + (uint32_t)d; bool p2 = i > 1 && (i & (i - 1)) == 0;
        VP_CHECK(integer_is_power_of_two(i) == p2, "int.is-pow2", "%u", i); VP_CHECK(integer_rounddown_pow_of_two(i) == (i < 2 ? 0 : 1u << (31 - __builtin_clz(i))), "int.rounddown", "%u", i);
        if (i <= 0x80000000u) VP_CHECK(integer_roundup_pow_of_two(i) == (i == 0 ? 0 : i == 1 ? 2 : p2 ? i : 1u << (32 - __builtin_clz(i))), "int.roundup", "%u", i); }
    vp_case_mix(1); vp_nontrivial();
}
/* the same text placed elsewhere: other address, other alignment, other bytes behind it */
static void m_hash(void) {
    size_t n = vp_chance(1, 10) ? 0 : (size_t)vp_between(1, vp_chance(1, 6) ? 600 : 40);
    if (vp_chance(1, 150)) { n = (size_t)vp_between(60000, 300000); vp_count("hashed_long", 1); }
    unsigned char* t = malloc(n + 1); for (size_t i = 0; i < n; i++) t[i] = (unsigned char)(vp_chance(1, 3) ? vp_between(128, 255) : vp_between(1, 127)); t[n] = 0;
    int h0 = hash_function_string(t), b0 = hashmap_hash(t, n);
    vp_seen(vp_hash(t, n, 0));
    for (int k = 0; k < 20; k++) {
        size_t off = (size_t)k % 17, tail = (size_t)vp_below(9);
        unsigned char* q = malloc(off + n + 1 + tail); for (size_t i = 0; i < off + n + 1 + tail; i++) q[i] = (unsigned char)vp_rand();
        memcpy(q + off, t, n + 1);
        int h1 = hash_function_string(q + off), b1 = hashmap_hash(q + off, n);
        VP_CHECK(h1 == h0, "hash.string", "equal texts of %zu characters hash to %d and %d", n, h0, h1);
        VP_CHECK(b1 == b0, "hash.memory", "equal keys of %zu bytes hash to %d and %d", n, b0, b1);
        free(q);
        unsigned char* e = malloc(n ? n : 1); memcpy(e, t, n); VP_CHECK(hashmap_hash(e, n) == b0, "hash.memory", "equal keys hash differently"); free(e); /* exactly n bytes */
    }
    intptr_t v = (intptr_t)vp_rand(); if (vp_chance(1, 2)) v = (int)v;
    int a = hash_function_integer((void*)v), p = hash_function_pointer((void*)v), nv = hash_function_naive((void*)v);
    for (int k = 0; k < 8; k++) {
        (void)hash_function_integer((void*)vp_rand()); (void)hash_function_pointer((void*)vp_rand()); (void)hash_function_naive((void*)vp_rand()); (void)hash_function_string("other");
        VP_CHECK(hash_function_integer((void*)v) == a && hash_function_pointer((void*)v) == p && hash_function_naive((void*)v) == nv, "hash.value", "the same key hashes differently the second time"); }
    /* text equal up to the end only */
    int again = hash_function_string(t); VP_CHECK(again == h0, "hash.string", "the same text hashes differently the second time");
    free(t); vp_count("hashed", 20); vp_case_mix(vp_mix((uint64_t)h0, (uint64_t)v)); if (n > 3) vp_nontrivial();
    if (vp_want_sample()) vp_sample("text of %zu bytes at 20 placements, integer/pointer key %p", n, (void*)v);
}
const vp_mode_t vp_modes[] = { {"sweep", m_sweep}, {"edges", m_edges}, {"hash", m_hash}, {0} };
