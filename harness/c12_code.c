/* C12: Base64 and URL coding. */
#include "vp.h"
#include "data/base64.h"
#include "net/url_encoder_decoder.h"
static const char AL[] = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/";
/* bit-by-bit reference */
static size_t ref_enc(char* o, const uint8_t* s, size_t n) {
    size_t k = 0; uint32_t acc = 0; int bits = 0;
    for (size_t i = 0; i < n; i++) { acc = acc << 8 | s[i]; bits += 8; while (bits >= 6) { bits -= 6; o[k++] = AL[acc >> bits & 63]; } acc &= (1u << bits) - 1; }
    if (bits) o[k++] = AL[acc << (6 - bits) & 63];
    while (k % 4) o[k++] = '=';
    o[k] = 0; return k;
}
static int val(int c) { const char* p = c ? strchr(AL, c) : NULL; return p ? (int)(p - AL) : -1; }
static size_t ref_dec(uint8_t* o, const char* s) { /* up to the first character outside the alphabet; left-over bits dropped */
    size_t k = 0; uint32_t acc = 0; int bits = 0;
    for (; val((unsigned char)*s) >= 0; s++) { acc = acc << 6 | (uint32_t)val((unsigned char)*s); bits += 6; if (bits >= 8) { bits -= 8; o[k++] = (uint8_t)(acc >> bits); acc &= (1u << bits) - 1; } }
    return k;
}
static void enc_one(const uint8_t* s, size_t n) {
    uint8_t* in = malloc(n ? n : 1); memcpy(in, s, n); if (!n) { free(in); in = malloc(1); }
    int need = lcu_base64_encode_buf_size(n); size_t std = (n + 2) / 3 * 4;
    VP_CHECK(need >= (int)std + 1, "b64.size", "buffer size for %zu bytes: %d, the standard text takes %zu", n, need, std + 1);
    char* out = malloc((size_t)need); memset(out, 0x5a, (size_t)need); char* want = malloc(std + 8); ref_enc(want, s, n);
    int r = lcu_base64_encode(out, (const char*)in, n);
    VP_CHECK(r == (int)std + 1, "b64.encode", "encoding %zu bytes returned %d, expected %zu", n, r, std + 1);
    VP_CHECK(memcmp(out, want, std + 1) == 0, "b64.encode", "encoding %zu bytes gave %.80s, the standard text is %.80s", n, out, want);
    VP_CHECK(memcmp(in, s, n) == 0, "b64.encode", "input changed");
    /* decode */
    char* txt = malloc(std + 1); memcpy(txt, want, std + 1); int dneed = lcu_base64_decode_buf_size(std); VP_CHECK(dneed >= (int)n + 1, "b64.size", "decode size for %zu characters: %d, needs %zu", std, dneed, n + 1);
    char* d = malloc((size_t)dneed); memset(d, 0x5a, (size_t)dneed);
    int dr = lcu_base64_decode(d, txt);
    VP_CHECK(dr == (int)n && memcmp(d, s, n) == 0 && d[n] == 0, "b64.roundtrip", "decoding the text of %zu bytes returned %d, content equal: %d", n, dr, memcmp(d, s, n) == 0);
    /* without padding, the decoder takes the same bytes */
    size_t q = std; while (q && txt[q - 1] == '=') q--; char* t2 = malloc(q + 1); memcpy(t2, txt, q); t2[q] = 0; char* d2 = malloc((size_t)lcu_base64_decode_buf_size(q));
    dr = lcu_base64_decode(d2, t2); VP_CHECK(dr == (int)n && memcmp(d2, s, n) == 0, "b64.roundtrip", "unpadded text of %zu bytes returned %d", n, dr);
    free(in); free(out); free(want); free(txt); free(d); free(t2); free(d2); vp_count("base64_encoded", 1);
}
static void m_b64(void) {
    static uint8_t s[140000]; uint64_t h = 0;
    if (vp_case < 260) { /* every length 0..259 with varied bytes; every 1-byte input, 2-byte inputs 256 per case */
        size_t n = (size_t)vp_case; for (size_t i = 0; i < n; i++) s[i] = (uint8_t)vp_rand(); enc_one(s, n);
        s[0] = (uint8_t)vp_case; enc_one(s, 1); for (int b = 0; b < 256; b++) { s[1] = (uint8_t)b; enc_one(s, 2); s[2] = (uint8_t)vp_rand(); enc_one(s, 3); }
        vp_nontrivial(); vp_case_mix(vp_case); return; }
    size_t n = vp_chance(1, 12) ? ((size_t)(1 + 2 * vp_below(2)) << vp_between(6, 15)) + (size_t)vp_below(5) - 2 : vp_chance(1, 100) ? vp_between(60000, 140000) : vp_chance(1, 8) ? vp_between(300, 4200) : vp_below(120); int cls = (int)vp_below(4);
    for (size_t i = 0; i < n; i++) s[i] = cls == 0 ? (uint8_t)vp_rand() : cls == 1 ? 0xff : cls == 2 ? 0 : (uint8_t)(vp_chance(1, 2) ? 0x80 + vp_below(128) : vp_below(128));
    h = vp_hash(s, n, 1); enc_one(s, n);
    /* arbitrary text */
    for (int k = 0; k < 6; k++) {
        size_t m = vp_below(90); char* t = malloc(m + 1); int hostile = (int)vp_below(3);
        for (size_t i = 0; i < m; i++) t[i] = hostile == 0 ? AL[vp_below(64)] : vp_chance(1, 12) ? (char)(1 + vp_below(255)) : AL[vp_below(64)];
        if (hostile == 2) for (size_t i = 0; i < m; i++) t[i] = (char)(1 + vp_below(255)); t[m] = 0;
        size_t valid = 0; while (valid < m && val((unsigned char)t[valid]) >= 0) valid++;
        size_t cap = (size_t)lcu_base64_decode_buf_size(m); char* d = malloc(cap); uint8_t ref[200]; size_t rn = ref_dec(ref, t);
        int r = lcu_base64_decode(d, t); vp_trace("decode '%s' -> %d", t, r);
        VP_CHECK(r == (int)rn && memcmp(d, ref, rn) == 0 && d[rn] == 0, "b64.decode", "decoding %zu characters (%zu before the first outside the alphabet) returned %d, expected %zu", m, valid, r, rn);
        if (valid % 4 == 1) vp_count("base64_lone_character", 1); if (valid < m) vp_count("base64_stopped_early", 1); vp_seen(vp_mix(valid % 4, (uint64_t)hostile)); free(t); free(d);
    }
    vp_case_mix(h); if (n > 3) vp_nontrivial();
    if (vp_want_sample()) vp_sample("base64 of %zu bytes, class %d", n, cls);
}
static bool safe(unsigned char c) { return (c >= 'A' && c <= 'Z') || (c >= 'a' && c <= 'z') || (c >= '0' && c <= '9') || c == '.' || c == '-' || c == '*' || c == '_'; }
static int hexv(int c) { return c >= '0' && c <= '9' ? c - '0' : c >= 'a' && c <= 'f' ? c - 'a' + 10 : c >= 'A' && c <= 'F' ? c - 'A' + 10 : -1; }
static void enc_url(const uint8_t* s, size_t n) {
    char* want = malloc(3 * n + 1); size_t w = 0; for (size_t i = 0; i < n; i++) { if (safe(s[i])) want[w++] = (char)s[i]; else if (s[i] == ' ') want[w++] = '+'; else { sprintf(want + w, "%%%02X", s[i]); w += 3; } } want[w] = 0;
    char* in = malloc(n); memcpy(in, s, n);
    size_t sizes[] = { 3 * n + 1, w + 1, w, w > 1 ? w - 1 : 2, vp_below(w + 8), vp_below(4) };
    for (int k = 0; k < 6; k++) {
        size_t cap = sizes[k]; char* out = malloc(cap ? cap : 1); char* o = out; if (cap == 0) { free(out); o = out = malloc(1); }
        if (cap) memset(o, 0x5a, cap);
        int r = lcu_url_encode(o, cap, in, n); vp_trace("encode %zu into %zu -> %d", n, cap, r);
        if (cap >= w + 1 && cap >= 2) { VP_CHECK(r == (int)w && memcmp(o, want, w + 1) == 0, "url.encode", "encoding %zu bytes into %zu returned %d (needs %zu): %.60s / %.60s", n, cap, r, w, o, want); vp_count("url_encoded", 1); if (cap == w + 1) vp_count("url_exact_fit", 1); }
        else { VP_CHECK(r < 0, "url.truncate", "encoding %zu bytes needing %zu into %zu returned %d", n, w + 1, cap, r); vp_count("url_refused", 1); }
        free(out);
    }
    /* decode it back, in room that fits exactly, is larger, or is too small */
    size_t caps[] = { w + 1, n + 1, n + 1 + vp_below(5), n > 2 ? vp_between(2, n) : 2 };
    for (int k = 0; k < 4; k++) {
        size_t cap = caps[k] < 2 ? 2 : caps[k]; char* t = malloc(w); memcpy(t, want, w); char* d = malloc(cap); char* last = NULL;
        int r = lcu_url_decode(d, cap, t, w, vp_chance(1, 5) ? NULL : &last); size_t take = n < cap - 1 ? n : cap - 1;
        VP_CHECK(r == (int)take && memcmp(d, s, take) == 0 && d[take] == 0, "url.roundtrip", "decoding %zu characters into %zu returned %d, expected %zu", w, cap, r, take);
        size_t pos = 0; for (size_t i = 0; i < take; i++) pos += safe(s[i]) || s[i] == ' ' ? 1 : 3;
        if (last) VP_CHECK(last == t + pos, "url.position", "consumed up to %ld, expected %zu", (long)(last - t), pos);
        if (take < n) vp_count("url_decode_full", 1); vp_count("url_decoded", 1); free(t); free(d);
    }
    free(want); free(in);
}
static void m_url(void) {
    uint8_t s[900]; size_t n;
    if (vp_case < 256) { s[0] = (uint8_t)vp_case; enc_url(s, 1); for (int b = 0; b < 256; b += 5) { s[1] = (uint8_t)b; enc_url(s, 2); } }
    n = vp_chance(1, 8) ? vp_between(100, 900) : vp_between(1, 60); int cls = (int)vp_below(3);
    for (size_t i = 0; i < n; i++) s[i] = cls == 0 ? (uint8_t)vp_rand() : cls == 1 ? (uint8_t)(32 + vp_below(95)) : (uint8_t)(vp_chance(1, 6) ? vp_rand() : 'a' + vp_below(26));
    uint64_t h = vp_hash(s, n, 2); enc_url(s, n);
    /* hostile decode */
    for (int k = 0; k < 8; k++) {
        size_t m = vp_below(40); char* t = malloc(m ? m : 1); char* tt = t; if (!m) { free(t); tt = t = malloc(1); }
        for (size_t i = 0; i < m; i++) { unsigned w = (unsigned)vp_below(20); t[i] = w < 11 ? (char)('a' + vp_below(26)) : w < 13 ? '+' : w < 19 ? '%' : (char)vp_rand(); if (t[i] == '%' && i + 2 < m && !vp_chance(1, 6)) { t[++i] = "0123456789abcdefABCDEF"[vp_below(22)]; t[++i] = vp_chance(1, 12) ? (char)vp_rand() : "0123456789abcdefABCDEF"[vp_below(22)]; } }
        size_t cap = vp_below(45); char* d = malloc(cap ? cap : 1); char* last = (char*)1;
        int r = lcu_url_decode(d, cap, tt, m, &last);
        uint8_t ref[64]; size_t i = 0, o = 0; bool bad = false;
        if (m < 1 || cap < 2) { VP_CHECK(r < 0 && last == tt, "url.invalid", "%zu characters into %zu returned %d", m, cap, r); vp_count("url_invalid_call", 1); free(t); free(d); continue; }
        while (i < m && o < cap - 1) { unsigned char c = (unsigned char)t[i]; if (c == '+') { ref[o++] = ' '; i++; } else if (safe(c)) { ref[o++] = c; i++; } else if (c == '%') { if (i + 3 > m) break; int a = hexv((unsigned char)t[i + 1]), b = hexv((unsigned char)t[i + 2]); if (a < 0 || b < 0) { bad = true; break; } ref[o++] = (uint8_t)(a * 16 + b); i += 3; } else { bad = true; break; } }
        vp_trace("decode %zu chars into %zu -> %d", m, cap, r);
        if (bad) { VP_CHECK(r < 0, "url.malformed", "malformed text of %zu (bad at %zu) decoded to %d", m, i, r); vp_count("url_malformed", 1); }
        else { VP_CHECK(r == (int)o && memcmp(d, ref, o) == 0 && d[o] == 0, "url.decode", "decoding %zu characters into %zu returned %d, expected %zu", m, cap, r, o); VP_CHECK(last == tt + i, "url.position", "consumed up to %ld, expected %zu of %zu", (long)(last - tt), i, m); if (i < m) vp_count("url_stopped_early", 1); }
        vp_seen(vp_mix(bad, vp_mix(i < m, o % 8))); free(t); free(d);
    }
    vp_case_mix(h); if (n > 3) vp_nontrivial();
    if (vp_want_sample()) vp_sample("url coding of %zu bytes, class %d", n, cls);
}
/* texts beyond 16-bit positions */
static void m_scale(void) {
    size_t n = vp_chance(1, 3) ? vp_between(65000, 66600) : vp_chance(1, 3) ? vp_between(20000, 24000) : vp_chance(1, 5) ? vp_between(1u << 24, (1u << 24) + 100000) : vp_between(66000, 1500000);
    uint8_t* s = malloc(n); int cls = (int)vp_below(3); for (size_t i = 0; i < n; i++) s[i] = cls == 0 ? (uint8_t)vp_rand() : cls == 1 ? (uint8_t)('a' + vp_below(26)) : (uint8_t)(vp_chance(1, 9) ? vp_rand() : 32 + vp_below(95));
    enc_one(s, n); vp_beat(); enc_url(s, n); vp_beat();
    /* a malformed escape far into the text, and room that ends just before it */
    char* t = malloc(n); for (size_t i = 0; i < n; i++) t[i] = (char)('a' + i % 26);
    size_t at = vp_between(n > 65600 ? 65530 : n / 2, n - 1); t[at] = vp_chance(1, 2) ? '%' : (char)0x01; if (t[at] == '%' && at + 1 < n) t[at + 1] = 'g';
    char* d = malloc(n + 2); char* last = NULL; int r = lcu_url_decode(d, n + 2, t, n, &last);
    VP_CHECK(r < 0, "url.malformed", "malformed text of %zu (bad at %zu) decoded to %d", n, at, r);
    size_t room = vp_between(at / 2 + 1, at); r = lcu_url_decode(d, room + 1, t, n, &last);
    VP_CHECK(r == (int)room && memcmp(d, t, room) == 0 && d[room] == 0 && last == t + room, "url.decode", "decoding %zu characters into room for %zu returned %d, consumed %ld", n, room, r, (long)(last - t));
    /* the first character outside the Base64 alphabet far into the text */
    for (size_t i = 0; i < n; i++) t[i] = AL[(i * 7 + i / 64) % 64];
    t[n - 1] = 0; t[at] = at == n - 1 ? 0 : '*'; uint8_t* ref = malloc(n); size_t rn = ref_dec(ref, t); char* d2 = malloc((size_t)lcu_base64_decode_buf_size(n - 1)); r = lcu_base64_decode(d2, t);
    VP_CHECK(r == (int)rn && memcmp(d2, ref, rn) == 0 && d2[rn] == 0, "b64.decode", "decoding %zu characters up to one outside the alphabet at %zu returned %d, expected %zu", n - 1, at, r, rn);
    free(s); free(t); free(d); free(d2); free(ref); vp_count("scale_texts", 1); vp_case_mix(n); vp_nontrivial();
}
const vp_mode_t vp_modes[] = { {"base64", m_b64}, {"url", m_url}, {"scale", m_scale}, {0} };
