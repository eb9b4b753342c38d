/* C16, C17, C19: a client of the C API. Every call goes through capi_calls.h, which the build writes from the
   declarations of the shipped header (each argument has the declared type, and garbage above it where the ABI allows it). */
#include <stdint.h>
#include <stdlib.h>
#include <string.h>
#include "image-palette-recoloring.h"
double sym_f64(unsigned id, double lo, double hi);
uint64_t sym_u64(unsigned id, uint64_t lo, uint64_t hi);
uint64_t sym_choose(unsigned id, uint64_t lo, uint64_t hi);
void sym_assume(_Bool c);
void sym_check(_Bool c, unsigned id);
void sym_check_close(double a, double b, double tol, unsigned id);
void sym_reach(unsigned id);
void sym_obs_u64(unsigned id, uint64_t x);
uint64_t sym_heap_live(void);
unsigned sym_is_native(void);
#include "capi_calls.h"
void capi_mock(uint64_t on, uint64_t answer, uint32_t w, uint32_t h, uint64_t k);
void capi_mock_bytes(const uint8_t *p, uint64_t n, uint64_t colours);
uint64_t capi_seen(uint64_t what);
double capi_seen_bound(void);
void capi_mock_off(void);
void capi_direct(uint32_t w, uint32_t h, const uint8_t *p);
uint64_t capi_direct_decompose(uint64_t n, const uint8_t *p);
uint64_t capi_direct_bytes(uint64_t channel, uint64_t n, const uint8_t *p, uint8_t *out);
uint64_t capi_direct_palette(uint32_t w, uint32_t h, const uint8_t *p, uint64_t min, uint64_t max, double bound, uint8_t *out);
void capi_direct_off(void);
enum { CALLS, WIDTH, HEIGHT, PTR, LEN, MIN, MAX, CHANNEL, DROPS };
#define check sym_check

/* ------------------------------------------------------------------ declarations and definitions agree */
void h_capi_shape(uint64_t c) {
    if (c < SHAPES) { check(shape_ok[c], 100 + c); sym_reach(1); }
}

/* ------------------------------------------------------------------ against a library that records */
static const uint32_t SIDES[14] = {1, 2, 3, 7, 255, 256, 257, 21845, 65535, 65536, 1u << 20, 21846, 1u << 30, 715827883};
static void sides(uint64_t c, uint32_t *w, uint32_t *h) {
    /* 3 * w * h must be a possible size of a buffer: below 2^63 */
    uint64_t s = SIDES[c % 14], lim = 0x7fffffffffffffffull / 3 / s, v;
    v = sym_u64(0, 1, lim < 0xffffffffull ? lim : 0xffffffffull);
    *w = c < 14 ? v : s;
    *h = c < 14 ? s : v;
}
static void saw_image(uint64_t w, uint64_t h, const uint8_t *p, unsigned id) {
    check(capi_seen(CALLS) == 1, id);
    check(capi_seen(WIDTH) == w, id + 1);
    check(capi_seen(HEIGHT) == h, id + 2);
    check(capi_seen(PTR) == (uint64_t)p, id + 3);
    check(capi_seen(LEN) == 3 * w * h, id + 4);
}
static void mock_weights(uint64_t c) {
    uint32_t w, h;
    sides(c, &w, &h);
    uint8_t *p = malloc(1);
    capi_mock(1, 1, 0, 0, 0);
    image_weights *r = call_create_image_weights(w, h, p);
    check(r != 0, 1);
    saw_image(w, h, p, 2);
    sym_reach(1);
    call_free_image_weights(r);
    check(capi_seen(DROPS) == 1, 8);
    capi_mock_off();
    free(p);
}
static void mock_palette(uint64_t c) {
    static const int NS[7] = {4, 5, 9, 31, 64, 255, 6};
    int n = NS[c % 7];
    uint32_t w, h;
    sides(c, &w, &h);
    uint8_t *p = malloc(1), *cols = malloc(3 * n), *count = malloc(1);
    for (int i = 0; i < 3 * n; i++) cols[i] = i < 15 ? sym_u64(10 + i, 0, 255) : (i * 37) & 255;
    uint64_t lo = sym_u64(1, 0, max_of_min), hi = sym_u64(2, 0, max_of_max);
    double bound = sym_f64(3, -1e6, 1e6);
    capi_mock(1, 1, 0, 0, 0);
    capi_mock_bytes(cols, n, 1);
    *count = 77;
    uint8_t *r = call_compute_palette(w, h, p, lo, hi, bound, count);
    check(r != 0, 1);
    saw_image(w, h, p, 2);
    check(capi_seen(MIN) == lo, 10);
    check(capi_seen(MAX) == hi, 11);
    sym_check_close(capi_seen_bound(), bound, 0, 12);
    check(*count == n, 13);
    if (r) {
        for (int i = 0; i < 3 * n; i++) check(r[i] == cols[i], 14);
        sym_reach(1);
        call_free_computed_palette(r, *count);
    }
    capi_mock_off();
    free(p); free(cols); free(count);
}
static void mock_decompose(uint64_t c) {
    uint8_t *p = malloc(3 * 4), *img = malloc(1);
    uint64_t n = sym_u64(0, 0, max_of_count), answer = c % 2, k = sym_u64(3, 0, 255);
    uint32_t w = sym_u64(1, 0, 0xffffffff), h = sym_u64(2, 0, 0xffffffff);
    capi_mock(1, answer, w, h, k);
    image_weights *iw = call_create_image_weights(1, 1, img);
    decomposed_image *d = call_create_decomposed_image(iw, n, p);
    check((d != 0) == (answer != 0), 1);
    check(capi_seen(CALLS) == 2, 2);
    check(capi_seen(WIDTH) == (uint64_t)iw, 3);
    check(capi_seen(PTR) == (uint64_t)p, 4);
    check(capi_seen(LEN) == n, 5);
    if (d) {
        check(call_get_decomposed_image_width(d) == w, 6);
        check(call_get_decomposed_image_height(d) == h, 7);
        check(call_get_decomposed_image_num_channels(d) == k, 8);
        sym_reach(1);
        call_free_decomposed_image(d);
        check(capi_seen(DROPS) == 1, 9);
    } else sym_reach(2);
    call_free_image_weights(iw);
    check(capi_seen(DROPS) == 1 + (answer != 0), 9);
    capi_mock_off();
    free(p); free(img);
}
/* c: 0..7 shapes, +8: the library refuses, +16: channel image, +32: large shapes */
static void mock_images(uint64_t c) {
    static const unsigned S[8][2] = {{1, 1}, {2, 1}, {1, 3}, {3, 2}, {16, 16}, {257, 1}, {1, 300}, {20, 13}};
    static const unsigned B[2][2] = {{300, 219}, {1, 65537}};  /* more than 16 bits of pixels */
    uint32_t w = c < 32 ? S[c % 8][0] : B[c % 2][0], h = c < 32 ? S[c % 8][1] : B[c % 2][1];
    int refuse = c / 8 % 2, grey = c / 16 % 2;
    unsigned per = grey ? 1 : 3, n = w * h * per;
    uint8_t *pix = malloc(n), *out = malloc(n), *pal = malloc(12), *img = malloc(1);
    for (unsigned i = 0; i < n; i++) { pix[i] = i < 6 || i + 6 > n ? sym_u64(10 + i, 0, 255) : (i * 31 + 7) & 255; out[i] = 0xA7; }
    uint64_t k = sym_u64(1, 0, 255), ch = sym_u64(2, 0, max_of_channel);
    capi_mock(1, 1, w, h, k);
    image_weights *iw = call_create_image_weights(1, 1, img);
    decomposed_image *d = call_create_decomposed_image(iw, 4, pal);
    capi_mock(1, !refuse, w, h, k);
    capi_mock_bytes(pix, n, 0);
    uint64_t r = grey ? call_grayscale_image_channel(d, ch, out) : call_reconstruct_image(d, pal, out);
    check(capi_seen(CALLS) == 1, 1);
    check(capi_seen(WIDTH) == (uint64_t)d, 2);
    if (grey) check(capi_seen(CHANNEL) == ch, 3);
    else {
        check(capi_seen(PTR) == (uint64_t)pal, 4);
        check(capi_seen(LEN) == k, 5);
    }
    check(r == (refuse ? 0 : 1), 6);
    for (unsigned i = 0; i < n; i++)
        if (c < 32 || i < 1000 || i + 1000 > n) check(out[i] == (refuse ? 0xA7 : pix[i]), 7);
        else if (out[i] != (refuse ? 0xA7 : pix[i])) { check(0, 7); break; }
    sym_reach(1);
    capi_mock(1, 1, w, h, k);
    call_free_decomposed_image(d);
    call_free_image_weights(iw);
    capi_mock_off();
    free(pix); free(out); free(pal); free(img);
}

/* ------------------------------------------------------------------ against the real library */
static const unsigned IMG[6][2] = {{3, 3}, {4, 2}, {2, 5}, {6, 3}, {3, 4}, {20, 2}};
static uint8_t *picture(int i, uint32_t *w, uint32_t *h) {
    *w = IMG[i][0]; *h = IMG[i][1];
    unsigned n = *w * *h;
    uint8_t *p = malloc(3 * n);
    for (unsigned j = 0; j < 3 * n; j++) p[j] = i == 5 ? (j / 3 % 13 == j % 3 ? 250 : 10 + j % 2) : (j * j * 37 + j * 91 + i * 57 + j / 5 * 13) & 255;
    return p;
}
/* the last ones are refused: too few, repeated, redundant, in one plane */
static const uint8_t PAL[9][19] = {
    {4, 0, 0, 0, 255, 0, 0, 0, 255, 0, 0, 0, 255},
    {5, 250, 250, 250, 3, 0, 0, 0, 200, 9, 7, 0, 255, 200, 180, 5},
    {6, 0, 0, 0, 255, 255, 255, 255, 0, 0, 0, 255, 0, 0, 0, 255, 200, 200, 20},
    {4, 20, 20, 20, 120, 20, 20, 20, 120, 20, 20, 20, 120},
    {3, 0, 0, 0, 255, 0, 0, 0, 255, 0},
    {0},
    {5, 0, 0, 0, 255, 0, 0, 0, 255, 0, 0, 0, 255, 0, 255, 0},
    {5, 0, 0, 0, 255, 0, 0, 0, 255, 0, 0, 0, 255, 30, 40, 50},
    {4, 10, 20, 30, 10, 200, 30, 10, 20, 200, 10, 90, 100},
};
static void real_image(uint64_t c) {
    uint32_t w, h;
    int k = PAL[c / 8][0];
    uint8_t *p = picture(c % 8, &w, &h), *pal = malloc(3 * k);
    memcpy(pal, PAL[c / 8] + 1, 3 * k);
    image_weights *iw = call_create_image_weights(w, h, p);
    capi_direct(w, h, p);
    free(p);
    decomposed_image *d = call_create_decomposed_image(iw, k, pal);
    uint64_t dk = capi_direct_decompose(k, pal);
    check((d != 0) == (dk != 0), 1);
    free(pal);
    call_free_image_weights(iw);
    if (d) {
        unsigned n = w * h;
        check(call_get_decomposed_image_width(d) == w, 2);
        check(call_get_decomposed_image_height(d) == h, 3);
        check(call_get_decomposed_image_num_channels(d) == dk, 4);
        uint8_t *np = malloc(3 * k), *out = malloc(3 * n), *want = malloc(3 * n);
        for (int i = 0; i < 3 * k; i++) np[i] = i < 6 || i + 3 >= 3 * k ? sym_u64(i, 0, 255) : (i * 53 + 11) & 255;
        check(call_reconstruct_image(d, np, out) == 1, 5);
        check(capi_direct_bytes(256, k, np, want) == 1 + 3 * n, 6);
        for (unsigned i = 0; i < 3 * n; i++) check(out[i] == want[i], 7);
        free(np);
        uint8_t *grey = malloc(n);
        memset(grey, 0xA7, n);
        uint64_t ch = sym_u64(100, 0, max_of_channel);
        uint64_t r = call_grayscale_image_channel(d, ch, grey);
        check(r == (ch < dk ? 1 : 0), 8);
        if (r) {
            check(capi_direct_bytes(ch, 0, 0, want) == 1 + n, 9);
            for (unsigned i = 0; i < n; i++) check(grey[i] == want[i], 10);
            sym_reach(1);
        } else {
            for (unsigned i = 0; i < n; i++) check(grey[i] == 0xA7, 11);
            sym_reach(2);
        }
        free(out); free(want); free(grey);
        call_free_decomposed_image(d);
    } else sym_reach(3);
    capi_direct_off();
}
static void real_palette(uint64_t c) {
    uint32_t w, h;
    uint8_t *p = picture(c, &w, &h), *want = malloc(3 * 256), *count = malloc(1);
    /* not between two roundings of the same error */
    double bound = (double)sym_u64(0, 0, 4096) / 4096 + 0.00013717;
    uint64_t lo = sym_u64(1, 0, max_of_min), hi = sym_u64(2, 0, max_of_max);
    uint8_t *r = call_compute_palette(w, h, p, lo, hi, bound, count);
    uint64_t n = capi_direct_palette(w, h, p, lo, hi, bound, want);
    check(r != 0 && *count == n, 1);
    for (unsigned i = 0; r && i < 3 * n; i++) check(r[i] == want[i], 2);
    sym_reach(1);
    sym_obs_u64(0, n);
    if (r) call_free_computed_palette(r, *count);
    free(p); free(want); free(count);
}
#define ENTRY(name) \
    void h_capi_##name(uint64_t c) { name(c); } \
    void h_life_##name(uint64_t c) { uint64_t n = sym_heap_live(); name(c); check(sym_heap_live() == n, 900); }
ENTRY(mock_weights)
ENTRY(mock_palette)
ENTRY(mock_decompose)
ENTRY(mock_images)
ENTRY(real_image)
ENTRY(real_palette)
