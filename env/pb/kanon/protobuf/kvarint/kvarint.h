// Stand-in for the kvarint submodule, which is not present: base-128 variable-length integers.
#pragma once
#include <stddef.h>
#include <stdint.h>
enum { KVARINT_OK, KVARINT_DECODE_BUF_INVALID, KVARINT_DECODE_BUF_SHORT };
struct kvarint_buf32_t { uint8_t buf[5]; uint8_t len; };
static inline void kvarint_encode32(uint32_t v, kvarint_buf32_t *b) { b->len = 0; while (v >= 128) { b->buf[b->len++] = (uint8_t)(v | 128); v >>= 7; } b->buf[b->len++] = (uint8_t)v; }
static inline int kvarint_decode32(void const *p, size_t n, size_t *len, uint32_t *v) { uint8_t const *u = (uint8_t const *)p; uint32_t r = 0; for (size_t i = 0; i < 5; i++) { if (i == n) return KVARINT_DECODE_BUF_SHORT; if (i == 4 && (u[i] & 0xf0)) return KVARINT_DECODE_BUF_INVALID; r |= (uint32_t)(u[i] & 127) << (7 * i); if (!(u[i] & 128)) { *len = i + 1; *v = r; return KVARINT_OK; } } return KVARINT_DECODE_BUF_INVALID; }
