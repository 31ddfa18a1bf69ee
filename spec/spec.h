/*
 * Independent reference for the takum number format, written from the definition in the takum paper
 * (S D R C M; c + m; l = (-1)^S (c + m); linear: (-1)^S (1 + f) 2^e) and deliberately without look-up tables or
 * floating point.  Only ever analysed statically together with the library (never executed).
 */
#ifndef SPEC_H
#define SPEC_H
#include <stdint.h>
#include <stdbool.h>
#include <math.h>
#include "takum.h"

void __vp_fail(int);
void __vp_assume(_Bool);
void __vp_conc(int64_t);
#define CHECK(c) do { if (!(c)) __vp_fail(__LINE__); } while (0)

typedef __int128 i128;
#define NAR8 INT8_MIN
#define NAR16 INT16_MIN
#define NAR32 INT32_MIN
#define NAR64 INT64_MIN

/* fixed point with 59 fractional bits: c + m of a takum left-aligned in 64 bits */
#define SF 59
static void
spec_cpm_(int64_t t, i128 *out)
{
	uint64_t u = (uint64_t)t;
	int d = (int)((u >> 62) & 1), R = (int)((u >> 59) & 7), r = d ? R : 7 - R;
	uint64_t rest = u & ((UINT64_C(1) << 59) - 1); /* C and M */
	int p = 59 - r;
	int64_t C = (int64_t)(rest >> p);
	uint64_t M = rest & ((UINT64_C(1) << p) - 1);
	int64_t c = d ? ((int64_t)1 << r) - 1 + C : -((int64_t)1 << (r + 1)) + 1 + C;

	*out = (i128)c * ((i128)1 << SF) + (i128)((i128)M << (SF - p));
}
#define spec_cpm(t) ({ i128 v_; spec_cpm_(t, &v_); v_; })

/* l */
#define spec_l(t) ({ int64_t t_ = (t); i128 v_; spec_cpm_(t_, &v_); t_ < 0 ? -v_ : v_; })

/*
 * Round the real takum with sign s and c + m = v * 2^-F to n bits: nearest, ties to even on the bit string,
 * saturating. F <= 100, result as int64 holding an n-bit takum.
 */
static int64_t
spec_encode_(bool s, const i128 *vp, int F, int n)
{
	i128 v = *vp, c, m, T, q, rem, half;
	int r, sh;
	int d;
	i128 one = (i128)1 << F;

	/* saturation in the representable range of the infinite bit string */
	if (v < -(i128)255 * one) {
		return s ? -(((int64_t)1 << (n - 2)) - 1) * 2 - 1 : 1;
	}
	if (v >= (i128)255 * one) {
		return s ? -1 : (((int64_t)1 << (n - 2)) - 1) * 2 + 1;
	}
	c = v >> F;
	m = v - c * one;
	d = c >= 0;
	/* regime: c in [2^r - 1, 2^(r+1) - 2] or [-2^(r+1) + 1, -2^r] */
	for (r = 0; r < 7; r++) {
		if (d ? c <= ((i128)2 << r) - 2 : c >= -((i128)2 << r) + 1) {
			break;
		}
	}
	c -= d ? ((i128)1 << r) - 1 : -((i128)2 << r) + 1;
	/* S D R C M with 5 + r + F bits, sign as two's complement weight */
	T = (i128)(d * 8 + (d ? r : 7 - r)) * ((i128)1 << (r + F)) + c * one + m;
	if (s) {
		T -= (i128)16 * ((i128)1 << (r + F));
	}
	sh = 5 + r + F - n;
	if (sh > 0) {
		q = T >> sh;
		rem = T - q * ((i128)1 << sh);
		half = (i128)1 << (sh - 1);
		if (rem > half) {
			q++;
		} else if (rem == half) {
			if (q & 1) {
				q++;
			}
		}
	} else {
		q = T * ((i128)1 << -sh);
	}
	if (q == 0) {
		q = s ? -1 : 1;
	}
	if (n == 64) {
		if (q == -((i128)1 << 63)) {
			q++;
		} else if (q == ((i128)1 << 63)) {
			q--;
		}
	} else {
		if (q == -((i128)1 << (n - 1))) {
			q++;
		} else if (q == ((i128)1 << (n - 1))) {
			q--;
		}
	}
	return (int64_t)q;
}
#define spec_encode(s, v, F, n) ({ i128 w_ = (v); spec_encode_(s, &w_, F, n); })

#define L8(t) ((int64_t)((uint64_t)(uint8_t)(t) << 56))
#define L16(t) ((int64_t)((uint64_t)(uint16_t)(t) << 48))
#define L32(t) ((int64_t)((uint64_t)(uint32_t)(t) << 32))
#define L64(t) ((int64_t)(t))

#endif
