// a64 runs a statically linked linux/arm64 program (a Go one, without cgo) on linux/amd64: an interpreter of the instructions
// that the Go toolchain and its assembly use. The guest's addresses are the host's, its threads are threads of the host, its
// system calls are the host's. An unknown instruction or system call ends the process with status 98 and says so on stderr.
//
// The code is read from memory for each instruction, so code written at run time is executed as written.
#define _GNU_SOURCE
#include <elf.h>
#include <errno.h>
#include <fcntl.h>
#include <math.h>
#include <pthread.h>
#include <setjmp.h>
#include <signal.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/epoll.h>
#include <sys/mman.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/uio.h>
#include <unistd.h>

typedef uint8_t u8;
typedef uint16_t u16;
typedef uint32_t u32;
typedef uint64_t u64;
typedef int8_t i8;
typedef int16_t i16;
typedef int32_t i32;
typedef int64_t i64;
typedef unsigned __int128 u128;
typedef __int128 i128;

typedef union {
	u8 b[16];
	u16 h[8];
	u32 s[4];
	u64 d[2];
	float f[4];
	double g[2];
	u128 q;
} vreg;

typedef struct cpu {
	u64 x[32]; // x[31] is sp
	u64 pc;
	u32 n, z, c, v;
	vreg w[32];
	u64 tpidr, fpcr, fpsr;
	u64 exaddr, exval, exval2;
	int exsize;
	u64 sigmask;
	volatile u64 pending;
	u64 altsp, altsize;
	u32 altflags;
	int tid;
	u64 ctid;
	sigjmp_buf jb;
	volatile u64 faultaddr;
	volatile int faultsig, faultcode;
	volatile int inhost;
	struct cpu *next;
} cpu;

static __thread cpu *self;
static cpu *cpus;
static pthread_mutex_t cpuslock = PTHREAD_MUTEX_INITIALIZER;

typedef struct {
	u64 handler, flags, restorer, mask;
} ksa;
static ksa sigs[65];

static void die(cpu *c, const char *what, u64 v) {
	fprintf(stderr, "a64: %s %llx at pc %llx (insn %08x) lr %llx sp %llx\n", what, (unsigned long long)v,
		(unsigned long long)c->pc, c->pc > 4096 ? *(u32 *)c->pc : 0, (unsigned long long)c->x[30], (unsigned long long)c->x[31]);
	_exit(98);
}

#define BITS(i, hi, lo) (((i) >> (lo)) & ((1u << ((hi) - (lo) + 1)) - 1))
#define BIT(i, n) (((i) >> (n)) & 1)
static inline i64 sx(u64 v, int bits) { return (i64)(v << (64 - bits)) >> (64 - bits); }
static inline u64 ones(int n) { return n >= 64 ? ~0ull : (1ull << n) - 1; }
static inline u64 ror64(u64 v, int n) { n &= 63; return n ? v >> n | v << (64 - n) : v; }
static inline u32 ror32(u32 v, int n) { n &= 31; return n ? v >> n | v << (32 - n) : v; }

static int decodeMask(u32 n, u32 imms, u32 immr, int is64, u64 *wm, u64 *tm) {
	u32 x = n << 6 | (~imms & 0x3f);
	int len = 31 - __builtin_clz(x ? x : 1);
	if (x == 0 || len < 1) return 0;
	u32 esize = 1u << len, levels = esize - 1;
	u32 S = imms & levels, R = immr & levels, diff = (S - R) & levels;
	u64 welem = ones(S + 1), telem = ones(diff + 1);
	u64 e = R ? (welem >> R | welem << (esize - R)) & ones(esize) : welem;
	u64 w = 0, t = 0;
	for (u32 i = 0; i < 64; i += esize) {
		w |= e << i;
		t |= telem << i;
	}
	if (!is64) { w &= 0xffffffff; t &= 0xffffffff; }
	*wm = w;
	*tm = t;
	return 1;
}

static inline int cond(cpu *c, u32 k) {
	int r;
	switch (k >> 1) {
	case 0: r = c->z; break;
	case 1: r = c->c; break;
	case 2: r = c->n; break;
	case 3: r = c->v; break;
	case 4: r = c->c && !c->z; break;
	case 5: r = c->n == c->v; break;
	case 6: r = c->n == c->v && !c->z; break;
	default: return 1;
	}
	return (k & 1) ? !r : r;
}

static inline u64 addc(cpu *c, u64 a, u64 b, int carry, int is64, int set) {
	if (is64) {
		u128 r = (u128)a + b + carry;
		u64 s = (u64)r;
		if (set) {
			c->n = s >> 63; c->z = s == 0; c->c = (r >> 64) != 0;
			c->v = ((~(a ^ b) & (a ^ s)) >> 63) & 1;
		}
		return s;
	}
	u64 r = (u64)(u32)a + (u32)b + carry;
	u32 s = (u32)r;
	if (set) {
		c->n = s >> 31; c->z = s == 0; c->c = (r >> 32) != 0;
		c->v = ((~((u32)a ^ (u32)b) & ((u32)a ^ s)) >> 31) & 1;
	}
	return s;
}

static inline u64 shiftop(u64 v, int type, int n, int is64) {
	if (is64) switch (type) {
	case 0: return v << n;
	case 1: return v >> n;
	case 2: return (u64)((i64)v >> n);
	default: return ror64(v, n);
	}
	u32 w = (u32)v;
	switch (type) {
	case 0: return (u32)(w << n);
	case 1: return w >> n;
	case 2: return (u32)((i32)w >> n);
	default: return ror32(w, n);
	}
}

static inline u64 extend(u64 v, int opt, int sh) {
	switch (opt) {
	case 0: v = (u8)v; break;
	case 1: v = (u16)v; break;
	case 2: v = (u32)v; break;
	case 3: break;
	case 4: v = (u64)(i64)(i8)v; break;
	case 5: v = (u64)(i64)(i16)v; break;
	case 6: v = (u64)(i64)(i32)v; break;
	default: break;
	}
	return v << sh;
}

#define LD(T, a) (*(volatile T *)(a))
#define ST(T, a, v) (*(volatile T *)(a) = (T)(v))
// register numbers: R is xzr at 31, S is sp at 31
#define R(n) ((n) == 31 ? 0 : c->x[n])
#define SP(n) (c->x[n])
static inline void setR(cpu *c, u32 n, u64 v, int is64) {
	if (n != 31) c->x[n] = is64 ? v : (u32)v;
}
static inline void setSP(cpu *c, u32 n, u64 v, int is64) { c->x[n] = is64 ? v : (u32)v; }

static u64 bitrev(u64 v, int n) {
	u64 r = 0;
	for (int i = 0; i < n; i++) r |= ((v >> i) & 1) << (n - 1 - i);
	return r;
}

static u32 crc(u32 crc, u64 v, int bytes, u32 poly) {
	for (int i = 0; i < bytes; i++) {
		crc ^= (u8)(v >> (8 * i));
		for (int j = 0; j < 8; j++) crc = crc & 1 ? crc >> 1 ^ poly : crc >> 1;
	}
	return crc;
}

static u64 fpimm(u32 imm8, int dbl) {
	u64 a = imm8 >> 7, b = (imm8 >> 6) & 1, r = imm8 & 0x3f;
	if (dbl) return a << 63 | (b ? 0 : 1ull) << 62 | (b ? 0xffull : 0) << 54 | r << 48;
	return a << 31 | (b ? 0 : 1ull) << 30 | (b ? 0x1full : 0) << 25 | r << 19;
}

static void setFP(cpu *c, u32 d, u64 v) { c->w[d].d[0] = v; c->w[d].d[1] = 0; }
static void setD(cpu *c, u32 d, double v) { c->w[d].d[1] = 0; c->w[d].g[0] = v; }
static void setS(cpu *c, u32 d, float v) { c->w[d].d[0] = 0; c->w[d].d[1] = 0; c->w[d].f[0] = v; }

static i64 toint(double v, int bits, int sgn, int mode) {
	if (isnan(v)) return 0;
	switch (mode) {
	case 0: v = nearbyint(v); break;
	case 1: v = ceil(v); break;
	case 2: v = floor(v); break;
	case 3: v = trunc(v); break;
	case 4: v = round(v); break;
	}
	if (sgn) {
		if (bits == 64) {
			if (v >= 9223372036854775808.0) return INT64_MAX;
			if (v <= -9223372036854775808.0) return INT64_MIN;
			return (i64)v;
		}
		if (v >= 2147483648.0) return INT32_MAX;
		if (v <= -2147483648.0) return INT32_MIN;
		return (i32)v;
	}
	if (v <= 0) return 0;
	if (bits == 64) {
		if (v >= 18446744073709551616.0) return -1;
		return (i64)(u64)v;
	}
	if (v >= 4294967296.0) return 0xffffffff;
	return (u32)v;
}

static double rnd(double v, int mode) {
	switch (mode) {
	case 0: return nearbyint(v);
	case 1: return ceil(v);
	case 2: return floor(v);
	case 3: return trunc(v);
	case 4: return round(v);
	}
	return nearbyint(v);
}

static double fmin2(double a, double b) {
	if (isnan(a)) return a;
	if (isnan(b)) return b;
	if (a == 0 && b == 0) return signbit(a) ? a : b;
	return a < b ? a : b;
}
static double fmax2(double a, double b) {
	if (isnan(a)) return a;
	if (isnan(b)) return b;
	if (a == 0 && b == 0) return signbit(a) ? b : a;
	return a > b ? a : b;
}

static void fcmp(cpu *c, double a, double b) {
	if (isnan(a) || isnan(b)) { c->n = 0; c->z = 0; c->c = 1; c->v = 1; }
	else if (a == b) { c->n = 0; c->z = 1; c->c = 1; c->v = 0; }
	else if (a < b) { c->n = 1; c->z = 0; c->c = 0; c->v = 0; }
	else { c->n = 0; c->z = 0; c->c = 1; c->v = 0; }
}

static __attribute__((noinline)) int fpscalar(cpu *c, u32 i) {
	u32 rd = BITS(i, 4, 0), rn = BITS(i, 9, 5), rm = BITS(i, 20, 16), type = BITS(i, 23, 22);
	int dbl = type == 1;
	if (BITS(i, 31, 24) == 0x1f) { // 3 source
		if (type > 1) return 0;
		u32 ra = BITS(i, 14, 10);
		int o1 = BIT(i, 21), o0 = BIT(i, 15);
		if (dbl) {
			double n = c->w[rn].g[0], m = c->w[rm].g[0], a = c->w[ra].g[0];
			setD(c, rd, o1 ? (o0 ? fma(n, m, -a) : fma(-n, m, -a)) : (o0 ? fma(-n, m, a) : fma(n, m, a)));
		} else {
			float n = c->w[rn].f[0], m = c->w[rm].f[0], a = c->w[ra].f[0];
			setS(c, rd, o1 ? (o0 ? fmaf(n, m, -a) : fmaf(-n, m, -a)) : (o0 ? fmaf(-n, m, a) : fmaf(n, m, a)));
		}
		return 1;
	}
	if ((i & 0x7f200000) == 0x1e200000 && BITS(i, 15, 10) == 0) { // int <-> fp
		int sf = BIT(i, 31);
		u32 rmode = BITS(i, 20, 19), op = BITS(i, 18, 16);
		if (op == 6 || op == 7) { // fmov
			if (op == 6) setR(c, rd, type == 2 ? c->w[rn].d[1] : sf ? c->w[rn].d[0] : c->w[rn].s[0], sf);
			else if (type == 2) c->w[rd].d[1] = R(rn);
			else setFP(c, rd, sf ? R(rn) : (u32)R(rn));
			return 1;
		}
		if (type > 1) return 0;
		double v = dbl ? c->w[rn].g[0] : c->w[rn].f[0];
		if (op == 2 || op == 3) {
			u64 s = sf ? R(rn) : op == 2 ? (u64)(i64)(i32)R(rn) : (u32)R(rn);
			if (dbl) setD(c, rd, op == 2 ? (double)(i64)s : (double)s);
			else setS(c, rd, op == 2 ? (float)(i64)s : (float)s);
			return 1;
		}
		if (op == 0 || op == 1) {
			static const int modes[] = {0, 1, 2, 3};
			setR(c, rd, toint(v, sf ? 64 : 32, op == 0, modes[rmode]), sf);
			return 1;
		}
		if (op == 4 || op == 5) {
			setR(c, rd, toint(v, sf ? 64 : 32, op == 4, 4), sf);
			return 1;
		}
		return 0;
	}
	if ((i & 0xff200000) != 0x1e200000) return 0;
	u32 low = BITS(i, 11, 10);
	if (BITS(i, 12, 10) == 4 && BITS(i, 9, 5) == 0) { // fmov imm
		setFP(c, rd, fpimm(BITS(i, 20, 13), dbl));
		return 1;
	}
	if (BITS(i, 13, 10) == 8) { // fcmp
		int zero = BIT(i, 3);
		if (dbl) fcmp(c, c->w[rn].g[0], zero ? 0 : c->w[rm].g[0]);
		else fcmp(c, c->w[rn].f[0], zero ? 0 : c->w[rm].f[0]);
		return 1;
	}
	if (BITS(i, 14, 10) == 16) { // 1 source
		u32 op = BITS(i, 20, 15);
		if (op >= 4 && op <= 7) { // fcvt
			if (op == 5 && type == 0) setD(c, rd, c->w[rn].f[0]);
			else if (op == 4 && type == 1) setS(c, rd, (float)c->w[rn].g[0]);
			else return 0;
			return 1;
		}
		if (dbl) {
			double v = c->w[rn].g[0];
			switch (op) {
			case 0: break;
			case 1: setFP(c, rd, c->w[rn].d[0] & ~(1ull << 63)); return 1;
			case 2: setFP(c, rd, c->w[rn].d[0] ^ 1ull << 63); return 1;
			case 3: v = sqrt(v); break;
			case 8: v = rnd(v, 0); break;
			case 9: v = rnd(v, 1); break;
			case 10: v = rnd(v, 2); break;
			case 11: v = rnd(v, 3); break;
			case 12: v = rnd(v, 4); break;
			case 14: case 15: v = rnd(v, 0); break;
			default: return 0;
			}
			if (op == 0) setFP(c, rd, c->w[rn].d[0]);
			else setD(c, rd, v);
		} else {
			float v = c->w[rn].f[0];
			switch (op) {
			case 0: break;
			case 1: setFP(c, rd, c->w[rn].s[0] & ~(1u << 31)); return 1;
			case 2: setFP(c, rd, c->w[rn].s[0] ^ 1u << 31); return 1;
			case 3: v = sqrtf(v); break;
			case 8: v = rnd(v, 0); break;
			case 9: v = rnd(v, 1); break;
			case 10: v = rnd(v, 2); break;
			case 11: v = rnd(v, 3); break;
			case 12: v = rnd(v, 4); break;
			case 14: case 15: v = rnd(v, 0); break;
			default: return 0;
			}
			if (op == 0) setFP(c, rd, c->w[rn].s[0]);
			else setS(c, rd, v);
		}
		return 1;
	}
	if (low == 1) { // fccmp
		if (cond(c, BITS(i, 15, 12))) {
			if (dbl) fcmp(c, c->w[rn].g[0], c->w[rm].g[0]);
			else fcmp(c, c->w[rn].f[0], c->w[rm].f[0]);
		} else { c->n = BIT(i, 3); c->z = BIT(i, 2); c->c = BIT(i, 1); c->v = BIT(i, 0); }
		return 1;
	}
	if (low == 3) { // fcsel
		u32 k = cond(c, BITS(i, 15, 12)) ? rn : rm;
		setFP(c, rd, dbl ? c->w[k].d[0] : c->w[k].s[0]);
		return 1;
	}
	if (low == 2) { // 2 source
		u32 op = BITS(i, 15, 12);
		if (dbl) {
			double a = c->w[rn].g[0], b = c->w[rm].g[0], r;
			switch (op) {
			case 0: r = a * b; break;
			case 1: r = a / b; break;
			case 2: r = a + b; break;
			case 3: r = a - b; break;
			case 4: case 6: r = fmax2(a, b); break;
			case 5: case 7: r = fmin2(a, b); break;
			case 8: r = -(a * b); break;
			default: return 0;
			}
			setD(c, rd, r);
		} else {
			float a = c->w[rn].f[0], b = c->w[rm].f[0], r;
			switch (op) {
			case 0: r = a * b; break;
			case 1: r = a / b; break;
			case 2: r = a + b; break;
			case 3: r = a - b; break;
			case 4: case 6: r = fmax2(a, b); break;
			case 5: case 7: r = fmin2(a, b); break;
			case 8: r = -(a * b); break;
			default: return 0;
			}
			setS(c, rd, r);
		}
		return 1;
	}
	return 0;
}

static inline u64 elem(const vreg *v, int size, int k) {
	switch (size) {
	case 0: return v->b[k];
	case 1: return v->h[k];
	case 2: return v->s[k];
	default: return v->d[k];
	}
}
static inline void setelem(vreg *v, int size, int k, u64 x) {
	switch (size) {
	case 0: v->b[k] = x; break;
	case 1: v->h[k] = x; break;
	case 2: v->s[k] = x; break;
	default: v->d[k] = x; break;
	}
}

static __attribute__((noinline)) int simd(cpu *c, u32 i) {
	u32 rd = BITS(i, 4, 0), rn = BITS(i, 9, 5), rm = BITS(i, 20, 16);
	int Q = BIT(i, 30), U = BIT(i, 29), size = BITS(i, 23, 22);
	vreg r = {.d = {0, 0}}, n = c->w[rn], m = c->w[rm];
	int nel = (Q ? 16 : 8) >> size, esize = 8 << size;
	u64 mask = ones(esize);
	if (BIT(i, 31)) return 0;
	if (BITS(i, 28, 24) == 0x0e && BIT(i, 21) && BIT(i, 10)) { // three same
		u32 op = BITS(i, 15, 11);
		if (op == 3) { // logical
			vreg d = c->w[rd];
			for (int k = 0; k < 2; k++) switch (U << 2 | size) {
			case 0: r.d[k] = n.d[k] & m.d[k]; break;
			case 1: r.d[k] = n.d[k] & ~m.d[k]; break;
			case 2: r.d[k] = n.d[k] | m.d[k]; break;
			case 3: r.d[k] = n.d[k] | ~m.d[k]; break;
			case 4: r.d[k] = n.d[k] ^ m.d[k]; break;
			case 5: r.d[k] = (n.d[k] & d.d[k]) | (m.d[k] & ~d.d[k]); break;
			case 6: r.d[k] = (d.d[k] & ~m.d[k]) | (n.d[k] & m.d[k]); break;
			case 7: r.d[k] = (d.d[k] & m.d[k]) | (n.d[k] & ~m.d[k]); break;
			}
			if (!Q) r.d[1] = 0;
			c->w[rd] = r;
			return 1;
		}
		for (int k = 0; k < nel; k++) {
			u64 a = elem(&n, size, k), b = elem(&m, size, k), x;
			i64 sa = sx(a, esize), sb = sx(b, esize);
			switch (op) {
			case 6: x = (U ? a > b : sa > sb) ? mask : 0; break;
			case 7: x = (U ? a >= b : sa >= sb) ? mask : 0; break;
			case 0xc: x = U ? (a > b ? a : b) : (u64)(sa > sb ? sa : sb); break;
			case 0xd: x = U ? (a < b ? a : b) : (u64)(sa < sb ? sa : sb); break;
			case 0x10: x = U ? a - b : a + b; break;
			case 0x11: x = U ? (a == b ? mask : 0) : ((a & b) ? mask : 0); break;
			case 0x13: if (U) return 0; x = a * b; break;
			case 0x14: case 0x15: case 0x17: { // pairwise max, min, add
				int h = nel / 2;
				const vreg *s = k < h ? &n : &m;
				u64 p = elem(s, size, 2 * (k % h)), q = elem(s, size, 2 * (k % h) + 1);
				i64 sp = sx(p, esize), sq = sx(q, esize);
				if (op == 0x17) { if (U) return 0; x = p + q; }
				else if (op == 0x14) x = U ? (p > q ? p : q) : (u64)(sp > sq ? sp : sq);
				else x = U ? (p < q ? p : q) : (u64)(sp < sq ? sp : sq);
				break;
			}
			default: return 0;
			}
			setelem(&r, size, k, x & mask);
		}
		c->w[rd] = r;
		return 1;
	}
	if ((i & 0x9f3e0c00) == 0x0e200800) { // two-reg misc
		u32 op = BITS(i, 16, 12);
		if (op == 0 || (op == 1 && !U)) { // rev64, rev32, rev16
			int group = op == 1 ? 2 : U ? 4 : 8;
			int per = group >> size;
			if (per < 1) return 0;
			for (int k = 0; k < nel; k++) setelem(&r, size, k, elem(&n, size, k / per * per + per - 1 - k % per));
		} else if (op == 5 && !U) { // cnt
			if (size) return 0;
			for (int k = 0; k < nel; k++) r.b[k] = __builtin_popcount(n.b[k]);
		} else if (op == 5 && U) {
			for (int k = 0; k < (Q ? 16 : 8); k++) r.b[k] = size ? bitrev(n.b[k], 8) : (u8)~n.b[k];
		} else if (op == 8 || op == 9 || op == 0xa) {
			for (int k = 0; k < nel; k++) {
				i64 v = sx(elem(&n, size, k), esize);
				int t = op == 8 ? (U ? v >= 0 : v > 0) : op == 9 ? (U ? v <= 0 : v == 0) : v < 0;
				setelem(&r, size, k, t ? mask : 0);
			}
		} else if (op == 0xb) {
			for (int k = 0; k < nel; k++) {
				i64 v = sx(elem(&n, size, k), esize);
				setelem(&r, size, k, U ? -v : v < 0 ? -v : v);
			}
		} else if (op == 0x12 && !U) { // xtn
			if (Q) r = c->w[rd];
			int cnt = 8 >> size;
			for (int k = 0; k < cnt; k++) setelem(&r, size, k + (Q ? cnt : 0), elem(&n, size + 1, k));
		} else return 0;
		c->w[rd] = r;
		return 1;
	}
	if ((i & 0x9f3e0c00) == 0x0e300800) { // across lanes
		u32 op = BITS(i, 16, 12);
		if (op == 3) { // saddlv, uaddlv
			u64 s = 0;
			for (int k = 0; k < nel; k++) s += U ? elem(&n, size, k) : (u64)sx(elem(&n, size, k), esize);
			setelem(&r, size + 1, 0, s);
		} else if (op == 0x1b && !U) {
			u64 s = 0;
			for (int k = 0; k < nel; k++) s += elem(&n, size, k);
			setelem(&r, size, 0, s);
		} else if (op == 0xa || op == 0x1a) {
			u64 s = elem(&n, size, 0);
			for (int k = 1; k < nel; k++) {
				u64 e = elem(&n, size, k);
				int more = U ? e > s : sx(e, esize) > sx(s, esize);
				if (op == 0xa ? more : e != s && !more) s = e;
			}
			setelem(&r, size, 0, s);
		} else return 0;
		c->w[rd] = r;
		return 1;
	}
	if ((i & 0xbfe08400) == 0x2e000000) { // ext
		int pos = BITS(i, 14, 11), len = Q ? 16 : 8;
		for (int k = 0; k < len; k++) r.b[k] = k + pos < len ? n.b[k + pos] : m.b[k + pos - len];
		c->w[rd] = r;
		return 1;
	}
	if ((i & 0xbf208c00) == 0x0e000800) { // zip, uzp, trn
		u32 op = BITS(i, 14, 12);
		int h = nel / 2;
		for (int k = 0; k < nel; k++) {
			u64 x;
			switch (op) {
			case 1: case 5: { int j = 2 * k + (op == 5); x = j < nel ? elem(&n, size, j) : elem(&m, size, j - nel); break; }
			case 2: case 6: x = elem(k % 2 ? &m : &n, size, k / 2 * 2 + (op == 6)); break;
			case 3: case 7: x = elem(k % 2 ? &m : &n, size, k / 2 + (op == 7 ? h : 0)); break;
			default: return 0;
			}
			setelem(&r, size, k, x);
		}
		c->w[rd] = r;
		return 1;
	}
	if ((i & 0xbf208c00) == 0x0e000000) { // tbl, tbx
		int len = BITS(i, 14, 13) + 1, tbx = BIT(i, 12);
		if (size) return 0;
		if (tbx) r = c->w[rd];
		if (!Q) r.d[1] = 0;
		for (int k = 0; k < (Q ? 16 : 8); k++) {
			u32 j = m.b[k];
			if (j < 16u * len) r.b[k] = c->w[(rn + j / 16) % 32].b[j % 16];
			else if (!tbx) r.b[k] = 0;
		}
		c->w[rd] = r;
		return 1;
	}
	if ((i & 0x9fe08400) == 0x0e000400) { // dup, ins, umov, smov
		u32 imm5 = BITS(i, 20, 16), imm4 = BITS(i, 14, 11);
		if (!(imm5 & 15)) return 0;
		int sz = __builtin_ctz(imm5), idx = imm5 >> (sz + 1);
		if (U) { // ins element
			vreg d = c->w[rd];
			setelem(&d, sz, idx, elem(&n, sz, imm4 >> sz));
			c->w[rd] = d;
			return 1;
		}
		int cnt = (Q ? 16 : 8) >> sz;
		switch (imm4) {
		case 0: for (int k = 0; k < cnt; k++) setelem(&r, sz, k, elem(&n, sz, idx)); c->w[rd] = r; return 1;
		case 1: for (int k = 0; k < cnt; k++) setelem(&r, sz, k, R(rn)); c->w[rd] = r; return 1;
		case 3: setelem(&c->w[rd], sz, idx, R(rn)); return 1;
		case 5: setR(c, rd, sx(elem(&n, sz, idx), 8 << sz), Q); return 1;
		case 7: setR(c, rd, elem(&n, sz, idx), Q); return 1;
		}
		return 0;
	}
	if ((i & 0x9ff80400) == 0x0f000400) { // modified immediate
		u32 cm = BITS(i, 15, 12), imm = BITS(i, 18, 16) << 5 | BITS(i, 9, 5);
		u64 v;
		int op = U;
		if (BIT(i, 11)) return 0;
		if (cm < 8) { v = (u64)imm << (8 * (cm >> 1)); v |= v << 32; }
		else if (cm < 12) { v = (u64)imm << (8 * ((cm >> 1) & 1)); v |= v << 16; v |= v << 32; }
		else if (cm < 14) { v = cm & 1 ? (u64)imm << 16 | 0xffff : (u64)imm << 8 | 0xff; v |= v << 32; }
		else if (cm == 14) {
			if (op) { v = 0; for (int k = 0; k < 8; k++) if (imm >> k & 1) v |= 0xffull << 8 * k; }
			else v = imm * 0x0101010101010101ull;
			op = 0;
		} else {
			v = fpimm(imm, op);
			if (!op) v |= v << 32;
			op = 0;
		}
		for (int k = 0; k < (Q ? 2 : 1); k++) {
			if (cm < 12 && (cm & 1)) r.d[k] = op ? c->w[rd].d[k] & ~v : c->w[rd].d[k] | v;
			else r.d[k] = op ? ~v : v;
		}
		c->w[rd] = r;
		return 1;
	}
	if ((i & 0x9f800400) == 0x0f000400) { // shift immediate
		u32 immh = BITS(i, 22, 19), imm = BITS(i, 22, 16), op = BITS(i, 15, 11);
		if (!immh) return 0;
		int sz = 31 - __builtin_clz(immh), es = 8 << sz;
		int left = imm - es, right = 2 * es - imm, cnt = (Q ? 16 : 8) >> sz;
		u64 mk = ones(es);
		if (op == 0x14) { // sshll, ushll
			int half = 8 >> sz;
			for (int k = 0; k < half; k++) {
				u64 e = elem(&n, sz, k + (Q ? half : 0));
				setelem(&r, sz + 1, k, (U ? e : (u64)sx(e, es)) << left);
			}
			c->w[rd] = r;
			return 1;
		}
		if (op == 0x10) { // shrn
			if (U) return 0;
			int half = 8 >> sz;
			if (Q) r = c->w[rd];
			for (int k = 0; k < half; k++) setelem(&r, sz, k + (Q ? half : 0), elem(&n, sz + 1, k) >> right);
			c->w[rd] = r;
			return 1;
		}
		for (int k = 0; k < cnt; k++) {
			u64 e = elem(&n, sz, k), d = elem(&c->w[rd], sz, k), x;
			switch (op) {
			case 0: x = U ? (right >= 64 ? 0 : e >> right) : (u64)(sx(e, es) >> (right > 63 ? 63 : right)); break;
			case 2: x = d + (U ? (right >= 64 ? 0 : e >> right) : (u64)(sx(e, es) >> (right > 63 ? 63 : right))); break;
			case 8: if (!U) return 0; x = (d & ~(right >= es ? 0 : mk >> right)) | (right >= es ? 0 : e >> right); break;
			case 10: x = U ? (d & ones(left)) | e << left : e << left; break;
			default: return 0;
			}
			setelem(&r, sz, k, x & mk);
		}
		c->w[rd] = r;
		return 1;
	}
	if ((i & 0x9f200c00) == 0x0e200000) { // three different
		u32 op = BITS(i, 15, 12);
		if (size == 3) return 0;
		int half = 8 >> size, off = Q ? half : 0;
		for (int k = 0; k < half; k++) {
			u64 a = elem(&n, size, k + off), b = elem(&m, size, k + off), d = elem(&c->w[rd], size + 1, k), x;
			u64 wa = elem(&n, size + 1, k);
			if (!U) { a = sx(a, esize); b = sx(b, esize); }
			switch (op) {
			case 0: x = a + b; break;
			case 1: x = wa + b; break;
			case 2: x = a - b; break;
			case 3: x = wa - b; break;
			case 8: x = d + a * b; break;
			case 10: x = d - a * b; break;
			case 12: x = a * b; break;
			default: return 0;
			}
			setelem(&r, size + 1, k, x & ones(2 * esize));
		}
		c->w[rd] = r;
		return 1;
	}
	return 0;
}

static __attribute__((noinline)) int simdscalar(cpu *c, u32 i) {
	u32 rd = BITS(i, 4, 0), rn = BITS(i, 9, 5), rm = BITS(i, 20, 16);
	int U = BIT(i, 29), size = BITS(i, 23, 22);
	if ((i & 0xdf200400) == 0x5e200400 && size == 3) {
		u64 a = c->w[rn].d[0], b = c->w[rm].d[0], x;
		switch (BITS(i, 15, 11)) {
		case 6: x = (U ? a > b : (i64)a > (i64)b) ? ~0ull : 0; break;
		case 7: x = (U ? a >= b : (i64)a >= (i64)b) ? ~0ull : 0; break;
		case 0x10: x = U ? a - b : a + b; break;
		case 0x11: x = U ? (a == b ? ~0ull : 0) : (a & b ? ~0ull : 0); break;
		default: return 0;
		}
		setFP(c, rd, x);
		return 1;
	}
	if ((i & 0xfffffc00) == 0x5ef1b800) { // addp d
		setFP(c, rd, c->w[rn].d[0] + c->w[rn].d[1]);
		return 1;
	}
	if ((i & 0xffe0fc00) == 0x5e000400) { // mov scalar from element
		u32 imm5 = rm;
		if (!(imm5 & 15)) return 0;
		int sz = __builtin_ctz(imm5);
		setFP(c, rd, elem(&c->w[rn], sz, imm5 >> (sz + 1)));
		return 1;
	}
	if ((i & 0xdf9ffc00) == 0x5e01d800 && BITS(i, 20, 16) == 1) { // scvtf, ucvtf scalar
		if (size & 1) setD(c, rd, U ? (double)c->w[rn].d[0] : (double)(i64)c->w[rn].d[0]);
		else setS(c, rd, U ? (float)c->w[rn].s[0] : (float)(i32)c->w[rn].s[0]);
		return 1;
	}
	if ((i & 0xdfbffc00) == 0x5e21d800) {
		if (BIT(i, 22)) setD(c, rd, U ? (double)c->w[rn].d[0] : (double)(i64)c->w[rn].d[0]);
		else setS(c, rd, U ? (float)c->w[rn].s[0] : (float)(i32)c->w[rn].s[0]);
		return 1;
	}
	return 0;
}

static __attribute__((noinline)) int simdmem(cpu *c, u32 i) { // LD1..4, ST1..4: multiple structures, and replicated
	int Q = BIT(i, 30), post = BIT(i, 23), L = BIT(i, 22), size = BITS(i, 11, 10);
	u32 rm = BITS(i, 20, 16), rn = BITS(i, 9, 5), rt = BITS(i, 4, 0);
	u64 a = SP(rn);
	int bytes = Q ? 16 : 8;
	if ((i & 0xbf200000) == 0x0c000000) {
		int n, sel = 1;
		switch (BITS(i, 15, 12)) {
		case 0: n = 4; sel = 4; break;
		case 2: n = 4; break;
		case 4: n = 3; sel = 3; break;
		case 6: n = 3; break;
		case 7: n = 1; break;
		case 8: n = 2; sel = 2; break;
		case 10: n = 2; break;
		default: return 0;
		}
		u64 p = a;
		if (sel == 1) {
			for (int k = 0; k < n; k++, p += bytes) {
				vreg *v = &c->w[(rt + k) % 32];
				if (L) {
					vreg t = {.d = {LD(u64, p), Q ? LD(u64, p + 8) : 0}};
					*v = t;
				} else {
					ST(u64, p, v->d[0]);
					if (Q) ST(u64, p + 8, v->d[1]);
				}
			}
		} else {
			vreg t[4] = {{.d = {0, 0}}, {.d = {0, 0}}, {.d = {0, 0}}, {.d = {0, 0}}};
			int nel = bytes >> size;
			for (int k = 0; k < nel; k++)
				for (int j = 0; j < n; j++, p += 1 << size)
					for (int b = 0; b < 1 << size; b++) {
						if (L) t[j].b[(k << size) + b] = LD(u8, p + b);
						else ST(u8, p + b, c->w[(rt + j) % 32].b[(k << size) + b]);
					}
			if (L) for (int j = 0; j < n; j++) c->w[(rt + j) % 32] = t[j];
		}
		if (post) SP(rn) = a + (rm == 31 ? (u64)(n * bytes) : c->x[rm]);
		return 1;
	}
	if ((i & 0xbf000000) == 0x0d000000) {
		int op = BITS(i, 15, 13), S = BIT(i, 12), n = ((op & 1) << 1 | BIT(i, 21)) + 1, scale = op >> 1;
		u64 p = a;
		if (scale == 3) { // replicate
			if (!L) return 0;
			for (int j = 0; j < n; j++, p += 1 << size) {
				vreg t = {.d = {0, 0}};
				u64 e = size == 0 ? LD(u8, p) : size == 1 ? LD(u16, p) : size == 2 ? LD(u32, p) : LD(u64, p);
				for (int k = 0; k < bytes >> size; k++) setelem(&t, size, k, e);
				c->w[(rt + j) % 32] = t;
			}
			scale = size;
		} else {
			int idx, sz = scale;
			if (scale == 0) idx = Q << 3 | S << 2 | size;
			else if (scale == 1) idx = Q << 2 | S << 1 | size >> 1;
			else if (!(size & 1)) idx = Q << 1 | S;
			else { idx = Q; sz = 3; }
			for (int j = 0; j < n; j++, p += 1 << sz) {
				vreg *v = &c->w[(rt + j) % 32];
				if (L) setelem(v, sz, idx, sz == 0 ? LD(u8, p) : sz == 1 ? LD(u16, p) : sz == 2 ? LD(u32, p) : LD(u64, p));
				else switch (sz) {
				case 0: ST(u8, p, v->b[idx]); break;
				case 1: ST(u16, p, v->h[idx]); break;
				case 2: ST(u32, p, v->s[idx]); break;
				case 3: ST(u64, p, v->d[idx]); break;
				}
			}
			scale = sz;
		}
		if (post) SP(rn) = a + (rm == 31 ? (u64)n << scale : c->x[rm]);
		return 1;
	}
	return 0;
}

static u64 syscall64(cpu *c);
static void *threadMain(void *);

static __attribute__((noinline)) int loadstore(cpu *c, u32 i) {
	u32 rt = BITS(i, 4, 0), rn = BITS(i, 9, 5);
	u32 size = BITS(i, 31, 30);
	int V = BIT(i, 26);
	if ((i & 0x3f000000) == 0x08000000) { // exclusive, ordered, cas
		u32 rs = BITS(i, 20, 16), rt2 = BITS(i, 14, 10);
		int o2 = BIT(i, 23), L = BIT(i, 22), o1 = BIT(i, 21), o0 = BIT(i, 15);
		u64 a = SP(rn);
		if (o2 && o1) { // cas
			u64 old, want = R(rs), new = R(rt);
			switch (size) {
			case 0: { u8 w = want; __atomic_compare_exchange_n((u8 *)a, &w, (u8)new, 0, 5, 5); old = w; break; }
			case 1: { u16 w = want; __atomic_compare_exchange_n((u16 *)a, &w, (u16)new, 0, 5, 5); old = w; break; }
			case 2: { u32 w = want; __atomic_compare_exchange_n((u32 *)a, &w, (u32)new, 0, 5, 5); old = w; break; }
			default: { u64 w = want; __atomic_compare_exchange_n((u64 *)a, &w, new, 0, 5, 5); old = w; break; }
			}
			setR(c, rs, old, 1);
			return 1;
		}
		if (o2) { // ldar, stlr
			if (L) {
				u64 v;
				switch (size) {
				case 0: v = __atomic_load_n((u8 *)a, 5); break;
				case 1: v = __atomic_load_n((u16 *)a, 5); break;
				case 2: v = __atomic_load_n((u32 *)a, 5); break;
				default: v = __atomic_load_n((u64 *)a, 5); break;
				}
				setR(c, rt, v, 1);
			} else {
				u64 v = R(rt);
				switch (size) {
				case 0: __atomic_store_n((u8 *)a, v, 5); break;
				case 1: __atomic_store_n((u16 *)a, v, 5); break;
				case 2: __atomic_store_n((u32 *)a, v, 5); break;
				default: __atomic_store_n((u64 *)a, v, 5); break;
				}
			}
			return 1;
		}
		(void)o0;
		(void)rt2;
		if (o1) return 0; // pairs
		if (L) {
			u64 v;
			switch (size) {
			case 0: v = __atomic_load_n((u8 *)a, 5); break;
			case 1: v = __atomic_load_n((u16 *)a, 5); break;
			case 2: v = __atomic_load_n((u32 *)a, 5); break;
			default: v = __atomic_load_n((u64 *)a, 5); break;
			}
			c->exaddr = a;
			c->exval = v;
			c->exsize = size;
			setR(c, rt, v, 1);
		} else {
			int ok = 0;
			if (c->exaddr == a && c->exsize == (int)size) {
				u64 new = R(rt);
				switch (size) {
				case 0: { u8 w = c->exval; ok = __atomic_compare_exchange_n((u8 *)a, &w, (u8)new, 0, 5, 5); break; }
				case 1: { u16 w = c->exval; ok = __atomic_compare_exchange_n((u16 *)a, &w, (u16)new, 0, 5, 5); break; }
				case 2: { u32 w = c->exval; ok = __atomic_compare_exchange_n((u32 *)a, &w, (u32)new, 0, 5, 5); break; }
				default: { u64 w = c->exval; ok = __atomic_compare_exchange_n((u64 *)a, &w, new, 0, 5, 5); break; }
				}
			}
			c->exaddr = 1;
			setR(c, rs, !ok, 1);
		}
		return 1;
	}
	if ((i & 0x3b000000) == 0x18000000) { // literal
		u64 a = c->pc + sx(BITS(i, 23, 5), 19) * 4;
		if (V) {
			vreg t = {.d = {0, 0}};
			if (size == 0) t.d[0] = LD(u32, a);
			else t.d[0] = LD(u64, a);
			if (size == 2) t.d[1] = LD(u64, a + 8);
			c->w[rt] = t;
		} else if (size == 0) setR(c, rt, LD(u32, a), 0);
		else if (size == 1) setR(c, rt, LD(u64, a), 1);
		else if (size == 2) setR(c, rt, (i64)LD(i32, a), 1);
		return 1;
	}
	if ((i & 0x3a000000) == 0x28000000) { // pairs
		u32 rt2 = BITS(i, 14, 10), mode = BITS(i, 24, 23);
		int L = BIT(i, 22);
		i64 off = sx(BITS(i, 21, 15), 7);
		int scale = V ? 2 + (int)size : 2 + (size >> 1);
		off = (i64)((u64)off << scale);
		u64 base = SP(rn), a = mode == 1 ? base : base + off;
		int bytes = 1 << scale;
		if (V) {
			vreg t = {.d = {0, 0}}, u = t;
			if (L) {
				if (size == 0) { t.d[0] = LD(u32, a); u.d[0] = LD(u32, a + 4); }
				else if (size == 1) { t.d[0] = LD(u64, a); u.d[0] = LD(u64, a + 8); }
				else { t.d[0] = LD(u64, a); t.d[1] = LD(u64, a + 8); u.d[0] = LD(u64, a + 16); u.d[1] = LD(u64, a + 24); }
				c->w[rt] = t;
				c->w[rt2] = u;
			} else {
				t = c->w[rt];
				u = c->w[rt2];
				if (size == 0) { ST(u32, a, t.s[0]); ST(u32, a + 4, u.s[0]); }
				else if (size == 1) { ST(u64, a, t.d[0]); ST(u64, a + 8, u.d[0]); }
				else { ST(u64, a, t.d[0]); ST(u64, a + 8, t.d[1]); ST(u64, a + 16, u.d[0]); ST(u64, a + 24, u.d[1]); }
			}
		} else if (L) {
			u64 p, q;
			if (size == 2) { p = LD(u64, a); q = LD(u64, a + bytes); }
			else if (size == 1) { p = (i64)LD(i32, a); q = (i64)LD(i32, a + bytes); }
			else { p = LD(u32, a); q = LD(u32, a + bytes); }
			setR(c, rt, p, 1);
			setR(c, rt2, q, 1);
		} else {
			if (size == 2) { ST(u64, a, R(rt)); ST(u64, a + bytes, R(rt2)); }
			else { ST(u32, a, R(rt)); ST(u32, a + bytes, R(rt2)); }
		}
		if (mode & 1) SP(rn) = base + off;
		return 1;
	}
	if ((i & 0x3a000000) == 0x38000000) {
		u32 opc = BITS(i, 23, 22);
		u64 base = SP(rn), a, wb = 0;
		int dowb = 0;
		if (BIT(i, 24)) { // unsigned offset
			int scale = V ? (int)(size | (opc & 2) << 1) : (int)size;
			a = base + ((u64)BITS(i, 21, 10) << scale);
		} else if (BIT(i, 21)) {
			u32 k = BITS(i, 11, 10);
			if (k == 0) { // atomics
				if (V) return 0;
				u32 rs = BITS(i, 20, 16), op = BITS(i, 14, 12);
				int o3 = BIT(i, 15);
				u64 v = R(rs), old;
				a = base;
#define RMW(T) { T *p = (T *)a; T o, nw; do { o = __atomic_load_n(p, 5); \
	if (o3) { if (op == 4) { /* ldapr */ nw = o; } else nw = (T)v; } \
	else switch (op) { case 0: nw = o + (T)v; break; case 1: nw = o & ~(T)v; break; case 2: nw = o ^ (T)v; break; case 3: nw = o | (T)v; break; default: return 0; } \
	if (o3 && op == 4) break; } while (!__atomic_compare_exchange_n(p, &o, nw, 0, 5, 5)); old = o; }
				if (o3 && op != 0 && op != 4) return 0;
				switch (size) {
				case 0: RMW(u8) break;
				case 1: RMW(u16) break;
				case 2: RMW(u32) break;
				default: RMW(u64) break;
				}
				setR(c, rt, old, 1);
				return 1;
			}
			if (k != 2) return 0;
			int scale = V ? (int)(size | (opc & 2) << 1) : (int)size;
			a = base + extend(R(BITS(i, 20, 16)), BITS(i, 15, 13), BIT(i, 12) ? scale : 0);
		} else {
			i64 off = sx(BITS(i, 20, 12), 9);
			u32 k = BITS(i, 11, 10);
			if (k == 0) a = base + off;
			else if (k == 1) { a = base; wb = base + off; dowb = 1; }
			else if (k == 3) { a = base + off; wb = a; dowb = 1; }
			else return 0;
		}
		if (V) {
			int scale = size | (opc & 2) << 1;
			if (opc & 1) {
				vreg t = {.d = {0, 0}};
				switch (scale) {
				case 0: t.d[0] = LD(u8, a); break;
				case 1: t.d[0] = LD(u16, a); break;
				case 2: t.d[0] = LD(u32, a); break;
				case 3: t.d[0] = LD(u64, a); break;
				default: t.d[0] = LD(u64, a); t.d[1] = LD(u64, a + 8);
				}
				c->w[rt] = t;
			} else {
				vreg t = c->w[rt];
				switch (scale) {
				case 0: ST(u8, a, t.b[0]); break;
				case 1: ST(u16, a, t.h[0]); break;
				case 2: ST(u32, a, t.s[0]); break;
				case 3: ST(u64, a, t.d[0]); break;
				default: ST(u64, a, t.d[0]); ST(u64, a + 8, t.d[1]);
				}
			}
		} else switch (size << 2 | opc) {
		case 0: ST(u8, a, R(rt)); break;
		case 1: setR(c, rt, LD(u8, a), 1); break;
		case 2: setR(c, rt, (i64)LD(i8, a), 1); break;
		case 3: setR(c, rt, (u32)(i32)LD(i8, a), 1); break;
		case 4: ST(u16, a, R(rt)); break;
		case 5: setR(c, rt, LD(u16, a), 1); break;
		case 6: setR(c, rt, (i64)LD(i16, a), 1); break;
		case 7: setR(c, rt, (u32)(i32)LD(i16, a), 1); break;
		case 8: ST(u32, a, R(rt)); break;
		case 9: setR(c, rt, LD(u32, a), 1); break;
		case 10: setR(c, rt, (i64)LD(i32, a), 1); break;
		case 12: ST(u64, a, R(rt)); break;
		case 13: setR(c, rt, LD(u64, a), 1); break;
		case 14: break; // prfm
		default: return 0;
		}
		if (dowb) SP(rn) = wb;
		return 1;
	}
	if ((i & 0xbe000000) == 0x0c000000) return simdmem(c, i);
	return 0;
}

static __attribute__((noinline)) int dpreg(cpu *c, u32 i) {
	u32 rd = BITS(i, 4, 0), rn = BITS(i, 9, 5), rm = BITS(i, 20, 16);
	int sf = BIT(i, 31);
	u32 top = BITS(i, 28, 24);
	if (top == 0x0a) { // logical shifted
		u64 b = shiftop(R(rm), BITS(i, 23, 22), BITS(i, 15, 10), sf), a = R(rn), r;
		if (BIT(i, 21)) b = ~b;
		switch (BITS(i, 30, 29)) {
		case 0: r = a & b; break;
		case 1: r = a | b; break;
		case 2: r = a ^ b; break;
		default: r = a & b;
			if (!sf) r = (u32)r;
			c->n = sf ? r >> 63 : (r >> 31) & 1;
			c->z = r == 0;
			c->c = c->v = 0;
		}
		setR(c, rd, r, sf);
		return 1;
	}
	if (top == 0x0b) { // add/sub shifted or extended
		int sub = BIT(i, 30), set = BIT(i, 29);
		if (BIT(i, 21)) {
			u64 b = extend(R(rm), BITS(i, 15, 13), BITS(i, 12, 10));
			u64 r = addc(c, SP(rn), sub ? ~b : b, sub, sf, set);
			if (set) setR(c, rd, r, sf);
			else setSP(c, rd, r, sf);
		} else {
			u64 b = shiftop(R(rm), BITS(i, 23, 22), BITS(i, 15, 10), sf);
			setR(c, rd, addc(c, R(rn), sub ? ~b : b, sub, sf, set), sf);
		}
		return 1;
	}
	if (top == 0x1b) { // 3 source
		u32 ra = BITS(i, 14, 10), op = BITS(i, 23, 21);
		int o0 = BIT(i, 15);
		u64 a = R(rn), b = R(rm), d = R(ra), r;
		switch (op << 1 | o0) {
		case 0: r = d + a * b; break;
		case 1: r = d - a * b; break;
		case 2: r = d + (u64)((i64)(i32)a * (i64)(i32)b); break;
		case 3: r = d - (u64)((i64)(i32)a * (i64)(i32)b); break;
		case 4: r = (u64)(((i128)(i64)a * (i64)b) >> 64); break;
		case 10: r = d + (u64)(u32)a * (u32)b; break;
		case 11: r = d - (u64)(u32)a * (u32)b; break;
		case 12: r = (u64)(((u128)a * b) >> 64); break;
		default: return 0;
		}
		setR(c, rd, r, sf);
		return 1;
	}
	if (top != 0x1a) return 0;
	u32 op = BITS(i, 23, 21);
	if (op == 0) { // adc, sbc
		if (BITS(i, 15, 10)) return 0;
		setR(c, rd, addc(c, R(rn), BIT(i, 30) ? ~R(rm) : R(rm), c->c, sf, BIT(i, 29)), sf);
		return 1;
	}
	if (op == 2) { // ccmp
		if (cond(c, BITS(i, 15, 12))) {
			u64 b = BIT(i, 11) ? rm : R(rm);
			int sub = BIT(i, 30);
			addc(c, R(rn), sub ? ~b : b, sub, sf, 1);
		} else { c->n = BIT(i, 3); c->z = BIT(i, 2); c->c = BIT(i, 1); c->v = BIT(i, 0); }
		return 1;
	}
	if (op == 4) { // csel
		u64 r;
		if (cond(c, BITS(i, 15, 12))) r = R(rn);
		else {
			r = R(rm);
			if (BIT(i, 30)) r = ~r;
			if (BIT(i, 10)) r++;
		}
		setR(c, rd, r, sf);
		return 1;
	}
	if (op == 6 && BIT(i, 30)) { // 1 source
		u64 a = R(rn), r;
		if (rm) return 0;
		switch (BITS(i, 15, 10)) {
		case 0: r = bitrev(sf ? a : (u32)a, sf ? 64 : 32); break;
		case 1: r = (a & 0x00ff00ff00ff00ffull) << 8 | ((a >> 8) & 0x00ff00ff00ff00ffull); break;
		case 2: r = sf ? (u64)__builtin_bswap32(a >> 32) << 32 | __builtin_bswap32((u32)a) : __builtin_bswap32((u32)a); break;
		case 3: r = __builtin_bswap64(a); break;
		case 4: r = sf ? (a ? __builtin_clzll(a) : 64) : ((u32)a ? __builtin_clz((u32)a) : 32); break;
		case 5: r = sf ? __builtin_clrsbll(a) : __builtin_clrsb((u32)a); break;
		default: return 0;
		}
		setR(c, rd, r, sf);
		return 1;
	}
	if (op == 6) { // 2 source
		u64 a = R(rn), b = R(rm), r;
		switch (BITS(i, 15, 10)) {
		case 2: r = sf ? (b ? a / b : 0) : ((u32)b ? (u32)a / (u32)b : 0); break;
		case 3:
			if (sf) r = b == 0 ? 0 : (i64)b == -1 ? -a : (u64)((i64)a / (i64)b);
			else r = (u32)b == 0 ? 0 : (i32)b == -1 ? (u32)-(u32)a : (u32)((i32)a / (i32)b);
			break;
		case 8: case 9: case 10: case 11: r = shiftop(a, BITS(i, 11, 10), b & (sf ? 63 : 31), sf); break;
		case 16: r = crc((u32)a, b, 1, 0xedb88320); break;
		case 17: r = crc((u32)a, b, 2, 0xedb88320); break;
		case 18: r = crc((u32)a, b, 4, 0xedb88320); break;
		case 19: r = crc((u32)a, b, 8, 0xedb88320); break;
		case 20: r = crc((u32)a, b, 1, 0x82f63b78); break;
		case 21: r = crc((u32)a, b, 2, 0x82f63b78); break;
		case 22: r = crc((u32)a, b, 4, 0x82f63b78); break;
		case 23: r = crc((u32)a, b, 8, 0x82f63b78); break;
		default: return 0;
		}
		setR(c, rd, r, sf);
		return 1;
	}
	return 0;
}

static __attribute__((noinline)) int dpimm(cpu *c, u32 i) {
	u32 rd = BITS(i, 4, 0), rn = BITS(i, 9, 5);
	int sf = BIT(i, 31);
	switch (BITS(i, 25, 23)) {
	case 0: case 1: { // adr, adrp
		i64 imm = sx((u64)BITS(i, 23, 5) << 2 | BITS(i, 30, 29), 21);
		setR(c, rd, sf ? (c->pc & ~0xfffull) + (imm << 12) : c->pc + imm, 1);
		return 1;
	}
	case 2: { // add, sub
		u64 imm = (u64)BITS(i, 21, 10) << (BIT(i, 22) ? 12 : 0);
		int sub = BIT(i, 30), set = BIT(i, 29);
		u64 r = addc(c, SP(rn), sub ? ~imm : imm, sub, sf, set);
		if (set) setR(c, rd, r, sf);
		else setSP(c, rd, r, sf);
		return 1;
	}
	case 4: { // logical
		u64 w, t, r;
		if (!decodeMask(BIT(i, 22), BITS(i, 15, 10), BITS(i, 21, 16), sf, &w, &t)) return 0;
		switch (BITS(i, 30, 29)) {
		case 0: setSP(c, rd, R(rn) & w, sf); return 1;
		case 1: setSP(c, rd, R(rn) | w, sf); return 1;
		case 2: setSP(c, rd, R(rn) ^ w, sf); return 1;
		}
		r = R(rn) & w;
		if (!sf) r = (u32)r;
		c->n = sf ? r >> 63 : (r >> 31) & 1;
		c->z = r == 0;
		c->c = c->v = 0;
		setR(c, rd, r, sf);
		return 1;
	}
	case 5: { // movn, movz, movk
		int sh = 16 * BITS(i, 22, 21);
		u64 imm = (u64)BITS(i, 20, 5) << sh;
		switch (BITS(i, 30, 29)) {
		case 0: setR(c, rd, ~imm, sf); return 1;
		case 2: setR(c, rd, imm, sf); return 1;
		case 3: setR(c, rd, (R(rd) & ~(0xffffull << sh)) | imm, sf); return 1;
		}
		return 0;
	}
	case 6: { // bitfield
		u32 immr = BITS(i, 21, 16), imms = BITS(i, 15, 10), op = BITS(i, 30, 29);
		u64 w, t;
		if (!decodeMask(BIT(i, 22), imms, immr, sf, &w, &t)) return 0;
		u64 src = R(rn), dst = op == 1 ? R(rd) : 0;
		u64 rot = sf ? ror64(src, immr) : ror32((u32)src, immr);
		u64 bot = (dst & ~w) | (rot & w);
		u64 top = op == 0 ? ((src >> imms) & 1 ? ~0ull : 0) : dst;
		setR(c, rd, (top & ~t) | (bot & t), sf);
		return 1;
	}
	case 7: { // extr
		u32 rm = BITS(i, 20, 16), lsb = BITS(i, 15, 10);
		if (sf) setR(c, rd, lsb ? R(rm) >> lsb | R(rn) << (64 - lsb) : R(rm), 1);
		else setR(c, rd, lsb ? (u32)R(rm) >> lsb | (u32)R(rn) << (32 - lsb) : R(rm), 0);
		return 1;
	}
	}
	return 0;
}

// the layout of a signal frame of linux/arm64
#define FRAME_UC 128
#define UC_MASK (8 + 8 + 24)
#define UC_MC 176
#define MC_SIZE (8 + 31 * 8 + 8 + 8 + 8 + 8 + 4096)
#define FRAME_SIZE ((FRAME_UC + UC_MC + MC_SIZE + 15) / 16 * 16)

static u64 trampoline; // code that calls rt_sigreturn, as the vDSO has

static u64 pstate(cpu *c) { return (u64)c->n << 31 | (u64)c->z << 30 | (u64)c->c << 29 | (u64)c->v << 28; }

static __attribute__((noinline)) void deliver(cpu *c, int sig, int code, u64 addr) {
	ksa *s = &sigs[sig];
	if (s->handler <= 1) {
		if (s->handler == 1 || sig == SIGURG || sig == SIGCHLD || sig == SIGWINCH) {
			if (code <= 0) return;
		}
		if (code > 0) die(c, "fatal signal", sig);
		signal(sig, SIG_DFL);
		kill(getpid(), sig);
		return;
	}
	u64 sp = c->x[31];
	int onalt = c->altsize && sp > c->altsp && sp <= c->altsp + c->altsize;
	if (s->flags & 0x08000000 && c->altsize && !onalt) sp = c->altsp + c->altsize;
	u64 f = (sp - FRAME_SIZE - 64) & ~15ull;
	memset((void *)f, 0, FRAME_SIZE);
	*(i32 *)f = sig;
	*(i32 *)(f + 8) = code;
	*(u64 *)(f + 16) = addr;
	if (code <= 0) { *(i32 *)(f + 16) = getpid(); *(i32 *)(f + 20) = 0; }
	u64 uc = f + FRAME_UC;
	*(u64 *)(uc + 16) = c->altsp;
	*(u32 *)(uc + 24) = c->altsize ? 0 : 2;
	*(u64 *)(uc + 32) = c->altsize;
	*(u64 *)(uc + UC_MASK) = c->sigmask;
	u64 mc = uc + UC_MC;
	*(u64 *)mc = addr;
	memcpy((void *)(mc + 8), c->x, 31 * 8);
	*(u64 *)(mc + 8 + 31 * 8) = c->x[31];
	*(u64 *)(mc + 8 + 32 * 8) = c->pc;
	*(u64 *)(mc + 8 + 33 * 8) = pstate(c);
	// the SIMD registers, as in struct fpsimd_context
	u64 fp = mc + 288;
	*(u32 *)fp = 0x46508001;
	*(u32 *)(fp + 4) = 528;
	memcpy((void *)(fp + 16), c->w, 512);
	c->sigmask |= s->mask | (s->flags & 0x40000000 ? 0 : 1ull << (sig - 1));
	c->x[0] = sig;
	c->x[1] = f;
	c->x[2] = uc;
	c->x[31] = f;
	c->x[30] = s->flags & 0x04000000 ? s->restorer : trampoline;
	c->pc = s->handler;
}

static __attribute__((noinline)) void guestReturn(cpu *c) {
	u64 f = c->x[31], uc = f + FRAME_UC, mc = uc + UC_MC;
	c->sigmask = *(u64 *)(uc + UC_MASK);
	memcpy(c->x, (void *)(mc + 8), 31 * 8);
	c->x[31] = *(u64 *)(mc + 8 + 31 * 8);
	c->pc = *(u64 *)(mc + 8 + 32 * 8);
	u64 p = *(u64 *)(mc + 8 + 33 * 8);
	c->n = p >> 31 & 1; c->z = p >> 30 & 1; c->c = p >> 29 & 1; c->v = p >> 28 & 1;
	memcpy(c->w, (void *)(mc + 288 + 16), 512);
	c->exaddr = 1;
}

static void onfault(int sig, siginfo_t *si, void *uc) {
	(void)uc;
	cpu *c = self;
	if (!c || c->inhost) {
		fprintf(stderr, "a64: signal %d in the emulator itself, address %p, pc %llx\n", sig, si->si_addr, c ? (unsigned long long)c->pc : 0);
		_exit(98);
	}
	c->faultaddr = (u64)si->si_addr;
	c->faultsig = sig;
	c->faultcode = si->si_code > 0 && si->si_code < 128 ? si->si_code : 1;
	siglongjmp(c->jb, 1);
}

// a signal of the host, made to interrupt system calls
static void onkick(int sig) { (void)sig; }
#define KICK SIGUSR2

static void post(cpu *c, int sig) {
	__atomic_fetch_or(&c->pending, 1ull << (sig - 1), __ATOMIC_SEQ_CST);
	syscall(SYS_tgkill, getpid(), c->tid, KICK);
}

// signals of other processes go to the first thread
static void onexternal(int sig) {
	if (cpus) __atomic_fetch_or(&cpus->pending, 1ull << (sig - 1), __ATOMIC_SEQ_CST);
}

static void __attribute__((noinline)) loop(cpu *c) {
	for (;;) {
		__asm__ volatile("" ::: "memory");
		if (__builtin_expect((c->pending & ~c->sigmask) != 0, 0)) {
			u64 p = c->pending & ~c->sigmask;
			int sig = __builtin_ctzll(p) + 1;
			__atomic_fetch_and(&c->pending, ~(1ull << (sig - 1)), __ATOMIC_SEQ_CST);
			deliver(c, sig, -6, 0);
		}
		u64 pc = c->pc;
		if (__builtin_expect(pc & 3, 0)) {
			deliver(c, SIGBUS, 1, pc);
			continue;
		}
		u32 i = LD(u32, pc);
		int ok = 1;
		// the most frequent instructions first
		u32 rd = i & 31, rn = BITS(i, 9, 5);
#define N4 { c->pc = pc + 4; continue; }
#define SET(v) { u64 t_ = (v); if (rd != 31) c->x[rd] = t_; N4 }
#define IMM12 ((u64)BITS(i, 21, 10))
#define IMM7 ((u64)(sx(BITS(i, 21, 15), 7) * 8))
#define RM BITS(i, 20, 16)
#define PAIRLD(a, wb) { u64 a_ = (a), p_ = LD(u64, a_), q_ = LD(u64, a_ + 8); u32 r2 = BITS(i, 14, 10); if (rd != 31) c->x[rd] = p_; if (r2 != 31) c->x[r2] = q_; wb; N4 }
#define PAIRST(a, wb) { u64 a_ = (a); u32 r2 = BITS(i, 14, 10); ST(u64, a_, R(rd)); ST(u64, a_ + 8, R(r2)); wb; N4 }
		switch (i >> 22) {
		case 0x3e5: SET(LD(u64, SP(rn) + IMM12 * 8))
		case 0x3e4: ST(u64, SP(rn) + IMM12 * 8, R(rd)); N4
		case 0x2e5: SET(LD(u32, SP(rn) + IMM12 * 4))
		case 0x2e4: ST(u32, SP(rn) + IMM12 * 4, R(rd)); N4
		case 0x2e6: SET((i64)LD(i32, SP(rn) + IMM12 * 4))
		case 0x1e5: SET(LD(u16, SP(rn) + IMM12 * 2))
		case 0x1e4: ST(u16, SP(rn) + IMM12 * 2, R(rd)); N4
		case 0x0e5: SET(LD(u8, SP(rn) + IMM12))
		case 0x0e4: ST(u8, SP(rn) + IMM12, R(rd)); N4
		case 0x0e6: SET((i64)LD(i8, SP(rn) + IMM12))
		case 0x244: c->x[rd] = SP(rn) + IMM12; N4
		case 0x344: c->x[rd] = SP(rn) - IMM12; N4
		case 0x3c4: SET(addc(c, SP(rn), ~IMM12, 1, 1, 1))
		case 0x3ac: if (BIT(i, 21)) break; SET(addc(c, R(rn), ~(R(RM) << BITS(i, 15, 10)), 1, 1, 1))
		case 0x22c: if (BIT(i, 21)) break; SET(R(rn) + (R(RM) << BITS(i, 15, 10)))
		case 0x32c: if (BIT(i, 21)) break; SET(R(rn) - (R(RM) << BITS(i, 15, 10)))
		case 0x2a8: if (BIT(i, 21)) break; SET(R(rn) | (R(RM) << BITS(i, 15, 10)))
		case 0x228: if (BIT(i, 21)) break; SET(R(rn) & (R(RM) << BITS(i, 15, 10)))
		case 0x328: if (BIT(i, 21)) break; SET(R(rn) ^ (R(RM) << BITS(i, 15, 10)))
		case 0x34a: case 0x34b: SET((u64)BITS(i, 20, 5) << (16 * BITS(i, 22, 21)))
		case 0x2a4: PAIRST(SP(rn) + IMM7, )
		case 0x2a6: PAIRST(SP(rn) + IMM7, c->x[rn] = a_)
		case 0x2a5: PAIRLD(SP(rn) + IMM7, )
		case 0x2a3: PAIRLD(SP(rn), c->x[rn] = a_ + IMM7)
		case 0x240 ... 0x243: case 0x2c0 ... 0x2c3: case 0x340 ... 0x343: case 0x3c0 ... 0x3c3:
			SET((pc & ~0xfffull) + (sx((u64)BITS(i, 23, 5) << 2 | BITS(i, 30, 29), 21) << 12))
		case 0x250 ... 0x25f: c->x[30] = pc + 4; // bl
			/* fallthrough */
		case 0x050 ... 0x05f: c->pc = pc + sx(i & 0x3ffffff, 26) * 4; continue;
		case 0x150 ... 0x153: if (BIT(i, 4)) break; c->pc = pc + (cond(c, i & 15) ? sx(BITS(i, 23, 5), 19) * 4 : 4); continue;
		case 0x358: if ((i & 0xfffffc1f) == 0xd61f0000) { c->pc = R(rn); continue; } if ((i & 0xfffffc1f) == 0xd63f0000) { u64 to = R(rn); c->x[30] = pc + 4; c->pc = to; continue; } break;
		case 0x359: if ((i & 0xfffffc1f) == 0xd65f0000) { c->pc = R(rn); continue; } break;
		case 0x3e0: { // str x: unscaled, post, pre, register
			u32 k = BITS(i, 11, 10);
			i64 off = sx(BITS(i, 20, 12), 9);
			if (BIT(i, 21)) {
				if ((i & 0xec00) != 0x6800) break;
				ST(u64, SP(rn) + (R(RM) << (BIT(i, 12) * 3)), R(rd)); N4
			}
			if (k == 0) { ST(u64, SP(rn) + off, R(rd)); N4 }
			if (k == 3) { u64 a = SP(rn) + off; ST(u64, a, R(rd)); SP(rn) = a; N4 }
			break;
		}
		case 0x3e1: { // ldr x
			u32 k = BITS(i, 11, 10);
			i64 off = sx(BITS(i, 20, 12), 9);
			if (BIT(i, 21)) {
				if ((i & 0xec00) != 0x6800) break;
				SET(LD(u64, SP(rn) + (R(RM) << (BIT(i, 12) * 3))))
			}
			if (k == 0) SET(LD(u64, SP(rn) + off))
			if (k == 1) { u64 v = LD(u64, SP(rn)); SP(rn) += off; SET(v) }
			break;
		}
		case 0x2d0 ... 0x2d3: c->pc = pc + (R(rd) == 0 ? sx(BITS(i, 23, 5), 19) * 4 : 4); continue;
		case 0x2d4 ... 0x2d7: c->pc = pc + (R(rd) != 0 ? sx(BITS(i, 23, 5), 19) * 4 : 4); continue;
		}
		switch (BITS(i, 28, 25)) {
		case 8: case 9: ok = dpimm(c, i); break;
		case 4: case 6: case 12: case 14: ok = loadstore(c, i); break;
		case 5: case 13: ok = dpreg(c, i); break;
		case 7: case 15:
			if (BITS(i, 28, 24) == 0x1e || BITS(i, 28, 24) == 0x1f) {
				if (BIT(i, 30)) ok = simdscalar(c, i);
				else ok = fpscalar(c, i);
			} else ok = simd(c, i);
			break;
		case 10: case 11: {
			u32 top = i >> 24;
			if ((i & 0x7c000000) == 0x14000000) { // b, bl
				if (BIT(i, 31)) c->x[30] = pc + 4;
				c->pc = pc + sx(i & 0x3ffffff, 26) * 4;
				continue;
			}
			if ((i & 0x7e000000) == 0x34000000) { // cbz
				u64 v = R(BITS(i, 4, 0));
				if (!BIT(i, 31)) v = (u32)v;
				if ((v == 0) != BIT(i, 24)) { c->pc = pc + sx(BITS(i, 23, 5), 19) * 4; continue; }
				break;
			}
			if ((i & 0x7e000000) == 0x36000000) { // tbz
				int b = BIT(i, 31) << 5 | BITS(i, 23, 19);
				if (((R(BITS(i, 4, 0)) >> b) & 1) == BIT(i, 24)) { c->pc = pc + sx(BITS(i, 18, 5), 14) * 4; continue; }
				break;
			}
			if (top == 0x54 && !BIT(i, 4)) { // b.cond
				if (cond(c, i & 15)) { c->pc = pc + sx(BITS(i, 23, 5), 19) * 4; continue; }
				break;
			}
			if ((i & 0xff9ffc1f) == 0xd61f0000) { // br, blr, ret
				u64 to = R(BITS(i, 9, 5));
				u32 op = BITS(i, 22, 21);
				if (op == 3) { ok = 0; break; }
				if (op == 1) c->x[30] = pc + 4;
				c->pc = to;
				continue;
			}
			if ((i & 0xffe0001f) == 0xd4000001) { // svc
				c->pc = pc + 4;
				if (c->x[8] == 139) { guestReturn(c); continue; }
				c->inhost = 1;
				u64 r = syscall64(c);
				c->inhost = 0;
				c->x[0] = r;
				continue;
			}
			if ((i & 0xffe0001f) == 0xd4200000) { // brk
				deliver(c, SIGTRAP, 1, pc);
				continue;
			}
			if ((i & 0xffff0000) == 0xd5030000) { // hints, barriers
				if (BITS(i, 15, 12) == 3) {
					if (BITS(i, 7, 5) == 2) c->exaddr = 1;
					else __sync_synchronize();
				}
				break;
			}
			if ((i & 0xfff00000) == 0xd5300000) { // mrs
				u32 reg = BITS(i, 19, 5);
				u64 v;
				switch (reg) {
				case 0x5e82: v = c->tpidr; break;           // TPIDR_EL0
				case 0x5e83: v = 0; break;
				case 0x5f00: v = 62500000; break;           // CNTFRQ_EL0
				case 0x5f02: case 0x5f01: { struct timespec t; clock_gettime(CLOCK_MONOTONIC, &t); v = (u64)t.tv_sec * 62500000 + t.tv_nsec / 16; break; }
				case 0x5801: v = 0x8444c004; break;         // CTR_EL0
				case 0x5807: v = 4; break;                  // DCZID_EL0
				case 0x5a10: v = pstate(c); break;          // NZCV
				case 0x5a20: v = c->fpcr; break;
				case 0x5a21: v = c->fpsr; break;
				case 0x4000: v = 0x410fd070; break;         // MIDR_EL1
				default: v = 0; if (BITS(i, 19, 16) == 8) break; ok = 0;
				}
				if (ok) setR(c, BITS(i, 4, 0), v, 1);
				break;
			}
			if ((i & 0xfff00000) == 0xd5100000) { // msr
				u64 v = R(BITS(i, 4, 0));
				switch (BITS(i, 19, 5)) {
				case 0x5e82: c->tpidr = v; break;
				case 0x5a10: c->n = v >> 31 & 1; c->z = v >> 30 & 1; c->c = v >> 29 & 1; c->v = v >> 28 & 1; break;
				case 0x5a20: c->fpcr = v; break;
				case 0x5a21: c->fpsr = v; break;
				default: ok = 0;
				}
				break;
			}
			if ((i & 0xfff80000) == 0xd5080000) { // sys
				u32 op = BITS(i, 18, 5);
				if (op == 0x1ba1) { // dc zva
					u64 a = R(BITS(i, 4, 0)) & ~63ull;
					for (int k = 0; k < 8; k++) ST(u64, a + 8 * k, 0);
				}
				break; // cache maintenance
			}
			ok = 0;
			break;
		}
		default: ok = 0;
		}
		if (__builtin_expect(!ok, 0)) {
			if (BITS(i, 31, 16) == 0) { deliver(c, SIGILL, 1, pc); continue; } // udf
			die(c, "unknown instruction", i);
		}
		c->pc = pc + 4;
	}
}

static void run(cpu *c) {
	if (sigsetjmp(c->jb, 0)) deliver(c, c->faultsig, c->faultcode, c->faultaddr);
	loop(c);
}

typedef struct {
	u64 dev, ino;
	u32 mode, nlink, uid, gid;
	u64 rdev, pad1;
	i64 size;
	i32 blksize, pad2;
	i64 blocks;
	i64 atime, atimens, mtime, mtimens, ctime, ctimens;
	u32 unused[2];
} gstat;

static void tostat(struct stat *s, gstat *g) {
	memset(g, 0, sizeof *g);
	g->dev = s->st_dev; g->ino = s->st_ino; g->mode = s->st_mode; g->nlink = s->st_nlink;
	g->uid = s->st_uid; g->gid = s->st_gid; g->rdev = s->st_rdev; g->size = s->st_size;
	g->blksize = s->st_blksize; g->blocks = s->st_blocks;
	g->atime = s->st_atim.tv_sec; g->atimens = s->st_atim.tv_nsec;
	g->mtime = s->st_mtim.tv_sec; g->mtimens = s->st_mtim.tv_nsec;
	g->ctime = s->st_ctim.tv_sec; g->ctimens = s->st_ctim.tv_nsec;
}

static int oflags(u64 f) {
	int r = f & ~(u64)(0200000 | 0400000 | 040000 | 0100000);
	if (f & 040000) r |= O_DIRECTORY;
	if (f & 0100000) r |= O_NOFOLLOW;
	if (f & 0200000) r |= O_DIRECT;
	return r;
}

static char exe[4097];

static u64 ret(long r) { return r == -1 ? (u64)-(i64)errno : (u64)r; }

// the page size that programs see: A64_PAGE, a multiple of the host's
static u64 pgsize = 4096;

static u64 roundpg(u64 n) { return (n + pgsize - 1) & ~(pgsize - 1); }

static long mapPages(u64 a, u64 n, u64 prot, u64 flags, u64 fd, u64 off) {
	n = roundpg(n);
	if (pgsize == 4096 || !n) return syscall(SYS_mmap, a, n, prot, flags, fd, off);
	if (off & (pgsize - 1) || ((flags & MAP_FIXED) && (a & (pgsize - 1)))) {
		errno = EINVAL;
		return -1;
	}
	if (flags & MAP_FIXED) return syscall(SYS_mmap, a, n, prot, flags, fd, off);
	if (a && !(a & (pgsize - 1))) {
		long r = syscall(SYS_mmap, a, n, prot, flags, fd, off);
		if (r == -1 || r == (long)a) return r;
		syscall(SYS_munmap, r, n);
	}
	long r = syscall(SYS_mmap, 0, n + pgsize, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
	if (r == -1) return r;
	u64 at = roundpg(r);
	if (at > (u64)r) syscall(SYS_munmap, r, at - r);
	if (r + pgsize > at) syscall(SYS_munmap, at + n, r + pgsize - at);
	return syscall(SYS_mmap, at, n, prot, (flags & ~0x100000ul) | MAP_FIXED, fd, off);
}

static u64 syscall64(cpu *c) {
	u64 *x = c->x;
	u64 a = x[0], b = x[1], d = x[2], e = x[3], f = x[4], g = x[5];
#define CALL(n) return ret(syscall(n, a, b, d, e, f, g))
	switch (x[8]) {
	case 17: CALL(SYS_getcwd);
	case 19: CALL(SYS_eventfd2);
	case 20: CALL(SYS_epoll_create1);
	case 21: { // epoll_ctl
		struct epoll_event ev = {0};
		if (d && e) { memcpy(&ev.events, (void *)e, 4); memcpy(&ev.data, (void *)(e + 8), 8); }
		(void)f;
		return ret(syscall(SYS_epoll_ctl, a, b, d, &ev));
	}
	case 22: { // epoll_pwait
		struct epoll_event ev[128];
		int max = d > 128 ? 128 : (int)d;
		long r = syscall(SYS_epoll_pwait, a, ev, max, e, 0, 8);
		for (long k = 0; k < r; k++) { memcpy((void *)(b + 16 * k), &ev[k].events, 4); memcpy((void *)(b + 16 * k + 8), &ev[k].data, 8); }
		return ret(r);
	}
	case 23: CALL(SYS_dup);
	case 24: CALL(SYS_dup3);
	case 25: CALL(SYS_fcntl);
	case 29: CALL(SYS_ioctl);
	case 34: CALL(SYS_mkdirat);
	case 35: CALL(SYS_unlinkat);
	case 38: CALL(SYS_renameat);
	case 46: CALL(SYS_ftruncate);
	case 48: CALL(SYS_faccessat);
	case 49: CALL(SYS_chdir);
	case 56: return ret(syscall(SYS_openat, a, b, oflags(d), e));
	case 57: CALL(SYS_close);
	case 59: return ret(syscall(SYS_pipe2, a, oflags(b)));
	case 61: CALL(SYS_getdents64);
	case 62: CALL(SYS_lseek);
	case 63: CALL(SYS_read);
	case 64: CALL(SYS_write);
	case 65: CALL(SYS_readv);
	case 66: CALL(SYS_writev);
	case 67: CALL(SYS_pread64);
	case 68: CALL(SYS_pwrite64);
	case 73: CALL(SYS_ppoll);
	case 78: // the program is the guest's
		if (strcmp((char *)b, "/proc/self/exe") == 0) {
			u64 n = strlen(exe);
			if (n > e) n = e;
			memcpy((void *)d, exe, n);
			return n;
		}
		CALL(SYS_readlinkat);
	case 79: { struct stat s; long r = fstatat((int)a, (char *)b, &s, (int)e); if (r == 0) tostat(&s, (gstat *)d); return ret(r); }
	case 80: { struct stat s; long r = fstat((int)a, &s); if (r == 0) tostat(&s, (gstat *)b); return ret(r); }
	case 93: { // exit
		if (c->ctid) { *(volatile u32 *)c->ctid = 0; syscall(SYS_futex, c->ctid, 1, 1, 0, 0, 0); }
		pthread_mutex_lock(&cpuslock);
		for (cpu **p = &cpus; *p; p = &(*p)->next) if (*p == c) { *p = c->next; break; }
		pthread_mutex_unlock(&cpuslock);
		self = 0;
		pthread_exit(0);
	}
	case 94: _exit((int)a);
	case 96: c->ctid = a; return (u64)c->tid;
	case 98: CALL(SYS_futex);
	case 99: return 0;
	case 101: CALL(SYS_nanosleep);
	case 103: CALL(SYS_setitimer);
	case 107: return (u64)-38; // timer_create
	case 113: CALL(SYS_clock_gettime);
	case 115: CALL(SYS_clock_nanosleep);
	case 122: CALL(SYS_sched_setaffinity);
	case 123: CALL(SYS_sched_getaffinity);
	case 124: CALL(SYS_sched_yield);
	case 129: if (b == 0) CALL(SYS_kill); if ((int)a == getpid()) { post(c, (int)b); return 0; } CALL(SYS_kill);
	case 130: case 131: {
		int tid = (int)(x[8] == 130 ? a : b), sig = (int)(x[8] == 130 ? b : d);
		long r = -3;
		pthread_mutex_lock(&cpuslock);
		for (cpu *p = cpus; p; p = p->next) if (p->tid == tid) { if (sig) post(p, sig); r = 0; break; }
		pthread_mutex_unlock(&cpuslock);
		return (u64)r;
	}
	case 132: { // sigaltstack
		if (b) { *(u64 *)b = c->altsp; *(u64 *)(b + 8) = c->altsize ? 0 : 2; *(u64 *)(b + 16) = c->altsize; }
		if (a) {
			if (*(u32 *)(a + 8) & 2) c->altsp = c->altsize = 0;
			else { c->altsp = *(u64 *)a; c->altsize = *(u64 *)(a + 16); }
		}
		return 0;
	}
	case 134: { // rt_sigaction
		if (a < 1 || a > 64) return (u64)-22;
		ksa old = sigs[a];
		if (b) {
			if (a == SIGKILL || a == SIGSTOP) return (u64)-22;
			sigs[a] = *(ksa *)b;
			if (a == SIGTERM || a == SIGINT || a == SIGQUIT || a == SIGHUP || a == SIGPROF || a == SIGALRM || a == SIGUSR1) {
				u64 h = sigs[a].handler;
				signal((int)a, h == 0 ? SIG_DFL : h == 1 ? SIG_IGN : onexternal);
			}
			if (a == SIGPIPE) signal(SIGPIPE, SIG_IGN);
		}
		if (d) *(ksa *)d = old;
		return 0;
	}
	case 135: { // rt_sigprocmask
		u64 old = c->sigmask;
		if (b) {
			u64 m = *(u64 *)b;
			if (a == 0) c->sigmask |= m;
			else if (a == 1) c->sigmask &= ~m;
			else c->sigmask = m;
			c->sigmask &= ~(1ull << (SIGKILL - 1) | 1ull << (SIGSTOP - 1));
		}
		if (d) *(u64 *)d = old;
		return 0;
	}
	case 160: { long r = syscall(SYS_uname, a); if (r == 0) strcpy((char *)a + 4 * 65, "aarch64"); return ret(r); }
	case 163: CALL(SYS_getrlimit);
	case 165: CALL(SYS_getrusage);
	case 167: return 0; // prctl
	case 169: CALL(SYS_gettimeofday);
	case 172: return (u64)getpid();
	case 173: return (u64)getppid();
	case 174: case 175: return (u64)getuid();
	case 176: case 177: return (u64)getgid();
	case 178: return (u64)c->tid;
	case 179: CALL(SYS_sysinfo);
	case 215: return a & (pgsize - 1) ? (u64)-22 : ret(syscall(SYS_munmap, a, roundpg(b)));
	case 220: { // clone
		if ((a & 0x50f00) != 0x50f00) return (u64)-38;
		cpu *n = aligned_alloc(64, (sizeof(cpu) + 63) / 64 * 64);
		memcpy(n, c, sizeof *n);
		n->x[0] = 0;
		n->x[31] = b;
		n->altsp = n->altsize = 0;
		n->pending = 0;
		n->tid = 0;
		n->ctid = 0;
		n->inhost = 0;
		n->exaddr = 1;
		if (a & 0x80000) n->tpidr = e;
		pthread_t t;
		pthread_attr_t at;
		pthread_attr_init(&at);
		pthread_attr_setstacksize(&at, 256 << 10);
		pthread_attr_setdetachstate(&at, PTHREAD_CREATE_DETACHED);
		if (pthread_create(&t, &at, threadMain, n)) return (u64)-11;
		while (!__atomic_load_n(&n->tid, __ATOMIC_SEQ_CST)) sched_yield();
		return (u64)n->tid;
	}
	case 222: return ret(mapPages(a, b, d, e, f, g));
	case 226: return a & (pgsize - 1) ? (u64)-22 : ret(syscall(SYS_mprotect, a, roundpg(b), d));
	case 232: CALL(SYS_mincore);
	case 233: return a & (pgsize - 1) ? (u64)-22 : ret(syscall(SYS_madvise, a, roundpg(b), d));
	case 261: CALL(SYS_prlimit64);
	case 278: CALL(SYS_getrandom);
	case 425: case 426: case 427: case 434: case 435: case 436: case 439: return (u64)-38;
	}
	fprintf(stderr, "a64: system call %llu(%llx, %llx, %llx)\n", (unsigned long long)x[8], (unsigned long long)a, (unsigned long long)b, (unsigned long long)d);
	if (getenv("A64_TRACE")) {
		u64 fp = x[29];
		for (int k = 0; k < 20 && fp; k++) { fprintf(stderr, "  lr %llx\n", (unsigned long long)*(u64 *)(fp + 8)); fp = *(u64 *)fp; }
	}
	die(c, "unknown system call", x[8]);
	return 0;
}

static void threadInit(void) {
	stack_t st = {.ss_size = 64 << 10};
	st.ss_sp = mmap(0, st.ss_size, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANON, -1, 0);
	sigaltstack(&st, 0);
}

static void *threadMain(void *p) {
	cpu *c = p;
	self = c;
	threadInit();
	pthread_mutex_lock(&cpuslock);
	cpu **q = &cpus;
	while (*q) q = &(*q)->next;
	c->next = 0;
	*q = c;
	pthread_mutex_unlock(&cpuslock);
	__atomic_store_n(&c->tid, (int)syscall(SYS_gettid), __ATOMIC_SEQ_CST);
	run(c);
	return 0;
}

int main(int argc, char **argv, char **envp) {
	if (argc < 2) { fprintf(stderr, "a64 PROGRAM ARGS...\n"); return 98; }
	if (getenv("A64_PAGE")) pgsize = strtoull(getenv("A64_PAGE"), 0, 10);
	int fd = open(argv[1], O_RDONLY);
	Elf64_Ehdr eh;
	if (fd < 0 || read(fd, &eh, sizeof eh) != sizeof eh || memcmp(eh.e_ident, "\177ELF", 4) || eh.e_machine != EM_AARCH64 || eh.e_type != ET_EXEC) {
		fprintf(stderr, "a64: %s is no static program for arm64\n", argv[1]);
		return 98;
	}
	if (!realpath(argv[1], exe)) return 98;
	u64 phdr = 0;
	for (int k = 0; k < eh.e_phnum; k++) {
		Elf64_Phdr ph;
		if (pread(fd, &ph, sizeof ph, eh.e_phoff + k * sizeof ph) != sizeof ph) return 98;
		if (ph.p_type != PT_LOAD) continue;
		u64 start = ph.p_vaddr & ~4095ull, end = (ph.p_vaddr + ph.p_memsz + 4095) & ~4095ull;
		int prot = (ph.p_flags & PF_R ? PROT_READ : 0) | (ph.p_flags & PF_W ? PROT_WRITE : 0) | (ph.p_flags & PF_X ? PROT_EXEC : 0);
		// file backed where there is a file, as by the kernel: /proc/self/maps then looks as usual
		u64 fend = (ph.p_vaddr + ph.p_filesz + 4095) & ~4095ull;
		if (fend > start && mmap((void *)start, fend - start, prot, MAP_PRIVATE | MAP_FIXED_NOREPLACE, fd, ph.p_offset & ~4095ull) == MAP_FAILED) { perror("a64: mmap"); return 98; }
		if (end > fend && mmap((void *)fend, end - fend, prot, MAP_PRIVATE | MAP_FIXED_NOREPLACE | MAP_ANON, -1, 0) == MAP_FAILED) { perror("a64: mmap"); return 98; }
		if (roundpg(end) > end && mmap((void *)end, roundpg(end) - end, prot, MAP_PRIVATE | MAP_FIXED_NOREPLACE | MAP_ANON, -1, 0) == MAP_FAILED) { perror("a64: mmap"); return 98; }
		if (ph.p_memsz > ph.p_filesz && (ph.p_flags & PF_W)) memset((void *)(ph.p_vaddr + ph.p_filesz), 0, fend - (ph.p_vaddr + ph.p_filesz));
		if (ph.p_offset <= eh.e_phoff && eh.e_phoff < ph.p_offset + ph.p_filesz) phdr = ph.p_vaddr + eh.e_phoff - ph.p_offset;
	}
	close(fd);
	struct sigaction sa = {0};
	sa.sa_sigaction = onfault;
	sa.sa_flags = SA_SIGINFO | SA_ONSTACK | SA_NODEFER;
	sigaction(SIGSEGV, &sa, 0);
	sigaction(SIGBUS, &sa, 0);
	sa.sa_flags = 0;
	sa.sa_handler = onkick;
	sigaction(KICK, &sa, 0);

	u32 *tr = mmap(0, 4096, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANON, -1, 0);
	tr[0] = 0xd2801168; // mov x8, #139
	tr[1] = 0xd4000001; // svc #0
	trampoline = (u64)tr;
	u64 size = 8 << 20;
	u64 sp = (u64)mmap(0, size, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANON, -1, 0) + size - 4096;
	u64 *rnd = (u64 *)sp;
	rnd[0] = 0x123456789abcdef1ull ^ (u64)getpid() << 20;
	rnd[1] = 0xfedcba987654321ull;
	int nenv = 0;
	while (envp[nenv]) nenv++;
	int words = 1 + (argc - 1) + 1 + nenv + 1 + 2 * 10;
	u64 *s = (u64 *)((sp - words * 8) & ~15ull), *top = s;
	*s++ = argc - 1;
	for (int k = 1; k < argc; k++) *s++ = (u64)argv[k];
	*s++ = 0;
	for (int k = 0; k < nenv; k++) *s++ = (u64)envp[k];
	*s++ = 0;
	u64 aux[] = {AT_PHDR, phdr, AT_PHENT, 56, AT_PHNUM, eh.e_phnum, AT_PAGESZ, pgsize, AT_ENTRY, eh.e_entry, AT_HWCAP, 3, AT_RANDOM, (u64)rnd, AT_SECURE, 0, AT_NULL, 0};
	memcpy(s, aux, sizeof aux);
	threadInit();
	cpu *c = aligned_alloc(64, (sizeof(cpu) + 63) / 64 * 64);
	memset(c, 0, sizeof *c);
	c->x[31] = (u64)top;
	c->pc = eh.e_entry;
	c->tid = getpid();
	c->exaddr = 1;
	cpus = c;
	self = c;
	run(c);
}
