/* C prelude of the extracted code: fixed-width types, IR intrinsics, models of the few external
   functions the extracted code may call. */
typedef unsigned char u8; typedef unsigned short u16; typedef unsigned int u32; typedef unsigned long long u64;
typedef unsigned __int128 u128; typedef signed char s8; typedef short s16; typedef int s32; typedef long long s64; typedef __int128 s128;
typedef u8* ptr_t;
void* malloc(__CPROVER_size_t); void free(void*);
_Bool __CPROVER_get_may(void*, const char*);

/* ---- frame of an active loop contract */
int vp_lp, vp_bad, vp_mk; ptr_t vp_mp[4]; u64 vp_mn[4];
static inline void vp_wr(ptr_t p, u64 n) {
  if (!vp_lp) return;
  for (int k = 0; k < 4; k++)
    if (k < vp_mk && __CPROVER_same_object(p, vp_mp[k]) && p >= vp_mp[k] && p + n <= vp_mp[k] + vp_mn[k]) return;
  vp_bad = 1; }

/* ---- integer intrinsics: defined from first principles, by bit enumeration, without loops over data */
static inline u8 vp_ctpop8(u8 x) { x = x - ((x >> 1) & 0x55); x = (x & 0x33) + ((x >> 2) & 0x33); return (x + (x >> 4)) & 0x0f; }
static inline u16 vp_ctpop16(u16 x) { return (u16)vp_ctpop8((u8)x) + (u16)vp_ctpop8((u8)(x >> 8)); }
static inline u32 vp_ctpop32(u32 x) { return (u32)vp_ctpop16((u16)x) + (u32)vp_ctpop16((u16)(x >> 16)); }
static inline u64 vp_ctpop64(u64 x) { return (u64)vp_ctpop32((u32)x) + (u64)vp_ctpop32((u32)(x >> 32)); }
static inline u128 vp_ctpop128(u128 x) { return (u128)vp_ctpop64((u64)x) + (u128)vp_ctpop64((u64)(x >> 64)); }
static inline u8 vp_ctlz8(u8 x) { u8 n = 0; if (!x) return 8; if (!(x >> 4)) { n += 4; x <<= 4; } if (!(x >> 6)) { n += 2; x <<= 2; } if (!(x >> 7)) n += 1; return n; }
static inline u16 vp_ctlz16(u16 x) { return (x >> 8) ? vp_ctlz8((u8)(x >> 8)) : (u16)(8 + vp_ctlz8((u8)x)); }
static inline u32 vp_ctlz32(u32 x) { return (x >> 16) ? vp_ctlz16((u16)(x >> 16)) : (u32)(16 + vp_ctlz16((u16)x)); }
static inline u64 vp_ctlz64(u64 x) { return (x >> 32) ? vp_ctlz32((u32)(x >> 32)) : (u64)(32 + vp_ctlz32((u32)x)); }
static inline u128 vp_ctlz128(u128 x) { return (x >> 64) ? vp_ctlz64((u64)(x >> 64)) : (u128)(64 + vp_ctlz64((u64)x)); }
static inline u8 vp_cttz8(u8 x) { u8 n = 0; if (!x) return 8; if (!(x & 15)) { n += 4; x >>= 4; } if (!(x & 3)) { n += 2; x >>= 2; } if (!(x & 1)) n += 1; return n; }
static inline u16 vp_cttz16(u16 x) { return (u8)x ? vp_cttz8((u8)x) : (u16)(8 + vp_cttz8((u8)(x >> 8))); }
static inline u32 vp_cttz32(u32 x) { return (u16)x ? vp_cttz16((u16)x) : (u32)(16 + vp_cttz16((u16)(x >> 16))); }
static inline u64 vp_cttz64(u64 x) { return (u32)x ? vp_cttz32((u32)x) : (u64)(32 + vp_cttz32((u32)(x >> 32))); }
static inline u128 vp_cttz128(u128 x) { return (u64)x ? vp_cttz64((u64)x) : (u128)(64 + vp_cttz64((u64)(x >> 64))); }
static inline u16 vp_bswap16(u16 x) { return (u16)((x >> 8) | (x << 8)); }
static inline u32 vp_bswap32(u32 x) { return (x >> 24) | ((x >> 8) & 0xff00u) | ((x << 8) & 0xff0000u) | (x << 24); }
static inline u64 vp_bswap64(u64 x) { return ((u64)vp_bswap32((u32)x) << 32) | vp_bswap32((u32)(x >> 32)); }
static inline u128 vp_bswap128(u128 x) { return ((u128)vp_bswap64((u64)x) << 64) | vp_bswap64((u64)(x >> 64)); }
static inline u8 vp_bitreverse8(u8 x) { x = (u8)((x >> 4) | (x << 4)); x = (u8)(((x >> 2) & 0x33) | ((x & 0x33) << 2)); return (u8)(((x >> 1) & 0x55) | ((x & 0x55) << 1)); }
static inline u16 vp_bitreverse16(u16 x) { return (u16)(((u16)vp_bitreverse8((u8)x) << 8) | vp_bitreverse8((u8)(x >> 8))); }
static inline u32 vp_bitreverse32(u32 x) { return ((u32)vp_bitreverse16((u16)x) << 16) | vp_bitreverse16((u16)(x >> 16)); }
static inline u64 vp_bitreverse64(u64 x) { return ((u64)vp_bitreverse32((u32)x) << 32) | vp_bitreverse32((u32)(x >> 32)); }
static inline u128 vp_bitreverse128(u128 x) { return ((u128)vp_bitreverse64((u64)x) << 64) | vp_bitreverse64((u64)(x >> 64)); }

/* ---- floating point intrinsics */
union vp_ff { float f; u32 i; }; union vp_dd { double f; u64 i; };
static inline float vp_fabs_float(float x) { union vp_ff u; u.f = x; u.i &= 0x7fffffffu; return u.f; }
static inline double vp_fabs_double(double x) { union vp_dd u; u.f = x; u.i &= 0x7fffffffffffffffULL; return u.f; }
static inline _Float16 vp_fabs_half(_Float16 x) { return (_Float16)vp_fabs_float((float)x); }
static inline float vp_copysign_float(float x, float y) { union vp_ff u, v; u.f = x; v.f = y; u.i = (u.i & 0x7fffffffu) | (v.i & 0x80000000u); return u.f; }
static inline double vp_copysign_double(double x, double y) { union vp_dd u, v; u.f = x; v.f = y; u.i = (u.i & 0x7fffffffffffffffULL) | (v.i & 0x8000000000000000ULL); return u.f; }
float sqrtf(float); double sqrt(double); float floorf(float); double floor(double); float ceilf(float); double ceil(double);
float __CPROVER_uninterpreted_sqrtf(float); double __CPROVER_uninterpreted_sqrt(double);
static inline float vp_sqrt_float(float x) { return __CPROVER_uninterpreted_sqrtf(x); }
static inline double vp_sqrt_double(double x) { return __CPROVER_uninterpreted_sqrt(x); }
double __CPROVER_round_to_integral(int rm, double d);
float vp_rtif(float x, int up) {
  union vp_ff u; u.f = x; u32 e = (u.i >> 23) & 255u;
  if (e >= 150u) return x;              /* integral, infinite or NaN */
  s32 i = (s32)x; float t = (float)i;   /* |x| < 2^23: the conversion is exact */
  if (up) { if (t < x) t = t + 1.0f; } else { if (t > x) t = t - 1.0f; }
  union vp_ff v; v.f = t; v.i = (v.i & 0x7fffffffu) | (u.i & 0x80000000u); return v.f; }
double vp_rtid(double x, int up) {
  union vp_dd u; u.f = x; u32 e = (u32)((u.i >> 52) & 2047u);
  if (e >= 1075u) return x;
  s64 i = (s64)x; double t = (double)i;
  if (up) { if (t < x) t = t + 1.0; } else { if (t > x) t = t - 1.0; }
  union vp_dd v; v.f = t; v.i = (v.i & 0x7fffffffffffffffULL) | (u.i & 0x8000000000000000ULL); return v.f; }
static inline float vp_floor_float(float x) { return vp_rtif(x, 0); }
static inline float vp_ceil_float(float x) { return vp_rtif(x, 1); }
static inline double vp_floor_double(double x) { return vp_rtid(x, 0); }
static inline double vp_ceil_double(double x) { return vp_rtid(x, 1); }
static inline _Float16 vp_floor_half(_Float16 x) { return (_Float16)vp_rtif((float)x, 0); }
static inline _Float16 vp_ceil_half(_Float16 x) { return (_Float16)vp_rtif((float)x, 1); }
float __CPROVER_uninterpreted_fma_f(float, float, float); double __CPROVER_uninterpreted_fma_d(double, double, double);
static inline float vp_fma_float(float a, float b, float c) { return __CPROVER_uninterpreted_fma_f(a, b, c); }
static inline double vp_fma_double(double a, double b, double c) { return __CPROVER_uninterpreted_fma_d(a, b, c); }
#define VP_UF2(T, n) T __CPROVER_uninterpreted_##n(T, T); static inline T vp_uf_##n(T a, T b) { return __CPROVER_uninterpreted_##n(a, b); }
#define VP_UF2C(T, n) T __CPROVER_uninterpreted_##n(T, T); static inline T vp_uf_##n(T a, T b) { T r = __CPROVER_uninterpreted_##n(a, b); __CPROVER_assume(r == __CPROVER_uninterpreted_##n(b, a) || r != r); return r; }
VP_UF2C(float, fmul_float) VP_UF2(float, fdiv_float) VP_UF2C(float, fadd_float) VP_UF2(float, fsub_float)
VP_UF2C(double, fmul_double) VP_UF2(double, fdiv_double) VP_UF2C(double, fadd_double) VP_UF2(double, fsub_double)

#define VP_UF1(n) float __CPROVER_uninterpreted_##n##f(float); double __CPROVER_uninterpreted_##n##d(double);
VP_UF1(sin) VP_UF1(cos) VP_UF1(tan) VP_UF1(asin) VP_UF1(acos) VP_UF1(atan) VP_UF1(exp) VP_UF1(log) VP_UF1(cbrt)
float __CPROVER_uninterpreted_atan2f(float, float); double __CPROVER_uninterpreted_atan2d(double, double);
float __CPROVER_uninterpreted_powf(float, float); double __CPROVER_uninterpreted_powd(double, double);
float __CPROVER_uninterpreted_fmodf(float, float); double __CPROVER_uninterpreted_fmodd(double, double);
static inline float vp_sin_float(float x) { return __CPROVER_uninterpreted_sinf(x); } static inline double vp_sin_double(double x) { return __CPROVER_uninterpreted_sind(x); }
static inline float vp_cos_float(float x) { return __CPROVER_uninterpreted_cosf(x); } static inline double vp_cos_double(double x) { return __CPROVER_uninterpreted_cosd(x); }
/* ---- memory */
static void vp_memmove(ptr_t d, ptr_t s, u64 n) {
  if (n == 0) return;
  if (__CPROVER_POINTER_OBJECT(d) == __CPROVER_POINTER_OBJECT(s) && __CPROVER_POINTER_OFFSET(d) > __CPROVER_POINTER_OFFSET(s)) { for (u64 i = n; i-- > 0;) d[i] = s[i]; }
  else { for (u64 i = 0; i < n; i++) d[i] = s[i]; } }
/* blocks of any size, without unrolling (opt bulk=1): a copy is exact at the watched offset, counted from the start of the copy and
   from the start of the destination's allocation; the contract chooses the offset arbitrarily beforehand and reads no other byte */
static u64 vp_g_watch; ptr_t vp_g_at, vp_g_base;
static void x_vp_watch(u64 i) { vp_g_watch = i; }
static u64 vp_abs(ptr_t d) { ptr_t b = vp_g_at && __CPROVER_POINTER_OBJECT(d) == __CPROVER_POINTER_OBJECT(vp_g_at) ? vp_g_at : d - __CPROVER_POINTER_OFFSET(d); return vp_g_watch - (u64)(d - b); }
static void vp_memmove_bulk(ptr_t d, ptr_t s, u64 n, int apart) {
  if (n == 0) return;
  __CPROVER_assert(__CPROVER_r_ok(s, n), "vp:mem:block copy reads inside a live object");
  __CPROVER_assert(__CPROVER_w_ok(d, n), "vp:mem:block copy writes inside a live object");
  if (apart) __CPROVER_assert(__CPROVER_POINTER_OBJECT(d) != __CPROVER_POINTER_OBJECT(s) || __CPROVER_POINTER_OFFSET(d) + n <= __CPROVER_POINTER_OFFSET(s) || __CPROVER_POINTER_OFFSET(s) + n <= __CPROVER_POINTER_OFFSET(d), "vp:mem:memcpy of overlapping blocks");
  u64 a = vp_abs(d); u8 t = 0, u = 0; if (vp_g_watch < n) t = s[vp_g_watch];
  if (a != vp_g_watch && a < n) u = s[a];
  if (vp_g_watch < n) d[vp_g_watch] = t;
  if (a != vp_g_watch && a < n) d[a] = u; }
static void vp_memset_bulk(ptr_t d, u8 v, u64 n) { if (n == 0) return; __CPROVER_assert(__CPROVER_w_ok(d, n), "vp:mem:block fill writes inside a live object"); u64 a = vp_abs(d); if (vp_g_watch < n) d[vp_g_watch] = v; if (a < n) d[a] = v; }
static void vp_memset(ptr_t d, u8 v, u64 n) { for (u64 i = 0; i < n; i++) d[i] = v; }

/* ---- symbolic inputs: every call draws an arbitrary value; the counterexample reader follows vp_log_* */
u64 vp_log_lo, vp_log_hi;
#define VP_ND(T, n) static inline T vp_nd_##n(void) { T v; vp_log_hi = (u64)((u128)v >> 64); vp_log_lo = (u64)v; return v; }
static u8 x_vp_u8(void) { u8 v; vp_log_hi = 0; vp_log_lo = v; return v; }
static u16 x_vp_u16(void) { u16 v; vp_log_hi = 0; vp_log_lo = v; return v; }
static u32 x_vp_u32(void) { u32 v; vp_log_hi = 0; vp_log_lo = v; return v; }
static u64 x_vp_u64(void) { u64 v; vp_log_hi = 0; vp_log_lo = v; return v; }
/* ---- heap: ghost count of live blocks; aligned_alloc by its contract (null, or a block at a multiple of the alignment
        and, when placement is tracked, possibly of no more than that) */
u64 vp_g_live, vp_g_allocs; u8 vp_g_place;
static u64 x_vp_live(void) { return vp_g_live; }
static u64 x_vp_allocs(void) { return vp_g_allocs; }
static void x_vp_place(void) { vp_g_place = 1; }
static void vp_release(ptr_t p) { if (p) { vp_g_live--; if (vp_g_at && p == vp_g_at) { vp_g_at = (ptr_t)0; free(vp_g_base); } else free(p); } }
static ptr_t vp_aligned(u64 a, u64 n)
{
	__CPROVER_assert(a != 0 && (a & (a - 1)) == 0, "vp:aligned_alloc called with an invalid alignment");
	if (n >= ((u64)1 << 40)) return (ptr_t)0;
	vp_g_live++; vp_g_allocs++;
	if (!vp_g_place || vp_g_at || a >= ((u64)1 << 40)) { ptr_t p = malloc(n); __CPROVER_assume(p != (ptr_t)0); return p; }
	u64 off = a; ptr_t p = malloc(off + n); __CPROVER_assume(p != (ptr_t)0);
	vp_g_base = p; vp_g_at = p + off; return p + off;
}
static ptr_t x_vp_buf(u64 n) { return malloc(n); }

u32 __CPROVER_uninterpreted_fold32(u64); u64 __CPROVER_uninterpreted_fold64(u64); u64 __CPROVER_uninterpreted_fold128l(u64); u64 __CPROVER_uninterpreted_fold128h(u64);
u32 __CPROVER_uninterpreted_mul32(u32, u32); u64 __CPROVER_uninterpreted_mul64(u64, u64);
