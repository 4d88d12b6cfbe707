/* Runtime of the translated programs; shared by CBMC and the native build
   used to validate the translation. */
#include <stdint.h>
#include <stddef.h>
typedef unsigned __int128 vp_u128;
typedef __int128 vp_s128;
typedef char *vp_ptr;
#define VP_ALIGN(n) __attribute__((aligned(n)))

#ifdef __CPROVER__
uint8_t nondet_u8(void);
uint16_t nondet_u16(void);
uint32_t nondet_u32(void);
uint64_t nondet_u64(void);
static uint8_t vp_u8(void) { uint8_t vp_in8 = nondet_u8(); return vp_in8; }
static uint16_t vp_u16(void) { uint16_t vp_in16 = nondet_u16(); return vp_in16; }
static uint32_t vp_u32(void) { uint32_t vp_in32 = nondet_u32(); return vp_in32; }
static uint64_t vp_u64(void) { uint64_t vp_in64 = nondet_u64(); return vp_in64; }
static uint8_t vp_bool(void) { uint8_t vp_in1 = nondet_u8() & 1; return vp_in1; }
#define VP_CHECK(c, id, s) do { __CPROVER_assert(c, s); __CPROVER_assume(c); } while (0)
#define VP_COVER(c, s) __CPROVER_assert(!(c), s)
#define VP_ASSUME(c) __CPROVER_assume(c)
#define VP_UB(c, s) __CPROVER_assert(c, s)
#define VP_STOP() __CPROVER_assume(0)
#define VP_OBSERVE(x) ((void)0)
#define VP_ND_DECL(T) T nondet_##T(void); static T vp_nd_##T(void) { return nondet_##T(); }
#else
uint8_t vp_u8(void); uint16_t vp_u16(void); uint32_t vp_u32(void); uint64_t vp_u64(void); uint8_t vp_bool(void);
void vp_rt_check(int c, const char *s); void vp_rt_assume(int c); void vp_rt_ub(int c, const char *s);
void vp_rt_observe(uint64_t v); void vp_rt_cover(int c, const char *s);
void vp_rt_stop(void);
#define VP_CHECK(c, id, s) vp_rt_check(c, s)
#define VP_COVER(c, s) vp_rt_cover(c, s)
#define VP_ASSUME(c) vp_rt_assume(c)
#define VP_UB(c, s) vp_rt_ub(c, s)
#define VP_STOP() vp_rt_stop()
#define VP_OBSERVE(x) vp_rt_observe(x)
#define VP_ND_DECL(T) static T vp_nd_##T(void) { T r; __builtin_memset(&r, 0xa5, sizeof r); return r; }
#endif

typedef uint32_t vp_u32t;

static uint64_t vp_ctpop(vp_u128 x, unsigned w) {
  uint64_t v = (uint64_t)x, r = 0;
  v = v - ((v >> 1) & 0x5555555555555555ULL);
  v = (v & 0x3333333333333333ULL) + ((v >> 2) & 0x3333333333333333ULL);
  v = (v + (v >> 4)) & 0x0f0f0f0f0f0f0f0fULL;
  v = v + (v >> 8); v = v + (v >> 16); v = v + (v >> 32);
  r = v & 0x7f;
  return r;
}
/* number of zeros below the lowest set bit; w when x == 0 */
static uint64_t vp_cttz(uint64_t x, unsigned w) {
  if (x == 0) return w;
  uint64_t r = 0;
  if ((x & 0xffffffffULL) == 0) { r += 32; x >>= 32; }
  if ((x & 0xffffULL) == 0) { r += 16; x >>= 16; }
  if ((x & 0xffULL) == 0) { r += 8; x >>= 8; }
  if ((x & 0xfULL) == 0) { r += 4; x >>= 4; }
  if ((x & 0x3ULL) == 0) { r += 2; x >>= 2; }
  if ((x & 0x1ULL) == 0) { r += 1; }
  return r;
}
static uint64_t vp_ctlz(uint64_t x, unsigned w) {
  if (x == 0) return w;
  uint64_t r = 0;
  if ((x >> 32) != 0) { r += 32; x >>= 32; }
  if ((x >> 16) != 0) { r += 16; x >>= 16; }
  if ((x >> 8) != 0) { r += 8; x >>= 8; }
  if ((x >> 4) != 0) { r += 4; x >>= 4; }
  if ((x >> 2) != 0) { r += 2; x >>= 2; }
  if ((x >> 1) != 0) { r += 1; }
  return w - 1 - r;
}
static uint16_t vp_bswap16(uint16_t x) { return (uint16_t)((x << 8) | (x >> 8)); }
static uint32_t vp_bswap32(uint32_t x) {
  return (x << 24) | ((x & 0xff00u) << 8) | ((x >> 8) & 0xff00u) | (x >> 24);
}
static uint64_t vp_bswap64(uint64_t x) {
  return ((uint64_t)vp_bswap32((uint32_t)x) << 32) | vp_bswap32((uint32_t)(x >> 32));
}
static uint64_t vp_bitrev(uint64_t x, unsigned w) {
  x = ((x >> 1) & 0x5555555555555555ULL) | ((x & 0x5555555555555555ULL) << 1);
  x = ((x >> 2) & 0x3333333333333333ULL) | ((x & 0x3333333333333333ULL) << 2);
  x = ((x >> 4) & 0x0f0f0f0f0f0f0f0fULL) | ((x & 0x0f0f0f0f0f0f0f0fULL) << 4);
  return vp_bswap64(x) >> (64 - w);
}
static float vp_bits_to_float(uint32_t b) { union { uint32_t u; float f; } x; x.u = b; return x.f; }
static double vp_bits_to_double(uint64_t b) { union { uint64_t u; double f; } x; x.u = b; return x.f; }
static uint32_t vp_float_to_bits(float b) { union { uint32_t u; float f; } x; x.f = b; return x.u; }
static uint64_t vp_double_to_bits(double b) { union { uint64_t u; double f; } x; x.f = b; return x.u; }

/* integers whose store size is not a power of two */
static uint64_t vp_load3(vp_ptr p) { const uint8_t *b = (const uint8_t *)p; return ((uint64_t)b[0] << 0) | ((uint64_t)b[1] << 8) | ((uint64_t)b[2] << 16); }
static void vp_store3(vp_ptr p, uint64_t v) { uint8_t *b = (uint8_t *)p; b[0] = (uint8_t)(v >> 0); b[1] = (uint8_t)(v >> 8); b[2] = (uint8_t)(v >> 16); }
static uint64_t vp_load5(vp_ptr p) { const uint8_t *b = (const uint8_t *)p; return ((uint64_t)b[0] << 0) | ((uint64_t)b[1] << 8) | ((uint64_t)b[2] << 16) | ((uint64_t)b[3] << 24) | ((uint64_t)b[4] << 32); }
static void vp_store5(vp_ptr p, uint64_t v) { uint8_t *b = (uint8_t *)p; b[0] = (uint8_t)(v >> 0); b[1] = (uint8_t)(v >> 8); b[2] = (uint8_t)(v >> 16); b[3] = (uint8_t)(v >> 24); b[4] = (uint8_t)(v >> 32); }
static uint64_t vp_load6(vp_ptr p) { const uint8_t *b = (const uint8_t *)p; return ((uint64_t)b[0] << 0) | ((uint64_t)b[1] << 8) | ((uint64_t)b[2] << 16) | ((uint64_t)b[3] << 24) | ((uint64_t)b[4] << 32) | ((uint64_t)b[5] << 40); }
static void vp_store6(vp_ptr p, uint64_t v) { uint8_t *b = (uint8_t *)p; b[0] = (uint8_t)(v >> 0); b[1] = (uint8_t)(v >> 8); b[2] = (uint8_t)(v >> 16); b[3] = (uint8_t)(v >> 24); b[4] = (uint8_t)(v >> 32); b[5] = (uint8_t)(v >> 40); }
static uint64_t vp_load7(vp_ptr p) { const uint8_t *b = (const uint8_t *)p; return ((uint64_t)b[0] << 0) | ((uint64_t)b[1] << 8) | ((uint64_t)b[2] << 16) | ((uint64_t)b[3] << 24) | ((uint64_t)b[4] << 32) | ((uint64_t)b[5] << 40) | ((uint64_t)b[6] << 48); }
static void vp_store7(vp_ptr p, uint64_t v) { uint8_t *b = (uint8_t *)p; b[0] = (uint8_t)(v >> 0); b[1] = (uint8_t)(v >> 8); b[2] = (uint8_t)(v >> 16); b[3] = (uint8_t)(v >> 24); b[4] = (uint8_t)(v >> 32); b[5] = (uint8_t)(v >> 40); b[6] = (uint8_t)(v >> 48); }

static vp_ptr vp_memmove(vp_ptr d, vp_ptr s, uint64_t n) {
  if ((uint64_t)d <= (uint64_t)s) {
    for (uint64_t i = 0; i < n; ++i) d[i] = s[i];
  } else {
    for (uint64_t i = n; i > 0; --i) d[i - 1] = s[i - 1];
  }
  return d;
}
static vp_ptr vp_memset(vp_ptr d, uint32_t c, uint64_t n) {
  for (uint64_t i = 0; i < n; ++i) d[i] = (char)c;
  return d;
}
static uint32_t vp_memcmp(vp_ptr a, vp_ptr b, uint64_t n) {
  for (uint64_t i = 0; i < n; ++i)
    if (a[i] != b[i]) return (uint8_t)a[i] < (uint8_t)b[i] ? (uint32_t)-1 : 1u;
  return 0;
}
static uint64_t vp_strlen(vp_ptr a) {
  uint64_t n = 0;
  while (a[n]) ++n;
  return n;
}
static vp_ptr vp_memchr(vp_ptr a, uint32_t c, uint64_t n) {
  for (uint64_t i = 0; i < n; ++i)
    if ((uint8_t)a[i] == (uint8_t)c) return a + i;
  return 0;
}
