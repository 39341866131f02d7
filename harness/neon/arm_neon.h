// stand-in for the NEON header, in terms of the vector extension of gcc and clang: lets the NEON code path of the library run on any machine
#pragma once
typedef float float32_t;
typedef float float32x4_t __attribute__ ((vector_size (16)));
static inline float32x4_t vmulq_f32 (float32x4_t a, float32x4_t b) { return a * b; }
static inline float32x4_t vaddq_f32 (float32x4_t a, float32x4_t b) { return a + b; }
static inline float32x4_t vsubq_f32 (float32x4_t a, float32x4_t b) { return a - b; }
static inline float32x4_t vmlaq_f32 (float32x4_t a, float32x4_t b, float32x4_t c) { return a + b * c; }
static inline float32x4_t vfmaq_f32 (float32x4_t a, float32x4_t b, float32x4_t c) { return a + b * c; }
static inline float32x4_t vdupq_n_f32 (float x) { return float32x4_t { x, x, x, x }; }
static inline float32x4_t vld1q_f32 (const float *p) { float32x4_t v; __builtin_memcpy (&v, p, 16); return v; }
static inline void vst1q_f32 (float *p, float32x4_t v) { __builtin_memcpy (p, &v, 16); }
static inline float vaddvq_f32 (float32x4_t v) { return v[0] + v[1] + v[2] + v[3]; }
#define vgetq_lane_f32(v, k) ((v)[k])
