// A tour over the public interface: every stop draws inputs inside the documented domain from its own generator, puts the
// objects at minimally aligned addresses in blocks no larger than they are, and hands what a user may look at to a sink.
// Thread safe: no shared state. Used by the memory, thread and instruction-set checks.
#pragma once
#include "vt.hpp"
#include "math/vector.hpp"
#include "math/simd/vector/float.hpp"
#include "math/matrix.hpp"
#include "math/simd/matrix/float.hpp"
#include "math/matrix/projection.hpp"
#include "math/matrix/transform.hpp"
#include "math/quaternion.hpp"
#include "math/aabb.hpp"
#include "math/angles.hpp"
#include "math/brdf.hpp"
#include "math/bvh.hpp"
#include "math/color-space.hpp"
#include "math/color.hpp"
#include "math/common.hpp"
#include "math/flags.hpp"
#include "math/hex.hpp"
#include "math/ibl.hpp"
#include "math/line.hpp"
#include "math/packed-vector.hpp"
#include "math/plane.hpp"
#include "math/ray.hpp"
#include "math/sh.hpp"
#include "math/sphere.hpp"
#include "math/tone-mapping.hpp"
#include "math/triangle.hpp"
#include "math/version.hpp"
#include <functional>
#include <memory>
#include <new>

namespace tourns
{
enum class Flag8 : uint8_t { none = 0, a = 1, b = 2, c = 128 }; enum class Flag64 : uint64_t { none = 0, a = 1, b = 1ull << 40 };
}
namespace math { }
namespace tourns { using namespace math; DECLARE_ENUM_CLASS_FLAG_OPERATORS(Flag8) DECLARE_ENUM_CLASS_FLAG_OPERATORS(Flag64) }

namespace tourns
{
using namespace math;
typedef vt::Rng R;
struct Rec { double v, tol; }; // tol < 0: must be equal exactly

struct Sink
{
	uint64_t hash = 1, n = 0; std::vector<Rec>* log = nullptr; volatile uint32_t odd = 0;
	void put(uint64_t b, double v, double tol)
	{
		if (b & 1) odd = odd + 1; // a decision on every observed value: memcheck reports one that was never written
		if (b == 0x8000000000000001ull) odd = odd + 2;
		hash = vt::hashMix(hash, b); n++; if (log) log->push_back({ v, tol });
	}
	void u(uint64_t v) { put(v, (double)v, -1); }
	void x(float v) { put(vt::isnanf_(v) ? 0x7fc00000u : vt::bits(v), vt::isnanf_(v) ? NAN : v, -1); }          // exact
	void f(float v, double rel, double abs) { put(vt::isnanf_(v) ? 0x7fc00000u : vt::bits(v), v, rel * std::fabs(v) + abs); } // up to rounding
	void m(float v, double scale) { f(v, 0, scale * 1e-6); }
	void x(f32x4 v) { x(v.getX()); x(v.getY()); x(v.getZ()); x(v.getW()); }
	void x3(f32x4 v) { x(v.getX()); x(v.getY()); x(v.getZ()); }
	void m(f32x4 v, double s) { m(v.getX(), s); m(v.getY(), s); m(v.getZ(), s); m(v.getW(), s); }
	void m3(f32x4 v, double s) { m(v.getX(), s); m(v.getY(), s); m(v.getZ(), s); }
	void f(f32x4 v, double r, double a) { f(v.getX(), r, a); f(v.getY(), r, a); f(v.getZ(), r, a); f(v.getW(), r, a); }
	void x(float2 v) { x(v.x); x(v.y); } void x(float3 v) { x(v.x); x(v.y); x(v.z); } void x(float4 v) { x(v.x); x(v.y); x(v.z); x(v.w); }
	void m(float2 v, double s) { m(v.x, s); m(v.y, s); } void m(float3 v, double s) { m(v.x, s); m(v.y, s); m(v.z, s); } void m(float4 v, double s) { m(v.x, s); m(v.y, s); m(v.z, s); m(v.w, s); }
	void f(float2 v, double r, double a) { f(v.x, r, a); f(v.y, r, a); } void f(float3 v, double r, double a) { f(v.x, r, a); f(v.y, r, a); f(v.z, r, a); } void f(float4 v, double r, double a) { f(v.x, r, a); f(v.y, r, a); f(v.z, r, a); f(v.w, r, a); }
	void u(u32x4 v) { u(v.getX()); u(v.getY()); u(v.getZ()); u(v.getW()); } void u(i32x4 v) { u((uint32)v.getX()); u((uint32)v.getY()); u((uint32)v.getZ()); u((uint32)v.getW()); }
	void u(uint2 v) { u(v.x); u(v.y); } void u(uint3 v) { u(v.x); u(v.y); u(v.z); } void u(uint4 v) { u(v.x); u(v.y); u(v.z); u(v.w); }
	void u(int2 v) { u((uint32)v.x); u((uint32)v.y); } void u(int3 v) { u((uint32)v.x); u((uint32)v.y); u((uint32)v.z); } void u(int4 v) { u((uint32)v.x); u((uint32)v.y); u((uint32)v.z); u((uint32)v.w); }
	void s(const std::string& t) { u(t.size()); for (char c : t) u((unsigned char)c); }
	void m(const f32x4x4& a, double sc) { m(a.c0, sc); m(a.c1, sc); m(a.c2, sc); m(a.c3, sc); } void x(const f32x4x4& a) { x(a.c0); x(a.c1); x(a.c2); x(a.c3); }
	void m33(const f32x4x4& a, double sc) { m3(a.c0, sc); m3(a.c1, sc); m3(a.c2, sc); }
	void m(const float4x4& a, double sc) { m(a.c0, sc); m(a.c1, sc); m(a.c2, sc); m(a.c3, sc); } void m(const float4x3& a, double sc) { m(a.c0, sc); m(a.c1, sc); m(a.c2, sc); m(a.c3, sc); }
	void m(const float3x3& a, double sc) { m(a.c0, sc); m(a.c1, sc); m(a.c2, sc); } void m(const float2x2& a, double sc) { m(a.c0, sc); m(a.c1, sc); }
};

// One object (or n) in a block of its own that ends where the objects end, at the least alignment their type promises.
template<typename T> struct Box
{
	unsigned char* mem; T* p; size_t n;
	explicit Box(size_t n = 1) : n(n)
	{
		size_t off = alignof(T) < 16 ? alignof(T) : 0; mem = (unsigned char*)malloc(off + sizeof(T) * n); p = (T*)(mem + off);
	}
	explicit Box(const T& v) : Box((size_t)1) { new (p) T(v); }
	Box(const Box&) = delete;
	~Box() { free(mem); }
	T& operator*() { return *p; } T* operator->() { return p; } T& operator[](size_t i) { return p[i]; }
	operator T&() { return *p; }
};

// inputs
static inline float E(R& r) { return (float)((int)r.below(65) - 32) * 0.25f; }                    // exact: sums of products stay exact
static inline float M(R& r) { return r.chance(4) ? E(r) : r.f(-8, 8); }                            // moderate
static inline float N(R& r) { float v = r.f(0.25, 8); return r.chance(2) ? v : -v; }               // away from zero
static inline float A(R& r) { return vt::genAnyF(r); }                                             // anything
static inline float G(R& r) { return vt::genGarbage(r); }                                          // nobody may look
static inline float H(R& r) { float v = (float)((int)r.below(33) - 16) * 0.25f; return v + (r.chance(2) ? 0.0625f : -0.0625f); } // no tie, not integral
static inline f32x4 EV(R& r) { float a = E(r), b = E(r), c = E(r), d = G(r); return f32x4(a, b, c, d); }
static inline f32x4 MV(R& r) { float a = M(r), b = M(r), c = M(r), d = G(r); return f32x4(a, b, c, d); }
static inline f32x4 NV(R& r) { float a = N(r), b = N(r), c = N(r), d = G(r); return f32x4(a, b, c, d); }
static inline f32x4 MV4(R& r) { float a = M(r), b = M(r), c = M(r), d = M(r); return f32x4(a, b, c, d); }
static inline f32x4 NV4(R& r) { float a = N(r), b = N(r), c = N(r), d = N(r); return f32x4(a, b, c, d); }
static inline f32x4 AV4(R& r) { float a = A(r), b = A(r), c = A(r), d = A(r); return f32x4(a, b, c, d); }
static inline f32x4 EV4(R& r) { float a = E(r), b = E(r), c = E(r), d = E(r); return f32x4(a, b, c, d); }
static inline u32x4 UV(R& r) { uint32 a = vt::genU(r), b = vt::genU(r), c = vt::genU(r), d = vt::genU(r); return u32x4(a, b, c, d); }
static inline i32x4 IV(R& r) { int32 a = (int32)vt::genU(r), b = (int32)vt::genU(r), c = (int32)vt::genU(r), d = (int32)vt::genU(r); return i32x4(a, b, c, d); }
static inline f32x4 dir(R& r) { vt::D3 d = vt::genDir(r); float g = G(r); return f32x4((float)d.x, (float)d.y, (float)d.z, g); }
static inline quat Q(R& r) { for (;;) { double a = r.range(-1, 1), b = r.range(-1, 1), c = r.range(-1, 1), d = r.range(-1, 1), l = std::sqrt(a*a + b*b + c*c + d*d); if (l > 0.3) return quat((float)(a/l), (float)(b/l), (float)(c/l), (float)(d/l)); } }
static inline f32x4x4 MM(R& r) { f32x4 a = MV4(r), b = MV4(r), c = MV4(r), d = MV4(r); return f32x4x4(a, b, c, d); }
static inline f32x4x4 EM(R& r) { f32x4 a = EV4(r), b = EV4(r), c = EV4(r), d = EV4(r); return f32x4x4(a, b, c, d); }
static inline f32x4x4 RM(R& r) { f32x4x4 m = MM(r); m.c0 = m.c0 + f32x4(40, 0, 0, 0); m.c1 = m.c1 + f32x4(0, 40, 0, 0); m.c2 = m.c2 + f32x4(0, 0, 40, 0); m.c3 = m.c3 + f32x4(0, 0, 0, 40); return m; } // regular
static inline Aabb EB(R& r) { f32x4 a = EV(r), s{0.25f * r.below(17), 0.25f * r.below(17), 0.25f * r.below(17), 0}; f32x4 b = a + s; b.setW(G(r)); return Aabb(a, b); }
template<typename V> static V iv(R& r) { V v; uint32* p = (uint32*)&v; for (size_t i = 0; i < sizeof(V) / 4; i++) p[i] = vt::genU(r); return v; }
template<typename V> static V fv(R& r, float (*g)(R&)) { V v; for (size_t i = 0; i < sizeof(V) / 4; i++) v[i] = g(r); return v; }
static inline float M01(R& r) { return r.chance(8) ? (float)r.below(2) : r.f(0, 1); }

// ---- generic stops ----------------------------------------------------------------------------------------------------
template<typename V> static void floatVec(Sink& s, R& r)
{
	Box<V> a(fv<V>(r, M)), b(fv<V>(r, N)), c(fv<V>(r, M)); float k = N(r); V t;
	s.x(*a + *b); s.x(*a - *b); s.x(*a * *b); s.x(*a / *b); s.x(-*a); s.x(*a + k); s.x(*a - k); s.x(*a * k); s.x(*a / k); s.x(k + *a); s.x(k - *a); s.x(k * *a); s.x(k / *b);
	t = a; t += *b; s.x(t); t -= *c; s.x(t); t *= *b; s.x(t); t /= *b; s.x(t); t += k; s.x(t); t -= k; s.x(t); t *= k; s.x(t); t /= k; s.x(t); t = k; s.x(t);
	Box<V> p(fv<V>(r, A)), q(r.chance(4) ? *p : fv<V>(r, A)); k = A(r);
	s.u(*p == *q); s.u(*p != *q); s.u(*p < *q); s.u(*p > *q); s.u(*p <= *q); s.u(*p >= *q); s.u(*p == k); s.u(*p != k); s.u(*p < k); s.u(*p > k); s.u(*p <= k); s.u(*p >= k);
	s.u(k == *p); s.u(k != *p); s.u(k < *p); s.u(k > *p); s.u(k <= *p); s.u(k >= *p); s.u(equal(*p, *q)); s.u(notEqual(*p, *q)); s.u(isBinaryLess(*p, *q)); s.x(select(*p < *q, *p, *q));
	s.x(min(*a, *b)); s.x(max(*a, *b)); s.x(min(*a, *b, *c)); s.x(max(*a, *b, *c)); V lo = min(*b, *c), hi = max(*b, *c); s.x(clamp(*a, lo, hi)); s.m(fma(*a, *b, *c), 64); s.x(abs(*p)); s.x(sqrt(abs(*a))); s.x(sign(*a)); s.u(signBits(*p));
	Box<V> h(fv<V>(r, H)); s.x(round(*h)); s.x(floor(*h)); s.x(ceil(*h)); s.x(trunc(*h)); s.m(dot(*a, *b), 256); s.m(lengthSq(*a), 256); s.m(length(*b), 16); s.m(distanceSq(*a, *b), 1024); s.f(distance(*a, *b), 1e-5, 1e-6); s.m(normalize(*b), 1);
	V e = fv<V>(r, E), e2 = r.chance(2) ? e : fv<V>(r, E); s.u(isClose(e, e2)); s.u(isNormalized(normalize(*b), 1e-4f)); s.m(repeat(*h), 1); float f = M01(r); s.m(lerp(*a, *b, f), 16); s.m(lerpDelta(*a, *b, f, r.f(0.1, 3)), 16);
	V base = fv<V>(r, M01) + 0.25f; s.f(pow(base, *a), 1e-4, 0); s.m(gain(fv<V>(r, M01), base), 1);
	s.x((float)*a); for (size_t i = 0; i < sizeof(V) / 4; i++) { s.x((*a)[i]); (*a)[i] = k; } s.x(*a); s.s(toString(e));
}
template<typename V> static void floatMath(Sink& s, R& r)
{
	Box<V> a(fv<V>(r, M)), b(fv<V>(r, M01)); V n = *b + 0.125f; double q = 1e-4, z = 1e-5;
	s.f(exp(*a), q, z); s.f(log(n), q, z); s.f(exp2(*a), q, z); s.f(log2(n), q, z); s.f(log10(n), q, z); s.f(cbrt(*a), q, z); s.f(sin(*a), q, z); s.f(cos(*a), q, z); s.f(tan(*b), q, z); s.f(asin(*b), q, 1e-3); s.f(acos(*b), q, 1e-3); s.f(atan(*a), q, z); s.f(sinh(*b), q, z); s.f(cosh(*b), q, z); s.f(tanh(*a), q, z); s.f(asinh(*a), q, z); s.f(acosh(n + 1.0f), q, 1e-3); s.f(atanh(*b * 0.875f), q, z); V mn = fv<V>(r, H), md = fv<V>(r, [](R& r) { return (float)(1 + r.below(4)) * 8; }); s.f(mod(mn, md), q, z);
}
template<typename V> static constexpr bool isSigned = std::is_same<V, int2>::value || std::is_same<V, int3>::value || std::is_same<V, int4>::value || std::is_same<V, i32x4>::value;
template<typename V> static V small(R& r) { V v; int32* p = (int32*)&v; for (size_t i = 0; i < sizeof(V) / 4; i++) p[i] = (int32)r.below(2001) - (isSigned<V> ? 1000 : 0); return v; } // no overflow
template<typename V> static V nonzero(R& r) { V v; int32* p = (int32*)&v; for (size_t i = 0; i < sizeof(V) / 4; i++) p[i] = (int32)r.below(1000) + 1; return v; }
template<typename V> static V shiftBy(R& r) { V v; int32* p = (int32*)&v; for (size_t i = 0; i < sizeof(V) / 4; i++) p[i] = (int32)r.below(isSigned<V> ? 12 : 32); return v; }
template<typename V, typename T> static void intVec(Sink& s, R& r) // scalar types: the arithmetic is the language's, so signed overflow is outside the domain
{
	Box<V> a(isSigned<V> ? small<V>(r) : iv<V>(r)), b(isSigned<V> ? small<V>(r) : iv<V>(r)), d(nonzero<V>(r)), h(shiftBy<V>(r)), p(iv<V>(r)), q(r.chance(4) ? *p : iv<V>(r)); T k = (T)(1 + r.below(500)), n = (T)r.below(11); V t;
	V pos = isSigned<V> ? nonzero<V>(r) : iv<V>(r);
	s.u(*a + *b); s.u(*a - *b); s.u(*a * *b); s.u(*a / *d); s.u(*a % *d); s.u(*p & *q); s.u(*p | *q); s.u(*p ^ *q); s.u(pos >> *h); s.u(pos << *h); s.u(pos >> n); s.u(pos << n); s.u(-*a); s.u(!*p); s.u(~*p);
	s.u(*a + k); s.u(*a - k); s.u(*a * k); s.u(*a / k); s.u(*a % k); s.u(*p & k); s.u(*p | k); s.u(*p ^ k); s.u(k + *a); s.u(k - *a); s.u(k * *a); s.u(k / *d); s.u(k % *d); s.u(k & *p); s.u(k | *p); s.u(k ^ *p); s.u(k >> *h); s.u(k << *h);
	t = a; t += *b; s.u(t); t -= *b; s.u(t); t /= *d; s.u(t); t %= *d; s.u(t); t &= *p; s.u(t); t |= *p; s.u(t); t ^= *p; s.u(t); t = pos; t >>= *h; s.u(t); t = pos; t <<= *h; s.u(t); t = pos; t >>= n; s.u(t); t <<= n; s.u(t); t = a; t += k; t -= k; t /= k; t %= k; t *= k; s.u(t); t &= k; t |= k; t ^= k; s.u(t); t = k; s.u(t);
	s.u(*p == *q); s.u(*p != *q); s.u(*p < *q); s.u(*p > *q); s.u(*p <= *q); s.u(*p >= *q); s.u(*p == k); s.u(*p != k); s.u(*p < k); s.u(*p > k); s.u(*p <= k); s.u(*p >= k); s.u(k == *p); s.u(k != *p); s.u(k < *p); s.u(k > *p); s.u(k <= *p); s.u(k >= *p);
	s.u(equal(*p, *q)); s.u(notEqual(*p, *q)); s.u(isBinaryLess(*p, *q)); s.u(select(*p < *q, *p, *q)); s.u(min(*p, *q)); s.u(max(*p, *q)); V lo = min(*a, *b), hi = max(*a, *b); s.u(clamp(*p, lo, hi)); s.s(toString(*p));
}
template<typename V, typename T> static void simdInt(Sink& s, R& r)
{
	Box<V> a(iv<V>(r)), b(iv<V>(r)), d(nonzero<V>(r)), h(shiftBy<V>(r)), q(r.chance(4) ? *a : iv<V>(r)); T k = (T)vt::genU(r), n = (T)r.below(12), dk = (T)(1 + r.below(500)); V t; V pos = isSigned<V> ? nonzero<V>(r) : iv<V>(r);
	s.u(*a + *b); s.u(*a - *b); s.u(*a * *b); s.u(*a / *d); s.u(*a % *d); s.u(*a & *b); s.u(*a | *b); s.u(*a ^ *b); s.u(pos >> *h); s.u(pos << *h); s.u(pos >> n); s.u(pos << n); if constexpr (isSigned<V>) s.u(-*a); s.u(!*a); s.u(~*a);
	s.u(*a + k); s.u(*a - k); s.u(*a * k); s.u(*a / dk); s.u(*a % dk); s.u(*a & k); s.u(*a | k); s.u(*a ^ k); s.u(k + *a); s.u(k - *a); s.u(k * *a); s.u(dk / *d); s.u(dk % *d); s.u(k & *a); s.u(k | *a); s.u(k ^ *a); s.u(dk >> *h); s.u(dk << *h);
	t = a; t += *b; t -= *d; t *= *b; s.u(t); t /= *d; t %= *d; s.u(t); t = a; t &= *b; t |= *d; t ^= *b; s.u(t); t = pos; t >>= *h; s.u(t); t = pos; t <<= *h; s.u(t); t = pos; t >>= n; s.u(t); t = pos; t <<= n; s.u(t); t = a; t += k; t -= dk; t *= k; t /= dk; s.u(t); t %= dk; t &= k; t |= dk; t ^= k; s.u(t); t = k; s.u(t);
	s.u(*a == *q); s.u(*a != *q); s.u(*a < *q); s.u(*a > *q); s.u(*a <= *q); s.u(*a >= *q); s.u(*a == k); s.u(*a != k); s.u(*a < k); s.u(*a > k); s.u(*a <= k); s.u(*a >= k); s.u(k < *a); s.u(k > *a); s.u(k <= *a); s.u(k >= *a); s.u(k == *a); s.u(k != *a);
	s.u(equal(*a, *q)); s.u(notEqual(*a, *q)); s.u(isBinaryLess(*a, *q)); s.u(select(*a < *q, *a, *q)); s.u(min(*a, *q)); s.u(max(*a, *q)); s.u((uint32)min4(*a)); s.u((uint32)max4(*a)); s.u((uint32)min3(*a)); s.u((uint32)max3(*a)); V lo = min(*b, *d), hi = max(*b, *d); s.u(clamp(*a, lo, hi)); s.s(toString(*a));
	Box<T> in((size_t)4); for (int i = 0; i < 4; i++) in[(size_t)i] = (T)vt::genU(r); V l(in.p); s.u(l); alignas(16) T al[4]; memcpy(al, in.p, 16); l.loadAligned(al); s.u(l); Box<T> o((size_t)4); l.store(o.p); for (int i = 0; i < 4; i++) s.u((uint32)o[(size_t)i]); l.storeAligned(al); for (T v : al) s.u((uint32)v);
	t = a; t.setX(k); t.setY(n); t.setZ(dk); t.setW(k); s.u(t); t[1] = n; s.u((uint32)t[2]); s.u(t); s.u(a->splatX()); s.u(a->splatY()); s.u(a->splatZ()); s.u(a->splatW()); s.u(a->template swizzle<SwW, SwX, SwZ, SwY>()); s.u(a->template swizzle<SwY, SwY, SwX, SwW>()); s.u(V(k)); s.u(V(k, n, dk, k)); s.u(V(*a, k));
}
static inline void geometryFrustum(R& r, Plane* p, uint8& n) // exact: axis and diagonal planes with quarter offsets, not normalised
{
	n = (uint8)(1 + r.below(6));
	for (uint8 i = 0; i < n; i++) { f32x4 v{(float)((int)r.below(3) - 1), (float)((int)r.below(3) - 1), (float)((int)r.below(3) - 1), 0.0f}; float d = E(r); new (p + i) Plane(v, d, false); }
}
static inline Ray exactRay(R& r) { static const float c[] = { 1, -1, 2, -2, 0.5f, -0.5f, 4 }; f32x4 o = EV(r); float x = c[r.below(7)], y = c[r.below(7)], z = c[r.below(7)]; float g = G(r); return Ray(o, f32x4(x, y, z, g), false); }
static inline void exactBoxes(R& r, Box<Aabb>& b, size_t n, Aabb& root)
{
	f32x4 lo(FLT_MAX), hi(-FLT_MAX);
	for (size_t i = 0; i < n; i++) { Aabb k = EB(r); new (b.p + i) Aabb(k); lo = min(lo, k.getMin()); hi = max(hi, k.getMax()); }
	lo.setW(0); hi.setW(0); root = Aabb(lo, hi);
}
static inline void logTree(Sink& s, const Bvh& b)
{
	auto& nodes = b.getNodes(); s.u(nodes.size()); s.u(b.getPrimitives().size());
	for (auto& n : nodes) { s.u(n.isLeaf()); s.u(n.isLeaf() ? n.getPrimitiveCount() : 0); s.u(n.getLeftNode()); }
	for (auto p : b.getPrimitives()) s.u(p);
}

struct Stop { const char* name; void (*run)(Sink&, R&); };
static const Stop stops[] = {
{ "float2 math", floatMath<float2> }, { "float3 math", floatMath<float3> }, { "float4 math", floatMath<float4> },
{ "float2", floatVec<float2> }, { "float3", floatVec<float3> }, { "float4", floatVec<float4> },
{ "int2", intVec<int2, int32> }, { "int3", intVec<int3, int32> }, { "int4", intVec<int4, int32> }, { "uint2", intVec<uint2, uint32> }, { "uint3", intVec<uint3, uint32> }, { "uint4", intVec<uint4, uint32> },
{ "i32x4", simdInt<i32x4, int32> }, { "u32x4", simdInt<u32x4, uint32> },
{ "f32x4 arithmetic", [](Sink& s, R& r) { Box<f32x4> a(AV4(r)), b(AV4(r)); float k = A(r); f32x4 t; s.x(*a + *b); s.x(*a - *b); s.x(*a * *b); s.x(*a / *b); s.x(*a + k); s.x(*a - k); s.x(*a * k); s.x(k + *a); s.x(k - *a); s.x(k * *a); s.x(k / *a); t = a; t += *b; s.x(t); t = a; t -= *b; s.x(t); t = a; t *= *b; s.x(t); t = a; t /= *b; s.x(t); t = a; t += k; s.x(t); t = a; t -= k; s.x(t); t = a; t *= k; s.x(t); t = k; s.x(t); f32x4 m = MV4(r); float n = N(r); s.f(m / n, 1e-6, 0); t = m; t /= n; s.f(t, 1e-6, 0); s.x(-m); } },
{ "f32x4 comparison", [](Sink& s, R& r) { Box<f32x4> a(AV4(r)), b(r.chance(4) ? *a : AV4(r)); float k = r.chance(2) ? a->getX() : A(r); s.u(*a == *b); s.u(*a != *b); s.u(*a < *b); s.u(*a > *b); s.u(*a <= *b); s.u(*a >= *b); s.u(*a == k); s.u(*a != k); s.u(*a < k); s.u(*a > k); s.u(*a <= k); s.u(*a >= k); s.u(k == *a); s.u(k < *a); s.u(k > *a); s.u(k <= *a); s.u(k >= *a); s.u(equal(*a, *b)); s.u(notEqual(*a, *b)); s.u(isBinaryLess(*a, *b)); s.x(select(*a < *b, *a, *b)); } },
{ "f32x4 element functions", [](Sink& s, R& r) { Box<f32x4> a(MV4(r)), b(NV4(r)), c(MV4(r)), p(AV4(r)); s.x(min(*a, *b)); s.x(max(*a, *b)); s.x(clamp(*a, min(*b, *c), max(*b, *c))); s.m(fma(*a, *b, *c), 64); s.x(abs(*p)); s.x(sqrt(abs(*a))); s.x(sign(*a)); s.u(signBits(*p)); float h0 = H(r), h1 = H(r), h2 = H(r), h3 = H(r); f32x4 h(h0, h1, h2, h3); s.x(round(h)); s.x(floor(h)); s.x(ceil(h)); s.x(trunc(h)); s.m(mod(h, f32x4(8.0f)), 8); s.m(repeat(h), 1); float f = M01(r); s.m(lerp(*a, *b, f), 16); s.m(lerpDelta(*a, *b, f, r.f(0.1, 3)), 16); s.x(min4(*a)); s.x(max4(*a)); s.x(min3(*a)); s.x(max3(*a)); } },
{ "f32x4 products", [](Sink& s, R& r) { Box<f32x4> a(MV4(r)), b(NV4(r)), p(MV(r)), q(NV(r)); s.m(dotV4(*a, *b), 256); s.m(dot4(*a, *b), 256); s.m(dotV3(*p, *q), 256); s.m(dot3(*p, *q), 256); s.m3(cross3(*p, *q), 128); s.m(lengthSq4(*a), 256); s.m(length4(*b), 16); s.m(lengthSq3(*p), 256); s.m(length3(*q), 16); s.m(distanceSq4(*a, *b), 1024); s.f(distance4(*a, *b), 1e-5, 1e-6); s.m(distanceSq3(*p, *q), 1024); s.f(distance3(*p, *q), 1e-5, 1e-6); s.m(normalize4(*b), 1); s.m3(normalize3(*q), 1); s.u(isNormalized4(normalize4(*b), 1e-4f)); s.u(isNormalized3(normalize3(*q), 1e-4f)); s.u(isNormalized3(*q * 4.0f, 1e-4f)); } },
{ "f32x4 transcendental", [](Sink& s, R& r) { f32x4 e{r.f(-80, 80), r.f(-80, 80), r.f(-80, 80), r.f(-80, 80)}, l{std::exp(r.f(-80, 80)), std::exp(r.f(-80, 80)), r.f(0.5, 2), r.f(0, 1) + 0.001f}, b{r.f(0.01, 10), r.f(0.01, 10), r.f(0.01, 10), r.f(0.01, 10)}, x = MV4(r); Box<f32x4> be(e); s.f(exp(*be), 2e-5, 0); s.f(log(l), 1e-5, 1e-5); s.f(pow(b, x * 0.5f), 1e-4, 1e-12); s.f(fastPow(b, x * 0.5f), 1e-4, 1e-12); f32x4 si, co; sinCos(x * 10.0f, si, co); s.m(si, 2); s.m(co, 2); } },
{ "f32x4 memory and lanes", [](Sink& s, R& r) { Box<float> in((size_t)4), o((size_t)4); for (size_t i = 0; i < 4; i++) in[i] = A(r); f32x4 v(in.p); s.x(v); alignas(16) float al[4]; memcpy(al, in.p, 16); v.loadAligned(al); s.x(v); v.store(o.p); for (size_t i = 0; i < 4; i++) s.x(o[i]); v.storeAligned(al); for (float f : al) s.x(f); Box<f32x4> a(AV4(r)); float k = A(r); s.x(a->splatX()); s.x(a->splatY()); s.x(a->splatZ()); s.x(a->splatW()); s.x(a->swizzle<SwZ, SwX, SwY, SwW>()); s.x(a->swizzle<SwW, SwW, SwX, SwZ>()); f32x4 t = *a; t.fixW(); s.x(t); t.setX(k); s.x(t); t.setY(k); s.x(t); t.setZ(k); s.x(t); t.setW(k); s.x(t); t[2] = 3.0f; s.x(t[2]); s.x(f32x4(*a, k)); s.x(f32x4(k)); s.x(f32x4()); s.x3(f32x4(k, k, k)); } },
{ "f32x4 conversions", [](Sink& s, R& r) { f32x4 h{H(r), H(r), H(r), H(r)}; s.u((i32x4)h); s.u((u32x4)abs(h)); s.x((float4)h); s.x((float3)h); s.x((float2)h); s.x((float)h); Box<float4> f4(fv<float4>(r, A)); Box<float3> f3(fv<float3>(r, A)); Box<float2> f2(fv<float2>(r, A)); s.x(f32x4(*f4)); s.x3(f32x4(*f3)); f32x4 g(*f2); s.x(g.getX()); s.x(g.getY()); s.x(f32x4{u32x4{r.below(1 << 24), r.below(1 << 24), r.below(1 << 24), r.below(1 << 24)}}); s.x(f32x4(i32x4((int)r.below(1 << 24) - 8000000))); f32x4 a = MV4(r); s.u(floatAsUint(a)); s.u(floatAsInt(a)); s.x(uintAsFloat(floatAsUint(a))); s.x(intAsFloat(floatAsInt(a))); s.s(toString(EV4(r))); f32x4 big{r.f(2.2e9, 4.2e9), r.f(0, 4.2e9), r.f(0, 1e6), 4294967040.0f}; s.u((u32x4)big); s.x(f32x4(u32x4(0xff000000u, 0x80000000u, 0xffffff00u, 1u))); } },
{ "rounding of any value", [](Sink& s, R& r) { float q[4]; for (float& x : q) { x = A(r); if (r.chance(3)) x = r.f(-20, 20); if (r.chance(6)) { float mant = r.f(1, 2); int ex = (int)r.below(70) - 5; x = std::ldexp(r.chance(2) ? mant : -mant, ex); } if (std::fabs(x - std::trunc(x)) == 0.5f) x += x > 0 ? 0.25f : -0.25f; } Box<f32x4> v(f32x4(q[0], q[1], q[2], q[3])); s.x(floor(*v)); s.x(ceil(*v)); s.x(trunc(*v)); s.x(round(*v)); Box<float4> w(float4(q[0], q[1], q[2], q[3])); s.x(floor(*w)); s.x(ceil(*w)); s.x(trunc(*w)); s.x(round(*w)); s.x(floor((float3)*w)); s.x(floor((float2)*w)); } },
{ "masks partly set", [](Sink& s, R& r) { uint32 q[4]; for (uint32& x : q) { uint32 k = r.below(7); x = k < 3 ? UINT32_MAX : k == 3 ? 0 : k == 4 ? 0x80808080u : k == 5 ? ~(1u << r.below(32)) : r.u(); } u32x4 m(q[0], q[1], q[2], q[3]); s.u(getTrues(m)); s.u(areAllTrue(m)); s.u(areAllFalse(m)); s.u(areAnyTrue(m)); s.u(areAnyFalse(m)); uint4 n((uint4)m); s.u(getTrues(n)); s.u(areAllTrue(n)); s.u(areAllFalse(n)); s.u(areAnyTrue(n)); s.u(areAnyFalse(n)); f32x4 fa = AV4(r), fb = AV4(r); u32x4 ua = UV(r), ub = UV(r); s.x(select(m, fa, fb)); s.u(select(m, ua, ub)); } },
{ "products at any scale", [](Sink& s, R& r) { float k = std::ldexp(1.0f, (int)r.below(100) - 50), l = std::ldexp(1.0f, (int)r.below(20) - 10); double K = (double)k * k * l, kk = (double)k * k; Box<f32x4> a(MV4(r) * k), b(NV4(r) * (k * l)), c(NV(r) * k); s.m(dot4(*a, *b), 256 * K); s.m(dot3(*a, *b), 256 * K); s.m3(cross3(*a, *b), 128 * K); s.m(lengthSq3(*c), 256 * kk); s.m(length3(*c), 16.0 * k); s.m(length4(*a), 16.0 * k); s.m3(normalize3(*c), 1); s.m(normalize4(*b), 1); s.m(distance3(*a, *c), 32.0 * k); s.m(distanceSq4(*a, *b), 1024 * kk * (1 + l) * (1 + l)); s.x(min4(*a)); s.x(max3(*b)); s.x(*a + *b); s.x(*a * *b); s.x(min(*a, *b)); } },
{ "masks", [](Sink& s, R& r) { uint32 b = r.below(16); u32x4 m(b & 1 ? UINT32_MAX : 0, b & 2 ? UINT32_MAX : 0, b & 4 ? UINT32_MAX : 0, b & 8 ? UINT32_MAX : 0); s.u(getTrues(m)); s.u(areAllTrue(m)); s.u(areAllFalse(m)); s.u(areAnyTrue(m)); s.u(areAnyFalse(m)); uint4 n((uint4)m); s.u(getTrues(n)); s.u(areAllTrue(n)); s.u(areAllFalse(n)); s.u(areAnyTrue(n)); s.u(areAnyFalse(n)); uint3 o((uint3)m); s.u(getTrues(o)); s.u(areAllTrue(o)); s.u(areAllFalse(o)); s.u(areAnyTrue(o)); s.u(areAnyFalse(o)); uint2 q((uint2)m); s.u(getTrues(q)); s.u(areAllTrue(q)); s.u(areAllFalse(q)); s.u(areAnyTrue(q)); s.u(areAnyFalse(q)); s.u(bic(UV(r), m)); u32x4 ua = UV(r), ub = UV(r); i32x4 ia = IV(r), ib = IV(r); f32x4 fa = AV4(r), fb = AV4(r); s.u(select(m, ua, ub)); s.u(select(m, ia, ib)); s.x(select(m, fa, fb)); float4 ga = fv<float4>(r, A), gb = fv<float4>(r, A); s.x(select(n, ga, gb)); s.x(select(o, (float3)ga, (float3)gb)); s.x(select(q, (float2)ga, (float2)gb)); } },
{ "vector conversions", [](Sink& s, R& r) { Box<uint4> u4(iv<uint4>(r)); Box<uint3> u3(iv<uint3>(r)); Box<uint2> u2(iv<uint2>(r)); Box<int4> i4(iv<int4>(r)); Box<int3> i3(iv<int3>(r)); Box<int2> i2(iv<int2>(r)); s.x(float4(*u4)); s.x(float3(*u3)); s.x(float2(*u2)); s.x(float4(*i4)); s.x(float3(*i3)); s.x(float2(*i2)); s.u((uint3)*u4); s.u((uint2)*u4); s.u((uint2)*u3); s.u((int4)*u4); s.u((uint4)*i4); s.u(u32x4(*u4)); u32x4 t(*u3); s.u(t.getX()); s.u(t.getY()); s.u(t.getZ()); i32x4 w(*i3); s.u((uint32)w.getX()); s.u((uint32)w.getZ()); s.u(i32x4(*i4)); s.u((int4)i32x4(*i4)); s.u((int3)i32x4(*i4)); s.u((uint3)u32x4(*u4)); s.u((u32x4)i32x4(*i4)); float4 h = fv<float4>(r, H); s.u((int4)h); s.u((int3)h); s.u((int2)h); s.u((uint4)abs(h)); s.u((uint3)abs(h)); s.u((int2)(float3)h); s.u((uint32)(int32)h); s.x(float3((float2)h, 1.0f)); s.x(float4((float3)h, 2.0f)); s.x(float4((float2)h, (float2)h)); } },
{ "mip sizes", [](Sink& s, R& r) { uint32 a = 1 + r.below(1u << r.below(24)), b = 1 + r.below(1u << r.below(24)), c = 1 + r.below(1u << r.below(24)); s.u(calcMipCount(a)); s.u(calcMipCount(uint2(a, b))); s.u(calcMipCount(uint3(a, b, c))); u32x4 v(a, b, c, r.u()); s.u(calcMipCount3(v)); uint8 m = (uint8)r.below(calcMipCount(uint3(a, b, c))); s.u(calcSizeAtMip(a, m)); s.u(calcSizeAtMip(uint2(a, b), m)); Box<uint3> k(uint3(a, b, c)); s.u(calcSizeAtMip(*k, m)); u32x4 z = calcSizeAtMip3(v, m); s.u(z.getX()); s.u(z.getY()); s.u(z.getZ()); } },
{ "f32x4x4", [](Sink& s, R& r) { Box<f32x4x4> a(MM(r)), b(MM(r)); Box<f32x4> v(MV4(r)), w(MV(r)); float k = N(r); s.m(*a * *b, 256); s.m(*a * *v, 256); s.x(*a - k); s.x(*a + k); s.x(*a * k); s.f((*a / k).c2, 1e-6, 0); s.u(*a == *b); s.u(*a != *b); s.u(isBinaryLess(*a, *b)); s.m33(multiply3x3(*a, *b), 256); s.m3(multiply3x3(*a, *w), 256); s.x(transpose4x4(*a)); f32x4x4 t = transpose3x3(*a); s.x3(t.c0); s.x3(t.c1); s.x3(t.c2); Box<f32x4x4> g(RM(r)); s.m(inverse4x4(*g), 1); t = *a; t += k; t -= k; t *= *b; s.m(t, 2048); t[1] = *v; s.x(t[1]); s.x((*a)[3]); } },
{ "scalar matrices", [](Sink& s, R& r) { f32x4x4 e = MM(r), f = RM(r); Box<float4x4> a((float4x4)e), b((float4x4)f); Box<float4x3> c((float4x3)e); Box<float3x3> d((float3x3)e), g((float3x3)f); Box<float4> v(fv<float4>(r, M)); Box<float3> w(fv<float3>(r, M)); Box<float2> x(fv<float2>(r, M)); float h0 = M(r), h1 = M(r); float2x2 h(float2(20.0f, h0), float2(h1, 20.0f)); Box<float2x2> bh(h); s.m(*a * *b, 2048); s.m(*a * *v, 256); s.m(*v * *a, 256); s.m(inverse(*b), 1); s.m(transpose(*a), 0); s.m(*d * *g, 2048); s.m(*d * *w, 256); s.m(*w * *d, 256); s.m(inverse(*g), 1); s.m(transpose(*d), 0); s.m(*c * *v, 256); s.m(*bh * *x, 256); s.m(*x * *bh, 256); s.m(inverse(*bh), 1); s.m(transpose(*bh), 0); s.m(*bh * *bh, 1024); s.x(f32x4x4(*a)); f32x4x4 t(*c); s.x3(t.c0); s.x3(t.c3); f32x4x4 u(*d); s.x3(u.c1); (*d)[1] = *w; s.x((*d)[1]); (*a)[3] = *v; s.x((*a)[3]); (*c)[2] = *w; s.x((*c)[2]); s.m(2.0f + *a, 0); s.m(2.0f * *c, 0); s.m(*a - 2.0f, 0); s.m(*d + 2.0f, 0); } },
{ "projections", [](Sink& s, R& r) { float fov = r.f(0.3, 2.5), asp = r.f(0.3, 3), n = r.f(0.01, 1), f = n + r.f(1, 1000); s.m(calcPerspProjInfRevZ(fov, asp, n), 8); s.m(calcPerspProjRevZ(fov, asp, n, f), 8); s.m(calcPerspProj(fov, asp, n, f), 8); Box<float2> w(float2(-2, 3)), h(float2(-1, 4)), d(float2(n, f)); s.m(calcOrthoProjRevZ(*w, *h, *d), 4); s.m(calcOrthoProj(*w, *h, *d), 4); } },
{ "transforms", [](Sink& s, R& r) { Box<f32x4x4> m(MM(r)); Box<f32x4> t(MV(r)), k(NV(r)); Box<quat> q(Q(r)); s.x3(getTranslation(*m)); f32x4x4 c = *m; setTranslation(c, *t); s.x3(c.c3); s.x(c.c3.getW()); s.m(translate(*t), 0); f32x4x4 sc = scale(*k); s.m(sc, 0); s.m(rotate(*q), 4); f32x4x4 model = calcModel(*t, *q, abs(*k) + 0.5f); s.m(model, 16); f32x4 p, e; quat o; extractTransform(model, p, o, e); s.m3(p, 8); s.m3(e, 16); s.m(rotate(o), 64); s.m3(extractScale(model), 16); s.m(extractScale2(model), 16); s.m(extractRotation(model), 8); s.m33(extractRotationOnly(rotate(*q)), 4); f32x4x4 rt = calcModel(*t, *q); s.m(inverseTransRot(rt), 64); extractTransform(rt, p, o); s.m3(p, 8); s.m(rotate(o), 64); s.m(translate(rt, *t), 64); s.m(translate(*t, rt), 64); s.m(scale(rt, *k), 64); s.m(scale(*k, rt), 64); } },
{ "looking", [](Sink& s, R& r) { f32x4 from = MV(r), d, up; for (;;) { d = dir(r); up = dir(r); if (length3(cross3(d, up)) > 0.3f) break; } f32x4 to = from + d * 3.0f; to.setW(G(r)); s.m(lookAt(from, to, up), 256); f32x4x4 (*rotate3)(f32x4, f32x4, f32x4) = rotate; f32x4x4 (*rotate2)(f32x4, f32x4) = rotate; s.m(rotate3(from, to, up), 64); s.m(rotate2(d, up), 32); s.m(rotate(lookAtQuat(d, up)), 256); } },
{ "quaternion", [](Sink& s, R& r) { Box<quat> a(Q(r)), b(Q(r)); Box<f32x4> v(MV(r)); s.m(*a * *b, 4); s.m3(*a * *v, 64); s.m(conjugate(*a), 0); if (std::fabs(dot4(*a, *b)) > 0.1f && std::fabs(dot4(*a, *b)) < 0.99f) s.m(slerp(*a, *b, M01(r)), 64); f32x4 e{r.f(-1, 1), r.f(-1, 1), r.f(-1, 1), G(r)}; quat q = fromEulerAngles(e); s.m(q, 4); s.u(q.isGimbalLock()); s.m(q.extractPitch(), 64); s.m(q.extractYaw(), 64); s.m(q.extractRoll(), 64); s.m3(q.extractEulerAngles(), 64); float an = r.f(-3, 3); quat c(an, normalize3(NV(r))); s.m(c, 4); } },
{ "angles", [](Sink& s, R& r) { f32x4 a = MV4(r); s.m(radians(a), 1); s.m(degrees(a), 512); s.m(radians((float4)a), 1); s.m(degrees((float4)a), 512); s.m(radians((float3)a), 1); s.m(degrees((float2)a), 512); s.m(radians(M(r)), 1); s.m(degrees(M(r)), 512); } },
{ "scalar functions", [](Sink& s, R& r) { s.x(sign(A(r))); s.m(repeat(H(r)), 1); float a = M(r), b = M(r), c = M(r), t = M01(r), k = r.f(0.25, 3); s.m(lerp(a, b, t), 16); s.m(lerpDelta(a, b, t, k), 16); s.m(gain(t, k), 1); int32 i = (int32)r.u(), j = (int32)r.u(), l = (int32)r.u(); s.u((uint32)math::min(i, j, l)); s.u((uint32)math::max(i, j, l)); s.x(math::min(a, b, c)); s.x(math::max(a, b, c)); } },
{ "singular rotations", [](Sink& s, R& r) { quat a = Q(r); int kind = (int)r.below(4); f32x4 d{r.f(-1, 1), r.f(-1, 1), r.f(-1, 1), r.f(-1, 1)}; quat n = kind == 0 ? a : kind == 1 ? quat(-(f32x4)a) : quat(normalize4((f32x4)a + d * (kind == 2 ? 1e-2f : 1e-5f))); Box<quat> x(a), y(n); float t = r.chance(3) ? (float)r.below(2) : r.f(0, 1); s.m(slerp(*x, *y, t), 64); s.m(slerp(*x, *x, t), 64);
	float pitch = r.f(-1, 1), roll = r.f(-1, 1); f32x4 e{pitch, r.chance(2) ? 1.5707964f : -1.5707964f, roll, G(r)}; Box<quat> g(fromEulerAngles(e)); s.u(g->isGimbalLock()); s.m(g->extractPitch(), 64); s.m(g->extractRoll(), 64); s.m(g->extractYaw(), 4000); s.m3(g->extractEulerAngles(), 4000);
	for (int i = 0; i < 4; i++) { double c[4] = { r.range(-0.4, 0.4), r.range(-0.4, 0.4), r.range(-0.4, 0.4), r.range(-0.4, 0.4) }; c[i] = 1; double l = std::sqrt(c[0] * c[0] + c[1] * c[1] + c[2] * c[2] + c[3] * c[3]); quat q((float)(c[0] / l), (float)(c[1] / l), (float)(c[2] / l), (float)(c[3] / l)); s.m(extractQuat(rotate(q)), 64); }
	s.m(quat::identity * a, 4); s.m(a * quat::identity, 4); s.m(inverse(a), 4); f32x4 v = MV(r); s.m3(v * a, 256); s.m3(quat(0.0f, 0.0f, 0.0f, 1.0f) * v, 64); f32x4 h = NV(r); s.m3(quat(3.14159265f, normalize3(h)) * v, 256); s.m3(lookAtQuat(r.chance(2) ? f32x4::top : f32x4::bottom), 1e6); s.m(calcModel(v, a, r.chance(2) ? f32x4::one : f32x4(2.0f)), 256); } },
{ "singular shapes", [](Sink& s, R& r) { f32x4 a = EV(r), b = EV(r), p = EV(r); Box<Line> l(Line(a, a)); s.m3(closestPoint(*l, p), 64); float t; s.m3(closestPoint(*l, p, t), 64); s.m3(closestPoint(Line(a, b), r.chance(2) ? a : b), 64); Box<Triangle> w(Triangle(a, a, a)), z(Triangle(a, b, b)); s.m3(closestPoint(*w, p), 512); Plane q(*w); s.m3(q.getNormal(), 1); s.m3(closestPoint(*z, p), 4096);
	f32x4 pos = EV(r), ext{0.25f * r.below(40), 0.25f * r.below(40), 0.25f * r.below(40), G(r)}; s.u(isAabbIntersected(pos, ext, *w)); s.u(isAabbIntersected(pos, ext, *z)); f32x4 i = pos, j = pos + f32x4(0.25f, 0.5f, 0, 0), k = pos + f32x4(0, 0.5f, 0.25f, 0); i.setW(G(r)); s.u(isAabbIntersected(pos, ext + f32x4(1.0f), Triangle(i, j, k))); s.u(isAabbIntersected(pos + f32x4(100, 0, 0, 0), ext, Triangle(i, j, k)));
	Box<Aabb> f(Aabb(a, a)); s.u(isInside(*f, a)); s.u(isInside(*f, *f)); s.u(isIntersected(*f, *f)); s.x3(closestPoint(*f, p)); Ray y(p, r.chance(2) ? f32x4(1, 0, 0, 0) : f32x4(0, 0, -1, 0), false); s.f(raycast2(*f, y), 1e-5, 1e-4); s.f(raycast1(*f, y), 1e-5, 1e-4); s.u(raycast(*f, y)); Aabb e = Aabb::full; s.u(e.trySet(f32x4(1, 0, 0, 0), f32x4(0, 1, 1, 0))); s.u(e.trySet(f32x4(0, 0, 0, 0), f32x4(0, 0, 1, 0))); s.u(isInside(Aabb::full, p)); s.u(isIntersected(Sphere(0.0f, a), Sphere(0.0f, r.chance(2) ? a : b))); s.u(isInside(Sphere(0.0f, a), a)); s.u(isIntersected(Sphere(1.0f, a), *f));
	Bvh none; Plane pl = Plane::left; s.u(none.collectInFrustum(&pl, 1, nullptr)); none.traverse([](const Bvh::Node&) { return true; }, [](uint32, uint32) { }); size_t n = 1 + r.below(20); Box<Aabb> same(n); for (size_t m = 0; m < n; m++) new (same.p + m) Aabb(a, a + f32x4(1.0f)); none.recreate(same.p, Aabb(a, a + f32x4(1.0f)), (uint32)n); logTree(s, none); std::vector<uint32> out(n); pl = Plane(f32x4(1, 0, 0, 0), 1000.0f, false); s.u(none.collectInFrustum(&pl, 1, out.data())); } },
{ "singular harmonics", [](Sink& s, R& r) { int kind = (int)r.below(4); Box<f32x4> v((size_t)9); for (size_t i = 0; i < 9; i++) { float k = i == 0 ? 1.0f : kind == 0 ? 0.0f : kind == 1 ? r.f(-0.02, 0.02) : kind == 2 ? r.f(-3, 3) : i == 2 || i == 6 ? r.f(-1, 1) : 0.0f; new (v.p + i) f32x4{k, i == 2 ? k : k * 0.5f, i ? -k : k, 0.0f}; } float one[9]; for (int c = 0; c < 3; c++) { for (size_t i = 0; i < 9; i++) one[i] = v[i][c]; s.f(sh::shmin(one), 0.05, 0.5); } sh::deringingSH(v.p); for (size_t i = 0; i < 9; i++) { s.f(v[i].getX(), 0, 3); s.f(v[i].getZ(), 0, 3); } for (int i = 0; i < 3; i++) { s.m(sh::sincWindow(i, 2.0f), 1); s.m(sh::sincWindow(i, 13.0f), 1); } } },
{ "box", [](Sink& s, R& r) { Box<Aabb> a(EB(r)), b(EB(r)); Box<f32x4> p(EV(r)); s.x3(a->getMin()); s.x3(a->getMax()); s.x3(a->getSize()); s.x3(a->getPosition()); s.x3(a->getExtent()); f32x4 e, c; a->getExtent(e, c); s.x3(e); s.x3(c); s.u(a->calcArea() == a->calcArea()); s.x(a->calcArea()); s.x(a->calcVolume()); Aabb t = *a; t.extend(*p); s.x3(t.getMin()); s.x3(t.getMax()); t.extend(*b); s.x3(t.getMin()); s.x3(t.getMax()); s.u(isInside(t, *a)); s.u(isInside(*a, t)); s.u(isInside(*a, *p)); s.x3(closestPoint(*a, *p)); s.u(isIntersected(*a, *b)); t.setSize(f32x4(1.5f, 2, 3, G(r)), *p); s.x3(t.getMin()); t.setExtent(f32x4(0.5f, 2, 1, G(r))); s.x3(t.getMax()); t.translate(*p); s.x3(t.getMin()); t.scale(f32x4(2.0f)); s.x3(t.getMax()); s.u(t.trySet(*p, a->getMax())); t.set(a->getMin(), a->getMax()); s.u(*a == *b); s.u(*a != *b); s.u(isBinaryLess(*a, *b)); Aabb w(f32x4(-9.0f), f32x4(9.0f)); w.shrink(*p); s.x3(w.getMin()); w = Aabb(f32x4(-20.0f), f32x4(20.0f)); w.shrink(*a); s.x3(w.getMax()); } },
{ "rays", [](Sink& s, R& r) { Box<Aabb> a(EB(r)); Box<Ray> y(exactRay(r)); float2 d = raycast2(*a, *y); s.f(d, 1e-5, 1e-4); s.u(isAabbIntersected(float2(1, 2))); s.f(raycast1(*a, *y), 1e-5, 1e-4); s.u(raycast(*a, *y)); Ray i = *y; f32x4 v = y->getDirection(); i.setDirection(f32x4(1 / v.getX(), 1 / v.getY(), 1 / v.getZ(), G(r)), false); s.f(raycast2I(*a, i), 1e-5, 1e-4); s.u(raycastI(*a, i)); s.f(raycast1I(*a, i), 1e-5, 1e-4); f32x4 o = MV(r), n = NV(r); Box<Ray> z(Ray(o, n)); s.m3(z->getDirection(), 1); s.m3(closestPoint(*z, MV(r)), 256); z->setDirection(NV(r)); s.m3(z->getDirection(), 1); s.u(*z == *y); } },
{ "frustum", [](Sink& s, R& r) { Plane pl[6]; uint8 n; geometryFrustum(r, pl, n); Box<Plane> p((size_t)n); for (int i = 0; i < n; i++) new (p.p + i) Plane(pl[i]); Box<Aabb> a(EB(r)); s.u(isBehindFrustum(p.p, n, *a)); f32x4 c0{(float)((int)r.below(5) - 2), (float)((int)r.below(5) - 2), 0, 0}, c1{0, (float)(1 + r.below(3)), (float)r.below(3), 0}, c2(1, 0, (float)(1 + r.below(2)), 0), c3{E(r), E(r), E(r), 1}; Box<f32x4x4> m(f32x4x4(c0, c1, c2, c3)); s.u(isBehindFrustum(p.p, n, *a, *m)); float pf = r.f(0.5, 2), pa = r.f(0.5, 2), pn = r.f(0.1, 1), pz = r.f(5, 100); f32x4x4 pr(calcPerspProjRevZ(pf, pa, pn, pz)); Box<f32x4x4> fr(pr * lookAt(f32x4(1, 2, 3), f32x4(4, 5, 9))); Box<Plane> six((size_t)6); for (int i = 0; i < 6; i++) new (six.p + i) Plane(); extractFrustumPlanes(*fr, six.p); for (int i = 0; i < 6; i++) { s.m3(six[(size_t)i].getNormal(), 64); s.m(six[(size_t)i].getDistance(), 512); } for (int i = 0; i < 6; i++) six[(size_t)i] = Plane{NV(r), M(r), false}; normalizePlanes(six.p, 6); s.m3(six[5].getNormal(), 1); s.m(six[5].getDistance(), 64); } },
{ "triangles", [](Sink& s, R& r) { f32x4 p0 = EV(r), p1 = EV(r), p2 = EV(r); Box<Triangle> t(Triangle(p0, p1, p2)); f32x4 pos = EV(r), ext{0.25f * (1 + r.below(12)), 0.25f * (1 + r.below(12)), 0.25f * (1 + r.below(12)), G(r)}; s.u(isAabbIntersected(pos, ext, *t)); f32x4 a(0, 0, 0, G(r)), b(8, 0, 1, G(r)), c(1, 6, 2, G(r)); Box<Triangle> w(Triangle(a, b, c)); float u = r.f(-1, 2), v = r.f(-1, 2), k = 1 - u - v; f32x4 q = a * k + b * u + c * v; q.setW(G(r)); s.m3(calcBarycentric(*w, q), 64); if (std::fabs(u) > 0.01f && std::fabs(v) > 0.01f && std::fabs(k) > 0.01f) s.u(isInside(*w, q)); Plane pl(*w); s.m3(pl.getNormal(), 4); s.m(pl.getDistance(), 16); s.m3(closestPoint(*w, q), 512); s.u(*t == *w); } },
{ "planes", [](Sink& s, R& r) { f32x4 n = NV(r); Box<Plane> p(Plane(n, M(r))); Box<f32x4> v(MV(r)); s.m3(p->getNormal(), 1); s.m(p->getDistance(), 8); s.m(distance3(*p, *v), 64); s.m3(closestPoint(*p, *v), 64); p->setNormal(NV(r)); s.m3(p->getNormal(), 1); p->setDistance(3); Plane q{NV(r), M(r), false}; q.normalize(); s.m3(q.getNormal(), 1); s.m(q.getDistance(), 64); s.u(*p == q); s.u(*p != q); } },
{ "lines", [](Sink& s, R& r) { f32x4 a = EV(r), b = a + f32x4(3, -2, 1, 0) * N(r); b.setW(G(r)); Box<Line> l(Line(a, b)); s.m3(l->getDirection(), 1); s.m3(l->getDirection(false), 64); float t; f32x4 p = MV(r); s.m3(closestPoint(*l, p, t), 64); s.m(t, 64); s.m3(closestPoint(*l, p), 64); } },
{ "spheres", [](Sink& s, R& r) { Box<Sphere> a(Sphere{0.25f * (1 + r.below(20)), EV(r)}), b(Sphere{0.25f * (1 + r.below(20)), EV(r)}); Box<f32x4> p(EV(r)); s.u(isInside(*a, *p)); s.u(isIntersected(*a, *b)); Box<Aabb> x(EB(r)); s.u(isIntersected(*a, *x)); s.m3(closestPoint(*a, a->getPosition() + NV(r)), 64); s.x(a->getRadius()); s.x3(a->getPosition()); a->setRadius(2); a->setPosition(*p); s.x(a->getRadius()); s.x3(a->getPosition()); s.u(*a == *b); } },
{ "bvh over boxes", [](Sink& s, R& r) { size_t n = 1 + r.below(40); Box<Aabb> b(n); Aabb root; exactBoxes(r, b, n, root); Bvh h; h.recreate(b.p, root, (uint32)n); logTree(s, h); Plane pl[6]; uint8 c; geometryFrustum(r, pl, c); Box<Plane> p((size_t)c); for (int i = 0; i < c; i++) new (p.p + i) Plane(pl[i]); Box<uint32> out(n); std::stack<Bvh::Node*> st; uint32 k = h.collectInFrustum(p.p, c, out.p, r.chance(2) ? &st : nullptr); s.u(k); for (uint32 i = 0; i < k; i++) s.u(out[i]); uint64_t sum = 0; h.traverse([&](const Bvh::Node& v) { return (bool)!isBehindFrustum(pl, c, v.aabb); }, [&](uint32 f, uint32 m) { for (uint32 i = f; i < f + m; i++) sum += h.getPrimitives()[i] + 1; }); s.u(sum); Bvh copy = h, moved = std::move(copy); logTree(s, moved); n = 1 + r.below(8); Box<Aabb> b2(n); exactBoxes(r, b2, n, root); moved.recreate(b2.p, root, (uint32)n); logTree(s, moved); copy = moved; logTree(s, copy); } },
{ "bvh over triangles", [](Sink& s, R& r) { uint32 t = 1 + r.below(30), nv = 3 + r.below(t * 2), stride = 12 + 4 * r.below(3), is = r.chance(2) ? 2 : 4; Box<uint8> v((size_t)(nv - 1) * stride + 12), x((size_t)t * 3 * is); memset(v.p, 0xcd, v.n); f32x4 lo(FLT_MAX), hi(-FLT_MAX); for (uint32 i = 0; i < nv; i++) { float f[3] = { E(r) * 3, E(r) * 3, E(r) * 3 }; memcpy(v.p + (size_t)i * stride, f, 12); } for (uint32 i = 0; i < t * 3; i++) { uint32 k = r.below(nv); uint16_t h = (uint16_t)k; memcpy(x.p + (size_t)i * is, is == 2 ? (void*)&h : (void*)&k, is); float f[3]; memcpy(f, v.p + (size_t)k * stride, 12); f32x4 q(f[0], f[1], f[2], 0); lo = min(lo, q); hi = max(hi, q); } Bvh b(v.p, x.p, Aabb(lo, hi), t * 3, stride, is); logTree(s, b); Box<f32x4> cen((size_t)t); for (uint32 i = 0; i < t; i++) new (cen.p + i) f32x4(EV(r)); b.recreate(v.p, x.p, Aabb(lo, hi), t * 3, stride, is, cen.p); logTree(s, b); } },
{ "colors", [](Sink& s, R& r) { Box<Color> a(Color(r.u())), b(Color(r.u())); uint8 k = (uint8)r.u(); s.u((uint32)*a); s.x((float4)*a); s.x((float3)*a); s.x((float2)*a); s.x((f32x4)*a); float4 n{(r.below(256) + 0.2f) / 255.0f, (r.below(256) - 0.2f) / 255.0f, 0.3f, 7}; s.u((uint32)Color(n)); s.u((uint32)Color((float3)n)); s.u((uint32)Color((float2)n)); s.u((uint32)Color(f32x4(n))); s.s(a->toString4()); s.s(a->toString3()); s.s(a->toHex4()); s.s(a->toHex3()); s.u((uint32)Color(a->toHex4())); s.u((uint32)Color(a->toHex3())); Color c = *a; c.setNormR(0.2f); c.setNormG(0.4f); c.setNormB(1.5f); c.setNormA(-1.0f); s.u((uint32)c); s.x(a->getNormR()); s.x(a->getNormG()); s.x(a->getNormB()); s.x(a->getNormA()); s.u(*a == *b); s.u(*a != *b); s.u(isBinaryLess(*a, *b)); (void)k; s.m(a->toLinear(), 1); f32x4 li(0.2f, 0.5f, 0.9f, 1.0f); s.u((uint32)Color::fromLinear(li)); } },
{ "rgb to srgb", [](Sink& s, R& r) { f32x4 c{M01(r), M01(r), M01(r), M01(r)}; s.m(rgbToSrgb(c), 16); } }, { "srgb to rgb", [](Sink& s, R& r) { f32x4 c{M01(r), M01(r), M01(r), M01(r)}; s.m(srgbToRgb(c), 16); } },
{ "rgb to xyz", [](Sink& s, R& r) { f32x4 c{M01(r), M01(r), M01(r), G(r)}; s.m3(rgbToXyz(c), 2); } }, { "xyz to rgb", [](Sink& s, R& r) { f32x4 c{M01(r), M01(r), M01(r), G(r)}; s.m3(xyzToRgb(c), 8); } },
{ "xyz and Yxy", [](Sink& s, R& r) { f32x4 c{r.f(0.1, 1), r.f(0.1, 1), r.f(0.1, 1), G(r)}; s.m3(xyzToYxy(c), 4); s.m3(yxyToXyz(c), 64); } },
{ "conjugate", [](Sink& s, R& r) { s.m(conjugate(Q(r)), 1); } },
{ "tone", [](Sink& s, R& r) { f32x4 c{r.f(0.01, 4), r.f(0.01, 4), r.f(0.01, 4), G(r)}; f32x4 a = fastGammaCorrection(c), b = fastGammaCorrection(c, r.f(0.3, 1)); s.m3(a, 16); s.m3(b, 16); } },
{ "brdf", [](Sink& s, R& r) { float n = M01(r), k = r.f(0.1, 1); s.f(brdf::ggx(n, k), 1e-3, 1e-6); s.x(brdf::hammersley(r.u(), 1.0f / 1024)); float2 u{M01(r), r.f(0, 0.99)}; k = r.f(0.05, 1); s.m3(brdf::importanceSamplingNdfDggx(u, k), 64); s.m(brdf::iorToReflectance(r.f(1, 3)), 4); } },
{ "cubemaps", [](Sink& s, R& r) { uint32 d = 1 + r.below(64); Box<uint3> c(uint3{r.below(d), r.below(d), r.below(6)}); s.m(ibl::coordsToST(uint2(c->x, c->y), 1.0f / d), 1); s.m(ibl::coordsToDir(*c, 1.0f / d), 1); float2 st{r.f(-1, 1), r.f(-1, 1)}; s.m(ibl::stToDir(st, c->z), 1); s.m(sh::calcSolidAngle(ibl::coordsToST(uint2(c->x, c->y), 1.0f / d), 1.0f / d), 4.0 / d / d); } },
{ "spherical harmonics", [](Sink& s, R& r) { Box<float> a((size_t)9), b((size_t)9), c((size_t)9); vt::D3 d = vt::genDir(r); float3 v((float)d.x, (float)d.y, (float)d.z); sh::computeShBasis(v, a.p); for (size_t i = 0; i < 9; i++) s.m(a[i], 2); for (size_t i = 0; i < 9; i++) { b[i] = r.f(-1, 1); c[i] = 0; } float3x3 m = (float3x3)rotate(Q(r)); sh::rotateSh3Bands(b.p, m, c.p); for (size_t i = 0; i < 9; i++) s.m(c[i], 64); Box<float> five((size_t)5), out((size_t)5); for (size_t i = 0; i < 5; i++) five[i] = b[i]; sh::projectVecToSH2K(v, out.p); for (size_t i = 0; i < 5; i++) s.m(out[i], 4); sh::rotateSphericalHarmonicBand2(five.p, m, out.p); for (size_t i = 0; i < 5; i++) s.m(out[i], 64); s.m(sh::rotateSphericalHarmonicBand1(float3(b[1], b[2], b[3]), m), 8); sh::windowing(b.p, 5); for (size_t i = 0; i < 9; i++) s.m(b[i], 4); s.m(sh::sincWindow(2, 5), 4); } },
{ "de-ringing", [](Sink& s, R& r) { Box<f32x4> v((size_t)9); for (size_t i = 0; i < 9; i++) new (v.p + i) f32x4{i ? r.f(-0.3, 0.3) : 2.0f, i ? r.f(-0.3, 0.3) : 2.5f, i ? r.f(-0.3, 0.3) : 3.0f, 0.0f}; Box<float> one((size_t)9); for (size_t i = 0; i < 9; i++) one[i] = v[i].getX(); s.f(sh::shmin(one.p), 0.01, 0.05); sh::deringingSH(v.p); for (size_t i = 0; i < 9; i++) s.f(v[i].getX(), 0.02, 0.02); sh::shaderPreprocessSH(v.p); for (size_t i = 0; i < 9; i++) s.f(v[i].getY(), 0.05, 0.05); } },
{ "hex text", [](Sink& s, R& r) { uint32 a = r.u(); uint64 b = r.next(); s.s(toHex(a)); s.s(toHex(b)); s.s(toHex((uint8)a)); s.s(toHex((uint16_t)a)); s.s(toHex(b, 1 + r.below(20))); s.u(toInt32(toHex(a))); s.u(toInt64(toHex(b))); } },
{ "versions", [](Sink& s, R& r) { Box<Version> a(Version((uint32)r.u())), b(r.chance(3) ? *a : Version{(uint8)r.u(), 1, 2, (uint8)r.u()}); s.u((uint32)*a); s.s(a->toString4()); s.s(a->toString3()); s.s(a->toString2()); s.s(a->toString1()); s.u((*a)[r.below(4)]); s.u(*a < *b); s.u(*a > *b); s.u(*a <= *b); s.u(*a >= *b); s.u(*a == *b); s.u(*a != *b); } },
{ "flags", [](Sink& s, R& r) { Flag8 a = (Flag8)r.u(), b = (Flag8)r.u(); s.u((uint8)(a | b)); s.u((uint8)(a & b)); s.u((uint8)(a ^ b)); s.u((uint8)~a); s.u((uint8)!a); a |= b; a ^= Flag8::c; a &= b; s.u((uint8)a); s.u(hasAnyFlag(a, b)); s.u(hasOneFlag(a, Flag8::c)); Flag64 c = (Flag64)r.next(), d = (Flag64)r.next(); s.u((uint64)(c | d)); s.u((uint64)~c); s.u(hasAnyFlag(c, Flag64::b)); } },
{ "packed vectors", [](Sink& s, R& r) { auto go = [&](auto v, uint32 mask) { size_t n = 1 + r.below(70); v.resize(n); for (int k = 0; k < 60; k++) { size_t i = r.chance(4) ? n - 1 : r.below((uint32)n); if (r.chance(8)) { n = 1 + r.below(70); v.resize(n); continue; } if (r.chance(2)) v.set(i, (uint8)(r.u() & mask)); else s.u(v.get(i)); } for (size_t i = 0; i < n; i++) s.u(v.get(i)); auto w = v; s.u(w == v); s.u(v.size()); }; go(PackedVector<1>(), 1); go(PackedVector<2>(), 3); go(PackedVector<4>(), 15); s.u(PackedVector<2>(9).size()); } },
{ "constants", [](Sink& s, R& r) { s.x(f32x4::left); s.x(f32x4::top); s.x(f32x4::front); s.x(f32x4::max); s.x(f32x4::minusInf); s.x(f32x4x4::identity); s.x3(Aabb::one.getMin()); s.x3(Aabb::full.getMax()); s.u((uint32)Color::cyan); s.x(Sphere::two.getRadius()); s.x3(Plane::left.getNormal()); s.x(quat::identity); s.u(int3::top); s.u(uint4::one); s.x(float3::front); } },
};
constexpr size_t stopCount = sizeof stops / sizeof stops[0];
} // namespace tourns
