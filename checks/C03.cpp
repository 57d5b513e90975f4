// vt: configs=sse2,avx2,asan
// vt: quick=60000
// vt: thorough=2000000
// vt: rule=each case draws three operands per component from every value class and runs the whole operator and function table of float2/3/4, int2/3/4 and uint2/3/4 (integer operands are masked so that the scalar operation itself is defined); distinct by operand bits
#include "vt.hpp"
#include "math/vector.hpp"
#include "math/simd/vector/float.hpp"
using namespace vt;
using namespace math;
typedef vt::u32 U; typedef vt::i32 I;

// component access that does not go through operator[]
template<typename V> static auto& at(V& v, int i)
{
	if constexpr (sizeof(V) == 8) return i == 0 ? v.x : v.y;
	else if constexpr (sizeof(V) == 12) return i == 0 ? v.x : i == 1 ? v.y : v.z;
	else return i == 0 ? v.x : i == 1 ? v.y : i == 2 ? v.z : v.w;
}
template<typename V, typename T> static V mk(const T* p) { V v; for (int i = 0; i < (int)(sizeof(V) / 4); i++) at(v, i) = p[i]; return opaque(v); }
template<typename T> static double num(T v) { return (double)v; }
static bool eqT(float a, float b) { return same(a, b); }
static bool eqT(U a, U b) { return a == b; }
static bool eqT(I a, I b) { return a == b; }
static std::string key(const char* t, const char* k) { return std::string(t) + " " + k; }

template<typename V> struct Tr;
#define TR(v, t, m, f, n) template<> struct Tr<v> { typedef t T; typedef m M; static constexpr bool flt = f; static constexpr const char* name = #v; static constexpr int N = n; };
TR(float2, float, uint2, true, 2) TR(float3, float, uint3, true, 3) TR(float4, float, uint4, true, 4)
TR(int2, I, uint2, false, 2) TR(int3, I, uint3, false, 3) TR(int4, I, uint4, false, 4)
TR(uint2, U, uint2, false, 2) TR(uint3, U, uint3, false, 3) TR(uint4, U, uint4, false, 4)

#define OP(k) do { static const std::string kk_ = key(Tr<V>::name, k); static vt::Counter c_(kk_.c_str()); c_++; vt::curOp = kk_.c_str(); vt::evaluations++; curKey = kk_.c_str(); } while (0)
static const char* curKey;
#define CH(k, expr, want) do { OP(k); auto r_ = opaque(expr); for (int i = 0; i < N; i++) { auto w_ = (want); auto g_ = at(r_, i); typedef decltype(g_) G_; \
	if (!eqT(g_, (G_)w_)) fail(curKey, "component %d: got %.9g want %.9g, a=%.9g b=%.9g c=%.9g", i, num(g_), num((G_)w_), num(a[i]), num(b[i]), num(c[i])); } } while (0)
#define CHV(k, expr, cond) do { OP(k); auto r_ = opaque(expr); for (int i = 0; i < N; i++) { auto g = at(r_, i); \
	if (!(cond)) fail(curKey, "component %d: got %.9g, a=%.9g b=%.9g c=%.9g", i, num(g), num(a[i]), num(b[i]), num(c[i])); } } while (0)
#define MASK(k, expr, cond) CH(k, expr, (cond) ? 0xffffffffu : 0u)
#define BOOL(k, expr, want) do { OP(k); bool g_ = opaque((bool)(expr)), w_ = (want); if (g_ != w_) fail(curKey, "got %d want %d, a=%.9g.. b=%.9g..", g_, w_, num(a[0]), num(b[0])); } while (0)
#define COMP(k, stmt, want) do { t = va; { auto&& r0_ = (stmt); if ((const void*)&r0_ != (const void*)&t) fail(k, "does not return itself"); } CH(k, t, want); } while (0)

template<typename T> static T sAdd(T a, T b) { return opaque(a) + opaque(b); }
template<typename T> static T sSub(T a, T b) { return opaque(a) - opaque(b); }
template<typename T> static T sMul(T a, T b) { return opaque(a) * opaque(b); }
template<typename T> static T sDiv(T a, T b) { return opaque(a) / opaque(b); }
template<typename T> static T noNan(T v) { if constexpr (std::is_same<T, float>::value) return isnanf_(v) ? 1.25f : v; else return v; }

template<typename V, typename T> static void indexing(const T* a, const T* b, const T* c)
{
	constexpr int N = Tr<V>::N;
	struct { U g0; V v; U g1; } s; s.g0 = 0xC0FFEE01u; s.g1 = 0xC0FFEE02u;
	s.v = mk<V>(a);
	const V& cv = s.v;
	for (int k = 0; k < N; k++)
	{
		OP("index-read");
		if (!eqT((T)cv[(size_t)k], a[k])) fail(curKey, "component %d", k);
		if (!eqT((T)s.v[(size_t)k], a[k])) fail(curKey, "component %d (mutable)", k);
	}
	for (int k = 0; k < N; k++)
	{
		OP("index-write");
		s.v = mk<V>(a); s.v[(size_t)k] = b[k]; touch(s);
		for (int j = 0; j < N; j++) if (!eqT(at(s.v, j), j == k ? b[j] : a[j])) fail(curKey, "writing %d changed component %d", k, j);
		if (s.g0 != 0xC0FFEE01u || s.g1 != 0xC0FFEE02u) fail(curKey, "wrote outside the vector");
	}
	{ OP("broadcast"); V v(b[0]); for (int i = 0; i < N; i++) if (!eqT(at(v, i), b[0])) fail(curKey, "component %d", i);
	  V z; for (int i = 0; i < N; i++) if (!eqT(at(z, i), (T)0)) fail(curKey, "default component %d", i); }
	(void)c;
}
template<typename V, typename T> static void common(const T* a, const T* b, const T* c, T n)
{
	constexpr int N = Tr<V>::N; typedef typename Tr<V>::M M;
	V va = mk<V>(a), vb = mk<V>(b), vc = mk<V>(c);
	bool eq = true, eqn = true; for (int i = 0; i < N; i++) { eq &= a[i] == b[i]; eqn &= a[i] == n; }
	BOOL("eq", va == vb, eq); BOOL("ne", va != vb, !eq); BOOL("eq-num", va == n, eqn); BOOL("ne-num", va != n, !eqn);
	BOOL("num-eq", n == va, eqn); BOOL("num-ne", n != va, !eqn);
	MASK("lt", va < vb, a[i] < b[i]); MASK("gt", va > vb, a[i] > b[i]); MASK("le", va <= vb, a[i] <= b[i]); MASK("ge", va >= vb, a[i] >= b[i]);
	MASK("lt-num", va < n, a[i] < n); MASK("gt-num", va > n, a[i] > n); MASK("le-num", va <= n, a[i] <= n); MASK("ge-num", va >= n, a[i] >= n);
	MASK("num-lt", n < va, n < a[i]); MASK("num-gt", n > va, n > a[i]); MASK("num-le", n <= va, n <= a[i]); MASK("num-ge", n >= va, n >= a[i]);
	MASK("equal", equal(va, vb), a[i] == b[i]); MASK("notEqual", notEqual(va, vb), a[i] != b[i]);
	U m[4]; for (int i = 0; i < 4; i++) m[i] = rng.chance(3) ? rng.u() : rng.chance(2) ? 0xffffffffu : 0u;
	CH("select", select(mk<M>(m), va, vb), (m[i] >> 31) ? a[i] : b[i]);
	T x[4], y[4], z[4], lo[4], hi[4]; for (int i = 0; i < 4; i++) { x[i] = noNan(a[i]); y[i] = noNan(b[i]); z[i] = noNan(c[i]); lo[i] = y[i] < z[i] ? y[i] : z[i]; hi[i] = y[i] < z[i] ? z[i] : y[i]; }
	V vx = mk<V>(x), vy = mk<V>(y), vz = mk<V>(z);
	#define EQV(p, q) ((p) == (q))
	CHV("min", min(vx, vy), EQV(g, x[i] < y[i] ? x[i] : y[i])); CHV("max", max(vx, vy), EQV(g, x[i] > y[i] ? x[i] : y[i]));
	CHV("min-of-three", min(vx, vy, vz), EQV(g, x[i] < lo[i] ? x[i] : lo[i])); CHV("max-of-three", max(vx, vy, vz), EQV(g, x[i] > hi[i] ? x[i] : hi[i]));
	CHV("clamp", clamp(vx, mk<V>(lo), mk<V>(hi)), EQV(g, x[i] < lo[i] ? lo[i] : x[i] > hi[i] ? hi[i] : x[i]));
	CH("operand-unchanged", va, a[i]); CH("operand-unchanged", vc, c[i]);
	V t; COMP("assign-num", t = n, n);
	if (rng.chance(200))
	{
		OP("toString");
		std::string w; for (int i = 0; i < N; i++) { w += (i ? " " : "") + std::to_string(a[i]); }
		if (toString(va) != w) fail(curKey, "got %s want %s", toString(va).c_str(), w.c_str());
	}
	indexing<V, T>(a, b, c);
}
template<typename V, typename T> static void aliased(const T* a);
template<typename V, typename T> static void arith(const T* a, const T* b, const T* c, T n) // b has no zero and operations do not overflow when T is int
{
	constexpr int N = Tr<V>::N;
	V va = mk<V>(a), vb = mk<V>(b), t;
	CH("add", va + vb, sAdd(a[i], b[i])); CH("sub", va - vb, sSub(a[i], b[i])); CH("mul", va * vb, sMul(a[i], b[i])); CH("div", va / vb, sDiv(a[i], b[i]));
	CH("add-num", va + n, sAdd(a[i], n)); CH("sub-num", va - n, sSub(a[i], n)); CH("mul-num", va * n, sMul(a[i], n)); CH("div-num", va / n, sDiv(a[i], n));
	CH("num-add", n + va, sAdd(n, a[i])); CH("num-sub", n - va, sSub(n, a[i])); CH("num-mul", n * va, sMul(n, a[i])); CH("num-div", n / vb, sDiv(n, b[i]));
	if constexpr (Tr<V>::flt) { CH("neg", -va, fbits(bits(a[i]) ^ 0x80000000u)); } else { CH("neg", -va, (T)(0u - (U)a[i])); }
	COMP("add-assign", t += vb, sAdd(a[i], b[i])); COMP("sub-assign", t -= vb, sSub(a[i], b[i])); COMP("mul-assign", t *= vb, sMul(a[i], b[i])); COMP("div-assign", t /= vb, sDiv(a[i], b[i]));
	COMP("add-assign-num", t += n, sAdd(a[i], n)); COMP("sub-assign-num", t -= n, sSub(a[i], n)); COMP("mul-assign-num", t *= n, sMul(a[i], n)); COMP("div-assign-num", t /= n, sDiv(a[i], n));
	t = vb; { COMP("self-add", t += t, sAdd(a[i], a[i])); }
	if (rng.chance(8)) aliased<V, T>(a);
}
// an operand that is part of the object itself counts with the value it had before the operation
#define ALIAS(k, op, operand) do { OP(k); V t = mk<V>(p), w = t; auto s_ = t; touch(s_); { auto& u = s_; auto copied = operand; touch(copied); w op copied; } touch(w); { auto& u = t; u op operand; } touch(t); \
	for (int i = 0; i < N; i++) if (!eqT(at(t, i), at(w, i))) fail(curKey, "component %d: got %.9g, with a copy of the operand %.9g, value %.9g..", i, num(at(t, i)), num(at(w, i)), num(p[0])); } while (0)
#define MEMBER(k, op) do { switch (m) { case 0: ALIAS(k, op, u.x); break; case 1: ALIAS(k, op, u.y); break; case 2: if constexpr (N > 2) ALIAS(k, op, u.z); break; default: if constexpr (N > 3) ALIAS(k, op, u.w); break; } ALIAS(k, op, u); ALIAS(k, op, u[(size_t)m]); } while (0)
template<typename V, typename T> static void aliased(const T* a)
{
	constexpr int N = Tr<V>::N; int m = (int)rng.below(N); T p[4]; for (int i = 0; i < 4; i++) if constexpr (Tr<V>::flt) p[i] = a[i]; else p[i] = (T)(1 + ((U)a[i] & 1023u));
	MEMBER("own-add", +=); MEMBER("own-sub", -=); MEMBER("own-mul", *=); MEMBER("own-div", /=);
	if constexpr (!Tr<V>::flt)
	{
		MEMBER("own-rem", %=); MEMBER("own-and", &=); MEMBER("own-or", |=); MEMBER("own-xor", ^=);
		for (int i = 0; i < 4; i++) p[i] = (T)(1 + ((U)p[i] & 7u)); MEMBER("own-shl", <<=); MEMBER("own-shr", >>=);
	}
	{ OP("own-assign"); V t = mk<V>(p); t = at(t, m); touch(t); for (int i = 0; i < N; i++) if (!eqT(at(t, i), p[m])) fail(curKey, "component %d: got %.9g want %.9g", i, num(at(t, i)), num(p[m])); }
}
template<typename V, typename T> static void integral(const T* a, const T* b, const T* c, T n, T s)
{
	constexpr int N = Tr<V>::N;
	V va = mk<V>(a), vb = mk<V>(b), t;
	CH("rem", va % vb, a[i] % b[i]); CH("rem-num", va % n, a[i] % n); CH("num-rem", n % vb, n % b[i]);
	COMP("rem-assign", t %= vb, a[i] % b[i]); COMP("rem-assign-num", t %= n, a[i] % n);
	CH("and", va & vb, a[i] & b[i]); CH("or", va | vb, a[i] | b[i]); CH("xor", va ^ vb, a[i] ^ b[i]);
	CH("and-num", va & n, a[i] & n); CH("or-num", va | n, a[i] | n); CH("xor-num", va ^ n, a[i] ^ n);
	CH("num-and", n & va, n & a[i]); CH("num-or", n | va, n | a[i]); CH("num-xor", n ^ va, n ^ a[i]);
	COMP("and-assign", t &= vb, a[i] & b[i]); COMP("or-assign", t |= vb, a[i] | b[i]); COMP("xor-assign", t ^= vb, a[i] ^ b[i]);
	COMP("and-assign-num", t &= n, a[i] & n); COMP("or-assign-num", t |= n, a[i] | n); COMP("xor-assign-num", t ^= n, a[i] ^ n);
	CH("not", ~va, ~a[i]); CH("logical-not", !va, a[i] ? 0 : 1);
	// shifts: the shifted signed value is non-negative and the result representable, so the scalar shift is defined
	T sh[4], v[4]; for (int i = 0; i < 4; i++) { sh[i] = (T)(((U)b[i] >> 3) & 31u); v[i] = (T)-1 < (T)0 ? (T)(((U)a[i] & 0x7fffffffu) >> (U)sh[i]) : a[i]; }
	V vs = mk<V>(sh), vv = mk<V>(v);
	CH("shl", vv << vs, v[i] << sh[i]); CH("shr", va >> vs, a[i] >> sh[i]);
	COMP("shr-assign", t >>= vs, a[i] >> sh[i]); COMP("shr-assign-num", t >>= s, a[i] >> s); CH("shr-num", va >> s, a[i] >> s);
	T nn = (T)((U)n & 0x7fffffffu); CH("num-shr", nn >> vs, nn >> sh[i]);
	{ V va = vv; COMP("shl-assign", t <<= vs, v[i] << sh[i]); }
	T w[4]; for (int i = 0; i < 4; i++) w[i] = (T)-1 < (T)0 ? (T)(((U)a[i] & 0x7fffffffu) >> (U)s) : a[i];
	{ V va = mk<V>(w); CH("shl-num", va << s, w[i] << s); COMP("shl-assign-num", t <<= s, w[i] << s); }
	{ T one = 1; T q[4]; for (int i = 0; i < 4; i++) q[i] = sh[i] % 31; V vq = mk<V>(q); CH("num-shl", one << vq, one << q[i]); }
}
#define FN1(f) do { CHV(#f, f(va), same(g, std::f(opaque(a[i]))) || nearly(g, std::f(opaque(a[i])), 1e-6, 1e-44)); } while (0)
#define FN2(k, e, s) do { CHV(k, e, same(g, s) || nearly(g, s, 1e-6, 1e-44)); } while (0)
template<typename V> static void floats(const float* a, const float* b, const float* c)
{
	constexpr int N = Tr<V>::N;
	V va = mk<V>(a), vb = mk<V>(b), vc = mk<V>(c);
	CH("fma", fma(va, vb, vc), std::fma(opaque(a[i]), opaque(b[i]), opaque(c[i])));
	CH("abs", abs(va), fbits(bits(a[i]) & 0x7fffffffu)); CH("sqrt", sqrt(va), std::sqrt(opaque(a[i])));
	CH("sign", sign(va), (bits(a[i]) >> 31) ? -1.0f : 1.0f);
	{ OP("signBits"); int w = 0; for (int i = 0; i < N; i++) w |= (int)(bits(a[i]) >> 31) << i; int g = opaque(signBits(va)); if (g != w) fail(curKey, "got %d want %d", g, w); }
	CH("floor", floor(va), std::floor(opaque(a[i]))); CH("ceil", ceil(va), std::ceil(opaque(a[i]))); CH("trunc", trunc(va), std::trunc(opaque(a[i])));
	CHV("round", round(va), same(g, std::round(opaque(a[i]))) || (g == std::nearbyint(opaque(a[i]))));
	FN2("pow", pow(va, vb), std::pow(opaque(a[i]), opaque(b[i])));
	FN2("mod", mod(va, vb), std::fmod(opaque(a[i]), opaque(b[i])));
	FN1(exp); FN1(exp2); FN1(expm1); FN1(log); FN1(log10); FN1(log2); FN1(log1p); FN1(cbrt); FN1(sin); FN1(cos); FN1(tan);
	FN1(asin); FN1(acos); FN1(atan); FN1(sinh); FN1(cosh); FN1(tanh); FN1(asinh); FN1(acosh); FN1(atanh);
	FN2("atan2", atan(va, vb), std::atan2(opaque(a[i]), opaque(b[i])));
}
template<typename V> static void masks()
{
	constexpr int N = Tr<V>::N; U b[4] = { 0, 0, 0, 0 };
	for (int m = 0; m < (1 << N); m++)
	{
		U a[4] = { 0, 0, 0, 0 }; for (int i = 0; i < N; i++) a[i] = (m >> i & 1) ? 0xffffffffu : 0u;
		V v = mk<V>(a);
		BOOL("areAllTrue", areAllTrue(v), m == (1 << N) - 1); BOOL("areAllFalse", areAllFalse(v), m == 0);
		BOOL("areAnyTrue", areAnyTrue(v), m != 0); BOOL("areAnyFalse", areAnyFalse(v), m != (1 << N) - 1);
		OP("getTrues"); if (getTrues(v) != m) fail(curKey, "got %d want %d", getTrues(v), m);
	}
}
// the queries documented on bits, over lanes that are only partly set
template<typename V> static void bitQueries(const U* a)
{
	constexpr int N = Tr<V>::N; const U* b = a; V v = mk<V>(a);
	bool all = true, any = false; int tops = 0;
	for (int i = 0; i < N; i++) { all &= a[i] == 0xffffffffu; any |= a[i] != 0; tops |= (int)(a[i] >> 31) << i; }
	BOOL("areAllTrue-bits", areAllTrue(v), all); BOOL("areAnyFalse-bits", areAnyFalse(v), !all);
	BOOL("areAllFalse-bits", areAllFalse(v), !any); BOOL("areAnyTrue-bits", areAnyTrue(v), any);
	OP("getTrues-bits"); if (getTrues(v) != tops) fail(curKey, "got %d want %d", getTrues(v), tops);
}
static U partLane()
{
	switch (rng.below(9)) { case 0: return 0u; case 1: case 2: case 3: return 0xffffffffu; case 4: return 0x80000000u; case 5: return 1u << rng.below(32); case 6: return ~(1u << rng.below(32)); case 7: return 0x80808080u; }
	return rng.u();
}
template<typename V, typename T> static void fcase(const T* a, const T* b, const T* c, T n) { common<V, T>(a, b, c, n); arith<V, T>(a, b, c, n); floats<V>(a, b, c); }
template<typename V> static void constF()
{
	constexpr int N = Tr<V>::N;
	struct { const char* n; V v; float w; } t[] = { { "zero", V::zero, 0 }, { "one", V::one, 1 }, { "minusOne", V::minusOne, -1 }, { "min", V::min, FLT_MIN }, { "minusMin", V::minusMin, -FLT_MIN },
		{ "max", V::max, FLT_MAX }, { "minusMax", V::minusMax, -FLT_MAX }, { "epsilon", V::epsilon, FLT_EPSILON }, { "inf", V::inf, INFINITY }, { "minusInf", V::minusInf, -INFINITY }, { "nan", V::nan, NAN } };
	for (auto& k : t) { OP("constants"); for (int i = 0; i < N; i++) if (!sameVal(at(k.v, i), k.w)) fail(curKey, "%s component %d", k.n, i); }
	if constexpr (N < 4)
	{
		V l[] = { V::left, V::right, V::bottom, V::top };
		for (int d = 0; d < 4; d++) for (int i = 0; i < N; i++) if (at(l[d], i) != ((d / 2) == i ? (d & 1 ? 1.0f : -1.0f) : 0.0f)) fail("constants", "direction %d", d);
	}
	if constexpr (N == 3) { V l[] = { V::back, V::front }; for (int d = 0; d < 2; d++) for (int i = 0; i < 3; i++) if (at(l[d], i) != (i == 2 ? (d ? 1.0f : -1.0f) : 0.0f)) fail("constants", "back/front"); }
}
template<typename V> static void constI()
{
	constexpr int N = Tr<V>::N; OP("constants");
	V z = V::zero, o = V::one, m = V::minusOne;
	for (int i = 0; i < N; i++) if (at(z, i) != 0 || at(o, i) != 1 || at(m, i) != -1) fail(curKey, "component %d", i);
	if constexpr (N < 4) { V l[] = { V::left, V::right, V::bottom, V::top };
		for (int d = 0; d < 4; d++) for (int i = 0; i < N; i++) if (at(l[d], i) != ((d / 2) == i ? (d & 1 ? 1 : -1) : 0)) fail(curKey, "direction %d", d); }
	if constexpr (N == 3) { V l[] = { V::back, V::front }; for (int d = 0; d < 2; d++) for (int i = 0; i < 3; i++) if (at(l[d], i) != (i == 2 ? (d ? 1 : -1) : 0)) fail(curKey, "back/front"); }
}
template<typename V> static void constU() { OP("constants"); V z = V::zero, o = V::one; for (int i = 0; i < Tr<V>::N; i++) if (at(z, i) != 0u || at(o, i) != 1u) fail(curKey, "component %d", i); }

template<typename T> static void ints(T* a, T* b, T* c, T n, T s)
{
	if constexpr ((T)-1 < (T)0) { common<int2, T>(a, b, c, n); common<int3, T>(a, b, c, n); common<int4, T>(a, b, c, n); }
	else { common<uint2, T>(a, b, c, n); common<uint3, T>(a, b, c, n); common<uint4, T>(a, b, c, n); }
	// arithmetic domain: divisor not zero; signed operands small enough that nothing overflows (one operand may be extreme)
	if ((T)-1 < (T)0) for (int i = 0; i < 4; i++) { if (rng.chance(2)) { a[i] = (T)((I)a[i] % 32767); b[i] = (T)((I)b[i] % 32767); c[i] = (T)((I)c[i] % 32767); } else { a[i] = (T)((I)a[i] / 65536); b[i] = (T)((I)b[i] / 65537); } }
	if ((T)-1 < (T)0) n = (T)((I)n % 32767);
	for (int i = 0; i < 4; i++) if (!b[i]) b[i] = 3; if (!n) n = 5;
	if constexpr ((T)-1 < (T)0)
	{
		arith<int2, T>(a, b, c, n); arith<int3, T>(a, b, c, n); arith<int4, T>(a, b, c, n);
		integral<int2, T>(a, b, c, n, s); integral<int3, T>(a, b, c, n, s); integral<int4, T>(a, b, c, n, s);
	}
	else
	{
		arith<uint2, T>(a, b, c, n); arith<uint3, T>(a, b, c, n); arith<uint4, T>(a, b, c, n);
		integral<uint2, T>(a, b, c, n, s); integral<uint3, T>(a, b, c, n, s); integral<uint4, T>(a, b, c, n, s);
	}
}

int main(int argc, char** argv)
{
	begin(argc, argv);
	constF<float2>(); constF<float3>(); constF<float4>(); constI<int2>(); constI<int3>(); constI<int4>(); constU<uint2>(); constU<uint3>(); constU<uint4>();
	masks<uint2>(); masks<uint3>(); masks<uint4>();
	for (vt::u64 k = 0; k < cases; k++)
	{
		curCase = k;
		float a[4], b[4], c[4]; U ua[4], ub[4], uc[4]; I ia[4], ib[4], ic[4];
		bool tame = rng.chance(3);
		for (int i = 0; i < 4; i++) { a[i] = tame ? rng.f(-3, 3) : genAnyF(rng); b[i] = tame ? rng.f(-3, 3) : genAnyF(rng); c[i] = genAnyF(rng); ua[i] = genU(rng); ub[i] = genU(rng); uc[i] = genU(rng); }
		shape4(rng, a, b); shape4(rng, ua, ub);
		U mode = rng.below(6); int l = (int)rng.below(4);
		if (mode == 0) for (int i = 0; i < 4; i++) { b[i] = a[i]; ub[i] = ua[i]; }
		if (mode == 1) { for (int i = 0; i < 4; i++) { b[i] = a[i]; ub[i] = ua[i]; } b[l] = genAnyF(rng); ub[l] ^= 1u << rng.below(32); }
		if (mode == 2) { for (int i = 0; i < 4; i++) { a[i] = a[0]; ua[i] = ua[0]; } if (rng.chance(2)) { a[l] = genAnyF(rng); ua[l]++; } }
		float n = mode == 2 ? a[(l + 1) & 3] : genAnyF(rng); U un = mode == 2 ? ua[(l + 1) & 3] : genU(rng);
		memcpy(ia, ua, 16); memcpy(ib, ub, 16); memcpy(ic, uc, 16);
		float in[20]; memcpy(in, a, 16); memcpy(in + 4, b, 16); memcpy(in + 8, c, 16); memcpy(in + 12, ua, 16); memcpy(in + 16, ub, 16); distinctBytes(in, 80);
		if (k < 3) sample("a=(%g %g %g %g) b=(%g %g %g %g) ints %08x %08x", a[0], a[1], a[2], a[3], b[0], b[1], b[2], b[3], ua[0], ub[0]);
		fcase<float2, float>(a, b, c, n); fcase<float3, float>(a, b, c, n); fcase<float4, float>(a, b, c, n);
		{ U m[4]; bool hi = rng.chance(4); for (int i = 0; i < 4; i++) m[i] = hi ? partLane() | 0x80000000u : partLane(); if (rng.chance(3)) { for (int i = 0; i < 4; i++) m[i] = rng.chance(2) ? 0xffffffffu : 0u; m[rng.below(4)] = partLane(); }
		  bitQueries<uint2>(m); bitQueries<uint3>(m); bitQueries<uint4>(m); }
		ints<U>(ua, ub, uc, un, rng.below(32)); ints<I>(ia, ib, ic, (I)un, (I)rng.below(32));
		{ // three plain numbers
			VT_OP("number min/max of three"); float x = noNan(a[0]), y = noNan(b[0]), z = noNan(c[0]);
			if (math::min(x, y, z) != std::fmin(x, std::fmin(y, z)) || math::max(x, y, z) != std::fmax(x, std::fmax(y, z))) fail("number min/max of three", "%g %g %g", x, y, z);
			I p = (I)uc[0], q = (I)uc[1], r = (I)uc[2];
			I mn = p < q ? p : q, mx = p > q ? p : q; mn = mn < r ? mn : r; mx = mx > r ? mx : r;
			if (math::min(p, q, r) != mn || math::max(p, q, r) != mx) fail("number min/max of three", "%d %d %d", p, q, r);
		}
	}
	return end();
}
