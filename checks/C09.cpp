// vt: quick=250000
// vt: thorough=8000000
// vt: rule=each case draws two matrices (small integers, mixed magnitudes, sparse, permutations, and structured: symmetric, triangular, diagonal, orthogonal, rigid, mirrored, affine, projective, with zero or equal columns, next to identity; equal, transposed or opposite operands), vectors and a number, and compares every element of every operation of the 2x2, 3x3, 4x3, 4x4 and SIMD 4x4 forms with double arithmetic on the standard column-major definition; distinct by operand bits
#include "vt.hpp"
#include "math/vector.hpp"
#include "math/simd/vector/float.hpp"
#include "math/matrix.hpp"
#include "math/simd/matrix/float.hpp"
using namespace vt;
using namespace math;

static float g(const float2& v, int i) { return i ? v.y : v.x; }
static float g(const float3& v, int i) { return i == 0 ? v.x : i == 1 ? v.y : v.z; }
static float g(const float4& v, int i) { return i == 0 ? v.x : i == 1 ? v.y : i == 2 ? v.z : v.w; }
static float g(const f32x4& v, int i) { return i == 0 ? v.getX() : i == 1 ? v.getY() : i == 2 ? v.getZ() : v.getW(); }
template<class M> struct T;
template<> struct T<float2x2> { enum { C = 2, R = 2 }; static constexpr const char* n = "float2x2"; typedef float2 V, W; static float2 col(const float2x2& m, int c) { return c ? m.c1 : m.c0; }
	static float2x2 make(const float (*e)[4]) { return float2x2(e[0][0], e[1][0], e[0][1], e[1][1]); } static float2x2 cols(const float2* c) { return float2x2(c[0], c[1]); } static float2 vec(const float* p) { return float2(p[0], p[1]); } };
template<> struct T<float3x3> { enum { C = 3, R = 3 }; static constexpr const char* n = "float3x3"; typedef float3 V, W; static float3 col(const float3x3& m, int c) { return c == 0 ? m.c0 : c == 1 ? m.c1 : m.c2; }
	static float3x3 make(const float (*e)[4]) { return float3x3(e[0][0], e[1][0], e[2][0], e[0][1], e[1][1], e[2][1], e[0][2], e[1][2], e[2][2]); } static float3x3 cols(const float3* c) { return float3x3(c[0], c[1], c[2]); } static float3 vec(const float* p) { return float3(p[0], p[1], p[2]); } };
template<> struct T<float4x3> { enum { C = 4, R = 3 }; static constexpr const char* n = "float4x3"; typedef float3 V; typedef float4 W; static float3 col(const float4x3& m, int c) { return c == 0 ? m.c0 : c == 1 ? m.c1 : c == 2 ? m.c2 : m.c3; }
	static float4x3 make(const float (*e)[4]) { return float4x3(e[0][0], e[1][0], e[2][0], e[3][0], e[0][1], e[1][1], e[2][1], e[3][1], e[0][2], e[1][2], e[2][2], e[3][2]); } static float4x3 cols(const float3* c) { return float4x3(c[0], c[1], c[2], c[3]); } static float4 vec(const float* p) { return float4(p[0], p[1], p[2], p[3]); } };
template<> struct T<float4x4> { enum { C = 4, R = 4 }; static constexpr const char* n = "float4x4"; typedef float4 V, W; static float4 col(const float4x4& m, int c) { return c == 0 ? m.c0 : c == 1 ? m.c1 : c == 2 ? m.c2 : m.c3; }
	static float4x4 make(const float (*e)[4]) { return float4x4(e[0][0], e[1][0], e[2][0], e[3][0], e[0][1], e[1][1], e[2][1], e[3][1], e[0][2], e[1][2], e[2][2], e[3][2], e[0][3], e[1][3], e[2][3], e[3][3]); } static float4x4 cols(const float4* c) { return float4x4(c[0], c[1], c[2], c[3]); } static float4 vec(const float* p) { return float4(p[0], p[1], p[2], p[3]); } };
template<> struct T<f32x4x4> { enum { C = 4, R = 4 }; static constexpr const char* n = "f32x4x4"; typedef f32x4 V, W; static f32x4 col(const f32x4x4& m, int c) { return c == 0 ? m.c0 : c == 1 ? m.c1 : c == 2 ? m.c2 : m.c3; }
	static f32x4x4 make(const float (*e)[4]) { return f32x4x4(e[0][0], e[1][0], e[2][0], e[3][0], e[0][1], e[1][1], e[2][1], e[3][1], e[0][2], e[1][2], e[2][2], e[3][2], e[0][3], e[1][3], e[2][3], e[3][3]); } static f32x4x4 cols(const f32x4* c) { return f32x4x4(c[0], c[1], c[2], c[3]); } static f32x4 vec(const float* p) { return f32x4(p[0], p[1], p[2], p[3]); } };

typedef float E4[4][4]; // [column][row]
static double absTerms;
template<class M, class F> static void judge(const char* what, const M& got, int C, int R, F ref, double k)
{
	std::string key = std::string(T<M>::n) + " " + what;
	static std::map<std::string, vt::u64*> cs; auto& p = cs[key]; if (!p) p = &counters[key]; ++*p; evaluations++; curOp = what;
	for (int c = 0; c < C; c++) for (int r = 0; r < R; r++)
	{
		absTerms = 0; double want = ref(c, r); float v = g(T<M>::col(got, c), r);
		if (std::fabs(want) > 3.402e38 && std::isinf(v) && (v > 0) == (want > 0)) continue; // out of range
		double tol = k == 0 ? 0 : k * EPS * (absTerms ? absTerms : std::fabs(want)) + 1e-44;
		if (k == 0 ? !same(v, (float)want) : !nearly(v, want, 0, tol)) { fail(key.c_str(), "column %d row %d is %.9g want %.9g (tolerance %.3g)", c, r, v, want, tol); return; }
	}
}
template<class V, class F> static void judgeV(const char* type, const char* what, const V& got, int R, F ref, double k)
{
	std::string key = std::string(type) + " " + what;
	static std::map<std::string, vt::u64*> cs; auto& p = cs[key]; if (!p) p = &counters[key]; ++*p; evaluations++; curOp = what;
	for (int r = 0; r < R; r++)
	{
		absTerms = 0; double want = ref(r); float v = g(got, r), tol = k * EPS * absTerms + 1e-44;
		if (!nearly(v, want, 0, tol)) { fail(key.c_str(), "component %d is %.9g want %.9g", r, v, want); return; }
	}
}
static double term(double x) { absTerms += std::fabs(x); return x; }

#define ITSELF(key, t, stmt) do { auto&& r_ = (stmt); if ((const void*)&r_ != (const void*)&t) fail(key, "%s: does not return itself", T<M>::n); } while (0)
template<class M> static void arithmetic(const E4& a, const E4& b, float n, const float* v)
{
	const int C = T<M>::C, R = T<M>::R; const char* N = T<M>::n;
	M ma = opaque(T<M>::make(a)), mb = opaque(T<M>::make(b)); touch(n);
	judge("element construction", ma, C, R, [&](int c, int r) { return a[c][r]; }, 0);
	{ typename T<M>::V cc[4]; for (int c = 0; c < C; c++) cc[c] = T<M>::col(ma, c); judge("column construction", opaque(T<M>::cols(cc)), C, R, [&](int c, int r) { return a[c][r]; }, 0); }
	judge("broadcast construction", opaque(M(n)), C, R, [&](int, int) { return n; }, 0);
	judge("+ number", opaque(ma + n), C, R, [&](int c, int r) { return (double)a[c][r] + n; }, 1);
	judge("- number", opaque(ma - n), C, R, [&](int c, int r) { return (double)a[c][r] - n; }, 1);
	judge("* number", opaque(ma * n), C, R, [&](int c, int r) { return (double)a[c][r] * n; }, 1);
	judge("/ number", opaque(ma / n), C, R, [&](int c, int r) { return (double)a[c][r] / n; }, 1);
	{ M t = ma; ITSELF("+= number", t, t += n); judge("+= number", opaque(t), C, R, [&](int c, int r) { return (double)a[c][r] + n; }, 1); }
	{ M t = ma; ITSELF("-= number", t, t -= n); judge("-= number", opaque(t), C, R, [&](int c, int r) { return (double)a[c][r] - n; }, 1); }
	{ M t = ma; ITSELF("*= number", t, t *= n); judge("*= number", opaque(t), C, R, [&](int c, int r) { return (double)a[c][r] * n; }, 1); }
	{ M t = ma; ITSELF("/= number", t, t /= n); judge("/= number", opaque(t), C, R, [&](int c, int r) { return (double)a[c][r] / n; }, 1); }
	// a number that is itself an element of the matrix counts with the value it had before the operation
	#define OWN(key, op) do { VT_OP(key); size_t c0 = rng.below(C), r0 = rng.below(R); M t = ma; touch(t); float x = opaque(a[c0][r0]); M w = t op x; touch(w); { auto& el = t[c0][r0]; t op##= el; } touch(t); \
		for (int c = 0; c < C; c++) for (int r = 0; r < R; r++) if (!same(T<M>::col(t, c)[(size_t)r], T<M>::col(w, c)[(size_t)r])) fail(key, "%s: column %d row %d is %.9g, with a copy of the element %.9g", N, c, r, T<M>::col(t, c)[(size_t)r], T<M>::col(w, c)[(size_t)r]); } while (0)
	if (rng.chance(4)) { OWN("+= own element", +); OWN("-= own element", -); OWN("*= own element", *); OWN("/= own element", /); }
	if (rng.chance(8)) // in memory the columns follow one another, as a uniform buffer expects
	{
		VT_OP("array layout"); std::vector<M> t(3, mb); t[1] = ma; touch(t);
		if (sizeof(M) != (size_t)(C * R * 4)) fail("layout", "%s takes %d bytes", N, (int)sizeof(M));
		else for (int c = 0; c < C; c++) for (int r = 0; r < R; r++) { float x, y; memcpy(&x, (const char*)t.data() + 4 * (C * R + c * R + r), 4); memcpy(&y, (const char*)t.data() + 4 * (2 * C * R + c * R + r), 4); if (!same(x, a[c][r]) || !same(y, b[c][r])) fail("layout", "%s: word %d of the array is not column %d row %d", N, C * R + c * R + r, c, r); }
	}
	// element access
	{
		M t = ma; for (int c = 0; c < C; c++) t[(size_t)c] = T<M>::col(mb, C - 1 - c);
		judge("column write by index", opaque(t), C, R, [&](int c, int r) { return b[C - 1 - c][r]; }, 0);
		const M& ct = ma; M q = mb; typename T<M>::V cc[4]; for (int c = 0; c < C; c++) cc[c] = ct[(size_t)c]; q = T<M>::cols(cc);
		judge("column read by index", opaque(q), C, R, [&](int c, int r) { return a[c][r]; }, 0);
	}
	// matrix times vector
	judgeV(N, "* vector", opaque(ma * opaque(T<M>::vec(v))), R, [&](int r) { double s = 0; for (int c = 0; c < C; c++) s += term((double)a[c][r] * v[c]); return s; }, 5);
	// equality
	VT_OP("equality");
	if (!(ma == opaque(M(ma))) || (ma != opaque(M(ma)))) fail("equality", "%s differs from its copy", N);
	{ E4 e; memcpy(e, a, sizeof e); int c = (int)rng.below(C), r = (int)rng.below(R); e[c][r] = e[c][r] == 0 ? 1 : -e[c][r]; M t = opaque(T<M>::make(e));
	  if ((ma == t) || !(ma != t)) fail("equality", "%s equals one with element column %d row %d changed", N, c, r); }
	// constants
	VT_OP("constants");
	judge("identity", M::identity, C, R, [&](int c, int r) { return c == r ? 1.0f : 0.0f; }, 0);
	judge("zero", M::zero, C, R, [&](int, int) { return 0.0f; }, 0); judge("one", M::one, C, R, [&](int, int) { return 1.0f; }, 0); judge("minusOne", M::minusOne, C, R, [&](int, int) { return -1.0f; }, 0);
}
template<class M> static void leftNumber(const E4& a, float n)
{
	const int C = T<M>::C, R = T<M>::R; M ma = opaque(T<M>::make(a)); touch(n);
	judge("number +", opaque(n + ma), C, R, [&](int c, int r) { return (double)n + a[c][r]; }, 1);
	judge("number -", opaque(n - ma), C, R, [&](int c, int r) { return (double)n - a[c][r]; }, 1);
	judge("number *", opaque(n * ma), C, R, [&](int c, int r) { return (double)n * a[c][r]; }, 1);
	bool z = false; for (int c = 0; c < C; c++) for (int r = 0; r < R; r++) z |= a[c][r] == 0;
	if (!z) judge("number /", opaque(n / ma), C, R, [&](int c, int r) { return (double)n / a[c][r]; }, 1);
}
template<class M> static void product(const E4& a, const E4& b)
{
	const int C = T<M>::C; M ma = opaque(T<M>::make(a)), mb = opaque(T<M>::make(b));
	auto ref = [&](int c, int r) { double s = 0; for (int k = 0; k < C; k++) s += term((double)a[k][r] * b[c][k]); return s; };
	judge("product", opaque(ma * mb), C, C, ref, 5);
	{ M t = ma; ITSELF("*= matrix", t, t *= mb); judge("*= matrix", opaque(t), C, C, ref, 5); }
	{ M t = ma; touch(t); t *= t; judge("*= itself", opaque(t), C, C, [&](int c, int r) { double s = 0; for (int k = 0; k < C; k++) s += term((double)a[k][r] * a[c][k]); return s; }, 5); }
	judge("product with identity", opaque(ma * M::identity), C, C, [&](int c, int r) { return a[c][r]; }, 1);
	judge("identity product", opaque(M::identity * ma), C, C, [&](int c, int r) { return a[c][r]; }, 1);
}
template<class M> static void rowVector(const E4& a, const float* v)
{
	const int C = T<M>::C; M ma = opaque(T<M>::make(a));
	judgeV(T<M>::n, "vector *", opaque(opaque(T<M>::vec(v)) * ma), C, [&](int c) { double s = 0; for (int r = 0; r < C; r++) s += term((double)a[c][r] * v[r]); return s; }, 5);
}
static void conversions(const E4& a, const float* r3, const float* c3)
{
	auto A = [&](int c, int r) { return a[c][r]; };
	float3x3 m3 = opaque(T<float3x3>::make(a)); float4x3 m43 = opaque(T<float4x3>::make(a)); float4x4 m4 = opaque(T<float4x4>::make(a)); f32x4x4 ms = opaque(T<f32x4x4>::make(a));
	judge("from 3x3", opaque((float2x2)m3), 2, 2, A, 0); judge("from 4x3", opaque((float2x2)m43), 2, 2, A, 0); judge("from 4x4", opaque((float2x2)m4), 2, 2, A, 0); judge("from SIMD", opaque((float2x2)ms), 2, 2, A, 0);
	judge("from 4x3", opaque((float3x3)m43), 3, 3, A, 0); judge("from 4x4", opaque((float3x3)m4), 3, 3, A, 0); judge("from SIMD", opaque((float3x3)ms), 3, 3, A, 0);
	judge("from 4x4", opaque((float4x3)m4), 4, 3, A, 0); judge("from SIMD", opaque((float4x3)ms), 4, 3, A, 0);
	judge("from SIMD", opaque((float4x4)ms), 4, 4, A, 0);
	float4 R = opaque(float4(r3[0], r3[1], r3[2], r3[3])), C = opaque(float4(c3[0], c3[1], c3[2], c3[3])); f32x4 Rs(R), Cs(C); touch(Rs); touch(Cs);
	judge("from 4x3 and row", opaque(float4x4(m43, R)), 4, 4, [&](int c, int r) { return r == 3 ? r3[c] : a[c][r]; }, 0);
	judge("from 4x3", opaque(float4x4(m43)), 4, 4, [&](int c, int r) { return r == 3 ? 0.0f : a[c][r]; }, 0);
	auto m34 = [&](int c, int r) { return c == 3 ? c3[r] : r == 3 ? r3[c] : a[c][r]; }; auto m34z = [&](int c, int r) { return c == 3 || r == 3 ? 0.0f : a[c][r]; };
	judge("from 3x3, column and row", opaque(float4x4(m3, C, R)), 4, 4, m34, 0); judge("from 3x3", opaque(float4x4(m3)), 4, 4, m34z, 0);
	judge("from 3x3, column and row", opaque(f32x4x4(m3, Cs, Rs)), 4, 4, m34, 0); judge("from 3x3", opaque(f32x4x4(m3)), 4, 4, m34z, 0);
	judge("from 4x3 and row", opaque(f32x4x4(m43, Rs)), 4, 4, [&](int c, int r) { return r == 3 ? r3[c] : a[c][r]; }, 0);
	judge("from 4x3", opaque(f32x4x4(m43)), 4, 4, [&](int c, int r) { return r == 3 ? 0.0f : a[c][r]; }, 0);
	judge("from three columns", opaque(f32x4x4(ms.c0, ms.c1, ms.c2)), 3, 4, A, 0);
	// a scalar 4x4 at an address aligned for floats only
	alignas(16) unsigned char raw[sizeof(float4x4) + 16]; auto* p = (float4x4*)(raw + 4 * rng.below(4)); memcpy(p, &m4, sizeof m4); touch(raw);
	judge("from scalar 4x4 at any address", opaque(f32x4x4(*p)), 4, 4, A, 0);
}
static void transposes(const E4& a)
{
	auto At = [&](int c, int r) { return a[r][c]; };
	judge("transpose", opaque(transpose(opaque(T<float2x2>::make(a)))), 2, 2, At, 0); judge("transpose", opaque(transpose(opaque(T<float3x3>::make(a)))), 3, 3, At, 0);
	judge("transpose", opaque(transpose(opaque(T<float4x4>::make(a)))), 4, 4, At, 0); f32x4x4 ms = opaque(T<f32x4x4>::make(a));
	judge("transpose4x4", opaque(transpose4x4(ms)), 4, 4, At, 0);
	{ f32x4x4 t = opaque(transpose3x3(ms)); judge("transpose3x3", t, 3, 3, At, 0); for (int c = 0; c < 3; c++) if (g(t[c], 3) != 0.0f) fail("transpose3x3", "fourth row of column %d is %.9g want 0", c, g(t[c], 3)); for (int r = 0; r < 4; r++) if (!same(g(t.c3, r), a[3][r])) fail("transpose3x3", "fourth column row %d is %.9g want %.9g", r, g(t.c3, r), a[3][r]); }
}
static void simdOnly(const E4& a, const E4& b, const float* v)
{
	struct { const char* n; const f32x4x4* m; float w; } t[] = { { "min", &f32x4x4::min, FLT_MIN }, { "minusMin", &f32x4x4::minusMin, -FLT_MIN }, { "max", &f32x4x4::max, FLT_MAX }, { "minusMax", &f32x4x4::minusMax, -FLT_MAX },
		{ "epsilon", &f32x4x4::epsilon, FLT_EPSILON }, { "inf", &f32x4x4::inf, INFINITY }, { "minusInf", &f32x4x4::minusInf, -INFINITY }, { "nan", &f32x4x4::nan, NAN } };
	for (auto& e : t) judge(e.n, *e.m, 4, 4, [&](int, int) { return e.w; }, 0);
	f32x4x4 ma = opaque(T<f32x4x4>::make(a)), mb = opaque(T<f32x4x4>::make(b));
	judge("multiply3x3", opaque(multiply3x3(ma, mb)), 3, 3, [&](int c, int r) { double s = 0; for (int k = 0; k < 3; k++) s += term((double)a[k][r] * b[c][k]); return s; }, 4);
	float v4[4] = { v[0], v[1], v[2], genGarbage(rng) };
	f32x4 got = opaque(multiply3x3(ma, opaque(f32x4(v4[0], v4[1], v4[2], v4[3]))));
	judgeV("f32x4x4", "multiply3x3 vector", got, 3, [&](int r) { double s = 0; for (int k = 0; k < 3; k++) s += term((double)a[k][r] * v[k]); return s; }, 4);
}
int main(int argc, char** argv)
{
	begin(argc, argv);
	auto fill = [&](E4& e)
	{
		int kind = (int)rng.below(8); double s = std::pow(10, rng.range(-4, 4));
		for (int c = 0; c < 4; c++) for (int r = 0; r < 4; r++)
			switch (kind)
			{
			case 0: e[c][r] = (float)((int)rng.below(9) - 4); break;
			case 1: e[c][r] = genMag(rng, -6, 6); break;
			case 2: e[c][r] = rng.chance(2) ? 0.0f : genGeo(rng); break;
			case 3: e[c][r] = (float)(c * 4 + r + 1); break;
			case 4: e[c][r] = (float)(rng.range(-1, 1) * s); break;
			case 7: e[c][r] = rng.chance(3) ? -0.0f : rng.chance(3) ? genMag(rng, 6, 9) : (float)((int)rng.below(3) - 1); break;
			case 5: e[c][r] = (c + 1) % 4 == r ? 1.0f : 0.0f; break;
			default: e[c][r] = rng.f(-10, 10); break;
			}
	};
	for (vt::u64 k = 0; k < cases; k++)
	{
		curCase = k; E4 a, b; fill(a); fill(b); if (rng.chance(3)) shapeMat(rng, a); if (rng.chance(3)) shapeMat(rng, b);
		switch (rng.below(24)) { case 0: memcpy(b, a, sizeof b); break; case 1: for (int c = 0; c < 4; c++) for (int r = 0; r < 4; r++) b[c][r] = a[r][c]; break; case 2: for (int c = 0; c < 4; c++) for (int r = 0; r < 4; r++) b[c][r] = -a[c][r]; break; }
		 float v[4], w[4], n = rng.chance(4) ? (float)(1 + (int)rng.below(8)) : genMag(rng, -4, 4); if (rng.chance(16)) n = rng.chance(2) ? 0.0f : -0.0f; else if (rng.chance(16)) n = genMag(rng, 4, 8); else if (rng.chance(16)) n = genMag(rng, 30, 38);
		else if (rng.chance(16)) { VT_COUNT("subnormal numbers"); n = genMag(rng, -44, -38); for (int c = 0; c < 4; c++) for (int r = 0; r < 4; r++) a[c][r] *= std::fabs(n); }
		for (int i = 0; i < 4; i++) { v[i] = genGeo(rng); w[i] = genGeo(rng); }
		{ D3 x = genVec(rng, -6, 8), y = genVec(rng); v[0] = (float)x.x; v[1] = (float)x.y; v[2] = (float)x.z; w[0] = (float)y.x; w[1] = (float)y.y; w[2] = (float)y.z; if (rng.chance(8)) v[3] = v[2]; }
		distinctBytes(a, sizeof a); if (k < 3) sample("first column of a (%g %g %g %g), of b (%g %g %g %g), n=%g", a[0][0], a[0][1], a[0][2], a[0][3], b[0][0], b[0][1], b[0][2], b[0][3], n);
		arithmetic<float2x2>(a, b, n, v); arithmetic<float3x3>(a, b, n, v); arithmetic<float4x3>(a, b, n, v); arithmetic<float4x4>(a, b, n, v); arithmetic<f32x4x4>(a, b, n, v);
		leftNumber<float2x2>(a, n); leftNumber<float3x3>(a, n); leftNumber<float4x3>(a, n); leftNumber<float4x4>(a, n);
		product<float2x2>(a, b); product<float3x3>(a, b); product<float4x4>(a, b); product<f32x4x4>(a, b);
		rowVector<float2x2>(a, v); rowVector<float3x3>(a, v); rowVector<float4x4>(a, v);
		conversions(a, v, w); transposes(a); simdOnly(a, b, v);
	}
	return end();
}
