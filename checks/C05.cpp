// vt: quick=400000
// vt: thorough=12000000
// vt: rule=each case draws two vectors over 30 orders of magnitude (mixed, nearly parallel, orthogonal, cancelling, axis aligned) with arbitrary, often non-finite, unused lanes; every product, length, distance, normalise and min/max is compared with a long double reference and the three-component forms are repeated with other garbage; distinct by operand bits
#include "vt.hpp"
#include "math/vector.hpp"
#include "math/simd/vector/float.hpp"
using namespace vt;
using namespace math;
typedef long double LD;

static float gen(Rng& r, double lo, double hi) { return genMag(r, lo, hi); }
// |got-ref| within rounding of the terms
static void near(const char* key, double got, LD ref, LD terms, double k, const float* a, const float* b)
{
	LD tol = (LD)k * (LD)EPS * terms + (LD)1e-43;
	if (!(std::fabs((LD)got - ref) <= tol)) fail(key, "got %.9g want %.12Lg tolerance %.3Lg a=(%.9g %.9g %.9g %.9g) b=(%.9g %.9g %.9g %.9g)", got, ref, tol, a[0], a[1], a[2], a[3], b[0], b[1], b[2], b[3]);
}
static float L(f32x4 v, int i) { return i == 0 ? v.getX() : i == 1 ? v.getY() : i == 2 ? v.getZ() : v.getW(); }
#define NEAR(key, expr, ref, terms, k) do { VT_OP(key); near(key, opaque((float)(expr)), ref, terms, k, a, b); } while (0)
#define EXACT(key, expr, want) do { VT_OP(key); float g_ = opaque((float)(expr)), w_ = (want); if (!(g_ == w_)) fail(key, "got %.9g want %.9g a=(%.9g %.9g %.9g %.9g)", g_, w_, a[0], a[1], a[2], a[3]); } while (0)
static LD dotL(const float* a, const float* b, int n) { LD s = 0; for (int i = 0; i < n; i++) s += (LD)a[i] * b[i]; return s; }
static LD dotA(const float* a, const float* b, int n) { LD s = 0; for (int i = 0; i < n; i++) s += std::fabs((LD)a[i] * b[i]); return s; }

template<typename F> static void unitCheck(const char* key, F get, const float* a, int n)
{
	VT_OP(key);
	LD len = std::sqrt(dotL(a, a, n)), s = 0;
	for (int i = 0; i < n; i++)
	{
		float g = get(i); s += (LD)g * g;
		if (!(std::fabs((LD)g - a[i] / len) <= (LD)4 * EPS)) { fail(key, "component %d is %.9g want %.9Lg, v=(%.9g %.9g %.9g %.9g)", i, g, a[i] / len, a[0], a[1], a[2], a[3]); return; }
	}
	if (!(std::fabs(s - 1) <= (LD)8 * EPS)) fail(key, "squared length %.9Lg", s);
}

static void caseOf(const float* a, const float* b)
{
	float2 a2(a[0], a[1]), b2(b[0], b[1]); float3 a3(a[0], a[1], a[2]), b3(b[0], b[1], b[2]); float4 a4(a[0], a[1], a[2], a[3]), b4(b[0], b[1], b[2], b[3]);
	touch(a2); touch(b2); touch(a3); touch(b3); touch(a4); touch(b4);
	NEAR("float2 dot", dot(a2, b2), dotL(a, b, 2), dotA(a, b, 2), 4); NEAR("float3 dot", dot(a3, b3), dotL(a, b, 3), dotA(a, b, 3), 4); NEAR("float4 dot", dot(a4, b4), dotL(a, b, 4), dotA(a, b, 4), 5);
	LD q2 = dotL(a, a, 2), q3 = dotL(a, a, 3), q4 = dotL(a, a, 4);
	NEAR("float2 lengthSq", lengthSq(a2), q2, q2, 4); NEAR("float3 lengthSq", lengthSq(a3), q3, q3, 4); NEAR("float4 lengthSq", lengthSq(a4), q4, q4, 5);
	// length: below the smallest normal squared length the square root magnifies the rounding of the square
	auto len = [](LD q) { return std::sqrt(q); };
	LD tiny = 4e-22; auto T = [&](LD q) { return len(q) + (q < 1e-30 ? tiny / (LD)EPS : 0); };
	NEAR("float2 length", length(a2), len(q2), T(q2), 4); NEAR("float3 length", length(a3), len(q3), T(q3), 4); NEAR("float4 length", length(a4), len(q4), T(q4), 5);
	float d[4]; for (int i = 0; i < 4; i++) d[i] = opaque(a[i]) - opaque(b[i]);
	LD e2 = dotL(d, d, 2), e3 = dotL(d, d, 3), e4 = dotL(d, d, 4);
	NEAR("float2 distanceSq", distanceSq(a2, b2), e2, e2, 6); NEAR("float3 distanceSq", distanceSq(a3, b3), e3, e3, 6); NEAR("float4 distanceSq", distanceSq(a4, b4), e4, e4, 6);
	NEAR("float2 distance", distance(a2, b2), len(e2), T(e2), 6); NEAR("float3 distance", distance(a3, b3), len(e3), T(e3), 6); NEAR("float4 distance", distance(a4, b4), len(e4), T(e4), 6);
	{ VT_OP("float3 cross"); float3 c = opaque(cross(a3, b3)); float g[3] = { c.x, c.y, c.z };
	  for (int i = 0; i < 3; i++) { int j = (i + 1) % 3, k = (i + 2) % 3; LD p = (LD)a[j] * b[k], q = (LD)a[k] * b[j]; near("float3 cross", g[i], p - q, std::fabs(p) + std::fabs(q), 3, a, b); } }
	if (q2 > 1e-34) unitCheck("float2 normalize", [v = opaque(normalize(a2))](int i) { return i ? v.y : v.x; }, a, 2);
	if (q3 > 1e-34) unitCheck("float3 normalize", [v = opaque(normalize(a3))](int i) { return i == 0 ? v.x : i == 1 ? v.y : v.z; }, a, 3);
	if (q4 > 1e-34) unitCheck("float4 normalize", [v = opaque(normalize(a4))](int i) { return i == 0 ? v.x : i == 1 ? v.y : i == 2 ? v.z : v.w; }, a, 4);
	// four lanes
	f32x4 va = opaque(f32x4(a[0], a[1], a[2], a[3])), vb = opaque(f32x4(b[0], b[1], b[2], b[3]));
	NEAR("dot4", dot4(va, vb), dotL(a, b, 4), dotA(a, b, 4), 5); { f32x4 t = opaque(dotV4(va, vb)); for (int i = 0; i < 4; i++) NEAR("dotV4", L(t, i), dotL(a, b, 4), dotA(a, b, 4), 5); }
	NEAR("lengthSq4", lengthSq4(va), q4, q4, 5); NEAR("length4", length4(va), len(q4), T(q4), 5); NEAR("distanceSq4", distanceSq4(va, vb), e4, e4, 6); NEAR("distance4", distance4(va, vb), len(e4), T(e4), 6);
	if (q4 > 1e-34) unitCheck("normalize4", [v = opaque(normalize4(va))](int i) { return L(v, i); }, a, 4);
	float mn = a[0], mx = a[0]; for (int i = 1; i < 4; i++) { mn = std::fmin(mn, a[i]); mx = std::fmax(mx, a[i]); }
	EXACT("min4", min4(va), mn); EXACT("max4", max4(va), mx);
	// three of four lanes, with whatever in the fourth
	float m3 = std::fmin(a[0], std::fmin(a[1], a[2])), x3 = std::fmax(a[0], std::fmax(a[1], a[2]));
	for (int g = 0; g < 2; g++)
	{
		float ga = genGarbage(rng), gb = genGarbage(rng);
		f32x4 wa = opaque(f32x4(a[0], a[1], a[2], ga)), wb = opaque(f32x4(b[0], b[1], b[2], gb));
		NEAR("dot3", dot3(wa, wb), dotL(a, b, 3), dotA(a, b, 3), 4);
		{ f32x4 t = opaque(dotV3(wa, wb)); for (int i = 0; i < 3; i++) NEAR("dotV3", L(t, i), dotL(a, b, 3), dotA(a, b, 3), 4); }
		NEAR("lengthSq3", lengthSq3(wa), q3, q3, 4); NEAR("length3", length3(wa), len(q3), T(q3), 4); NEAR("distanceSq3", distanceSq3(wa, wb), e3, e3, 6); NEAR("distance3", distance3(wa, wb), len(e3), T(e3), 6);
		{ VT_OP("cross3"); f32x4 c = opaque(cross3(wa, wb)); for (int i = 0; i < 3; i++) { int j = (i + 1) % 3, k = (i + 2) % 3; LD p = (LD)a[j] * b[k], q = (LD)a[k] * b[j]; near("cross3", L(c, i), p - q, std::fabs(p) + std::fabs(q), 3, a, b); } }
		if (q3 > 1e-34) unitCheck("normalize3", [v = opaque(normalize3(wa))](int i) { return L(v, i); }, a, 3);
		EXACT("min3", min3(wa), m3); EXACT("max3", max3(wa), x3);
	}
}
// is-normalised and is-close: by squared length against the tolerance, away from the decision boundary
static void predicates()
{
	double tol = rng.chance(3) ? 1e-6 : std::pow(10, rng.range(-5, -1));
	double target = rng.chance(6) ? 1 : 1 + (rng.chance(2) ? 1 : -1) * tol * std::pow(10, rng.range(-2, 2)); if (target < 0) target = 0.25;
	for (int n = 2; n <= 4; n++)
	{
		float v[4]; LD q = 0; double raw[4]; for (int i = 0; i < n; i++) { raw[i] = rng.range(-1, 1); q += raw[i] * raw[i]; }
		if (q < 1e-3) continue;
		for (int i = 0; i < n; i++) v[i] = (float)(raw[i] * std::sqrt(target / (double)q));
		if (rng.chance(8)) { for (int i = 0; i < n; i++) v[i] = 0; v[rng.below(n)] = rng.chance(2) ? 1.0f : -1.0f; }
		LD s = dotL(v, v, n), off = std::fabs(s - 1); float ft = (float)tol;
		float dt = tol == 1e-6 ? 1 : 0;
		if (std::fabs(off - ft) > 6 * (LD)EPS)
		{
			VT_OP("isNormalized"); bool w = off <= ft, g;
			#define NORM(k, f) do { g = dt ? f : f; if (g != w) fail(k, "got %d want %d, squared length %.9Lg tolerance %g", g, w, s, ft); } while (0)
			if (n == 2) { float2 t(v[0], v[1]); g = dt ? isNormalized(t) : isNormalized(t, ft); }
			else if (n == 3) { float3 t(v[0], v[1], v[2]); g = dt ? isNormalized(t) : isNormalized(t, ft); }
			else { float4 t(v[0], v[1], v[2], v[3]); g = dt ? isNormalized(t) : isNormalized(t, ft); }
			if (g != w) fail("isNormalized", "%d components: got %d want %d, squared length %.9Lg tolerance %g", n, g, w, s, ft);
			if (n >= 3)
			{
				VT_OP("isNormalized SIMD"); f32x4 t = opaque(f32x4(v[0], v[1], v[2], n == 4 ? v[3] : genGarbage(rng)));
				g = n == 3 ? (dt ? isNormalized3(t) : isNormalized3(t, ft)) : (dt ? isNormalized4(t) : isNormalized4(t, ft));
				if (g != w) fail("isNormalized SIMD", "%d components: got %d want %d, squared length %.9Lg tolerance %g", n, g, w, s, ft);
			}
		}
		// is close: base point zero or exact, so that the difference is exact
		double far2 = rng.chance(2) ? 1e-12 : std::pow(10, rng.range(-10, 2)); float f2 = (float)far2;
		double dist = std::sqrt(far2) * (rng.chance(4) ? 0 : std::pow(10, rng.range(-1, 1)));
		float b[4] = { 0, 0, 0, 0 }, c[4]; for (int i = 0; i < n; i++) c[i] = (float)(raw[i] / std::sqrt((double)q) * dist);
		LD d2 = dotL(c, c, n);
		if (std::fabs(d2 - f2) > 1e-5L * f2)
		{
			VT_OP("isClose"); bool w = d2 <= f2, g, dd = far2 == 1e-12;
			if (n == 2) g = dd ? isClose(float2(c[0], c[1]), float2(b[0], b[1])) : isClose(float2(c[0], c[1]), float2(b[0], b[1]), f2);
			else if (n == 3) g = dd ? isClose(float3(c[0], c[1], c[2]), float3(b[0], b[1], b[2])) : isClose(float3(c[0], c[1], c[2]), float3(b[0], b[1], b[2]), f2);
			else g = dd ? isClose(float4(c[0], c[1], c[2], c[3]), float4(b[0], b[1], b[2], b[3])) : isClose(float4(c[0], c[1], c[2], c[3]), float4(b[0], b[1], b[2], b[3]), f2);
			if (g != w) fail("isClose", "%d components: got %d want %d, squared distance %.9Lg tolerance %g", n, g, w, d2, f2);
		}
	}
}
int main(int argc, char** argv)
{
	begin(argc, argv);
	for (vt::u64 k = 0; k < cases; k++)
	{
		curCase = k;
		float a[4], b[4];
		switch (rng.below(6))
		{
		case 0: for (int i = 0; i < 4; i++) { a[i] = gen(rng, -15, 15); b[i] = gen(rng, -15, 15); } break;
		case 1: for (int i = 0; i < 4; i++) { a[i] = genGeo(rng); b[i] = genGeo(rng); } break;
		case 2: { double s = std::pow(10, rng.range(-16, 16)); for (int i = 0; i < 4; i++) { a[i] = (float)(rng.range(-1, 1) * s); b[i] = a[i] * (1 + (float)rng.range(-1e-6, 1e-6)); } break; }       // nearly equal
		case 3: { double s = std::pow(10, rng.range(-6, 6)); for (int i = 0; i < 4; i++) a[i] = (float)(rng.range(-1, 1) * s); b[0] = -a[1]; b[1] = a[0]; b[2] = -a[3]; b[3] = a[2]; break; } // orthogonal
		case 4: for (int i = 0; i < 4; i++) { a[i] = rng.chance(2) ? 0.0f : gen(rng, -15, 15); b[i] = rng.chance(2) ? -0.0f : gen(rng, -15, 15); } break;
		default: { double s = std::pow(10, rng.range(-18, 18)); for (int i = 0; i < 4; i++) { a[i] = (float)(rng.range(-1, 1) * s); b[i] = rng.f(-1, 1); } }
		}
		shape4(rng, a, b);
		float in[8]; memcpy(in, a, 16); memcpy(in + 4, b, 16); distinctBytes(in, 32);
		if (k < 3) sample("a=(%g %g %g %g) b=(%g %g %g %g)", a[0], a[1], a[2], a[3], b[0], b[1], b[2], b[3]);
		caseOf(a, b);
		predicates();
	}
	return end();
}
