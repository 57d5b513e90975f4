// vt: quick=500000
// vt: thorough=15000000
// vt: rule=each case draws two or three 4-lane operands from every float class (specials, NaN, infinities, denormals, random bits, moderate) and evaluates the whole operator table; distinct by operand bits; all are non-trivial (each lane of every result is compared with the IEEE scalar result)
#include "vt.hpp"
#include "math/simd/vector/float.hpp"
using namespace vt;
using namespace math;

static __attribute__((noinline)) float sAdd(float a, float b) { return opaque(a) + opaque(b); }
static __attribute__((noinline)) float sSub(float a, float b) { return opaque(a) - opaque(b); }
static __attribute__((noinline)) float sMul(float a, float b) { return opaque(a) * opaque(b); }
static __attribute__((noinline)) float sDiv(float a, float b) { return opaque(a) / opaque(b); }
static float L(f32x4 v, int i) { return i == 0 ? v.getX() : i == 1 ? v.getY() : i == 2 ? v.getZ() : v.getW(); }
static vt::u32 LU(u32x4 v, int i) { return i == 0 ? v.getX() : i == 1 ? v.getY() : i == 2 ? v.getZ() : v.getW(); }
static f32x4 mk(const float* p) { return opaque(f32x4(p[0], p[1], p[2], p[3])); }

#define LANES(key, expr, want) do { VT_OP(key); f32x4 r_ = opaque(f32x4(expr)); for (int i = 0; i < 4; i++) { float w_ = (want); \
	if (!same(L(r_, i), w_)) fail(key, "lane %d: got %.9g (%08x) want %.9g (%08x), a=%.9g b=%.9g", i, L(r_, i), bits(L(r_, i)), w_, bits(w_), a[i], b[i]); } } while (0)
#define LANESV(key, expr, cond) do { VT_OP(key); f32x4 r_ = opaque(f32x4(expr)); for (int i = 0; i < 4; i++) { float g = L(r_, i); \
	if (!(cond)) fail(key, "lane %d: got %.9g (%08x), a=%.9g b=%.9g c=%.9g", i, g, bits(g), a[i], b[i], c[i]); } } while (0)
#define MASK(key, expr, want) do { VT_OP(key); u32x4 r_ = opaque(u32x4(expr)); for (int i = 0; i < 4; i++) { vt::u32 w_ = (want) ? 0xffffffffu : 0u; \
	if (LU(r_, i) != w_) fail(key, "lane %d: got %08x want %08x, a=%.9g b=%.9g", i, LU(r_, i), w_, a[i], b[i]); } } while (0)
#define BOOL(key, expr, want) do { VT_OP(key); bool r_ = opaque((bool)(expr)); bool w_ = (want); if (r_ != w_) \
	fail(key, "got %d want %d, a=%.9g %.9g %.9g %.9g b=%.9g %.9g %.9g %.9g", r_, w_, a[0], a[1], a[2], a[3], b[0], b[1], b[2], b[3]); } while (0)

static void constants()
{
	struct { const char* n; const f32x4* v; float w[4]; } t[] = {
		{ "zero", &f32x4::zero, { 0, 0, 0, 0 } }, { "one", &f32x4::one, { 1, 1, 1, 1 } }, { "minusOne", &f32x4::minusOne, { -1, -1, -1, -1 } },
		{ "min", &f32x4::min, { FLT_MIN, FLT_MIN, FLT_MIN, FLT_MIN } }, { "minusMin", &f32x4::minusMin, { -FLT_MIN, -FLT_MIN, -FLT_MIN, -FLT_MIN } },
		{ "max", &f32x4::max, { FLT_MAX, FLT_MAX, FLT_MAX, FLT_MAX } }, { "minusMax", &f32x4::minusMax, { -FLT_MAX, -FLT_MAX, -FLT_MAX, -FLT_MAX } },
		{ "epsilon", &f32x4::epsilon, { FLT_EPSILON, FLT_EPSILON, FLT_EPSILON, FLT_EPSILON } },
		{ "inf", &f32x4::inf, { INFINITY, INFINITY, INFINITY, INFINITY } }, { "minusInf", &f32x4::minusInf, { -INFINITY, -INFINITY, -INFINITY, -INFINITY } },
		{ "nan", &f32x4::nan, { NAN, NAN, NAN, NAN } },
		{ "left", &f32x4::left, { -1, 0, 0, 0 } }, { "right", &f32x4::right, { 1, 0, 0, 0 } }, { "bottom", &f32x4::bottom, { 0, -1, 0, 0 } },
		{ "top", &f32x4::top, { 0, 1, 0, 0 } }, { "back", &f32x4::back, { 0, 0, -1, 0 } }, { "front", &f32x4::front, { 0, 0, 1, 0 } } };
	for (auto& k : t)
	{
		VT_OP("constants");
		for (int i = 0; i < 4; i++)
			if (!sameVal(L(*k.v, i), k.w[i])) fail("constants", "%s lane %d is %.9g", k.n, i, L(*k.v, i));
	}
	f32x4 d;
	for (int i = 0; i < 4; i++) if (bits(L(d, i))) fail("constants", "default constructed lane %d is %.9g", i, L(d, i));
}

static void caseOf(const float* a, const float* b, const float* c)
{
	f32x4 va = mk(a), vb = mk(b), vc = mk(c);
	const float n = opaque(b[(a == b) ? 0 : (bits(a[0]) & 3)]);
	LANES("add", va + vb, sAdd(a[i], b[i]));
	LANES("sub", va - vb, sSub(a[i], b[i]));
	LANES("mul", va * vb, sMul(a[i], b[i]));
	LANES("div", va / vb, sDiv(a[i], b[i]));
	LANES("neg", -va, fbits(bits(a[i]) ^ 0x80000000u));
	LANES("add-num", va + n, sAdd(a[i], n));
	LANES("sub-num", va - n, sSub(a[i], n));
	LANES("mul-num", va * n, sMul(a[i], n));
	LANES("div-num", va / n, sDiv(a[i], n));
	LANES("num-add", n + va, sAdd(n, a[i]));
	LANES("num-sub", n - va, sSub(n, a[i]));
	LANES("num-mul", n * va, sMul(n, a[i]));
	LANES("num-div", n / va, sDiv(n, a[i]));
	{ f32x4 t; 
	#define COMP(key, stmt, want) t = va; { auto&& ref = (stmt); if ((const void*)&ref != (const void*)&t) fail(key, "does not return itself"); } LANES(key, t, want)
	COMP("add-assign", t += vb, sAdd(a[i], b[i])); COMP("sub-assign", t -= vb, sSub(a[i], b[i]));
	COMP("mul-assign", t *= vb, sMul(a[i], b[i])); COMP("div-assign", t /= vb, sDiv(a[i], b[i]));
	COMP("add-assign-num", t += n, sAdd(a[i], n)); COMP("sub-assign-num", t -= n, sSub(a[i], n));
	COMP("mul-assign-num", t *= n, sMul(a[i], n)); COMP("div-assign-num", t /= n, sDiv(a[i], n));
	COMP("assign-num", t = n, n); COMP("assign", t = vb, b[i]);
	COMP("self-add", t += t, sAdd(a[i], a[i])); COMP("self-sub", t -= t, sSub(a[i], a[i])); COMP("self-mul", t *= t, sMul(a[i], a[i])); COMP("self-div", t /= t, sDiv(a[i], a[i]));
	}
	{ // a number that is one of the vector's own lanes counts with the value it had before the operation
		size_t m = bits(c[0]) & 3;
		#define OWN(key, op) do { VT_OP(key); f32x4 t = va, w = va; touch(t); float x = opaque(a[m]); w op x; touch(w); t op t[m]; touch(t); for (int i = 0; i < 4; i++) if (!same(L(t, i), L(w, i))) fail(key, "lane %d: got %.9g, with a copy of lane %d %.9g, a=%.9g", i, L(t, i), (int)m, L(w, i), a[i]); \
			t = va; touch(t); switch (m) { case 0: t op t.floats.x; break; case 1: t op t.floats.y; break; case 2: t op t.floats.z; break; default: t op t.floats.w; } touch(t); for (int i = 0; i < 4; i++) if (!same(L(t, i), L(w, i))) fail(key, "lane %d: got %.9g, with a copy of member %d %.9g, a=%.9g", i, L(t, i), (int)m, L(w, i), a[i]); } while (0)
		OWN("own-add", +=); OWN("own-sub", -=); OWN("own-mul", *=); OWN("own-div", /=); OWN("own-assign", =);
	}
	bool eq = true, eqn = true;
	for (int i = 0; i < 4; i++) { eq &= a[i] == b[i]; eqn &= a[i] == n; }
	BOOL("eq", va == vb, eq); BOOL("ne", va != vb, !eq);
	BOOL("eq-num", va == n, eqn); BOOL("ne-num", va != n, !eqn);
	BOOL("num-eq", n == va, eqn); BOOL("num-ne", n != va, !eqn);
	MASK("lt", va < vb, a[i] < b[i]); MASK("gt", va > vb, a[i] > b[i]); MASK("le", va <= vb, a[i] <= b[i]); MASK("ge", va >= vb, a[i] >= b[i]);
	MASK("lt-num", va < n, a[i] < n); MASK("gt-num", va > n, a[i] > n); MASK("le-num", va <= n, a[i] <= n); MASK("ge-num", va >= n, a[i] >= n);
	MASK("num-lt", n < va, n < a[i]); MASK("num-gt", n > va, n > a[i]); MASK("num-le", n <= va, n <= a[i]); MASK("num-ge", n >= va, n >= a[i]);
	MASK("equal", equal(va, vb), a[i] == b[i]); MASK("notEqual", notEqual(va, vb), a[i] != b[i]);
	{
		vt::u32 m[4]; for (int i = 0; i < 4; i++) m[i] = (bits(c[i]) & 3) ? ((bits(c[i]) & 4) ? 0xffffffffu : 0u) : ((bits(c[i]) & 4) ? 0x80000000u | (rng.u() >> 1) : rng.u() >> 1);
		u32x4 vm = opaque(u32x4(m[0], m[1], m[2], m[3]));
		LANES("select", select(vm, va, vb), (m[i] & 0x80000000u) ? a[i] : b[i]);
	}
	bool nan = false; for (int i = 0; i < 4; i++) nan |= isnanf_(a[i]) | isnanf_(b[i]) | isnanf_(c[i]);
	float x[4], y[4], z[4];
	for (int i = 0; i < 4; i++) { x[i] = isnanf_(a[i]) ? 1.5f : a[i]; y[i] = isnanf_(b[i]) ? -0.25f : b[i]; z[i] = isnanf_(c[i]) ? 7.0f : c[i]; }
	{
		f32x4 p = mk(x), q = mk(y), w = mk(z);
		LANESV("min", min(p, q), sameVal(g, x[i] < y[i] ? x[i] : y[i]));
		LANESV("max", max(p, q), sameVal(g, x[i] > y[i] ? x[i] : y[i]));
		float lo[4], hi[4];
		for (int i = 0; i < 4; i++) { lo[i] = y[i] < z[i] ? y[i] : z[i]; hi[i] = y[i] < z[i] ? z[i] : y[i]; }
		LANESV("clamp", clamp(p, mk(lo), mk(hi)), sameVal(g, x[i] < lo[i] ? lo[i] : x[i] > hi[i] ? hi[i] : x[i]));
		(void)w;
	}
	LANESV("fma", fma(va, vb, vc), same(g, std::fma(opaque(a[i]), opaque(b[i]), opaque(c[i]))) || sameVal(g, sAdd(sMul(a[i], b[i]), c[i])));
	LANES("abs", abs(va), fbits(bits(a[i]) & 0x7fffffffu));
	LANES("sqrt", sqrt(va), std::sqrt(opaque(a[i])));
	LANES("sign", sign(va), (bits(a[i]) >> 31) ? -1.0f : 1.0f);
	{
		VT_OP("signBits");
		int w = 0; for (int i = 0; i < 4; i++) w |= (int)(bits(a[i]) >> 31) << i;
		int g = opaque(signBits(va));
		if (g != w) fail("signBits", "got %d want %d", g, w);
	}
	LANES("operands-unchanged", va, a[i]);
}

int main(int argc, char** argv)
{
	begin(argc, argv);
	constants();
	const int S = sizeof specialF / 4 + 3;
	auto sp = [](int k) { return k < (int)(sizeof specialF / 4) ? specialF[k] : nonFiniteF[k - sizeof specialF / 4]; };
	// every ordered pair of special values, in every lane position
	for (int q = 0; q < S * S * 4; q++)
	{
		float a[4], b[4], c[4]; int lane = q & 3, p = q >> 2;
		for (int i = 0; i < 4; i++) { a[i] = rng.f(-5, 5); b[i] = rng.f(-5, 5); c[i] = genAnyF(rng); }
		a[lane] = sp(p / S); b[lane] = sp(p % S);
		curCase = (vt::u64)q; distinctBytes(a, 16); distinctBytes(b, 16);
		caseOf(a, b, c);
	}
	for (vt::u64 k = 0; k < cases; k++)
	{
		curCase = k + 100000;
		float a[4], b[4], c[4];
		for (int i = 0; i < 4; i++) { a[i] = genAnyF(rng); b[i] = genAnyF(rng); c[i] = genAnyF(rng); }
		vt::u32 mode = rng.below(6);
		if (mode == 0) for (int i = 0; i < 4; i++) b[i] = a[i];                       // all equal
		if (mode == 1) { float n = a[0]; for (int i = 0; i < 4; i++) { b[i] = a[i] = n; } b[rng.below(4)] = genAnyF(rng); } // equal but one lane
		if (mode == 2) { for (int i = 0; i < 4; i++) b[i] = a[i]; int l = (int)rng.below(4); b[l] = fbits(bits(b[l]) + (rng.chance(2) ? 1 : 0xffffffffu)); } // neighbours
		shape4(rng, a, b);
		float in[12]; memcpy(in, a, 16); memcpy(in + 4, b, 16); memcpy(in + 8, c, 16);
		distinctBytes(in, 48);
		if (k < 3) sample("a=(%g %g %g %g) b=(%g %g %g %g)", a[0], a[1], a[2], a[3], b[0], b[1], b[2], b[3]);
		caseOf(a, b, c);
	}
	return end();
}
