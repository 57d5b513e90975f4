// vt: quick=400000
// vt: thorough=12000000
// vt: rule=each case draws operands, an interpolation factor, two time steps, a repeat/modulo argument and a gain point, checks every scalar, component and SIMD form against the contract in double precision (endpoints, proportion, step composition, congruence, symmetry, monotonicity); distinct by operand bits
#include "vt.hpp"
#include "math/vector.hpp"
#include "math/simd/vector/float.hpp"
#include "math/angles.hpp"
using namespace vt;
namespace M = math;
using math::float2; using math::float3; using math::float4; using math::f32x4;

// Applies fn to operand columns of width 1, 2, 3, 4 and SIMD and calls judge(form, component, result).
static void out(float v, float* o) { o[0] = v; }
static void out(float2 v, float* o) { o[0] = v.x; o[1] = v.y; }
static void out(float3 v, float* o) { o[0] = v.x; o[1] = v.y; o[2] = v.z; }
static void out(float4 v, float* o) { o[0] = v.x; o[1] = v.y; o[2] = v.z; o[3] = v.w; }
static void out(f32x4 v, float* o) { touch(v); v.store(o); }
static float2 v2(const float* p) { return opaque(float2(p[0], p[1])); }
static float3 v3(const float* p) { return opaque(float3(p[0], p[1], p[2])); }
static float4 v4(const float* p) { return opaque(float4(p[0], p[1], p[2], p[3])); }
static f32x4 vs(const float* p) { return opaque(f32x4(p[0], p[1], p[2], p[3])); }
#define FORMS(NAME, E1, E2, E3, E4, ES, JUDGE) do { float o_[4]; \
	VT_OP(NAME " scalar"); for (int i = 0; i < 4; i++) { out(E1, o_); JUDGE("scalar", i, o_[0]); } \
	VT_OP(NAME " float2"); out(E2, o_); for (int i = 0; i < 2; i++) JUDGE("float2", i, o_[i]); \
	VT_OP(NAME " float3"); out(E3, o_); for (int i = 0; i < 3; i++) JUDGE("float3", i, o_[i]); \
	VT_OP(NAME " float4"); out(E4, o_); for (int i = 0; i < 4; i++) JUDGE("float4", i, o_[i]); \
	VT_OP(NAME " SIMD"); out(ES, o_); for (int i = 0; i < 4; i++) JUDGE("SIMD", i, o_[i]); } while (0)
#define FORMSV(NAME, E2, E3, E4, JUDGE) do { float o_[4]; \
	VT_OP(NAME " float2"); out(E2, o_); for (int i = 0; i < 2; i++) JUDGE("float2", i, o_[i]); \
	VT_OP(NAME " float3"); out(E3, o_); for (int i = 0; i < 3; i++) JUDGE("float3", i, o_[i]); \
	VT_OP(NAME " float4"); out(E4, o_); for (int i = 0; i < 4; i++) JUDGE("float4", i, o_[i]); } while (0)

static double wrapDist(double r, double v) { double d = r - v; d -= std::round(d); return std::fabs(d); }

int main(int argc, char** argv)
{
	begin(argc, argv);
	for (vt::u64 k = 0; k < cases; k++)
	{
		curCase = k;
		float a[4], b[4];
		for (int i = 0; i < 4; i++) { a[i] = rng.chance(3) ? rng.chance(4) ? genMag(rng, -12, 12) : genMag(rng, -6, 6) : genGeo(rng); b[i] = rng.chance(8) ? a[i] : rng.chance(3) ? genMag(rng, -6, 6) : genGeo(rng); }
		shape4(rng, a, b);
		float in[8]; memcpy(in, a, 16); memcpy(in + 4, b, 16); distinctBytes(in, 32);
		// ---- linear interpolation
		float t; switch (rng.below(5)) { case 0: t = 0; break; case 1: t = 1; break; case 2: t = 0.5f; break; default: t = rng.f(0, 1); }
		touch(t);
		if (k < 3) sample("a=(%g %g %g %g) b=(%g %g %g %g) t=%g", a[0], a[1], a[2], a[3], b[0], b[1], b[2], b[3], t);
		auto jLerp = [&](const char* form, int i, float g)
		{
			double m = std::fmax(std::fabs(a[i]), std::fabs(b[i])), ref = a[i] + (double)t * ((double)b[i] - a[i]), tol = 3 * EPS * m + 1e-44;
			if (!(std::fabs(g - ref) <= tol)) fail("lerp", "%s: lerp(%.9g, %.9g, %.9g)=%.9g want %.9g", form, a[i], b[i], t, g, ref);
			if (!(g >= std::fmin(a[i], b[i]) - tol && g <= std::fmax(a[i], b[i]) + tol)) fail("lerp-range", "%s: lerp(%.9g, %.9g, %.9g)=%.9g", form, a[i], b[i], t, g);
			if (t == 0 && g != a[i]) fail("lerp-end", "%s: lerp(%.9g, %.9g, 0)=%.9g", form, a[i], b[i], g);
		};
		FORMS("lerp", M::lerp(opaque(a[i]), opaque(b[i]), t), M::lerp(v2(a), v2(b), t), M::lerp(v3(a), v3(b), t), M::lerp(v4(a), v4(b), t), M::lerp(vs(a), vs(b), t), jLerp);
		// ---- frame-rate independent interpolation: two steps make one
		float f = rng.chance(6) ? (rng.chance(2) ? 0.5f : 1.0f) : rng.f(0.001, 1), s = rng.chance(4) ? 0.016f : rng.f(0, 3), u = rng.chance(4) ? 1.0f : rng.f(0, 3);
		touch(f); touch(s); touch(u); float su = opaque(s + u);
		float one[4], two[4]; const char* form0 = "";
		auto jDelta = [&](const char* form, int i, float g)
		{
			double m = std::fmax(std::fabs(a[i]), std::fabs(b[i])), ref = a[i] + (1 - std::pow((double)f, (double)s)) * ((double)b[i] - a[i]);
			if (!(std::fabs(g - ref) <= 8 * EPS * m + 1e-44)) fail("lerpDelta", "%s: lerpDelta(%.9g, %.9g, %.9g, %.9g)=%.9g want %.9g", form, a[i], b[i], f, s, g, ref);
			(void)form0;
		};
		FORMS("lerpDelta", M::lerpDelta(opaque(a[i]), opaque(b[i]), f, s), M::lerpDelta(v2(a), v2(b), f, s), M::lerpDelta(v3(a), v3(b), f, s), M::lerpDelta(v4(a), v4(b), f, s), M::lerpDelta(vs(a), vs(b), f, s), jDelta);
		auto compose = [&](const char* form, int n)
		{
			for (int i = 0; i < n; i++)
			{
				double m = std::fmax(std::fabs(a[i]), std::fabs(b[i]));
				if (!(std::fabs((double)one[i] - two[i]) <= 24 * EPS * m + 1e-44)) fail("lerpDelta-compose", "%s: one step of %.9g gives %.9g, steps %.9g and %.9g give %.9g (a=%.9g b=%.9g f=%.9g)", form, su, one[i], s, u, two[i], a[i], b[i], f);
			}
		};
		VT_OP("lerpDelta composition");
		for (int i = 0; i < 4; i++) { one[i] = M::lerpDelta(opaque(a[i]), opaque(b[i]), f, su); two[i] = M::lerpDelta(opaque(M::lerpDelta(opaque(a[i]), opaque(b[i]), f, s)), opaque(b[i]), f, u); } compose("scalar", 4);
		out(M::lerpDelta(v2(a), v2(b), f, su), one); out(M::lerpDelta(opaque(M::lerpDelta(v2(a), v2(b), f, s)), v2(b), f, u), two); compose("float2", 2);
		out(M::lerpDelta(v3(a), v3(b), f, su), one); out(M::lerpDelta(opaque(M::lerpDelta(v3(a), v3(b), f, s)), v3(b), f, u), two); compose("float3", 3);
		out(M::lerpDelta(v4(a), v4(b), f, su), one); out(M::lerpDelta(opaque(M::lerpDelta(v4(a), v4(b), f, s)), v4(b), f, u), two); compose("float4", 4);
		out(M::lerpDelta(vs(a), vs(b), f, su), one); out(M::lerpDelta(opaque(M::lerpDelta(vs(a), vs(b), f, s)), vs(b), f, u), two); compose("SIMD", 4);
		// ---- repeat
		float r[4];
		for (int i = 0; i < 4; i++) switch (rng.below(7))
		{
		case 0: r[i] = genFinF(rng); break;
		case 1: r[i] = (float)((int)rng.below(41) - 20); break;
		case 2: r[i] = (float)((int)rng.below(41) - 20) + (rng.chance(2) ? 1e-6f : -1e-6f); break;
		case 3: r[i] = genMag(rng, -12, 0); break;
		case 4: r[i] = rng.f(0, 1); break;
		default: r[i] = rng.f(-100, 100); break;
		}
		auto jRep = [&](const char* form, int i, float g)
		{
			if (!(g >= 0 && g <= 1)) { fail("repeat-range", "%s: repeat(%.9g)=%.9g", form, r[i], g); return; }
			double v = r[i];
			if (!(wrapDist(g, v - std::floor(v)) <= EPS)) fail("repeat", "%s: repeat(%.9g)=%.9g", form, r[i], g);
		};
		FORMS("repeat", M::repeat(opaque(r[i])), M::repeat(v2(r)), M::repeat(v3(r)), M::repeat(v4(r)), M::repeat(vs(r)), jRep);
		// ---- modulo
		float n[4], d[4];
		for (int i = 0; i < 4; i++)
		{
			switch (rng.below(4)) { case 0: d[i] = (float)(1 + (int)rng.below(16)) * genSign(rng); break; case 1: d[i] = genMag(rng, -6, 6); break; default: d[i] = rng.f(0.1, 10) * genSign(rng); }
			switch (rng.below(4)) { case 0: n[i] = d[i] * (float)((int)rng.below(21) - 10); break; case 1: n[i] = (float)((int)rng.below(201) - 100); break; default: n[i] = (float)(d[i] * rng.range(-1000, 1000)); }
		}
		auto jMod = [&](const char* form, int i, float g)
		{
			double q = (double)n[i] / d[i], whole = ((double)n[i] - g) / d[i], slack = 4 * EPS * (std::fabs(q) + 1);
			if (!(std::fabs(g) <= std::fabs((double)d[i]) * (1 + slack))) fail("mod-range", "%s: mod(%.9g, %.9g)=%.9g", form, n[i], d[i], g);
			if (!(std::fabs(whole - std::round(whole)) <= slack)) fail("mod", "%s: mod(%.9g, %.9g)=%.9g", form, n[i], d[i], g);
		};
		FORMSV("mod", M::mod(v2(n), v2(d)), M::mod(v3(n), v3(d)), M::mod(v4(n), v4(d)), jMod);
		{ float o[4]; VT_OP("mod SIMD"); out(M::mod(vs(n), vs(d)), o); for (int i = 0; i < 4; i++) jMod("SIMD", i, o[i]); }
		// ---- gain
		float x[4], c[4];
		for (int i = 0; i < 4; i++) { x[i] = rng.chance(4) ? (float)rng.below(5) * 0.25f : rng.chance(4) ? 0.5f + rng.f(-1e-3, 1e-3) : rng.chance(6) ? std::fabs(genMag(rng, -7, -1)) : rng.f(0, 1); c[i] = rng.chance(4) ? (float)(1 + rng.below(4)) : rng.chance(3) ? 1 / (float)(1 + rng.below(5)) : rng.chance(6) ? (float)std::pow(10, rng.range(-5, 1)) : rng.f(0.2, 8); }
		auto G = [](double x, double k) { double a = 0.5 * std::pow(2 * (x < 0.5 ? x : 1 - x), k); return x < 0.5 ? a : 1 - a; };
		auto jGain = [&](const char* form, int i, float g)
		{
			if (!(std::fabs(g - G(x[i], c[i])) <= 3e-6)) fail("gain", "%s: gain(%.9g, %.9g)=%.9g want %.9g", form, x[i], c[i], g, G(x[i], c[i]));
			if ((x[i] == 0 && g != 0) || (x[i] == 1 && g != 1) || (x[i] == 0.5f && std::fabs(g - 0.5f) > 1e-6f)) fail("gain-end", "%s: gain(%.9g, %.9g)=%.9g", form, x[i], c[i], g);
		};
		FORMSV("gain", M::gain(v2(x), v2(c)), M::gain(v3(x), v3(c)), M::gain(v4(x), v4(c)), jGain);
		VT_OP("gain scalar");
		for (int i = 0; i < 4; i++)
		{
			float g = M::gain(opaque(x[i]), opaque(c[i])); jGain("scalar", i, g);
			float y = 1 - x[i]; if (1 - y == x[i]) { float h = M::gain(opaque(y), opaque(c[i])); if (!(std::fabs((double)g + h - 1) <= 3e-6)) fail("gain-symmetry", "gain(%.9g)=%.9g gain(%.9g)=%.9g factor %.9g", x[i], g, y, h, c[i]); }
			float z = std::fmin(1.0f, x[i] + rng.f(0, 0.1)), h = M::gain(opaque(z), opaque(c[i])); if (!(h >= g - 2e-7f)) fail("gain-monotone", "gain(%.9g)=%.9g gain(%.9g)=%.9g factor %.9g", x[i], g, z, h, c[i]);
		}
		// ---- angles
		auto jRad = [&](const char* form, int i, float g) { if (!nearly(g, (double)a[i] * (3.14159265358979323846 / 180), 4 * EPS, 1e-44)) fail("radians", "%s: radians(%.9g)=%.9g", form, a[i], g); };
		FORMS("radians", M::radians(opaque(a[i])), M::radians(v2(a)), M::radians(v3(a)), M::radians(v4(a)), M::radians(vs(a)), jRad);
		auto jDeg = [&](const char* form, int i, float g) { if (!nearly(g, (double)a[i] * (180 / 3.14159265358979323846), 4 * EPS, 1e-44)) fail("degrees", "%s: degrees(%.9g)=%.9g", form, a[i], g); };
		FORMS("degrees", M::degrees(opaque(a[i])), M::degrees(v2(a)), M::degrees(v3(a)), M::degrees(v4(a)), M::degrees(vs(a)), jDeg);
		// ---- plain numbers
		VT_OP("min/max/sign of plain numbers");
		{
			float p = a[0], q = a[1], w = a[2]; vt::i32 ip = (vt::i32)genU(rng), iq = (vt::i32)genU(rng), iw = (vt::i32)genU(rng);
			if (M::min(opaque(p), opaque(q), opaque(w)) != std::fmin(p, std::fmin(q, w)) || M::max(opaque(p), opaque(q), opaque(w)) != std::fmax(p, std::fmax(q, w))) fail("minmax3", "min/max of %.9g %.9g %.9g", p, q, w);
			vt::i32 lo = ip < iq ? ip : iq, hi = ip < iq ? iq : ip; if (iw < lo) lo = iw; if (iw > hi) hi = iw;
			if (M::min(opaque(ip), opaque(iq), opaque(iw)) != lo || M::max(opaque(ip), opaque(iq), opaque(iw)) != hi) fail("minmax3-int", "min/max of %d %d %d", ip, iq, iw);
			float sg = genAnyF(rng); if (M::sign(opaque(sg)) != (std::signbit(sg) ? -1.0f : 1.0f)) fail("sign", "sign(%.9g)=%.9g", sg, M::sign(sg));
		}
	}
	return end();
}
