// vt: quick=1500000
// vt: thorough=80000000
// vt: rule=each case takes four independent non-negative channels (unit range, near black down to denormals, within a few ulp of either knee, above one up to 1e30) with any bit pattern as alpha through the sRGB curve both ways and back, RGB to XYZ against the standard matrix in double precision and back, Yxy there and back for colors that are not black, any tristimulus and any chromaticity back to linear color against the standard inverse matrix, and the fast gamma correction with the default and random exponents; distinct by channel bits
#include "vt.hpp"
#include "math/vector.hpp"
#include "math/simd/vector/float.hpp"
#include "math/color-space.hpp"
#include "math/tone-mapping.hpp"
using namespace vt;
namespace M = math;
using math::f32x4;

static void lanes(f32x4 v, float* o) { touch(v); v.store(o); }
static float chan()
{
	switch (rng.below(10))
	{
	case 0: return (float)(rng.below(256) / 255.0);
	case 1: { float f = rng.chance(2) ? 0.0031308f : 0.04045f; for (int i = (int)rng.below(9) - 4; i; i += i < 0 ? 1 : -1) f = std::nextafterf(f, i > 0 ? 1.0f : 0.0f); return f; }
	case 2: return (float)((rng.chance(2) ? 0.0031308 : 0.04045) * std::pow(10, rng.range(-0.3, 0.3)));
	case 3: return (float)std::pow(10, rng.range(-30, 0));
	case 4: return (float)std::pow(10, rng.range(0, 8));
	case 6: return (float)(rng.chance(2) ? rng.below(33) / 16.0 : std::ldexp(1, (int)rng.below(24) - 16));
	case 5: return rng.chance(2) ? 0.0f : rng.chance(2) ? 1.0f : 0.18f;
	default: return rng.f(0, 1);
	}
}
static void curve(const char* key, double v, double got, double knee, double fl(double), double fh(double))
{
	double a = fl(v), b = fh(v), want = v <= knee ? a : b, tol = 4e-6 + (v > 1 ? 3e-7 * std::log(v) : 0); if (std::fabs(got - want) <= tol * want + 1e-44) return; // the power turns one rounding of its operands into log(v) of them
	if (std::fabs(v - knee) < 1e-6 * knee && (std::fabs(got - a) <= tol * a || std::fabs(got - b) <= tol * b)) return; // either side at the knee itself
	fail(key, "%.9g becomes %.9g want %.9g", v, got, want);
}
static double encL(double v) { return v * 12.92; } static double encH(double v) { return 1.055 * std::pow(v, 1 / 2.4) - 0.055; }
static double decL(double v) { return v / 12.92; } static double decH(double v) { return std::pow((v + 0.055) / 1.055, 2.4); }
static void gammaOf(const char* key, float v, float e, float g)
{
	if (v == 0) { if (g != 0) fail(key, "0 to the %.9g is %.9g", e, g); return; }
	double r = std::pow((double)v, (double)e), k = std::fabs(e * std::log((double)v)); if (r > 3e38 || r < 1e-37) return;
	if (!(std::fabs(g - r) <= (3e-6 + 1.5e-6 * k) * r)) fail(key, "%.9g to the %.9g is %.9g want %.9g", v, e, g, r);
}

int main(int argc, char** argv)
{
	begin(argc, argv);
	static const double m[3][3] = { { 0.4124564, 0.3575761, 0.1804375 }, { 0.2126729, 0.7151522, 0.0721750 }, { 0.0193339, 0.1191920, 0.9503041 } };
	{   // the standard itself: white and the primaries
		float o[4]; VT_OP("white and primaries"); lanes(M::rgbToXyz(opaque(f32x4(1.0f, 1.0f, 1.0f, 7.0f))), o); static const double w[3] = { 0.95047, 1.0, 1.08883 };
		for (int i = 0; i < 3; i++) if (!(std::fabs(o[i] - w[i]) < 2e-5)) fail("white", "lane %d of white is %.9g want %.9g", i, o[i], w[i]);
		for (int c = 0; c < 3; c++) { lanes(M::rgbToXyz(opaque(f32x4(c == 0, c == 1, c == 2, 0.0f))), o); for (int i = 0; i < 3; i++) if (!(std::fabs(o[i] - m[i][c]) < 2e-6)) fail("primaries", "lane %d of primary %d is %.9g want %.9g", i, c, o[i], m[i][c]); }
		for (int c = 0; c < 3; c++) { lanes(M::rgbToYxy(opaque(f32x4(c == 0, c == 1, c == 2, 0.0f))), o); static const double xy[3][2] = { { 0.64, 0.33 }, { 0.30, 0.60 }, { 0.15, 0.06 } }; if (!(std::fabs(o[0] - m[1][c]) < 2e-6 && std::fabs(o[1] - xy[c][0]) < 2e-4 && std::fabs(o[2] - xy[c][1]) < 2e-4)) fail("chromaticity", "primary %d has Yxy %.9g %.9g %.9g", c, o[0], o[1], o[2]); }
	}
	for (vt::u64 k = 0; k < cases; k++)
	{
		curCase = k; float v[4] = { chan(), chan(), chan(), genGarbage(rng) }, o[4], q[4]; if (rng.chance(6)) v[rng.below(3)] = rng.chance(4) ? -0.0f : 0; if (rng.chance(8)) v[0] = v[1] = v[2]; if (rng.chance(16)) for (int i = 0; i < 3; i++) v[i] = fbits(rng.u() & 0x7fffff);
		f32x4 c = opaque(f32x4(v)); distinctBytes(v, 12); if (k < 3) sample("%.9g %.9g %.9g, alpha %.9g", v[0], v[1], v[2], v[3]);
		// transfer curve
		VT_OP("sRGB curve"); lanes(M::rgbToSrgb(c), o); for (int i = 0; i < 3; i++) curve("rgbToSrgb", v[i], o[i], 0.0031308, encL, encH); if (!same(o[3], v[3])) fail("rgbToSrgb-alpha", "alpha %.9g becomes %.9g", v[3], o[3]);
		lanes(M::srgbToRgb(opaque(f32x4(o))), q); for (int i = 0; i < 3; i++) if (!(std::fabs(q[i] - v[i]) <= (1e-5 + (v[i] > 1 ? 6e-7 * std::log((double)v[i]) : 0)) * v[i] + 1e-43)) fail("sRGB-roundtrip", "linear %.9g returns as %.9g", v[i], q[i]); if (!same(q[3], v[3])) fail("sRGB-roundtrip-alpha", "alpha %.9g becomes %.9g", v[3], q[3]);
		bool low = v[0] < 1e12 && v[1] < 1e12 && v[2] < 1e12;
		if (low)
		{
			lanes(M::srgbToRgb(c), o); for (int i = 0; i < 3; i++) curve("srgbToRgb", v[i], o[i], 0.04045, decL, decH); if (!same(o[3], v[3])) fail("srgbToRgb-alpha", "alpha %.9g becomes %.9g", v[3], o[3]);
			lanes(M::rgbToSrgb(opaque(f32x4(o))), q); for (int i = 0; i < 3; i++) if (!(std::fabs(q[i] - v[i]) <= (1e-5 + (v[i] > 1 ? 6e-7 * std::log((double)v[i]) : 0)) * v[i] + 1e-43)) fail("sRGB-roundtrip", "encoded %.9g returns as %.9g", v[i], q[i]);
		}
		// CIE XYZ and Yxy
		double mx = std::fmax(v[0], std::fmax(v[1], v[2])), xyz[3]; for (int i = 0; i < 3; i++) xyz[i] = m[i][0] * v[0] + m[i][1] * v[1] + m[i][2] * v[2];
		VT_OP("XYZ"); lanes(M::rgbToXyz(c), o); for (int i = 0; i < 3; i++) if (!(std::fabs(o[i] - xyz[i]) <= 1e-6 * xyz[i] + 1e-44)) fail("rgbToXyz", "lane %d of %.9g %.9g %.9g is %.9g want %.9g", i, v[0], v[1], v[2], o[i], xyz[i]);
		o[3] = genGarbage(rng); lanes(M::xyzToRgb(opaque(f32x4(o))), q); for (int i = 0; i < 3; i++) if (!(std::fabs(q[i] - v[i]) <= 3e-6 * mx + 1e-43)) fail("XYZ-roundtrip", "channel %d of %.9g %.9g %.9g returns as %.9g", i, v[0], v[1], v[2], q[i]);
		if (mx > 1e-30)
		{
			VT_OP("Yxy"); double s = xyz[0] + xyz[1] + xyz[2]; float x[4] = { (float)xyz[0], (float)xyz[1], (float)xyz[2], genGarbage(rng) };
			double want[3] = { xyz[1], xyz[0] / s, xyz[1] / s }; lanes(M::xyzToYxy(opaque(f32x4(x))), o); for (int i = 0; i < 3; i++) if (!(std::fabs(o[i] - want[i]) <= 1e-6 * want[i])) fail("xyzToYxy", "lane %d of %.9g %.9g %.9g is %.9g want %.9g", i, x[0], x[1], x[2], o[i], want[i]);
			o[3] = genGarbage(rng); lanes(M::yxyToXyz(opaque(f32x4(o))), q); for (int i = 0; i < 3; i++) if (!(std::fabs(q[i] - x[i]) <= 3e-6 * s)) fail("Yxy-roundtrip", "lane %d of %.9g %.9g %.9g returns as %.9g", i, x[0], x[1], x[2], q[i]);
			lanes(M::rgbToYxy(c), o); for (int i = 0; i < 3; i++) if (!(std::fabs(o[i] - want[i]) <= 3e-6 * want[i])) fail("rgbToYxy", "lane %d of %.9g %.9g %.9g is %.9g want %.9g", i, v[0], v[1], v[2], o[i], want[i]);
			o[3] = genGarbage(rng); lanes(M::yxyToRgb(opaque(f32x4(o))), q); for (int i = 0; i < 3; i++) if (!(std::fabs(q[i] - v[i]) <= 3e-5 * mx)) fail("RGB-Yxy-roundtrip", "channel %d of %.9g %.9g %.9g returns as %.9g", i, v[0], v[1], v[2], q[i]);
		} else trivial++;
		{
			// any luminance and chromaticity
			float Y = chan(), x, y; switch (rng.below(5)) { case 0: x = y = rng.f(1e-3, 1); break; case 1: x = (float)rng.below(3); y = (float)(1 + rng.below(3)); break; case 2: x = rng.f(0, 1e-3); y = rng.f(1e-4, 1); break; case 3: x = rng.chance(2) ? 0.0f : -0.0f; y = rng.f(1e-3, 1); break; default: x = rng.f(0, 1); y = rng.f(0.01, 1); } touch(Y); touch(x); touch(y);
			if (Y < 1e12f && (Y == 0 || Y > 1e-30f)) { VT_OP("Yxy of any chromaticity"); double r = (double)Y / y, w[3] = { x * r, Y, (1 - (double)x - y) * r }, t = 2e-6 * (1 + std::fabs((double)x) + y) * r + 1e-37; lanes(M::yxyToXyz(opaque(f32x4(Y, x, y, genGarbage(rng)))), o); for (int i = 0; i < 3; i++) if (!(std::fabs(o[i] - w[i]) <= t)) fail("yxyToXyz", "lane %d of luminance %.9g at %.9g %.9g is %.9g want %.9g", i, Y, x, y, o[i], w[i]); }
		}
		{
			// the way back from any tristimulus, reachable from a color or not, and from any luminance and chromaticity
			static const double n[3][3] = { { 3.2404542, -1.5371385, -0.4985314 }, { -0.9692660, 1.8760108, 0.0415560 }, { 0.0556434, -0.2040259, 1.0572252 } };
			float x[4]; for (int i = 0; i < 3; i++) { x[i] = rng.chance(4) ? genGeo(rng) : chan(); if (rng.chance(6)) x[i] = -x[i]; } x[3] = genGarbage(rng); if (rng.chance(4)) x[rng.below(3)] = rng.chance(2) ? 0.0f : -0.0f;
			VT_OP("linear color of any tristimulus"); lanes(M::xyzToRgb(opaque(f32x4(x))), o);
			for (int i = 0; i < 3; i++) { double w = 0, t = 0; for (int j = 0; j < 3; j++) { w += n[i][j] * x[j]; t += std::fabs(n[i][j] * x[j]); } if (!(std::fabs(o[i] - w) <= 2e-6 * t + 1e-43)) fail("xyzToRgb", "channel %d of %.9g %.9g %.9g is %.9g want %.9g", i, x[0], x[1], x[2], o[i], w); }
			float Y = chan(), a, b; if (rng.chance(2)) { a = rng.f(0, 1); b = rng.f(0.01, 1); } else { a = rng.f(0, 0.8); b = rng.f(0.02, 0.95) * (1 - a) + 1e-3f; }
			if (Y < 1e12f && Y > 1e-30f)
			{
				VT_OP("linear color of any chromaticity"); double r = (double)Y / b, z[3] = { a * r, Y, (1 - (double)a - b) * r }, za[3] = { a * r, Y, (1 + (double)a + b) * r }; lanes(M::yxyToRgb(opaque(f32x4(Y, a, b, genGarbage(rng)))), o);
				for (int i = 0; i < 3; i++) { double w = 0, t = 0; for (int j = 0; j < 3; j++) { w += n[i][j] * z[j]; t += std::fabs(n[i][j] * za[j]); } if (!(std::fabs(o[i] - w) <= 3e-6 * t + 1e-37)) fail("yxyToRgb", "channel %d of luminance %.9g at %.9g %.9g is %.9g want %.9g", i, Y, a, b, o[i], w); }
			}
		}
		// gamma
		VT_OP("fast gamma"); float e = rng.chance(3) ? 1 / 2.2f : rng.chance(3) ? 1.0f : rng.f(0.1, 4); lanes(M::fastGammaCorrection(c), o); lanes(M::fastGammaCorrection(c, opaque(e)), q);
		for (int i = 0; i < 3; i++) if (v[i] == 0 || v[i] >= FLT_MIN) { gammaOf("fastGamma-default", v[i], 1 / 2.2f, o[i]); gammaOf("fastGamma", v[i], e, q[i]); }
		if (!same(o[3], v[3]) || !same(q[3], v[3])) fail("fastGamma-alpha", "alpha %.9g becomes %.9g, %.9g", v[3], o[3], q[3]);
	}
	return end();
}
