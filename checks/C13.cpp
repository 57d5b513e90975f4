// vt: quick=1000000
// vt: thorough=30000000
// vt: rule=each case draws two unit quaternions (random, identical, nearly identical down to 1e-8, nearly antipodal, orthogonal, negated, axis aligned) and a factor in [0,1] (often 0, 1, 1/2) and compares the interpolation with the double-precision great-arc point; distinct by operand bits
#include "vt.hpp"
#include "math/vector.hpp"
#include "math/simd/vector/float.hpp"
#include "math/quaternion.hpp"
using namespace vt;
using math::quat; using math::f32x4;
static double dot4d(const double* a, const double* b) { return a[0]*b[0] + a[1]*b[1] + a[2]*b[2] + a[3]*b[3]; }
static void unit(double* q) { double n = std::sqrt(dot4d(q, q)); for (int i = 0; i < 4; i++) q[i] /= n; }
static void rnd(double* q)
{
	for (;;)
	{
		int kind = (int)rng.below(4); for (int i = 0; i < 4; i++) q[i] = kind == 0 ? (double)((int)rng.below(3) - 1) : kind == 1 ? (rng.chance(2) ? 0 : rng.range(-1, 1)) : rng.range(-1, 1);
		if (rng.chance(8)) { q[1] = q[0]; if (rng.chance(2)) q[2] = q[0]; } if (rng.chance(8)) for (int i = 0; i < 4; i++) { if (q[i] == 0) q[i] = -0.0; else if (rng.chance(3)) q[i] *= std::pow(10, rng.range(-9, -2)); }
		if (dot4d(q, q) > 1e-3) { unit(q); return; }
	}
}
int main(int argc, char** argv)
{
	begin(argc, argv); double worst = 0;
	for (vt::u64 k = 0; k < cases; k++)
	{
		curCase = k; double a[4], b[4]; rnd(a); rnd(b);
		switch (rng.below(6))
		{
		case 0: for (int i = 0; i < 4; i++) b[i] = a[i]; break;
		case 1: { double s = std::pow(10, rng.range(-9, -1)); for (int i = 0; i < 4; i++) b[i] = a[i] + b[i] * s; unit(b); break; }
		case 2: { double p = dot4d(a, b); for (int i = 0; i < 4; i++) b[i] -= p * a[i]; if (dot4d(b, b) < 1e-6) rnd(b); else { unit(b); double s = rng.chance(2) ? 0 : std::pow(10, rng.range(-8, -2)) * genSign(rng); for (int i = 0; i < 4; i++) b[i] += s * a[i]; unit(b); } break; } // half a turn of rotation apart
		default: break;
		}
		if (rng.chance(2)) for (double& x : b) x = -x;
		float fa[4], fb[4]; for (int i = 0; i < 4; i++) { fa[i] = (float)a[i]; fb[i] = (float)b[i]; a[i] = fa[i]; b[i] = fb[i]; } unit(a); unit(b);
		float t; switch (rng.below(6)) { case 0: t = 0; break; case 1: t = 1; break; case 2: t = 0.5f; break; case 3: t = rng.chance(2) ? rng.f(0, 1e-3) : 1 - rng.f(0, 1e-3); break; default: t = rng.f(0, 1); }
		float in[9]; memcpy(in, fa, 16); memcpy(in + 4, fb, 16); in[8] = t; distinctBytes(in, 36);
		if (k < 3) sample("a=(%g %g %g %g) b=(%g %g %g %g) t=%g", fa[0], fa[1], fa[2], fa[3], fb[0], fb[1], fb[2], fb[3], t);
		VT_OP("slerp");
		f32x4 r = opaque((f32x4)math::slerp(opaque(quat(fa[0], fa[1], fa[2], fa[3])), opaque(quat(fb[0], fb[1], fb[2], fb[3])), opaque(t)));
		double g[4] = { r.getX(), r.getY(), r.getZ(), r.getW() };
		double n = std::sqrt(dot4d(g, g)); if (!(std::fabs(n - 1) <= 2e-6)) { fail("unit", "length %.9g, a=(%.9g %.9g %.9g %.9g) b=(%.9g %.9g %.9g %.9g) t=%.9g", n, fa[0], fa[1], fa[2], fa[3], fb[0], fb[1], fb[2], fb[3], t); continue; }
		double c = dot4d(a, b), best = 1e9; 
		for (int s = -1; s <= 1; s += 2)
		{
			if (s * c < -1e-6) continue; // the long way round
			double e[4], l = 0, dt = s * c > 1 ? 1 : s * c; double q[4]; for (int i = 0; i < 4; i++) { q[i] = s * b[i]; l += (q[i] - a[i]) * (q[i] - a[i]); }
			double th = 2 * std::asin(std::fmin(1, std::sqrt(l) / 2)); (void)dt; // angle between the quaternions, accurate when small
			double wa, wb; if (th < 1e-9) { wa = 1 - (double)t; wb = t; } else { wa = std::sin((1 - (double)t) * th) / std::sin(th); wb = std::sin(t * th) / std::sin(th); }
			double m = 0; for (int i = 0; i < 4; i++) { e[i] = wa * a[i] + wb * q[i]; m = std::fmax(m, std::fabs(e[i] - g[i])); } best = std::fmin(best, m);
			if (t == 0.5f && th > 1) VT_COUNT("mid-arc cases over more than a radian");
		}
		if (best < 1e8 && best > worst) worst = best;
		if (!(best <= 3e-6)) fail(t == 0 || t == 1 ? "end" : "arc", "a=(%.9g %.9g %.9g %.9g) b=(%.9g %.9g %.9g %.9g) t=%.9g gives (%.9g %.9g %.9g %.9g), %.3g off", fa[0], fa[1], fa[2], fa[3], fb[0], fb[1], fb[2], fb[3], t, g[0], g[1], g[2], g[3], best);
	}
	count("worst error, 1e-9", (vt::u64)(worst * 1e9));
	return end();
}
