// vt: configs=sse2,sse41,avx2,asan,scalar,neon
// vt: quick=1500000
// vt: thorough=40000000
// vt: rule=each case fills the four lanes with independent inputs (all float classes for log/exp, base-exponent pairs for the powers, angles to 8000 rad for sine/cosine) next to special values in other lanes; each lane is compared with the double-precision result; thorough also sweeps every float through log and exp; distinct by input bits
#include "vt.hpp"
#include "math/vector.hpp"
#include "math/simd/vector/float.hpp"
using namespace vt;
using namespace math;
typedef vt::u32 U;
static double worst[5];
static void note(int k, double err) { if (err > worst[k]) worst[k] = err; }

static void judgeLog(float v, float g)
{
	if (isnanf_(v) || (v < 0)) { if (!isnanf_(g)) fail("log-special", "log(%.9g)=%.9g want NaN", v, g); return; }
	if (v == 0) { if (g != -INFINITY) fail("log-special", "log(%g)=%.9g want -inf", v, g); return; }
	if (isinff_(v)) { if (g != INFINITY) fail("log-special", "log(inf)=%.9g", g); return; }
	double r = std::log((double)v), e = std::fabs(g - r), tol = 3e-6 * std::fabs(r) + 1e-44;
	note(0, e / (std::fabs(r) + 1e-30));
	if (!(e <= tol)) fail("log", "log(%.9g)=%.9g want %.9g", v, g, r);
}
static void judgeExp(float v, float g)
{
	if (isnanf_(v)) { if (!isnanf_(g)) fail("exp-special", "exp(NaN)=%.9g", g); return; }
	double r = std::exp((double)v);
	if (r > 3.4028235e38 * (1 + 3e-6)) { if (g != INFINITY) fail("exp-special", "exp(%.9g)=%.9g want inf", v, g); return; }
	if (r > 3.4028235e38 * (1 - 3e-6)) { if (!(g >= 3.4e38f)) fail("exp", "exp(%.9g)=%.9g", v, g); return; }
	if (v < -104.5f) { if (g != 0) fail("exp-special", "exp(%.9g)=%.9g want 0", v, g); return; }
	double e = std::fabs(g - r); if (r > 1.2e-38) note(1, e / r);
	if (!(e <= 3e-6 * r + 3e-45)) fail("exp", "exp(%.9g)=%.9g want %.9g", v, g, r);
}
static void judgePow(float b, float x, float g)
{
	double r = std::pow((double)b, (double)x);
	if (std::isnan(r)) { if (!isnanf_(g)) fail("pow", "pow(%.9g, %.9g)=%.9g want NaN", b, x, g); return; }
	if (std::fabs(r) > 3.402e38) { if (!(std::fabs(g) >= 3.4e38f) || (std::signbit(g) != std::signbit(r))) fail("pow", "pow(%.9g, %.9g)=%.9g want %.9g", b, x, g, r); return; }
	if (!(std::fabs(g - r) <= 3e-6 * std::fabs(r) + 2e-45)) fail("pow", "pow(%.9g, %.9g)=%.9g want %.9g", b, x, g, r);
}
static void judgeFast(float b, float x, float g) // b finite; b<0 only with integral x, |x|<2^24
{
	if (x == 0) { if (g != 1.0f) fail("fastPow-special", "fastPow(%.9g, 0)=%.9g", b, g); return; }
	if (b == 0) { if (x > 0 && g != 0) fail("fastPow-special", "fastPow(0, %.9g)=%.9g", x, g); return; }
	double r = std::pow((double)b, (double)x), k = std::fabs(x * std::log(std::fabs((double)b)));
	if (std::isnan(r)) // a negative base with a broken exponent: no number, or the power of its size, but never a negative one
	{
		VT_COUNT("negative bases with a broken exponent"); double z = std::pow(std::fabs((double)b), (double)x); if (z > 3e38 || isnanf_(g)) return;
		if (!(std::fabs(g - z) <= (3e-6 + 1.5e-6 * k) * z + 3e-45)) fail("fastPow-broken-exponent", "fastPow(%.9g, %.9g)=%.9g", b, x, g); return;
	}
	double tol = (3e-6 + 1.5e-6 * k) * std::fabs(r) + 3e-45;
	if (std::fabs(r) > 3e38) return;
	if (std::fabs(r) > 1e-37) note(2, std::fabs(g - r) / std::fabs(r) / (1 + k));
	if (!(std::fabs(g - r) <= tol)) fail("fastPow", "fastPow(%.9g, %.9g)=%.9g want %.9g", b, x, g, r);
	if (r < 0 && r < -1e-30 && !(g < 0)) fail("fastPow-sign", "fastPow(%.9g, %.9g)=%.9g", b, x, g);
}
static void judgeSin(float v, float s, float c)
{
	double es = std::fabs(s - std::sin((double)v)), ec = std::fabs(c - std::cos((double)v)), tol = 1.5e-6;
	note(3, es); note(4, ec);
	if (!(es <= tol)) fail("sin", "sin(%.9g)=%.9g want %.9g", v, s, std::sin((double)v));
	if (!(ec <= tol)) fail("cos", "cos(%.9g)=%.9g want %.9g", v, c, std::cos((double)v));
}
static void lanes(f32x4 v, float* o) { touch(v); v.store(o); }

static void logExp(const float* p)
{
	float o[4]; f32x4 v = opaque(f32x4(p));
	VT_OP("log"); lanes(log(v), o); for (int i = 0; i < 4; i++) judgeLog(p[i], o[i]);
	VT_OP("exp"); lanes(exp(v), o); for (int i = 0; i < 4; i++) judgeExp(p[i], o[i]);
}
int main(int argc, char** argv)
{
	begin(argc, argv);
	{ // specials in every lane next to ordinary values
		float sp[] = { 0.0f, -0.0f, INFINITY, -INFINITY, NAN, -NAN, -1.0f, -1e-40f, 1e-40f, 1e-45f, FLT_MIN, FLT_MAX, 1.0f, 0.99999994f, 1.00000012f, 0.75f, 0.74999994f, 1.5f, 2.0f, 0.5f,
			88.7f, 88.72283f, 88.73f, 89.0f, 103.9f, 104.0f, 104.1f, 105.0f, -87.0f, -88.0f, -103.0f, -103.9f, -104.0f, -104.1f, -105.0f, -200.0f, 200.0f, 1e30f, -1e30f, 2.71828175f, 1e10f };
		for (float s : sp) for (int l = 0; l < 4; l++) { float p[4]; for (int i = 0; i < 4; i++) p[i] = i == l ? s : genAnyF(rng); logExp(p); for (int i = 0; i < 4; i++) p[i] = i == l ? s : 1.25f; logExp(p); }
	}
	if (thorough && shard < 4)
		for (vt::u64 k = (vt::u64)(shard & 3); k < (1ull << 30); k += 4)
		{
			float p[4]; int rot = (int)(k >> 2) & 3; curCase = k;
			for (int i = 0; i < 4; i++) p[(i + rot) & 3] = fbits((U)k | (U)i << 30);
			logExp(p);
		}
	for (vt::u64 k = 0; k < cases; k++)
	{
		curCase = k;
		float p[4], q[4], o[4], o2[4];
		for (int i = 0; i < 4; i++)
			switch (rng.below(6))
			{
			case 4: p[i] = rng.chance(2) ? (float)((int)rng.below(65) - 32) * 0.5f : (float)std::ldexp(rng.chance(2) ? 1 : -1, (int)rng.below(20) - 12); break; // whole, halves, powers of two
			case 0: p[i] = genAnyF(rng); break;
			case 1: p[i] = rng.f(-110, 95); break;
			case 2: p[i] = (float)std::exp(rng.range(-87, 88)); break;
			case 3: p[i] = fbits(0x3f800000u + rng.below(400001) - 200000); break;
			default: p[i] = rng.f(-2, 2); break;
			}
		logExp(p); distinctBytes(p, 16);
		if (k < 2) sample("log/exp lanes (%.9g %.9g %.9g %.9g)", p[0], p[1], p[2], p[3]);
		// powers
		for (int i = 0; i < 4; i++)
		{
			switch (rng.below(8))
			{
			case 6: p[i] = -rng.f(0.3, 3); q[i] = (float)((int)rng.below(25) - 12) + (rng.chance(4) ? 0.5f : 0); for (int n = (int)rng.below(5) - 2; n; n += n < 0 ? 1 : -1) q[i] = std::nextafterf(q[i], n > 0 ? 99.0f : -99.0f); break; // whole or next to it
			case 7: p[i] = rng.chance(2) ? -1.0f : -std::nextafterf(1.0f, rng.chance(2) ? 0.0f : 2.0f); q[i] = (float)(rng.chance(2) ? 16777216.0 + (double)((int)rng.below(17) - 8) : std::ldexp(1.0 + rng.below(8), 20 + (int)rng.below(14))) * (rng.chance(2) ? 1.0f : -1.0f); break; // around the last odd number
			case 0: p[i] = (float)std::exp(rng.range(-20, 20)); q[i] = rng.f(-6, 6); break;
			case 1: p[i] = rng.f(0, 4); q[i] = rng.f(-8, 8); break;
			case 2: p[i] = -rng.f(0.01, 8); q[i] = (float)((int)rng.below(41) - 20); break;               // sign by parity
			case 3: p[i] = rng.f(0, 1); q[i] = rng.chance(2) ? 2.2f : 1 / 2.2f; break;
			case 4: p[i] = rng.chance(2) ? genFinF(rng) : rng.f(-2, 2); q[i] = 0.0f; break;
			default: p[i] = rng.chance(3) ? 0.0f : (float)std::exp(rng.range(-87, 88)); q[i] = p[i] == 0 ? rng.f(0.01, 9) : rng.f(-1, 1); break;
			}
		}
		VT_OP("fastPow"); lanes(fastPow(opaque(f32x4(p)), opaque(f32x4(q))), o); for (int i = 0; i < 4; i++) judgeFast(p[i], q[i], o[i]);
		if (k % 4 == 0)
		{
			if (rng.chance(3)) { int l = (int)rng.below(4); p[l] = genAnyF(rng); q[l] = rng.chance(2) ? (float)((int)rng.below(9) - 4) : genAnyF(rng);
				if (isnanf_(p[l])) p[l] = NAN; if (isnanf_(q[l])) q[l] = NAN; } // the C library answers NaN for a signalling NaN
			VT_OP("pow"); lanes(pow(opaque(f32x4(p)), opaque(f32x4(q))), o); for (int i = 0; i < 4; i++) judgePow(p[i], q[i], o[i]);
		}
		// sine and cosine
		for (int i = 0; i < 4; i++)
			switch (rng.below(6))
			{
			case 4: p[i] = rng.chance(2) ? (float)((int)rng.below(65) - 32) * 0.5f : (float)std::ldexp(rng.chance(2) ? 1 : -1, (int)rng.below(24) - 12); break;
			case 0: p[i] = rng.f(-8000, 8000); break;
			case 1: p[i] = rng.f(-7, 7); break;
			case 2: p[i] = (float)((double)((int)rng.below(8001) - 4000) * 0.78539816339744831 + (rng.chance(2) ? 0 : rng.range(-1e-4, 1e-4))); break; // around multiples of pi/4
			case 3: p[i] = rng.chance(2) ? 0.0f : genMag(rng, -30, 0); break;
			default: p[i] = rng.f(-100, 100); break;
			}
		{
			float w[4]; memcpy(w, p, 16); int bad = -1; if (rng.chance(8)) { bad = (int)rng.below(4); w[bad] = rng.chance(2) ? NAN : INFINITY; }
			f32x4 s, c; VT_OP("sinCos"); sinCos(opaque(f32x4(w)), s, c); lanes(s, o); lanes(c, o2);
			for (int i = 0; i < 4; i++) if (i != bad) judgeSin(w[i], o[i], o2[i]);
			// either result may replace the angle
			float q1[4], q2[4]; VT_OP("sinCos over the angle"); f32x4 v(w); touch(v); sinCos(v, v, c); lanes(opaque(v), q1); lanes(opaque(c), q2);
			for (int i = 0; i < 4; i++) if (i != bad && !(std::fabs(q1[i] - o[i]) <= 2e-6f && std::fabs(q2[i] - o2[i]) <= 2e-6f)) fail("sincos-over-angle", "of %.9g: sine over the angle %.9g (apart %.9g), cosine %.9g (apart %.9g)", w[i], q1[i], o[i], q2[i], o2[i]);
			v = f32x4(w); touch(v); sinCos(v, s, v); lanes(opaque(s), q1); lanes(opaque(v), q2);
			for (int i = 0; i < 4; i++) if (i != bad && !(std::fabs(q1[i] - o[i]) <= 2e-6f && std::fabs(q2[i] - o2[i]) <= 2e-6f)) fail("sincos-over-angle", "of %.9g: cosine over the angle %.9g (apart %.9g), sine %.9g (apart %.9g)", w[i], q2[i], o2[i], q1[i], o[i]);
		}
	}
	const char* n[] = { "worst log relative error, 1e-9", "worst exp relative error, 1e-9", "worst fastPow scaled error, 1e-9", "worst sin error, 1e-9", "worst cos error, 1e-9" };
	for (int i = 0; i < 5; i++) count(n[i], (vt::u64)(worst[i] * 1e9));
	return end();
}
