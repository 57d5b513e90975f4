// vt: quick=1500000
// vt: thorough=80000000
// vt: rule=each case takes a roughness (uniform, logarithmic down to one millionth, one) and compares the distribution at a cosine (uniform, next to one, zero, one) with the closed form in double precision, draws a half vector at a sample point (uniform, near each border, on it, from the sequence) and recovers the sample point from its direction through the exact cumulative distribution, checks the low-discrepancy sequence bit by bit, and inverts the reflectance of a refraction index; every 4096th case integrates the distribution over the hemisphere and every 16384th counts 4096 samples in equal-probability cells; distinct by roughness, sample point and index
#include "vt.hpp"
#include "math/vector.hpp"
#include "math/simd/vector/float.hpp"
#include "math/brdf.hpp"
using namespace vt;
namespace M = math;
using math::float2; using math::f32x4;

static float rough() { switch (rng.below(5)) { case 0: return 1.0f; case 1: return (float)std::pow(10, rng.range(-6, 0)); case 2: return (float)(1 - std::pow(10, rng.range(-6, -1))); default: { float a = rng.f(0, 1); return a > 1e-6f ? a : 0.5f; } } }
static float unit01() { switch (rng.below(6)) { case 0: return rng.chance(2) ? 0.0f : 1.0f; case 1: return (float)std::pow(10, rng.range(-9, 0)); case 2: return (float)(1 - std::pow(10, rng.range(-7, 0))); case 3: return (float)(rng.below(65) / 64.0); default: return rng.f(0, 1); } }
static double exactD(double c, double a) { double f = (1 - c) * (1 + c) + a * a * c * c; return a * a / (M_PI * f * f); }
static float ggx(float c, float a) { touch(c); touch(a); return opaque(M::brdf::ggx(c, a)); }

int main(int argc, char** argv)
{
	begin(argc, argv);
	for (vt::u64 k = 0; k < cases; k++)
	{
		curCase = k; float a = rough(), c = unit01(), ux = unit01(), uy = unit01(); u32 index = genU(rng); if (rng.chance(4)) { ux = (float)(rng.below(1024) / 1024.0); uy = M::brdf::hammersley(rng.below(1024), 1.0f / 1024).y; }
		distinct(hashMix(hashMix(bits(a), bits(c)), hashMix(bits(ux), hashMix(bits(uy), index)))); if (k < 3) sample("roughness %.9g, cosine %.9g, sample %.9g %.9g, index %u", a, c, ux, uy, index);
		VT_OP("distribution"); double g = ggx(c, a), w = exactD(c, a); if (!(std::fabs(g - w) <= 2e-6 * w)) fail("ggx", "cosine %.9g roughness %.9g gives %.9g want %.9g", c, a, g, w); if (!(g >= 0)) fail("ggx-negative", "cosine %.9g roughness %.9g gives %.9g", c, a, g);
		// half vector
		VT_OP("half vector"); float h[4]; float2 u(ux, uy); touch(u); f32x4 hv = M::brdf::importanceSamplingNdfDggx(u, opaque(a)); touch(hv); hv.store(h); double s = std::hypot((double)h[0], (double)h[1]), z = h[2], l = std::sqrt(s * s + z * z);
		if (!(std::fabs(l - 1) <= 5e-7) || !(z >= 0)) fail("half-vector-unit", "roughness %.9g sample %.9g %.9g gives %.9g %.9g %.9g", a, ux, uy, h[0], h[1], h[2]);
		else
		{
			double q = s * s / ((double)a * a * z * z + s * s); if (!(std::fabs(q - uy) <= 1e-6 * (uy < 0.5 ? uy : 1 - uy) + 3e-8)) fail("half-vector-height", "roughness %.9g sample %.9g %.9g gives %.9g %.9g %.9g, cumulative %.9g", a, ux, uy, h[0], h[1], h[2], q);
			double p = 2 * M_PI * ux; if (!(std::fabs(h[0] - s * std::cos(p)) <= 1.2e-6 * s && std::fabs(h[1] - s * std::sin(p)) <= 1.2e-6 * s)) fail("half-vector-azimuth", "roughness %.9g sample %.9g %.9g gives %.9g %.9g %.9g", a, ux, uy, h[0], h[1], h[2]);
		}
		// sequence
		VT_OP("sequence"); u32 n = rng.chance(2) ? 1u << rng.below(32) : 1 + genU(rng) % 100000; float inv = opaque(1.0f / (float)n); float2 x = M::brdf::hammersley(opaque(index), inv); touch(x); vt::u64 r = 0; for (int i = 0; i < 32; i++) r |= (vt::u64)(index >> i & 1) << (31 - i);
		float wy = (float)((double)r / 4294967296.0); double wx = (double)index * inv; if (x.y != wy) fail("hammersley-inverse", "index %u gives %.9g want %.9g", index, x.y, wy); if (!(std::fabs(x.x - wx) <= 2.5e-7 * wx)) fail("hammersley-fraction", "index %u of %u gives %.9g want %.9g", index, n, x.x, wx);
		// refraction index
		VT_OP("reflectance"); float ior = (float)(rng.chance(3) ? 1 + std::pow(10, rng.range(-7, 0)) : rng.chance(3) ? std::pow(10, rng.range(-9, 6)) : rng.range(1, 4)); if (rng.chance(16)) ior = (float)rng.below(4); touch(ior); double ref = opaque(M::brdf::iorToReflectance(ior)), f = std::fabs((double)ior - 1) / ((double)ior + 1);
		if (!(std::fabs(0.4 * ref - f) <= 5e-7 * f)) fail("iorToReflectance", "index of refraction %.9g gives %.9g want %.9g", ior, ref, f / 0.4); if (ior == 1.5f && !(std::fabs(ref - 0.5) < 1e-6)) fail("iorToReflectance", "glass gives %.9g", ref);
		if (k % 4096 == 0)
		{   // 2 pi * integral of D(c) c dc over tan-spaced cells: c^2 = 1/(1+t^2), dense where the lobe is
			VT_OP("normalisation"); double sum = 0; const int N = 4000; for (int i = 0; i < N; i++) { double th = (i + 0.5) / N * M_PI / 2, t = a * std::tan(th), cc = 1 / std::sqrt(1 + t * t); float cf = (float)cc; double dt = a / (std::cos(th) * std::cos(th)) * (M_PI / 2 / N); double dcos = t * cc * cc * cc * dt; double val = a < 0.003 ? exactD(cc, a) * (ggx(cf, a) / exactD(cf, a)) : ggx(cf, a); sum += 2 * M_PI * val * cc * dcos; }
			if (!(std::fabs(sum - 1) < 2e-3)) fail("normalisation", "roughness %.9g integrates to %.9g", a, sum);
		}
		if (k % 16384 == 0)
		{   // samples of the sequence fall into cells of equal probability equally often
			VT_OP("sample counts"); int cell[16][16] = { { 0 } }; for (u32 i = 0; i < 4096; i++) { float2 u2 = M::brdf::hammersley(i, 1.0f / 4096); f32x4 v = M::brdf::importanceSamplingNdfDggx(u2, a); v.store(h); double s2 = (double)h[0] * h[0] + (double)h[1] * h[1], cum = s2 / ((double)a * a * h[2] * h[2] + s2), az = std::atan2(h[1], h[0]) / (2 * M_PI); if (!(az >= -1 && cum >= 0)) { fail("sample-counts", "roughness %.9g: sample %u is not a direction", a, i); continue; } if (az < 0) az += 1; cell[std::min(15, std::max(0, (int)(cum * 16)))][std::min(15, (int)(az * 16))]++; }
			for (auto& row : cell) for (int n2 : row) if (n2 < 10 || n2 > 22) { fail("sample-counts", "roughness %.9g: a cell holding 16 of 4096 samples holds %d", a, n2); break; }
		}
	}
	return end();
}
