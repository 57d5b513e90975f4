// vt: quick=250000
// vt: thorough=15000000
// vt: rule=each case evaluates the basis at a random, axis-aligned or nearly axis-aligned unit direction against the closed-form real harmonics, then takes random coefficients (one band alone, one coefficient alone, wide magnitudes, all bands) and two rotations (identity, quarter turns, small angles, about an axis, random) and compares the rotated coefficients with the rotated function at twelve directions in double precision, in place and out of place, inverse and composed; every 64th case projects with an exact spherical quadrature at a random orientation; distinct by coefficients and rotation
#include "vt.hpp"
#include "math/matrix.hpp"
#include "math/sh.hpp"
using namespace vt;
namespace M = math;
using math::float3; using math::float3x3; using math::f32x4;

// standard real harmonics with the Condon-Shortley phase, order -l..l in each band
static void Y(D3 s, double* y)
{
	double c1 = std::sqrt(3 / (4 * M_PI)), c2 = std::sqrt(15 / (4 * M_PI));
	y[0] = std::sqrt(1 / (4 * M_PI)); y[1] = -c1 * s.y; y[2] = c1 * s.z; y[3] = -c1 * s.x;
	y[4] = c2 * s.x * s.y; y[5] = -c2 * s.y * s.z; y[6] = std::sqrt(5 / (16 * M_PI)) * (3 * s.z * s.z - 1); y[7] = -c2 * s.x * s.z; y[8] = c2 / 2 * (s.x * s.x - s.y * s.y);
}
static double eval(const double* c, D3 s) { double y[9], r = 0; Y(s, y); for (int i = 0; i < 9; i++) r += c[i] * y[i]; return r; }
struct R3 { D3 c[3]; };
static D3 mul(const R3& m, D3 v) { return m.c[0] * v.x + m.c[1] * v.y + m.c[2] * v.z; }
static R3 mulR(const R3& a, const R3& b) { return { { mul(a, b.c[0]), mul(a, b.c[1]), mul(a, b.c[2]) } }; }
static R3 inv(const R3& m) { return { { { m.c[0].x, m.c[1].x, m.c[2].x }, { m.c[0].y, m.c[1].y, m.c[2].y }, { m.c[0].z, m.c[1].z, m.c[2].z } } }; }
static R3 rot(D3 a, double t) { double c = std::cos(t), s = std::sin(t), k = 1 - c; return { { { c + k*a.x*a.x, k*a.x*a.y + s*a.z, k*a.x*a.z - s*a.y }, { k*a.x*a.y - s*a.z, c + k*a.y*a.y, k*a.y*a.z + s*a.x }, { k*a.x*a.z + s*a.y, k*a.y*a.z - s*a.x, c + k*a.z*a.z } } }; }
static float3x3 fm(const R3& m) { float3x3 r(float3((float)m.c[0].x, (float)m.c[0].y, (float)m.c[0].z), float3((float)m.c[1].x, (float)m.c[1].y, (float)m.c[1].z), float3((float)m.c[2].x, (float)m.c[2].y, (float)m.c[2].z)); touch(r); return r; }
static R3 genRot() { switch (rng.below(6)) { case 0: return rot({ 0, 0, 1 }, 0); case 1: { D3 a = { 0, 0, 0 }; int i = (int)rng.below(3); (i == 0 ? a.x : i == 1 ? a.y : a.z) = 1; R3 m = rot(a, M_PI / 2 * rng.below(4)); for (D3& c : m.c) c = { std::round(c.x), std::round(c.y), std::round(c.z) }; return m; } case 2: return rot(genDir(rng), std::pow(10, rng.range(-4, 0))); case 3: { D3 a = { 0, 0, 0 }; int i = (int)rng.below(3); (i == 0 ? a.x : i == 1 ? a.y : a.z) = 1; return rot(a, rng.range(-4, 4)); } default: return rot(genDir(rng), rng.range(-M_PI, M_PI)); } }

int main(int argc, char** argv)
{
	begin(argc, argv);
	static const double K[9] = { 0.886226925452758, 1.02332670794649, 1.02332670794649, 1.02332670794649, 0.143014255134964, 0.28602851026993, 0.495415912200751, 0.28602851026993, 0.143014255134964 };
	static const double A[3] = { M_PI, 2 * M_PI / 3, M_PI / 4 }; // cosine lobe per band
	{ int i = 0; for (int l = 0; l < 3; l++) for (int m = -l; m <= l; m++, i++) { VT_OP("indices and factors"); if (M::sh::shIndex(m, l) != i) fail("shIndex", "band %d order %d is %d", l, m, M::sh::shIndex(m, l)); if (!(std::fabs(M::sh::ki[i] - K[i]) < 1e-7)) fail("ki", "factor %d is %.9g", i, M::sh::ki[i]); } }
	for (vt::u64 k = 0; k < cases; k++)
	{
		curCase = k; D3 s = genDir(rng); float3 fs((float)s.x, (float)s.y, (float)s.z); touch(fs); s = { fs.x, fs.y, fs.z }; float b[9]; double y[9]; Y(s, y);
		VT_OP("basis"); M::sh::computeShBasis(fs, b); touch(b); for (int i = 0; i < 9; i++) { double a = A[i == 0 ? 0 : i < 4 ? 1 : 2]; if (!(std::fabs(b[i] * (double)M::sh::ki[i] - a * y[i]) <= 1e-6)) fail("computeShBasis", "function %d at %.9g %.9g %.9g is %.9g, normalised %.9g want %.9g", i, s.x, s.y, s.z, b[i], b[i] * M::sh::ki[i] / a, y[i]); }
		// rotation
		float c[9]; double cd[9], big = 0; int kind = (int)rng.below(5), whole = rng.chance(4), only = (int)rng.below(9); double sc = rng.chance(3) ? std::pow(10, rng.range(-6, 6)) : 1;
		for (int i = 0; i < 9; i++) { int l = i == 0 ? 0 : i < 4 ? 1 : 2; bool on = kind == 0 ? i == only : kind == 1 ? l == (only % 3) : true; c[i] = on ? whole ? (float)((int)rng.below(kind == 0 ? 2 : 5) * 2 - 2 + (kind == 0)) : (float)(rng.range(-1, 1) * sc * (kind == 2 ? std::pow(10, rng.range(-2, 2)) : 1)) : 0.0f; touch(c[i]); cd[i] = c[i]; big = std::fmax(big, std::fabs(cd[i])); }
		distinctBytes(c, 36); if (k < 3) sample("coefficients %.6g %.6g .. %.6g", c[0], c[1], c[8]);
		R3 P = genRot(), Q = genRot(); float3x3 fp = fm(P), fq = fm(Q); float r[9], back[9], two[9]; memcpy(back, c, 36);
		VT_OP("rotation"); M::sh::rotateSh3Bands(c, fp, r); touch(r); double rd[9]; for (int i = 0; i < 9; i++) rd[i] = r[i];
		if (!same(r[0], c[0])) fail("rotate-constant", "constant band %.9g becomes %.9g", c[0], r[0]);
		double band[3] = { std::fabs(cd[0]), 0, 0 }; for (int i = 1; i < 9; i++) band[i < 4 ? 1 : 2] = std::fmax(band[i < 4 ? 1 : 2], std::fabs(cd[i]));
		for (int t = 0; t < 12; t++)
		{   // band by band, so that a small band is judged at its own scale
			D3 v = genDir(rng), w = mul(P, v); double y0[9], y1[9]; Y(v, y0); Y(w, y1);
			for (int l = 1; l < 3; l++) { double a = 0, g = 0; for (int i = l == 1 ? 1 : 4; i < (l == 1 ? 4 : 9); i++) { a += cd[i] * y0[i]; g += rd[i] * y1[i]; } if (!(std::fabs(a - g) <= 6e-6 * band[l])) { fail(l == 1 ? "rotate-band1" : "rotate-band2", "function is %.9g at %.6g %.6g %.6g but %.9g at the rotated direction (largest coefficient %.6g)", a, v.x, v.y, v.z, g, band[l]); break; } }
		}
		VT_OP("in place"); M::sh::rotateSh3Bands(back, fp, back); touch(back); for (int i = 0; i < 9; i++) if (!(std::fabs(back[i] - (double)r[i]) <= 2e-6 * band[i == 0 ? 0 : i < 4 ? 1 : 2])) { fail("rotate-in-place", "coefficient %d is %.9g, %.9g in place", i, r[i], back[i]); break; }
		VT_OP("inverse rotation"); M::sh::rotateSh3Bands(r, fm(inv(P)), back); touch(back); for (int i = 0; i < 9; i++) if (!(std::fabs(back[i] - cd[i]) <= 8e-6 * band[i == 0 ? 0 : i < 4 ? 1 : 2])) { fail("rotate-inverse", "coefficient %d returns from %.9g as %.9g", i, c[i], back[i]); break; }
		VT_OP("composition"); M::sh::rotateSh3Bands(r, fq, two); M::sh::rotateSh3Bands(c, fm(mulR(Q, P)), back); touch(two); touch(back); for (int i = 0; i < 9; i++) if (!(std::fabs(back[i] - (double)two[i]) <= 1e-5 * band[i == 0 ? 0 : i < 4 ? 1 : 2])) { fail("rotate-compose", "coefficient %d is %.9g in two steps, %.9g at once", i, two[i], back[i]); break; }
		// shader factors
		VT_OP("shader factors"); f32x4 sh[9]; float o[4]; for (int i = 0; i < 9; i++) sh[i] = f32x4(c[i], c[8 - i], 2 * c[i], -c[i]); touch(sh); M::sh::shaderPreprocessSH(sh); touch(sh);
		for (int i = 0; i < 9; i++) { double q = std::sqrt((i == 0 ? 1 : i < 4 ? 3 : i == 6 ? 5 : 15) / M_PI) / (i == 6 || i == 8 ? 4 : 2) / M_PI * (i == 1 || i == 3 || i == 5 || i == 7 ? -1 : 1), in[4] = { cd[i], cd[8 - i], 2 * cd[i], -cd[i] }; sh[i].store(o); for (int n = 0; n < 4; n++) if (!(std::fabs(o[n] - q * in[n]) <= 3e-7 * std::fabs(q * in[n]) + 1e-44)) { fail("shaderPreprocessSH", "coefficient %d lane %d: %.9g becomes %.9g want %.9g", i, n, in[n], o[n], q * in[n]); break; } }
		if (k % 64 == 0)
		{   // exact quadrature for polynomials of degree four on the sphere: three Gauss nodes by six azimuths
			VT_OP("projection"); R3 T = genRot(); double g[9] = { 0 }, gram[9][9] = { { 0 } };
			for (int i = 0; i < 3; i++) for (int j = 0; j < 6; j++)
			{
				double z = (i - 1) * std::sqrt(0.6), wz = (i == 1 ? 8.0 : 5.0) / 9, q = std::sqrt(1 - z * z); D3 v = mul(T, { q * std::cos(M_PI / 3 * j + 0.1), q * std::sin(M_PI / 3 * j + 0.1), z }); float bb[9]; M::sh::computeShBasis(float3((float)v.x, (float)v.y, (float)v.z), bb); touch(bb);
				double w = wz * M_PI / 3, f = 0, n[9]; for (int a = 0; a < 9; a++) { n[a] = bb[a] * (double)M::sh::ki[a] / A[a == 0 ? 0 : a < 4 ? 1 : 2]; f += cd[a] * n[a]; } for (int a = 0; a < 9; a++) { g[a] += w * f * n[a]; for (int e = 0; e < 9; e++) gram[a][e] += w * n[a] * n[e]; }
			}
			for (int a = 0; a < 9; a++) { if (!(std::fabs(g[a] - cd[a]) <= 1e-5 * big)) fail("projection", "coefficient %d is recovered from %.9g as %.9g", a, c[a], g[a]); for (int e = 0; e < 9; e++) if (!(std::fabs(gram[a][e] - (a == e)) <= 3e-6)) fail("orthogonality", "functions %d and %d: %.9g", a, e, gram[a][e]); }
		}
	}
	return end();
}
