// vt: quick=600000
// vt: thorough=30000000
// vt: rule=every texel of every face for cubemap sizes 1 to 40 (thorough 1 to 320), with the sum of all solid angles per size, then random texels of sizes up to 16384 (corners, edges, centres preferred), continuous coordinates, and points on the twelve shared edges and eight corners seen from both faces; directions are mapped back through the standard cube-map table in double precision, angles compared with the exact subtended angle; distinct by size, face and texel
#include "vt.hpp"
#include "math/matrix.hpp"
#include "math/ibl.hpp"
#include "math/sh.hpp"
using namespace vt;
namespace M = math;
using math::float2; using math::float3; using math::uint2; using math::uint3;

// the standard table: major axis and its sign, then the axes (1-based, signed) the texture's s and t grow along
static const int major_[6] = { 1, -1, 2, -2, 3, -3 }, sc[6] = { -3, 3, 1, 1, 1, -1 }, tc[6] = { -2, -2, 3, -3, -2, -2 };
static double comp(D3 d, int a) { double v = std::abs(a) == 1 ? d.x : std::abs(a) == 2 ? d.y : d.z; return a < 0 ? -v : v; }
static D3 d3(float3 v) { return { v.x, v.y, v.z }; }
static bool direction(const char* key, float3 g, int face, double s, double t, double tol) // s, t in 0..1, left to right and top to bottom
{
	D3 d = d3(g); double ma = comp(d, major_[face]), l = len(d);
	if (!(std::fabs(l - 1) <= 4e-7)) { fail("unit", "face %d at %.9g %.9g: length %.9g", face, s, t, l); return false; }
	double gs = (comp(d, sc[face]) / ma + 1) / 2, gt = (comp(d, tc[face]) / ma + 1) / 2;
	if (ma > 0 && std::fabs(gs - s) <= tol && std::fabs(gt - t) <= tol) return true;
	fail(key, "face %d at %.9g %.9g gives %.9g %.9g %.9g, which is %.9g %.9g", face, s, t, d.x, d.y, d.z, gs, gt); return false;
}
// the exact angle of a rectangle on the plane at distance one, without cancellation: sum over two triangles
static long double tri(const long double* a, const long double* b, const long double* c)
{
	long double la = sqrtl(a[0]*a[0]+a[1]*a[1]+1), lb = sqrtl(b[0]*b[0]+b[1]*b[1]+1), lc = sqrtl(c[0]*c[0]+c[1]*c[1]+1);
	long double det = fabsl((b[0]-a[0])*(c[1]-a[1]) - (b[1]-a[1])*(c[0]-a[0])), ab = a[0]*b[0]+a[1]*b[1]+1, bc = b[0]*c[0]+b[1]*c[1]+1, ca = c[0]*a[0]+c[1]*a[1]+1;
	return 2 * atan2l(det, la*lb*lc + ab*lc + bc*la + ca*lb);
}
static double angle(double x, double y, double h) { long double p[4][2] = { { x-h, y-h }, { x+h, y-h }, { x+h, y+h }, { x-h, y+h } }; return (double)(tri(p[0], p[1], p[2]) + tri(p[0], p[2], p[3])); }

static double texel(int dim, int x, int y, int face)
{
	float inv = opaque(1.0f / (float)dim); distinct(hashMix((vt::u64)dim * 6 + face, (vt::u64)x << 20 | y));
	double s = (x + 0.5) / dim, t = (y + 0.5) / dim;
	VT_OP("texel direction"); uint2 c2((M::uint32)x, (M::uint32)y); touch(c2); float2 st = opaque(M::ibl::coordsToST(c2, inv));
	if (!(std::fabs(st.x - (1 - 2 * s)) <= 4e-7 && std::fabs(st.y - (1 - 2 * t)) <= 4e-7)) fail("coordsToST", "texel %d %d of %d is %.9g %.9g", x, y, dim, st.x, st.y);
	uint3 c3((M::uint32)x, (M::uint32)y, (M::uint32)face); touch(c3); direction("coordsToDir", M::ibl::coordsToDir(c3, inv), face, s, t, 6e-7); direction("stToDir", M::ibl::stToDir(st, (M::uint32)face), face, s, t, 6e-7);
	VT_OP("texel angle"); double g = M::sh::calcSolidAngle(st, inv), w = angle(1 - 2 * s, 1 - 2 * t, 1.0 / dim);
	if (!(std::fabs(g - w) <= 1e-5 * w)) fail("calcSolidAngle", "texel %d %d of %d: %.9g want %.9g", x, y, dim, g, w);
	return g;
}
int main(int argc, char** argv)
{
	begin(argc, argv);
	int full = thorough ? 320 : 40;
	for (int dim = 1; dim <= full; dim++)
	{
		curCase = (vt::u64)dim; double sum = 0; for (int f = 0; f < 6; f++) for (int y = 0; y < dim; y++) for (int x = 0; x < dim; x++) sum += texel(dim, x, y, f);
		VT_OP("whole sphere"); if (!(std::fabs(sum - 4 * M_PI) <= 4e-6 * 4 * M_PI)) fail("sum", "all texels of size %d cover %.9g", dim, sum);
	}
	for (vt::u64 k = 0; k < cases; k++)
	{
		curCase = k; int dim = rng.chance(2) ? 1 << rng.below(15) : 1 + (int)rng.below(rng.chance(2) ? 300 : 16384), f = (int)rng.below(6);
		auto pick = [&]() { return (int)(rng.chance(4) ? 0 : rng.chance(4) ? dim - 1 : rng.chance(4) ? dim / 2 : rng.below((vt::u32)dim)); }; int x = pick(), y = pick(); if (k < 3) sample("face %d texel %d %d of %d", f, x, y, dim);
		texel(dim, x, y, f);
		float2 st(rng.f(-1, 1), rng.f(-1, 1)); if (rng.chance(4)) (rng.chance(2) ? st.x : st.y) = genSign(rng); if (rng.chance(8)) (rng.chance(2) ? st.x : st.y) = rng.chance(2) ? 0.0f : -0.0f; if (rng.chance(8)) st.y = rng.chance(2) ? st.x : -st.x; touch(st);
		VT_OP("continuous direction"); float3 a = M::ibl::stToDir(st, (M::uint32)f); direction("stToDir", a, f, (1 - (double)st.x) / 2, (1 - (double)st.y) / 2, 3e-7);
		if (std::fabs(st.x) == 1 || std::fabs(st.y) == 1)
		{   // the same point from the neighbouring face
			double e[3] = { 0, 0, 0 }; auto put = [&](int ax, double v) { e[std::abs(ax) - 1] = ax < 0 ? -v : v; }; put(major_[f], 1); put(sc[f], -(double)st.x); put(tc[f], -(double)st.y); D3 p = { e[0], e[1], e[2] };
			for (int n = 0; n < 6; n++) if (n != f && comp(p, major_[n]) == 1)
			{
				float2 q((float)-comp(p, sc[n]), (float)-comp(p, tc[n])); touch(q); VT_OP("shared edge"); float3 b = M::ibl::stToDir(q, (M::uint32)n); if (!(len(d3(a) - d3(b)) <= 4e-7)) fail("edge", "faces %d and %d meet at %.9g %.9g %.9g and %.9g %.9g %.9g", f, n, a.x, a.y, a.z, b.x, b.y, b.z);
			}
		}
		VT_OP("quadrant"); float qx = rng.f(-1, 1), qy = rng.f(-1, 1); double q = M::sh::sphereQuadrantArea(opaque(qx), opaque(qy)), w = std::atan2((double)qx * qy, std::sqrt((double)qx * qx + (double)qy * qy + 1)); if (!(std::fabs(q - w) <= 1e-6 * std::fabs(w) + 1e-44)) fail("sphereQuadrantArea", "%.9g %.9g gives %.9g want %.9g", qx, qy, q, w);
	}
	return end();
}
