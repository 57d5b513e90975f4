// vt: quick=800000
// vt: thorough=40000000
// vt: rule=each case draws a field of view, an aspect ratio and near/far planes (far/near from 1.001 to 1e7), or an orthographic box (symmetric, off centre, thin), builds all five projections and maps the corners, interior points and points just outside every face; clip coordinates are compared with the view volume's own normalised coordinates in double precision, depth is checked to be monotonic between random pairs; distinct by parameter bits
#include "vt.hpp"
#include "math/vector.hpp"
#include "math/simd/vector/float.hpp"
#include "math/matrix/projection.hpp"
#include "math/matrix/transform.hpp"
using namespace vt;
namespace M = math;
using math::float4x4; using math::float4; using math::float2; using math::f32x4; using math::f32x4x4;

struct D4 { double x, y, z, w; };
static D4 mul(const float4x4& m, D3 p)
{
	auto r = [&](int i) { return (double)(&m.c0.x)[i] * p.x + (double)(&m.c1.x)[i] * p.y + (double)(&m.c2.x)[i] * p.z + (double)(&m.c3.x)[i]; };
	return { r(0), r(1), r(2), r(3) };
}
// kind 0 infinite reversed, 1 reversed, 2 ordinary; want: normalised view volume coordinates u, v in [-1, 1]
static void persp(const char* key, const float4x4& m, int kind, double fov, double aspect, double n, double f)
{
	double t = std::tan(fov * 0.5);
	double mz = kind == 0 ? 0 : kind == 1 ? n / (n - f) : f / (f - n), md = kind == 0 ? n : kind == 1 ? -(n * f) / (n - f) : -(f * n) / (f - n);
	double prevZ = 0, prevD = 0;
	for (int i = 0; i < 12; i++)
	{
		double u, v, z;
		if (i < 8) { u = i & 1 ? 1 : -1; v = i & 2 ? 1 : -1; z = i & 4 ? (kind ? f : n * std::pow(10, rng.range(0, 6))) : n; }
		else { u = rng.range(-1.5, 1.5); v = rng.range(-1.5, 1.5); z = kind ? n * std::pow(f / n, rng.range(-0.2, 1.2)) : n * std::pow(10, rng.range(-0.5, 6)); }
		D3 p = { u * aspect * t * z, v * t * z, z }; D4 c = mul(m, p);
		double dc = mz * z + md, tol = 5 * EPS * (std::fabs(mz * z) + std::fabs(md));
		if (c.w != z) { fail(key, "w %.9g of a point at distance %.9g", c.w, z); return; }
		if (!(std::fabs(c.x / z - u) <= 6 * EPS * std::fabs(u) + 1e-300)) { fail(key, "horizontal %.9g want %.9g (fov %.9g aspect %.9g)", c.x / z, u, fov, aspect); return; }
		if (!(std::fabs(c.y / z + v) <= 5 * EPS * std::fabs(v) + 1e-300)) { fail(key, "vertical %.9g want %.9g (fov %.9g)", c.y / z, -v, fov); return; }
		if (!(std::fabs(c.z - dc) <= tol)) { fail(key, "depth %.9g want %.9g at %.9g (near %.9g far %.9g)", c.z / z, dc / z, z, n, f); return; }
		double ndc = c.z / z, m2 = tol / z;
		double q = kind == 0 ? (z >= n ? n / z : 2) : kind == 1 ? (z > f ? -1 : z < n ? 2 : 0.5) : (z > f ? 2 : z < n ? -1 : 0.5);
		if (q > 1 ? ndc < 1 - m2 : q < 0 ? ndc > m2 : ndc < -m2 || ndc > 1 + m2) { fail(key, "depth %.9g of a point at %.9g is on the wrong side of the range (near %.9g far %.9g)", ndc, z, n, f); return; }
		if (i < 8) { double want = kind == 0 ? n / z : (kind == 1) == !(i & 4) ? 1 : 0; if (!(std::fabs(ndc - want) <= m2)) { fail(key, "depth of the %s plane is %.9g want %.9g", i & 4 ? "far" : "near", ndc, want); return; } }
		if (i >= 8)
		{
			VT_COUNT("depth pairs");
			if (prevZ > 0 && std::fabs(prevZ - z) > 1e-9 * z) { bool inc = (ndc > prevD) == (z > prevZ); if (ndc == prevD || inc != (kind == 2)) { fail(key, "depth not monotonic: %.17g at %.9g, %.17g at %.9g", ndc, z, prevD, prevZ); return; } }
			prevZ = z; prevD = ndc;
		}
	}
}
static void ortho(const char* key, const float4x4& m, bool rev, float2 w, float2 h, float2 dp)
{
	double lx = (double)w.y - w.x, ly = (double)h.y - h.x, lz = (double)dp.y - dp.x, prevZ = 0, prevD = 0; bool have = false;
	double ex = 6 * EPS * (2 * std::fmax(std::fabs((double)w.x), std::fabs((double)w.y)) / std::fabs(lx) + 1), ey = 6 * EPS * (2 * std::fmax(std::fabs((double)h.x), std::fabs((double)h.y)) / std::fabs(ly) + 1), ez = 6 * EPS * (std::fmax(std::fabs((double)dp.x), std::fabs((double)dp.y)) / std::fabs(lz) + 1);
	for (int i = 0; i < 12; i++)
	{
		double u, v, s;
		if (i < 8) { u = i & 1; v = i & 2 ? 1 : 0; s = i & 4 ? 1 : 0; } else { u = rng.range(-0.3, 1.3); v = rng.range(-0.3, 1.3); s = rng.range(-0.3, 1.3); }
		D4 c = mul(m, { w.x + u * lx, h.x + v * ly, dp.x + s * lz }); double want = rev ? 1 - s : s;
		if (c.w != 1) { fail(key, "w %.9g", c.w); return; }
		if (!(std::fabs(c.x - (2 * u - 1)) <= ex)) { fail(key, "horizontal %.9g want %.9g (%.9g..%.9g)", c.x, 2 * u - 1, w.x, w.y); return; }
		if (!(std::fabs(c.y + (2 * v - 1)) <= ey)) { fail(key, "vertical %.9g want %.9g (%.9g..%.9g)", c.y, 1 - 2 * v, h.x, h.y); return; }
		if (!(std::fabs(c.z - want) <= ez)) { fail(key, "depth %.9g want %.9g (%.9g..%.9g)", c.z, want, dp.x, dp.y); return; }
		if (i >= 8) { if (have && std::fabs(s - prevZ) > 1e-9 && ((c.z > prevD) == (s > prevZ)) == rev) { fail(key, "depth not monotonic"); return; } prevZ = s; prevD = c.z; have = true; }
	}
}
static float2 extent()
{
	float a, b;
	switch (rng.below(7))
	{
	case 3: { static const float px[] = { 1, 2, 16, 100, 256, 640, 720, 1024, 1080, 1920, 4096, 65536 }; b = px[rng.below(12)]; a = rng.chance(2) ? 0.0f : -b; break; } // pixels
	case 4: a = (float)((int)rng.below(33) - 16); b = a + (float)(1 + (int)rng.below(32)); break;
	case 5: { double e = rng.chance(2) ? rng.range(-7, -3) : rng.range(4, 7); a = (float)(rng.range(-1, 1) * std::pow(10, e)); b = a + (float)std::pow(10, e + rng.range(-2, 1)); break; }
	case 0: b = (float)std::pow(10, rng.range(-2, 4)); a = -b; break;
	case 1: a = 0; b = (float)std::pow(10, rng.range(-2, 4)); break;
	default: a = genGeo(rng); b = a + (float)std::pow(10, rng.range(-2, 3)); break;
	}
	if (rng.chance(4)) std::swap(a, b); // upside down
	touch(a); touch(b); return float2(a, b);
}

int main(int argc, char** argv)
{
	begin(argc, argv);
	for (vt::u64 k = 0; k < cases; k++)
	{
		curCase = k;
		static const double fovs[] = { 30, 45, 60, 75, 90, 120, 150 };
		float fov = (float)(rng.chance(3) ? fovs[rng.below(7)] * M_PI / 180 : rng.range(0.02, 3.1)), aspect = rng.chance(3) ? 1.0f : (float)std::pow(10, rng.range(-1, 1)), n = (float)std::pow(10, rng.range(-3, 2)), f = n * (float)(1 + std::pow(10, rng.range(-3, 7)));
		if (rng.chance(6)) fov = rng.chance(4) ? (float)std::pow(10, rng.range(-3.5, -2)) : (float)(1 + (int)rng.below(3));
		if (rng.chance(6)) { static const float as[] = { 2, 0.5f, 4.0f / 3, 16.0f / 9, 9.0f / 16, 21.0f / 9, 100, 0.01f }; aspect = as[rng.below(8)]; }
		if (rng.chance(6)) { static const float ns[] = { 1, 2, 0.5f, 0.25f, 0.1f, 0.01f, 10 }, fs[] = { 100, 1000, 1024, 10000, 65536, 1e6f }; n = ns[rng.below(7)]; f = fs[rng.below(6)]; }
		else if (rng.chance(6)) { double sc = genPow2(rng, 20, 1); n *= (float)sc; f *= (float)sc; }
		if (rng.chance(24)) aspect = fov; if (rng.chance(24)) n = aspect, f = n * 1000;
		touch(fov); touch(aspect); touch(n); touch(f);
		float in[4] = { fov, aspect, n, f }; distinctBytes(in, 16); if (k < 3) sample("fov %g aspect %g near %g far %g", fov, aspect, n, f);
		{ VT_OP("calcPerspProjInfRevZ"); float4x4 m = opaque(M::calcPerspProjInfRevZ(fov, aspect, n)); persp("calcPerspProjInfRevZ", m, 0, fov, aspect, n, 0); }
		{ VT_OP("calcPerspProjRevZ"); float4x4 m = opaque(M::calcPerspProjRevZ(fov, aspect, n, f)); persp("calcPerspProjRevZ", m, 1, fov, aspect, n, f); }
		{
			VT_OP("calcPerspProj"); float4x4 m = opaque(M::calcPerspProj(fov, aspect, n, f)); persp("calcPerspProj", m, 2, fov, aspect, n, f);
			// the library's own product agrees
			f32x4x4 s(m.c0.x, m.c1.x, m.c2.x, m.c3.x, m.c0.y, m.c1.y, m.c2.y, m.c3.y, m.c0.z, m.c1.z, m.c2.z, m.c3.z, m.c0.w, m.c1.w, m.c2.w, m.c3.w); touch(s);
			double t = std::tan(fov * 0.5); float z = (float)(n * std::pow((double)f / n, rng.unit())); f32x4 c = opaque(s * f32x4((float)(aspect * t * z), (float)(t * z), z, 1.0f));
			if (!(std::fabs(c.getX() / c.getW() - 1) <= 16 * EPS && std::fabs(c.getY() / c.getW() + 1) <= 16 * EPS && c.getW() == z)) fail("projected-corner", "corner of the view volume maps to %.9g %.9g w %.9g (distance %.9g)", c.getX(), c.getY(), c.getW(), z);
		}
		float2 w = extent(), h = extent(), dp = extent();
		{ VT_OP("calcOrthoProjRevZ"); float4x4 m = opaque(M::calcOrthoProjRevZ(w, h, dp)); ortho("calcOrthoProjRevZ", m, true, w, h, dp); }
		{ VT_OP("calcOrthoProj"); float4x4 m = opaque(M::calcOrthoProj(w, h, dp)); ortho("calcOrthoProj", m, false, w, h, dp); }
	}
	return end();
}
