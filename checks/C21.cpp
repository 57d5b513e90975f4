// vt: quick=700000
// vt: thorough=40000000
// vt: link=1
// vt: rule=each case draws a box and a triangle (random, thin, collinear, segment and point triangles; quarter-integer coordinates where the answer must be exact, and real coordinates) and slides the triangle to a small gap or overlap along one of the thirteen candidate axes, with garbage fourth lanes; the answer is compared with clipping the triangle against the box in double precision, deflated and inflated by the rounding margin; distinct by operand bits
#include "vt.hpp"
#include "math/vector.hpp"
#include "math/simd/vector/float.hpp"
#include "math/aabb.hpp"
using namespace vt;
namespace M = math;
using math::f32x4; using math::Triangle;

static D3 d(f32x4 v) { return { v.getX(), v.getY(), v.getZ() }; }
static f32x4 g3(D3 v) { f32x4 f((float)v.x, (float)v.y, (float)v.z, genGarbage(rng)); touch(f); return f; }
static double& at(D3& v, int i) { return i == 0 ? v.x : i == 1 ? v.y : v.z; }
static double at(const D3& v, int i) { return i == 0 ? v.x : i == 1 ? v.y : v.z; }
static bool clipped(const D3* v, D3 ext, double grow) // triangle relative to the centre: anything left inside the box?
{
	D3 a[16], b[16]; int n = 3; for (int i = 0; i < 3; i++) a[i] = v[i];
	for (int ax = 0; ax < 3; ax++) for (int s = -1; s <= 1; s += 2)
	{
		double lim = at(ext, ax) + grow; int m = 0; if (lim < 0) return false;
		for (int i = 0; i < n; i++)
		{
			const D3 &p = a[i], &q = a[(i + 1) % n]; double dp = lim - s * at(p, ax), dq = lim - s * at(q, ax);
			if (dp >= 0) b[m++] = p;
			if ((dp < 0) != (dq < 0)) { D3 c = p + (q - p) * (dp / (dp - dq)); at(c, ax) = s * lim; b[m++] = c; }
		}
		n = m; if (n == 0) return false; for (int i = 0; i < n; i++) a[i] = b[i];
	}
	return true;
}
static D3 axisOf(const D3* v, int k)
{
	if (k < 3) return { k == 0 ? 1.0 : 0, k == 1 ? 1.0 : 0, k == 2 ? 1.0 : 0 };
	if (k == 12) return cross(v[1] - v[0], v[2] - v[1]);
	int e = (k - 3) % 3, b = (k - 3) / 3; return cross({ b == 0 ? 1.0 : 0, b == 1 ? 1.0 : 0, b == 2 ? 1.0 : 0 }, v[(e + 1) % 3] - v[e]);
}
static double gapOn(const D3* v, D3 ext, D3 a)
{
	double lo = INFINITY, hi = -INFINITY; for (int i = 0; i < 3; i++) { double p = dot(v[i], a); lo = std::fmin(lo, p); hi = std::fmax(hi, p); }
	return std::fmax(lo, -hi) - (ext.x * std::fabs(a.x) + ext.y * std::fabs(a.y) + ext.z * std::fabs(a.z));
}
static double W = 1; // the scale of the scene
static double coord(bool exact) { return exact ? (double)((int)rng.below(33) - 16) * (rng.chance(2) ? 1 : 0.25) * W : genGeo(rng) * W; }
static D3 place(bool exact) { if (!exact && rng.chance(2)) return genVec(rng, -4, 4) * W; double x = coord(exact), y = coord(exact), z = coord(exact); return { x, y, z }; }

int main(int argc, char** argv)
{
	begin(argc, argv);
	static const char* only[13] = { "separated on box x only", "separated on box y only", "separated on box z only", "separated on x cross edge 0 only", "separated on x cross edge 1 only", "separated on x cross edge 2 only",
		"separated on y cross edge 0 only", "separated on y cross edge 1 only", "separated on y cross edge 2 only", "separated on z cross edge 0 only", "separated on z cross edge 1 only", "separated on z cross edge 2 only", "separated on the normal only" };
	vt::u64 onlyCount[13] = {};
	for (vt::u64 k = 0; k < cases; k++)
	{
		curCase = k; W = genPow2(rng, 12);
		bool exact = rng.chance(3); D3 c, ext, v[3]; double sc = exact || rng.chance(2) ? 1 : std::pow(10, rng.range(-1, 1)); int axis = (int)rng.below(13);
		c = place(exact); if (rng.chance(4)) c = { 0, 0, 0 };
		{ D3 e = place(exact); for (int i = 0; i < 3; i++) { at(ext, i) = rng.chance(12) ? 0 : std::fabs(at(e, i)) * 0.5 * sc; D3 q = place(exact); v[i] = c + q * (sc * (exact ? 1 : 0.5)); } if (!exact && rng.chance(16)) v[rng.below(3)] = rng.chance(2) ? c : c + ext; }
		int kind = (int)rng.below(12); // degenerate ones
		if (kind == 0) v[(int)rng.below(3)] = v[(int)rng.below(3)];
		else if (kind == 1) v[0] = v[1] = v[2];
		else if (kind == 2) { int i = (int)rng.below(3); double t = exact ? (double)((int)rng.below(5) - 2) : rng.range(-1, 2); v[i] = v[(i + 1) % 3] + (v[(i + 2) % 3] - v[(i + 1) % 3]) * t; }
		else if (kind == 3) { int i = (int)rng.below(3); v[i] = v[(i + 1) % 3] + (v[(i + 2) % 3] - v[(i + 1) % 3]) * rng.range(-1, 2) + genDir(rng) * std::pow(10, rng.range(-4, 0)); exact = false; }
		else if (kind == 4) { int j = (int)rng.below(3); at(v[1], j) = at(v[0], j); if (rng.chance(2)) at(v[2], j) = at(v[0], j); }
		bool deg = kind <= 2;
		D3 rel[3]; for (int i = 0; i < 3; i++) rel[i] = v[i] - c;
		if (rng.chance(3) ? false : !exact) // slide to a small gap along one axis
		{
			D3 a = axisOf(rel, axis); double l = len(a);
			if (l > 1e-3 * (axis < 3 ? 1 : axis < 12 ? W : W * W)) { a = a * (1 / l); double lo = INFINITY, hi = -INFINITY; for (D3& p : rel) { double q = dot(p, a); lo = std::fmin(lo, q); hi = std::fmax(hi, q); } double r = ext.x * std::fabs(a.x) + ext.y * std::fabs(a.y) + ext.z * std::fabs(a.z), g = (rng.chance(2) ? 1 : -1) * std::pow(10, rng.range(-4, 0)) * (r + hi - lo), s = rng.chance(2) ? r + g - lo : -r - g - hi; for (D3& p : v) p = p + a * s; }
		}
		f32x4 fc = g3(c), fe = g3(ext), fv[3]; c = d(fc); ext = d(fe); for (int i = 0; i < 3; i++) { fv[i] = g3(v[i]); v[i] = d(fv[i]); rel[i] = v[i] - c; }
		float in[12] = { (float)c.x, (float)c.y, (float)ext.x, (float)ext.z, (float)v[0].x, (float)v[0].y, (float)v[1].x, (float)v[1].y, (float)v[1].z, (float)v[2].x, (float)v[2].y, (float)v[2].z }; distinctBytes(in, 48);
		D3 f0 = rel[1] - rel[0], f1 = rel[2] - rel[1]; double n = len(cross(f0, f1)), big = 0; for (D3& p : rel) big = std::fmax(big, maxAbs(p)); big += maxAbs(ext);
		double mTrue = 8 * EPS * big + 1e-30, cond = n > 0 ? len(f0) * len(f1) / n : INFINITY, mFalse = deg || cond > 1e5 ? INFINITY : mTrue * (1 + 2 * cond);
		if (exact) mTrue = mFalse = 0; // small numbers of quarters: every product is exact
		bool must = exact ? clipped(rel, ext, 1e-9 * W) : clipped(rel, ext, -mTrue), may = exact ? must : mFalse == INFINITY ? true : clipped(rel, ext, mFalse);
		if (!exact && mFalse == INFINITY)
		{
			// a degenerate triangle is its longest edge; it stays apart on an axis that does not need the normal
			double best = -INFINITY; for (int q = 0; q < 12; q++) { D3 a = axisOf(rel, q); double l = len(a); if (l > 1e-3 * (len(f0) + len(f1)) || q < 3) best = std::fmax(best, gapOn(rel, ext, a) / l); }
			if (best > 64 * EPS * big) may = false;
		}
		if (k < 3) sample("centre (%g %g %g) extent (%g %g %g) triangle (%g %g %g) (%g %g %g) (%g %g %g): %s", c.x, c.y, c.z, ext.x, ext.y, ext.z, v[0].x, v[0].y, v[0].z, v[1].x, v[1].y, v[1].z, v[2].x, v[2].y, v[2].z, must ? "overlap" : may ? "too close" : "apart");
		VT_OP("isAabbIntersected(Triangle)"); bool got = M::isAabbIntersected(fc, fe, Triangle(fv[0], fv[1], fv[2]));
		if (must) VT_COUNT("overlapping"); else if (!may) VT_COUNT("apart"); else VT_COUNT("too close to tell"); if (exact) VT_COUNT("exact coordinates"); if (deg) VT_COUNT("degenerate triangles");
		if (!may) { int sep = -1, num = 0; for (int q = 0; q < 13 && num < 2; q++) { D3 a = axisOf(rel, q); double l = len(a); if (l > 0 && gapOn(rel, ext, a) > 1e-7 * l) { sep = q; num++; } } if (num == 1) onlyCount[sep]++; }
		if ((must && !got) || (!may && got)) fail(must ? (deg || n == 0 ? "missed-degenerate" : "missed") : (deg || n == 0 ? "wrong-degenerate" : "wrong"), "answer %s: centre (%.9g %.9g %.9g) extent (%.9g %.9g %.9g) triangle (%.9g %.9g %.9g) (%.9g %.9g %.9g) (%.9g %.9g %.9g)", got ? "true" : "false", c.x, c.y, c.z, ext.x, ext.y, ext.z, v[0].x, v[0].y, v[0].z, v[1].x, v[1].y, v[1].z, v[2].x, v[2].y, v[2].z);
	}
	for (int i = 0; i < 13; i++) vt::count(only[i], onlyCount[i]);
	return end();
}
