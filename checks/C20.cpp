// vt: quick=800000
// vt: thorough=40000000
// vt: rule=each case draws a box (also flat, point sized, far away) and a ray (general, parallel to one or two axes with zeros of either sign, nearly parallel; origin inside, on a face, edge or corner, in front of, beyond, beside and far from the box; aimed at the box, past an edge, or away; normalised, unit or any length) with garbage fourth lanes; hit flags and entry and exit distances of all six forms are compared with a double-precision slab reference outside a rounding margin; distinct by box and ray bits
#include "vt.hpp"
#include "math/vector.hpp"
#include "math/simd/vector/float.hpp"
#include "math/aabb.hpp"
using namespace vt;
namespace M = math;
using math::f32x4; using math::u32x4; using math::Aabb; using math::Ray; using math::float2;

static D3 d(f32x4 v) { return { v.getX(), v.getY(), v.getZ() }; }
static f32x4 g3(D3 v) { f32x4 f((float)v.x, (float)v.y, (float)v.z, genGarbage(rng)); touch(f); return f; }
static double W = 1; // the scale of the scene
static D3 geo() { return genVec(rng, -4, 4) * W; }
static double& at(D3& v, int i) { return i == 0 ? v.x : i == 1 ? v.y : v.z; }
struct Ref { int hit; double in, out; }; // hit: 1, 0, or -1 for too close to tell
static Ref cast(D3 mn, D3 mx, D3 o, D3 dir)
{
	double lo[3], hi[3], in = -INFINITY, out = INFINITY; int n = 0, sure = 1; bool miss = false, unsure = false;
	for (int i = 0; i < 3; i++)
	{
		double dd = at(dir, i);
		if (std::fabs(dd) <= 1e-20) { if (at(o, i) < at(mn, i) || at(o, i) > at(mx, i)) miss = true; continue; }
		double a = (at(mn, i) - at(o, i)) / dd, b = (at(mx, i) - at(o, i)) / dd; lo[n] = std::fmin(a, b); hi[n] = std::fmax(a, b); in = std::fmax(in, lo[n]); out = std::fmin(out, hi[n]); n++;
	}
	if (miss) return { 0, 0, 0 };
	for (int i = 0; i < n; i++)
	{
		if (hi[i] < 0) miss = true; // the sign is exact
		for (int j = 0; j < n; j++) if (i != j) { double m = 8 * EPS * std::fmax(std::fabs(lo[i]), std::fabs(hi[j])) + 1e-36; if (lo[i] > hi[j] + m) miss = true; else if (lo[i] > hi[j] - m && !(lo[i] == 0 && hi[j] == 0)) unsure = true; }
	}
	(void)sure; return { miss ? 0 : unsure ? -1 : 1, in, out };
}

int main(int argc, char** argv)
{
	begin(argc, argv);
	static const Ray* named[6] = { &Ray::left, &Ray::right, &Ray::bottom, &Ray::top, &Ray::back, &Ray::front };
	for (vt::u64 k = 0; k < cases; k++)
	{
		curCase = k; W = genPow2(rng, 20);
		D3 a = geo(), b = geo(), mn = { std::fmin(a.x, b.x), std::fmin(a.y, b.y), std::fmin(a.z, b.z) }, mx = { std::fmax(a.x, b.x), std::fmax(a.y, b.y), std::fmax(a.z, b.z) };
		for (int i = 0; i < 3; i++) if (rng.chance(12)) at(mx, i) = at(mn, i);
		if (rng.chance(8)) { D3 t = genDir(rng) * (std::pow(10, rng.range(1, 4)) * W); mn = mn + t; mx = mx + t; }
		f32x4 fmn = g3(mn), fmx = g3(mx); mn = d(fmn); mx = d(fmx); Aabb box(fmn, fmx);
		auto inBox = [&] { D3 p; for (int i = 0; i < 3; i++) { double u = rng.chance(4) ? (double)rng.below(2) : rng.unit(); at(p, i) = at(mn, i) + (at(mx, i) - at(mn, i)) * u; } return p; };
		D3 o, dir;
		switch (rng.below(6))
		{
		case 0: o = inBox(); break; // inside, on a face, an edge or a corner
		case 1: { o = inBox(); int i = (int)rng.below(3); at(o, i) += (rng.chance(2) ? 1 : -1) * (at(mx, i) - at(mn, i) + W) * rng.range(0.1, 3); break; } // opposite or beside
		case 2: o = inBox() + genDir(rng) * (std::pow(10, rng.range(1, 4)) * W); break;
		default: o = geo(); break;
		}
		f32x4 fo = g3(o); o = d(fo);
		switch (rng.below(5))
		{
		case 0: dir = genDir(rng); break;
		case 1: dir = inBox() - o; break;
		case 2: dir = (o - inBox()); break; // away, so a hit only from inside
		case 3: { dir = inBox() - o; int i = (int)rng.below(3); at(dir, i) += (rng.chance(2) ? 1 : -1) * (at(mx, i) - at(mn, i)) * rng.range(0, 1.5); break; }
		default: { dir = genDir(rng); int i = (int)rng.below(3); at(dir, i) = 0; if (rng.chance(2)) at(dir, (i + 1) % 3) = 0; break; }
		}
		double l = len(dir); if (!(l > 1e-6 * W)) { dir = { 0, 0, 1 }; l = 1; } dir = dir * (1 / l);
		for (int i = 0; i < 3; i++) { double& v = at(dir, i); if (std::fabs(v) < 1e-6) v = rng.chance(8) ? (rng.chance(2) ? 1 : -1) * 1e-30 : rng.chance(8) ? 1e-5 : rng.chance(2) ? 0.0 : -0.0; }
		bool norm = rng.chance(2), unit = rng.chance(2); if (!unit) dir = dir * (rng.chance(4) ? std::pow(10, rng.range(-6, 6)) : std::pow(10, rng.range(-2, 2)));
		f32x4 fd = g3(dir); dir = d(fd); if (maxAbs(dir) == 0) { trivial++; continue; }
		Ray r; bool viaSet = rng.chance(3);
		if (rng.chance(32)) { r = *named[rng.below(6)]; r.origin = fo; norm = false; fd = r.getDirection(); dir = d(fd); VT_COUNT("predefined rays"); }
		else if (viaSet) { r.origin = fo; r.setDirection(fd, norm); } else r = Ray(fo, fd, norm);
		D3 rd = d(r.getDirection()), want = norm ? unitOf(dir) : dir;
		if (!(maxAbs(rd - want) <= (norm ? 4 * EPS : 0))) fail("Ray-direction", "direction (%.9g %.9g %.9g) want (%.9g %.9g %.9g)", rd.x, rd.y, rd.z, want.x, want.y, want.z);
		D3 oo = d(r.origin); if (!(oo.x == o.x && oo.y == o.y && oo.z == o.z)) fail("Ray-origin", "origin does not read back");
		{ u32x4 par = r.getParallel(); for (int i = 0; i < 3; i++) { double v = std::fabs(at(rd, i)); if ((v == 0 || v > 1e-10) && (par[i] != 0) != (v == 0)) fail("Ray-parallel", "axis %d with direction %.9g is reported %sparallel", i, v, par[i] ? "" : "not "); } }
		Ref ref = cast(mn, mx, o, rd); int zeros = (rd.x == 0) + (rd.y == 0) + (rd.z == 0);
		float in[6] = { (float)mn.x, (float)mx.y, (float)o.x, (float)o.z, (float)rd.x, (float)rd.y }; distinctBytes(in, 24); if (k < 3) sample("box (%g %g %g)..(%g %g %g) origin (%g %g %g) direction (%g %g %g) %s", mn.x, mn.y, mn.z, mx.x, mx.y, mx.z, o.x, o.y, o.z, rd.x, rd.y, rd.z, ref.hit == 1 ? "hit" : "no hit");
		if (ref.hit == 1) { if (zeros == 2) VT_COUNT("hits, parallel to two axes"); else if (zeros) VT_COUNT("hits, parallel to one axis"); else VT_COUNT("hits"); if (ref.in < 0) VT_COUNT("hits from inside"); }
		else if (!ref.hit) { if (zeros) VT_COUNT("misses, parallel"); else VT_COUNT("misses"); } else { VT_COUNT("too close to tell"); }
		#define RAY "box (%.9g %.9g %.9g)..(%.9g %.9g %.9g) origin (%.9g %.9g %.9g) direction (%.9g %.9g %.9g)", mn.x, mn.y, mn.z, mx.x, mx.y, mx.z, o.x, o.y, o.z, rd.x, rd.y, rd.z
		auto judge = [&](const char* key, float2 g)
		{
			bool hit = g.x <= g.y && g.y >= 0;
			if (ref.hit < 0) return;
			if (hit != (ref.hit == 1)) { if (hit) fail(key, "reports a hit: " RAY); else fail(key, "reports no hit: " RAY); return; }
			if (!hit) { if (!(g.x == FLT_MAX && g.y == -FLT_MAX)) fail(key, "no hit is reported as %.9g %.9g", g.x, g.y); return; }
			if (!(std::fabs(g.x - ref.in) <= 5 * EPS * std::fabs(ref.in) + 1e-37 && std::fabs(g.y - ref.out) <= 5 * EPS * std::fabs(ref.out) + 1e-37)) { fail(key, "distances %.9g %.9g", g.x, g.y); fail(key, "want %.9g %.9g", ref.in, ref.out); fail(key, RAY); }
		};
		auto judge1 = [&](const char* key, float g)
		{
			if (ref.hit < 0) return;
			if (ref.hit == 0) { if (g != FLT_MAX) fail(key, "no hit is reported as %.9g", g); return; }
			if (!(std::fabs(g - ref.in) <= 5 * EPS * std::fabs(ref.in) + 1e-37)) { fail(key, "distance %.9g want %.9g", g, ref.in); fail(key, RAY); }
		};
		VT_OP("raycast2"); float2 g2 = opaque(M::raycast2(box, r)); judge("raycast2", g2);
		VT_OP("raycast1"); judge1("raycast1", opaque(M::raycast1(box, r)));
		VT_OP("raycast"); bool y = M::raycast(box, r); if (ref.hit >= 0 && y != (ref.hit == 1)) fail("raycast", RAY);
		f32x4 inv = f32x4::one / r.getDirection(); Ray ri(fo, inv, false); if (rng.chance(2)) { ri = Ray(); ri.origin = fo; ri.setDirection(inv, false); }
		VT_OP("raycast2I"); judge("raycast2I", opaque(M::raycast2I(box, ri)));
		VT_OP("raycast1I"); judge1("raycast1I", opaque(M::raycast1I(box, ri)));
		VT_OP("raycastI"); y = M::raycastI(box, ri); if (ref.hit >= 0 && y != (ref.hit == 1)) fail("raycastI", RAY);
		float ta = genFinF(rng), tb = rng.chance(4) ? ta : genFinF(rng); if (M::isAabbIntersected(float2(ta, tb)) != (ta <= tb && tb >= 0)) fail("isAabbIntersected(distances)", "%.9g %.9g", ta, tb);
	}
	return end();
}
