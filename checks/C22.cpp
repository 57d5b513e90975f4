// vt: quick=150000
// vt: thorough=8000000
// vt: rule=each case is a history of 24 random operations (set, try-set valid and invalid, size, extent, centre, extend, shrink, translate, scale, arithmetic operators, copies) on one box with garbage in every fourth lane; after each step the corners are compared with a model advanced from the previous corners (exactly for min/max and assignment, within one rounding for arithmetic) and size, extent, centre, area and volume with the corners; distinct by the corner bits after each step
#include "vt.hpp"
#include "math/vector.hpp"
#include "math/simd/vector/float.hpp"
#include "math/aabb.hpp"
using namespace vt;
namespace M = math;
using math::f32x4; using math::Aabb;

static D3 d(f32x4 v) { return { v.getX(), v.getY(), v.getZ() }; }
static f32x4 g3(D3 v) { f32x4 f((float)v.x, (float)v.y, (float)v.z, genGarbage(rng)); touch(f); return f; }
static double W = 1; // the scale of the scene
static D3 geo() { return genVec(rng, -4, 4) * W; }
static D3 factors()
{
	double w = rng.chance(4) ? 4 : 1, x = std::pow(10, rng.range(-w, w)), y = std::pow(10, rng.range(-w, w)), z = std::pow(10, rng.range(-w, w));
	switch (rng.below(8)) { case 0: return { x, x, x }; case 1: return { 1, 1, z }; case 2: return { x, 1, z }; case 3: return { 2, 2, 2 }; case 4: return { x, y, x }; default: return { x, y, z }; }
}
static D3 mulC(D3 a, D3 b) { return { a.x * b.x, a.y * b.y, a.z * b.z }; }
static D3 absD(D3 a) { return { std::fabs(a.x), std::fabs(a.y), std::fabs(a.z) }; }
static D3 minD(D3 a, D3 b) { return { std::fmin(a.x, b.x), std::fmin(a.y, b.y), std::fmin(a.z, b.z) }; }
static D3 maxD(D3 a, D3 b) { return { std::fmax(a.x, b.x), std::fmax(a.y, b.y), std::fmax(a.z, b.z) }; }
static bool eq(const char* key, const char* what, D3 g, D3 w, D3 tol)
{
	D3 e = absD(g - w); if ((e.x <= tol.x || (tol.x > 0 && e.x < 1e-44)) && (e.y <= tol.y || (tol.y > 0 && e.y < 1e-44)) && (e.z <= tol.z || (tol.z > 0 && e.z < 1e-44))) return true;
	fail(key, "%s is (%.9g %.9g %.9g) want (%.9g %.9g %.9g)", what, g.x, g.y, g.z, w.x, w.y, w.z); return false;
}
static const D3 Z = { 0, 0, 0 };

int main(int argc, char** argv)
{
	begin(argc, argv);
	{
		struct { const char* n; const Aabb* b; double lo, hi; } named[] = { { "zero", &Aabb::zero, 0, 0 }, { "one", &Aabb::one, -0.5, 0.5 }, { "two", &Aabb::two, -1, 1 }, { "half", &Aabb::half, -0.25, 0.25 }, { "full", &Aabb::full, -(double)FLT_MAX, (double)FLT_MAX }, { "inf", &Aabb::inf, -INFINITY, INFINITY } };
		for (auto& n : named)
		{
			VT_OP("predefined boxes"); D3 mn = d(n.b->getMin()), mx = d(n.b->getMax());
			auto all = [](D3 v, double w) { return v.x == w && v.y == w && v.z == w; };
			if (!all(mn, n.lo) || !all(mx, n.hi)) fail("predefined", "%s is (%g %g %g)..(%g %g %g)", n.n, mn.x, mn.y, mn.z, mx.x, mx.y, mx.z);
		}
		Aabb e; if (maxAbs(d(e.getMin())) != 0 || maxAbs(d(e.getMax())) != 0) fail("predefined", "default box is not empty at the origin");
	}
	for (vt::u64 k = 0; k < cases; k++)
	{
		curCase = k; W = genPow2(rng, 12);
		Aabb b = Aabb::zero; D3 mn, mx;
		auto valid = [&](D3& lo, D3& hi, f32x4& flo, f32x4& fhi) { D3 p = geo(), q = rng.chance(6) ? p : geo(); flo = g3(minD(p, q)); fhi = g3(maxD(p, q)); lo = d(flo); hi = d(fhi); };
		auto start = [&] { f32x4 l, h; valid(mn, mx, l, h); b = Aabb(l, h); };
		start(); if (k < 3) sample("start (%g %g %g)..(%g %g %g)", mn.x, mn.y, mn.z, mx.x, mx.y, mx.z);
		{ f32x4 p = g3(geo()); if (!M::isInside(Aabb::full, p) || !M::isInside(Aabb::inf, p)) fail("predefined", "the full box does not contain a finite point"); f32x4 any(genFinF(rng), genFinF(rng), genFinF(rng), genGarbage(rng)); touch(any); if (!M::isInside(Aabb::full, any)) fail("predefined", "the full box does not contain (%g %g %g)", any.getX(), any.getY(), any.getZ()); }
		for (int stepN = 0; stepN < 24; stepN++)
		{
			bool ok = mn.x <= mx.x && mn.y <= mx.y && mn.z <= mx.z, big = !(maxAbs(mn) < 1e8 * W && maxAbs(mx) < 1e8 * W);
			if (big) { start(); ok = true; }
			D3 tolMn = Z, tolMx = Z; const char* name = "?"; int o = (int)rng.below(22); if (!ok && o > 8) o = (int)rng.below(9); // an empty intersection may only be looked at, extended or replaced
			auto both = [&](D3 lo, D3 hi, double rel) { mn = lo; mx = hi; tolMn = absD(lo) * rel; tolMx = absD(hi) * rel; };
			switch (o)
			{
			case 0: case 1: { name = "set"; f32x4 l, h; valid(mn, mx, l, h); VT_OP("set"); b.set(l, h); break; }
			case 2: { name = "trySet"; f32x4 l, h; D3 lo, hi; valid(lo, hi, l, h); VT_OP("trySet(valid)"); if (!b.trySet(l, h)) fail("trySet-rejects", "valid box (%g %g %g)..(%g %g %g) rejected", lo.x, lo.y, lo.z, hi.x, hi.y, hi.z); else { mn = lo; mx = hi; } break; }
			case 3: case 4: { name = "trySet of an invalid box"; f32x4 l, h; D3 lo, hi; valid(lo, hi, l, h); int m = 1 + (int)rng.below(7); float* pl = (float*)&l; float* ph = (float*)&h; for (int i = 0; i < 3; i++) if (m >> i & 1) { float hiV = ph[i], e = rng.chance(3) ? std::nextafterf(hiV, INFINITY) : hiV + std::fabs(hiV) * 0.5f + 0.5f; pl[i] = e; } touch(l); VT_OP("trySet(invalid)"); if (b.trySet(l, h)) { fail("trySet-accepts", "accepted (%g %g %g)..(%g %g %g)", l.getX(), l.getY(), l.getZ(), h.getX(), h.getY(), h.getZ()); mn = d(l); mx = d(h); } break; }
			case 5: { name = "extend point"; f32x4 p = g3(rng.chance(3) ? mn - D3{ 1, 0, 0 } : geo()); VT_OP("extend(point)"); b.extend(p); mn = minD(mn, d(p)); mx = maxD(mx, d(p)); break; }
			case 6: { name = "extend box"; f32x4 l, h; D3 lo, hi; valid(lo, hi, l, h); VT_OP("extend(box)"); b.extend(Aabb(l, h)); mn = minD(mn, lo); mx = maxD(mx, hi); break; }
			case 7: { name = "copy"; Aabb c = b; VT_OP("copy and compare"); if (!(c == b) || c != b) fail("compare", "a copy differs from its original"); b = c; f32x4 l = c.getMin(); float* p = (float*)&l; int i = (int)rng.below(3); p[i] = rng.chance(2) ? std::nextafterf(p[i], -INFINITY) : p[i] * (p[i] > 0 ? 0.5f : 2.0f) - 1e-3f; if (ok) { c.setMin(l); if (c == b || !(c != b)) fail("compare", "boxes that differ in component %d compare equal", i); c = b; l = c.getMax(); p[i] = rng.chance(2) ? std::nextafterf(p[i], INFINITY) : p[i] * (p[i] > 0 ? 2.0f : 0.5f) + 1e-3f; c.setMax(l); if (c == b || !(c != b)) fail("compare", "boxes that differ in component %d of the maximum compare equal", i); } break; }
			case 8: { name = "setSize"; D3 s = absD(geo()), p = geo(); f32x4 fs = g3(s), fp = g3(p); s = d(fs); p = d(fp); if (rng.chance(2)) { VT_OP("setSize"); b.setSize(fs); both(s * -0.5, s * 0.5, 0); } else { VT_OP("setSize(position)"); b.setSize(fs, fp); both(p - s * 0.5, p + s * 0.5, EPS); } break; }
			case 9: { name = "setExtent"; D3 s = absD(geo()), p = geo(); f32x4 fs = g3(s), fp = g3(p); s = d(fs); p = d(fp); if (rng.chance(2)) { VT_OP("setExtent"); b.setExtent(fs); both(s * -1, s, 0); } else { VT_OP("setExtent(position)"); b.setExtent(fs, fp); both(p - s, p + s, EPS); } break; }
			case 10: { name = "shrink point"; D3 q = { rng.range(mn.x, mx.x), rng.range(mn.y, mx.y), rng.range(mn.z, mx.z) }; f32x4 p = g3(rng.chance(2) ? q : geo()); VT_OP("shrink(point)"); b.shrink(p); mn = maxD(mn, d(p)); mx = minD(mx, d(p)); break; }
			case 11: case 12: { name = "shrink box"; f32x4 l, h; D3 lo, hi; valid(lo, hi, l, h); VT_OP("shrink(box)"); b.shrink(Aabb(l, h)); mn = maxD(mn, lo); mx = minD(mx, hi); break; }
			case 13: { name = "translate"; f32x4 t = g3(geo()); D3 v = d(t); VT_OP("translate"); b.translate(t); both(mn + v, mx + v, EPS); break; }
			case 14: { name = "scale"; D3 s = factors(); if (rng.chance(32)) s = { 0, rng.chance(2) ? 0.0 : 1.0, 0 }; f32x4 fs = g3(s); s = d(fs); VT_OP("scale"); b.scale(fs); both(mulC(mn, s), mulC(mx, s), EPS); break; }
			case 15: case 16: { D3 s = factors(); if (o == 15 && rng.chance(32)) s = { 0, rng.chance(2) ? 0.0 : 1.0, 0 }; f32x4 fs = g3(s); s = d(fs); bool div = o == 16; D3 m = div ? D3{ 1 / s.x, 1 / s.y, 1 / s.z } : s; name = div ? "operator/" : "operator*"; if (div) { VT_OP("operator/"); if (rng.chance(2)) b = b / fs; else { auto&& rb = (b /= fs); if ((const void*)&rb != (const void*)&b) fail("operator/=", "does not return its own object"); } } else { VT_OP("operator*"); if (rng.chance(2)) b = b * fs; else { auto&& rb = (b *= fs); if ((const void*)&rb != (const void*)&b) fail("operator*=", "does not return its own object"); } } both(mulC(mn, m), mulC(mx, m), 1.5 * EPS); break; }
			case 17: case 18: { f32x4 t = g3(geo()); D3 v = d(t); bool sub = o == 18; name = sub ? "operator-" : "operator+"; if (sub) { VT_OP("operator-"); if (rng.chance(2)) b = b - t; else { auto&& rb = (b -= t); if ((const void*)&rb != (const void*)&b) fail("operator-=", "does not return its own object"); } v = v * -1; } else { VT_OP("operator+"); if (rng.chance(2)) b = b + t; else { auto&& rb = (b += t); if ((const void*)&rb != (const void*)&b) fail("operator+=", "does not return its own object"); } } both(mn + v, mx + v, EPS); break; }
			case 19: { name = "setMin"; D3 p = minD(geo(), mx); f32x4 f = g3(p); VT_OP("setMin"); b.setMin(f); mn = d(f); break; }
			case 20: { name = "setMax"; D3 p = maxD(geo(), mn); f32x4 f = g3(p); VT_OP("setMax"); b.setMax(f); mx = d(f); break; }
			default: { name = "rebuild from size and centre"; f32x4 s = b.getSize(), p = b.getPosition(); Aabb c; VT_OP("rebuild"); c.setSize(s, p); D3 t = (absD(mn) + absD(mx)) * (2 * EPS); eq("rebuild", "minimum", d(c.getMin()), mn, t); eq("rebuild", "maximum", d(c.getMax()), mx, t); break; }
			}
			D3 gmn = d(b.getMin()), gmx = d(b.getMax());
			if (!eq(name, "minimum", gmn, mn, tolMn) || !eq(name, "maximum", gmx, mx, tolMx)) { VT_COUNT("model resynchronised"); }
			mn = gmn; mx = gmx;
			float in[6] = { (float)mn.x, (float)mn.y, (float)mn.z, (float)mx.x, (float)mx.y, (float)mx.z }; distinctBytes(in, 24);
			// what the box says about itself
			D3 s = mx - mn; VT_OP("observers"); if (!(mn.x <= mx.x && mn.y <= mx.y && mn.z <= mx.z)) VT_COUNT("empty intersections");
			eq("getSize", "size", d(opaque(b.getSize())), s, absD(s) * EPS); D3 gs = d(b.getSize());
			eq("getExtent", "extent", d(opaque(b.getExtent())), s * 0.5, absD(s) * EPS);
			D3 c = (mn + mx) * 0.5, tc = (absD(mn) + absD(mx)) * EPS; eq("getPosition", "centre", d(opaque(b.getPosition())), c, tc);
			f32x4 e2, p2; b.getExtent(e2, p2); eq("getExtent(position)", "extent", d(e2), s * 0.5, absD(s) * EPS); eq("getExtent(position)", "centre", d(p2), c, tc);
			float ar = opaque(b.calcArea()), vo = opaque(b.calcVolume()); double wa = 2 * (gs.x * gs.y + gs.y * gs.z + gs.z * gs.x), ta = 2 * (std::fabs(gs.x * gs.y) + std::fabs(gs.y * gs.z) + std::fabs(gs.z * gs.x)) * 3 * EPS, wv = gs.x * gs.y * gs.z;
			if (!(std::fabs(ar - wa) <= ta + 1e-36)) fail("calcArea", "area %.9g want %.9g", ar, wa);
			if (!(std::fabs(vo - wv) <= 2 * EPS * std::fabs(wv) + 1e-36)) fail("calcVolume", "volume %.9g want %.9g", vo, wv);
		}
	}
	return end();
}
