// vt: quick=400000
// vt: thorough=20000000
// vt: rule=each case is a history of 12 random edits (construct, set one part, normalise, compound and plain arithmetic with a vector, copy, compare) on one line, ray, triangle, plane and sphere, all with garbage fourth lanes where a lane is unused; after each edit every part is compared with a model advanced in double precision from the previous parts, and a ray's parallel flags with its current direction; distinct by the edited parts
#include "vt.hpp"
#include "math/vector.hpp"
#include "math/simd/vector/float.hpp"
#include "math/sphere.hpp"
#include "math/plane.hpp"
using namespace vt;
namespace M = math;
using math::f32x4; using math::u32x4; using math::Line; using math::Ray; using math::Plane; using math::Sphere; using math::Triangle;

static D3 d(f32x4 v) { return { v.getX(), v.getY(), v.getZ() }; }
static f32x4 g3(D3 v) { f32x4 f((float)v.x, (float)v.y, (float)v.z, genGarbage(rng)); touch(f); return f; }
static D3 geo() { return genVec(rng, -5, 5); }
static double at(D3 v, int i) { return i == 0 ? v.x : i == 1 ? v.y : v.z; }
static D3 some() { return rng.chance(3) ? genDir(rng) * (rng.chance(3) ? 1 + std::ldexp(rng.range(-1, 1), -(int)rng.below(20)) : std::pow(10, rng.range(-3, 3))) : geo(); }
static bool eq(const char* key, const char* what, D3 g, D3 w, double rel)
{
	for (int i = 0; i < 3; i++) if (!(std::fabs(at(g, i) - at(w, i)) <= rel * std::fabs(at(w, i)) + (rel > 0 ? 1e-37 : 0))) { fail(key, "%s is (%.9g %.9g %.9g) want (%.9g %.9g %.9g)", what, g.x, g.y, g.z, w.x, w.y, w.z); return false; }
	return true;
}
static bool eqVec(const char* key, const char* what, D3 g, D3 w, double rel) // relative to the length
{
	if (maxAbs(g - w) <= rel * maxAbs(w)) return true;
	fail(key, "%s is (%.9g %.9g %.9g) want (%.9g %.9g %.9g)", what, g.x, g.y, g.z, w.x, w.y, w.z); return false;
}
static const char* arithName[8] = { "operator*", "operator/", "operator+", "operator-", "operator*=", "operator/=", "operator+=", "operator-=" };
static D3 applied(D3 a, D3 v, int o) { switch (o & 3) { case 0: return { a.x*v.x, a.y*v.y, a.z*v.z }; case 1: return { a.x/v.x, a.y/v.y, a.z/v.z }; case 2: return a + v; default: return a - v; } }
template<class T> static T arith(const T& t, f32x4 v, int o)
{
	T c = t; const void* r = &c; auto put = [&](auto&& x) { r = &x; };
	switch (o) { case 0: return t * v; case 1: return t / v; case 2: return t + v; case 3: return t - v; case 4: put(c *= v); break; case 5: put(c /= v); break; case 6: put(c += v); break; default: put(c -= v); }
	if (r != &c) fail("compound-return", "%s does not return its own object", arithName[o]);
	return c;
}
// a point of the object itself as the operand: as if it had been copied first
template<class T> static void ownOperand(const T& t, f32x4 T::* m, const int* words, int n)
{
	for (int o = 0; o < 4; o++)
	{
		VT_OP("arithmetic with an own point"); T c = t, w = t; f32x4 v = t.*m; touch(v); touch(c);
		switch (o) { case 0: w *= v; c *= c.*m; break; case 1: w /= v; c /= c.*m; break; case 2: w += v; c += c.*m; break; default: w -= v; c -= c.*m; }
		float g[sizeof(T) / 4], x[sizeof(T) / 4]; memcpy(g, &c, sizeof(T)); memcpy(x, &w, sizeof(T));
		for (int i = 0; i < n; i++) if (!same(g[words[i]], x[words[i]])) fail("own-operand", "%s own point gives %.9g in word %d, with a copy %.9g", arithName[o + 4], g[words[i]], words[i], x[words[i]]);
	}
}
static f32x4 operand(int o, D3& v)
{
	if ((o & 3) < 2)
	{
		double w = rng.chance(4) ? 4 : 1, x = genMag(rng, -w, w), y = genMag(rng, -w, w), z = genMag(rng, -w, w);
		switch (rng.below(12)) { case 0: v = { x, x, x }; break; case 1: v = { 1, 1, z }; break; case 2: v = { x, 1, z }; break; case 3: v = { -1, -1, -1 }; break; case 4: v = { 2, 2, 2 }; break; case 5: v = { x, y, x }; break; case 6: v = (o & 3) == 0 ? D3{ x, 0, z } : D3{ x, y, 1 }; break; default: v = { x, y, z }; }
	}
	else v = geo();
	f32x4 f = g3(v); v = d(f); return f;
}
static double tol(int o) { return (o & 3) < 2 ? EPS : 2 * EPS; }
static bool tiny(D3 v) { return len(v) < 1e-6 || maxAbs(v) > 1e6; }
// one bit of one of the first n floats of the object is flipped: must compare unequal
template<class T> static void compare(const char* key, const T& t, const int* words, int n)
{
	VT_OP("copy and compare");
	T c = t; if (!(c == t) || c != t) fail(key, "a copy differs from its original");
	uint32_t w[sizeof(T) / 4]; memcpy(w, &t, sizeof(T)); int i = words[rng.below((u32)n)]; w[i] ^= 1u << rng.below(31); memcpy((void*)&c, w, sizeof(T)); // never a mere sign of zero
	if (c == t || !(c != t)) fail(key, "values that differ in word %d compare equal", i);
}
static void checkParallel(const Ray& r, const char* what)
{
	D3 v = d(r.getDirection()); u32x4 par = r.getParallel();
	for (int i = 0; i < 3; i++)
	{
		double a = std::fabs(at(v, i)); if (a > 1e-21 && a < 1e-19) continue; // either side of the library's threshold
		bool p = par[i] != 0; if (p) VT_COUNT("axes seen parallel"); else VT_COUNT("axes seen not parallel");
		if (p != (a <= 1e-20)) fail("ray-parallel", "after %s axis %d with direction %.9g is reported %sparallel", what, i, at(v, i), p ? "" : "not ");
	}
}

int main(int argc, char** argv)
{
	begin(argc, argv);
	{
		static const D3 dirs[6] = { { -1, 0, 0 }, { 1, 0, 0 }, { 0, -1, 0 }, { 0, 1, 0 }, { 0, 0, -1 }, { 0, 0, 1 } }; static const char* nm[6] = { "left", "right", "bottom", "top", "back", "front" };
		const Ray* rays[6] = { &Ray::left, &Ray::right, &Ray::bottom, &Ray::top, &Ray::back, &Ray::front };
		const Plane* planes[6] = { &Plane::left, &Plane::right, &Plane::bottom, &Plane::top, &Plane::back, &Plane::front };
		for (int i = 0; i < 6; i++)
		{
			VT_OP("predefined rays and planes");
			eq("predefined", nm[i], d(rays[i]->getDirection()), dirs[i], 0); eq("predefined", nm[i], d(rays[i]->origin), D3{ 0, 0, 0 }, 0); checkParallel(*rays[i], nm[i]);
			eq("predefined", nm[i], d(planes[i]->getNormal()), dirs[i], 0); if (planes[i]->getDistance() != 0) fail("predefined", "plane %s is %g from the origin", nm[i], planes[i]->getDistance());
		}
		const Sphere* sph[3] = { &Sphere::one, &Sphere::two, &Sphere::half }; static const float diam[3] = { 1, 2, 0.5f };
		for (int i = 0; i < 3; i++) { VT_OP("predefined spheres"); if (sph[i]->getRadius() * 2 != diam[i]) fail("predefined", "sphere with a diameter of %g has radius %g", diam[i], sph[i]->getRadius()); eq("predefined", "sphere position", d(sph[i]->getPosition()), D3{ 0, 0, 0 }, 0); }
		Line l; Triangle t; Plane p; Sphere s; Ray r; VT_OP("defaults");
		D3 z = { 0, 0, 0 }; eq("defaults", "line", d(l.start), z, 0); eq("defaults", "line", d(l.end), z, 0); eq("defaults", "triangle", d(t.p0), z, 0); eq("defaults", "triangle", d(t.p1), z, 0); eq("defaults", "triangle", d(t.p2), z, 0);
		eq("defaults", "plane", d(p.getNormal()), z, 0); eq("defaults", "sphere", d(s.getPosition()), z, 0); if (p.getDistance() != 0 || s.getRadius() != 0) fail("defaults", "default plane or sphere is not zero"); eq("defaults", "ray", d(r.getDirection()), z, 0); eq("defaults", "ray", d(r.origin), z, 0);
		if (int(Plane::frustumCount) != 6 || int(Triangle::pointCount) != 3) fail("constants", "a frustum has %d planes, a triangle %d points", int(Plane::frustumCount), int(Triangle::pointCount));
	}
	for (vt::u64 k = 0; k < cases; k++)
	{
		curCase = k; u64 h = 0; auto note = [&](D3 v) { float f[3] = { (float)v.x, (float)v.y, (float)v.z }; for (float x : f) h = hashMix(h, bits(x)); };
		switch (k % 5)
		{
		case 0: // line
		{
			Line l; D3 s = { 0, 0, 0 }, e = s;
			for (int n = 0; n < 12; n++)
			{
				const char* name = "construction"; double te = 0; int o = (int)rng.below(12);
				if (n == 0 || o >= 9 || tiny(s - e)) { f32x4 a = g3(geo()), b = g3(geo()); s = d(a); e = d(b); VT_OP("Line()"); l = Line(a, b); }
				else if (o == 8) { name = "setting a point"; f32x4 a = g3(geo()); VT_OP("Line start/end"); if (rng.chance(2)) { l.start = a; s = d(a); } else { l.end = a; e = d(a); } }
				else { D3 v; f32x4 f = operand(o, v); name = arithName[o]; VT_OP("Line arithmetic"); l = arith(l, f, o); s = applied(s, v, o); e = applied(e, v, o); te = tol(o); }
				eq("line-points", name, d(l.start), s, te); eq("line-points", name, d(l.end), e, te); s = d(l.start); e = d(l.end); note(s); note(e);
				D3 dir = e - s, m = { std::fabs(s.x) + std::fabs(e.x), std::fabs(s.y) + std::fabs(e.y), std::fabs(s.z) + std::fabs(e.z) };
				VT_OP("Line::getDirection"); D3 g = d(l.getDirection(false)); if (!(maxAbs(g - dir) <= EPS * maxAbs(m))) fail("line-direction", "direction (%.9g %.9g %.9g) want (%.9g %.9g %.9g)", g.x, g.y, g.z, dir.x, dir.y, dir.z);
				if (len(g) > 1e-15 && len(g) < 1e15) { D3 u = d(rng.chance(2) ? l.getDirection() : l.getDirection(true)); eqVec("line-direction", "unit direction", u, unitOf(g), 4 * EPS); VT_COUNT("unit line directions"); }
			}
			static const int w[6] = { 0, 1, 2, 4, 5, 6 }; compare("line-compare", l, w, 6); ownOperand(l, rng.chance(2) ? &Line::start : &Line::end, w, 6);
			break;
		}
		case 1: // ray
		{
			Ray r; D3 o3 = { 0, 0, 0 }, v3 = o3;
			for (int n = 0; n < 12; n++)
			{
				const char* name = "construction"; double to = 0, tv = 0; int o = (int)rng.below(16); bool norm = rng.chance(2), onlyAlong = false;
				auto dir = [&](D3& v) { v = rng.chance(3) ? D3{ rng.chance(3) ? 0 : genGeo(rng), rng.chance(3) ? -0.0 : genGeo(rng), rng.chance(3) ? 0 : genGeo(rng) } : some(); if (tiny(v)) v = genDir(rng); if (rng.chance(8)) (rng.chance(2) ? v.x : v.y) = 1e-30; if (rng.chance(4)) { double& c = rng.chance(2) ? v.x : rng.chance(2) ? v.y : v.z; c = std::copysign(std::pow(10, rng.range(-26, -14)), c); if (tiny(v)) (&c == &v.x ? v.y : v.x) = std::pow(10, rng.range(-5, 6)); } f32x4 f = g3(v); v = d(f); return f; };
				if (n == 0 || o >= 13 || tiny(v3) || maxAbs(o3) > 1e6) { f32x4 a = g3(geo()), b = dir(v3); o3 = d(a); if (tiny(v3)) norm = false; VT_OP("Ray()"); if (norm && rng.chance(2)) r = Ray(a, b); else r = Ray(a, b, norm); if (norm) { v3 = unitOf(v3); tv = 4 * EPS; } }
				else if (o == 12) { name = "setDirection"; f32x4 b = dir(v3); if (tiny(v3)) norm = false; VT_OP("Ray::setDirection"); if (norm && rng.chance(2)) r.setDirection(b); else r.setDirection(b, norm); if (norm) { v3 = unitOf(v3); tv = 4 * EPS; } }
				else if (o == 11) { name = "normalize"; VT_OP("Ray::normalize"); r.normalize(); v3 = unitOf(v3); tv = 4 * EPS; }
				else if (o == 10) { name = "a new origin"; f32x4 a = g3(geo()); r.origin = a; o3 = d(a); VT_OP("Ray origin"); }
				else if (o == 9 || o == 8) { name = o == 9 ? "operator+=" : "operator-="; // moves an axis onto or off the direction
					D3 v = v3 * (o == 9 ? -1 : 1); if (rng.chance(2)) v.x = rng.chance(2) ? 0.5 : 0; if (rng.chance(2)) v.y = 0; f32x4 f = g3(v); v = d(f); int op = o == 9 ? 6 : 7; VT_OP("Ray arithmetic"); r = arith(r, f, op); o3 = applied(o3, v, op); v3 = applied(v3, v, op); to = tv = tol(op); }
				else { D3 v; f32x4 f = operand(o, v); name = arithName[o]; D3 nv = applied(v3, v, o); onlyAlong = o < 4; if (onlyAlong && tiny(nv)) continue; VT_OP("Ray arithmetic"); r = arith(r, f, o); o3 = applied(o3, v, o); v3 = nv; to = tv = tol(o); }
				eq("ray-origin", name, d(r.origin), o3, to); D3 g = d(r.getDirection());
				if (onlyAlong) eqVec("ray-direction", name, unitOf(g), unitOf(v3), 6 * EPS); // the plain forms may keep or normalise the length
				else if (tv > 3 * EPS) eqVec("ray-direction", name, g, v3, tv);
				else eq("ray-direction", name, g, v3, tv);
				checkParallel(r, name); o3 = d(r.origin); v3 = g; note(o3); note(v3);
			}
			// words: direction, parallel flags, origin in declaration order
			static const int w[6] = { 0, 1, 2, 8, 9, 10 }; if (sizeof(Ray) == 48) { compare("ray-compare", r, w, 6); ownOperand(r, &Ray::origin, w, 6); }
			break;
		}
		case 2: // triangle
		{
			Triangle t; D3 p[3] = {}; f32x4* f[3] = { &t.p0, &t.p1, &t.p2 };
			for (int n = 0; n < 12; n++)
			{
				const char* name = "construction"; double te = 0; int o = (int)rng.below(12); D3 big = { maxAbs(p[0]), maxAbs(p[1]), maxAbs(p[2]) };
				if (n == 0 || o >= 9 || maxAbs(big) > 1e6) { f32x4 a = g3(geo()), b = g3(geo()), c = g3(geo()); p[0] = d(a); p[1] = d(b); p[2] = d(c); VT_OP("Triangle()"); t = Triangle(a, b, c); }
				else if (o == 8) { name = "setting a point"; f32x4 a = g3(geo()); int i = (int)rng.below(3); VT_OP("Triangle points"); *f[i] = a; p[i] = d(a); }
				else { D3 v; f32x4 a = operand(o, v); name = arithName[o]; VT_OP("Triangle arithmetic"); t = arith(t, a, o); for (auto& q : p) q = applied(q, v, o); te = tol(o); }
				for (int i = 0; i < 3; i++) { eq("triangle-points", name, d(*f[i]), p[i], te); p[i] = d(*f[i]); note(p[i]); }
			}
			static const int w[9] = { 0, 1, 2, 4, 5, 6, 8, 9, 10 }; compare("triangle-compare", t, w, 9); ownOperand(t, rng.chance(3) ? &Triangle::p0 : rng.chance(2) ? &Triangle::p1 : &Triangle::p2, w, 9);
			break;
		}
		case 3: // plane
		{
			Plane p; D3 nn = { 0, 0, 0 }; double dd = 0;
			for (int n = 0; n < 12; n++)
			{
				const char* name = "construction"; double tn = 0, td = 0; int o = (int)rng.below(8); bool norm = rng.chance(2);
				auto dir = [&](D3& v) { v = some(); if (tiny(v)) v = genDir(rng); f32x4 f = g3(v); v = d(f); return f; };
				if (n == 0 || o >= 5 || tiny(nn)) { f32x4 f = dir(nn); float w = genGeo(rng); dd = w; VT_OP("Plane()"); int form = (int)rng.below(3); if (form == 0) { p = Plane(f); norm = true; dd = 0; } else if (form == 1) { p = Plane(f, w); norm = true; } else p = Plane(f, w, norm); if (norm) { nn = unitOf(nn); tn = 4 * EPS; } }
				else if (o < 2) { name = "setNormal"; f32x4 f = dir(nn); VT_OP("Plane::setNormal"); if (norm && rng.chance(2)) p.setNormal(f); else p.setNormal(f, norm); if (norm) { nn = unitOf(nn); tn = 4 * EPS; } }
				else if (o < 4) { name = "setDistance"; float w = genGeo(rng); dd = w; VT_OP("Plane::setDistance"); p.setDistance(w); }
				else { name = "normalize"; double l = len(nn); VT_OP("Plane::normalize"); p.normalize(); nn = nn * (1 / l); dd /= l; tn = 4 * EPS; td = 4 * EPS; }
				eqVec("plane-normal", name, d(p.getNormal()), nn, tn); if (!nearly(p.getDistance(), dd, td, 0)) fail("plane-distance", "after %s the distance is %.9g want %.9g", name, p.getDistance(), dd);
				nn = d(p.getNormal()); dd = p.getDistance(); note(nn); note(D3{ dd, 0, 0 });
			}
			static const int w[4] = { 0, 1, 2, 3 }; compare("plane-compare", p, w, 4);
			break;
		}
		default: // sphere
		{
			Sphere s; D3 c = { 0, 0, 0 }; float r = 0;
			for (int n = 0; n < 12; n++)
			{
				const char* name = "construction"; int o = (int)rng.below(5);
				if (n == 0 || o == 0) { float w = std::fabs(genGeo(rng)); r = w; VT_OP("Sphere()"); if (rng.chance(3)) { s = Sphere(w); c = { 0, 0, 0 }; } else { f32x4 f = g3(geo()); c = d(f); s = Sphere(w, f); } }
				else if (o < 3) { name = "setPosition"; f32x4 f = g3(geo()); c = d(f); VT_OP("Sphere::setPosition"); s.setPosition(f); }
				else { name = "setRadius"; float w = std::fabs(genGeo(rng)); r = w; VT_OP("Sphere::setRadius"); s.setRadius(w); }
				eq("sphere-position", name, d(s.getPosition()), c, 0); if (s.getRadius() != r) fail("sphere-radius", "after %s the radius is %.9g want %.9g", name, s.getRadius(), r);
				note(c); note(D3{ r, 0, 0 });
			}
			static const int w[4] = { 0, 1, 2, 3 }; compare("sphere-compare", s, w, 4);
			break;
		}
		}
		distinct(h);
		if (k < 5) sample("history %llu of shape %d", (unsigned long long)k, (int)(k % 5));
	}
	return end();
}
