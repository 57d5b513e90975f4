// vt: quick=500000
// vt: thorough=25000000
// vt: rule=each case draws a segment, ray, plane, box, sphere and triangle (round and random coordinates, thin and obtuse, unit sized to a thousand, also far from the origin, zero-length segments and flat boxes) and query points at random, in every Voronoi region, on the shape and far away, all with garbage in the fourth lane; the result is compared with the unique closest point found in double precision by another method, within conditioning; distinct by operand bits
#include "vt.hpp"
#include "math/vector.hpp"
#include "math/simd/vector/float.hpp"
#include "math/line.hpp"
#include "math/ray.hpp"
#include "math/plane.hpp"
#include "math/aabb.hpp"
#include "math/sphere.hpp"
#include "math/triangle.hpp"
using namespace vt;
namespace M = math;
using math::f32x4; using math::Line; using math::Ray; using math::Plane; using math::Aabb; using math::Sphere; using math::Triangle;

static D3 d(f32x4 v) { return { v.getX(), v.getY(), v.getZ() }; }
static f32x4 g3(D3 v) { f32x4 f((float)v.x, (float)v.y, (float)v.z, genGarbage(rng)); touch(f); return f; }
static D3 absD(D3 a) { return { std::fabs(a.x), std::fabs(a.y), std::fabs(a.z) }; }
static D3 geo() { return genVec(rng, -4, 4); }
static void eq(const char* key, D3 g, D3 w, double tol, D3 p)
{
	if (maxAbs(g - w) <= tol) return;
	fail(key, "closest point to (%.9g %.9g %.9g) is (%.9g %.9g %.9g) want (%.9g %.9g %.9g) tolerance %.3g", p.x, p.y, p.z, g.x, g.y, g.z, w.x, w.y, w.z, tol);
}
static D3 closestOnSegment(D3 a, D3 b, D3 p, bool ray = false)
{
	D3 e = b - a; double l = dot(e, e); if (l == 0) return a;
	double t = dot(p - a, e) / l; return a + e * (t < 0 ? 0 : !ray && t > 1 ? 1 : t);
}
static D3 closestOnRay(D3 o, D3 u, D3 p) { double t = dot(p - o, u) / dot(u, u); return o + u * (t < 0 ? 0 : t); }
static D3 closestOnTriangle(D3 a, D3 b, D3 c, D3 p) // inside the prism: the plane, otherwise the best of the three edges
{
	D3 n = cross(b - a, c - a); double l = dot(n, n);
	if (l > 0 && dot(cross(b - a, p - a), n) >= 0 && dot(cross(c - b, p - b), n) >= 0 && dot(cross(a - c, p - c), n) >= 0) return p - n * (dot(p - a, n) / l);
	D3 q[3] = { closestOnSegment(a, b, p), closestOnSegment(b, c, p), closestOnSegment(c, a, p) }; int k = 0;
	for (int i = 1; i < 3; i++) if (len(p - q[i]) < len(p - q[k])) k = i;
	return q[k];
}
static double place() { return rng.chance(3) ? std::pow(10, rng.range(0, 4)) : 1; }

int main(int argc, char** argv)
{
	begin(argc, argv);
	for (vt::u64 k = 0; k < cases; k++)
	{
		curCase = k;
		D3 org = rng.chance(4) ? genDir(rng) * place() : D3{ 0, 0, 0 }; double sc = rng.chance(4) ? std::pow(10, rng.range(-2, 2)) : 1, W = genPow2(rng, 20); sc *= W; org = org * W;
		// ---- segment
		{
			D3 a = org + geo() * sc, b = rng.chance(16) ? a : org + geo() * sc; f32x4 fa = g3(a), fb = g3(b); a = d(fa); b = d(fb); if (a.x == b.x && a.y == b.y && a.z == b.z) VT_COUNT("zero-length segments");
			D3 p = rng.chance(3) ? a + (b - a) * rng.range(-0.5, 1.5) + genDir(rng) * sc * rng.range(0, 2) : rng.chance(6) ? (rng.chance(2) ? a : b) : org + geo() * sc * place(); f32x4 fp = g3(p); p = d(fp);
			float in[9] = { (float)a.x, (float)a.y, (float)a.z, (float)b.x, (float)b.y, (float)b.z, (float)p.x, (float)p.y, (float)p.z }; distinctBytes(in, 36); if (k < 3) sample("segment (%g %g %g)-(%g %g %g) point (%g %g %g)", in[0], in[1], in[2], in[3], in[4], in[5], in[6], in[7], in[8]);
			double tol = 6 * EPS * (len(p - a) + len(a) + len(b)) + 1e-37; D3 want = closestOnSegment(a, b, p); Line l(fa, fb);
			VT_OP("closestPoint(Line)"); eq("closestPoint(Line)", d(opaque(M::closestPoint(l, fp))), want, tol, p);
			float t = NAN; VT_OP("closestPoint(Line, t)"); eq("closestPoint(Line,t)", d(opaque(M::closestPoint(l, fp, t))), want, tol, p);
			double ct = t < 0 ? 0 : t > 1 ? 1 : t; if (!(maxAbs(a + (b - a) * ct - want) <= tol)) fail("closestPoint(Line,t)-parameter", "parameter %.9g does not lead to the closest point", t);
			double u = len(b - a); if (u > 0) { double tt = dot(p - a, b - a) / (u * u); if (tt < 0) VT_COUNT("before the start"); else if (tt > 1) VT_COUNT("behind the end"); else VT_COUNT("beside the segment"); }
		}
		// ---- ray
		{
			D3 o = org + geo() * sc, dir = genDir(rng); bool norm = rng.chance(2); if (rng.chance(3)) dir = dir * std::pow(10, rng.range(-2, 2));
			f32x4 fo = g3(o), fd = g3(dir); o = d(fo); dir = d(fd); Ray r(fo, fd, norm); D3 u = norm ? unitOf(dir) : dir;
			D3 p = rng.chance(2) ? o + u * (rng.range(-1, 5) / len(u) * sc) + genDir(rng) * sc * rng.range(0, 2) : org + geo() * sc * place(); f32x4 fp = g3(p); p = d(fp);
			VT_OP("closestPoint(Ray)"); eq("closestPoint(Ray)", d(opaque(M::closestPoint(r, fp))), closestOnRay(o, u, p), 10 * EPS * (len(p - o) + len(o)) + 1e-37, p);
			if (dot(p - o, u) < 0) VT_COUNT("behind the ray"); else VT_COUNT("beside the ray");
			D3 g = d(r.getDirection()); if (!(maxAbs(g - u) <= (norm ? 4 * EPS : 0))) fail("Ray-direction", "direction (%.9g %.9g %.9g) want (%.9g %.9g %.9g)", g.x, g.y, g.z, u.x, u.y, u.z);
		}
		// ---- plane
		{
			D3 n = genDir(rng); double dist = genGeo(rng) * sc; bool norm = rng.chance(2); f32x4 fn = g3(norm ? n * std::pow(10, rng.range(-2, 2)) : n); n = d(fn); float fd = (float)dist; touch(fd);
			Plane pl = rng.chance(2) ? Plane(fn, fd, norm) : [&] { Plane q; q.setDistance(fd); q.setNormal(fn, norm); return q; }(); D3 u = unitOf(n);
			D3 gn = d(pl.getNormal()); if (!(maxAbs(gn - u) <= 4 * EPS)) fail("Plane-normal", "normal (%.9g %.9g %.9g) want (%.9g %.9g %.9g)", gn.x, gn.y, gn.z, u.x, u.y, u.z);
			if (!(pl.getDistance() == fd)) fail("Plane-distance", "distance %.9g want %.9g", pl.getDistance(), fd);
			D3 p = org + geo() * sc; if (rng.chance(3)) p = p - u * (dot(u, p) + fd); f32x4 fp = g3(p); p = d(fp);
			double want = dot(gn, p) + fd, tol = 4 * EPS * (dot(absD(gn), absD(p)) + std::fabs((double)fd)) + 1e-37;
			VT_OP("distance3(Plane)"); float g = opaque(M::distance3(pl, fp)); if (!(std::fabs(g - want) <= tol)) fail("distance3(Plane)", "distance of (%.9g %.9g %.9g) is %.9g want %.9g", p.x, p.y, p.z, g, want);
			VT_OP("closestPoint(Plane)"); eq("closestPoint(Plane)", d(opaque(M::closestPoint(pl, fp))), p - u * (dot(u, p) + fd), 12 * EPS * (len(p) + std::fabs((double)fd)) + 1e-37, p);
			Plane un(fn, fd, false); double nl = len(n); if (rng.chance(2)) { un.normalize(); D3 q = d(un.getNormal()); if (!(maxAbs(q - u) <= 4 * EPS && std::fabs(un.getDistance() - fd / nl) <= 4 * EPS * std::fabs(fd / nl))) fail("Plane-normalize", "normalised to (%.9g %.9g %.9g %.9g)", q.x, q.y, q.z, un.getDistance()); }
		}
		// ---- box
		{
			D3 a = org + geo() * sc, b = org + geo() * sc; D3 mn = { std::fmin(a.x, b.x), std::fmin(a.y, b.y), std::fmin(a.z, b.z) }, mx = { std::fmax(a.x, b.x), std::fmax(a.y, b.y), std::fmax(a.z, b.z) }; f32x4 fmn = g3(mn), fmx = g3(mx); mn = d(fmn); mx = d(fmx);
			D3 p = rng.chance(2) ? org + geo() * sc * place() : D3{ rng.range(mn.x, mx.x), rng.chance(2) ? mn.y : mx.y + sc, rng.range(mn.z, mx.z) }; f32x4 fp = g3(p); p = d(fp);
			auto cl = [](double v, double lo, double hi) { return v < lo ? lo : v > hi ? hi : v; };
			Aabb box(fmn, fmx); VT_OP("closestPoint(Aabb)"); eq("closestPoint(Aabb)", d(opaque(M::closestPoint(box, fp))), { cl(p.x, mn.x, mx.x), cl(p.y, mn.y, mx.y), cl(p.z, mn.z, mx.z) }, 0, p);
		}
		// ---- sphere
		{
			D3 c = org + geo() * sc; float r = rng.chance(8) ? 0.0f : (float)(std::pow(10, rng.range(-2, 2)) * sc); f32x4 fc = g3(c); c = d(fc); touch(r);
			Sphere s = rng.chance(2) ? Sphere(r, fc) : [&] { Sphere q; q.setRadius(r); q.setPosition(fc); return q; }();
			D3 gc = d(s.getPosition()); if (!(maxAbs(gc - c) == 0 && s.getRadius() == r)) fail("Sphere", "position and radius do not read back");
			D3 p = rng.chance(2) ? c + genDir(rng) * (r * std::pow(10, rng.range(-2, 2)) + 1e-3 * sc) : org + geo() * sc * place(); f32x4 fp = g3(p); p = d(fp); double l = len(p - c); if (l < 1e-6 * sc) { trivial++; continue; }
			VT_OP("closestPoint(Sphere)"); eq("closestPoint(Sphere)", d(opaque(M::closestPoint(s, fp))), c + (p - c) * (r / l), 6 * EPS * (len(c) + r) + 1e-37, p);
			if (l < r) VT_COUNT("inside the sphere"); else VT_COUNT("outside the sphere");
		}
		// ---- triangle
		{
			D3 a = org + geo() * sc, b = org + geo() * sc, c = org + geo() * sc;
			if (rng.chance(4)) c = a + (b - a) * rng.range(-1, 2) + genDir(rng) * (len(b - a) * std::pow(10, rng.range(-2, 0))); // thin and obtuse
			f32x4 fa = g3(a), fb = g3(b), fc = g3(c); a = d(fa); b = d(fb); c = d(fc); D3 e0 = b - a, e1 = c - b, e2 = a - c, n = cross(e0, e2 * -1.0); double L = std::fmax(len(e0), std::fmax(len(e1), len(e2))), ar = len(n);
			if (!(L > 1e-7 && L < 1e8) || !(ar > 2e-3 * L * L) || !(L > 1e-4 * (len(a) + len(b) + len(c)))) { VT_COUNT("nearly degenerate triangle, skipped"); continue; }
			double kap = L * L / ar; D3 un = n * (1 / ar), p, ct = (a + b + c) * (1.0 / 3); Triangle tri(fa, fb, fc); double off = rng.chance(3) ? 0 : (rng.chance(2) ? 1 : -1) * L * std::pow(10, rng.range(-3, 1));
			switch (rng.below(5))
			{
			case 0: { double u = rng.unit(), v = rng.unit(); if (u + v > 1) { u = 1 - u; v = 1 - v; } p = a + e0 * u - e2 * v; break; } // above the inside
			case 1: { D3 v[3] = { a, b, c }; int i = (int)rng.below(3); p = v[i] + (v[i] - ct) * rng.range(-0.1, 2); break; } // about a corner
			case 2: { D3 v[3] = { a, b, c }; int i = (int)rng.below(3); D3 e = v[(i + 1) % 3] - v[i]; p = v[i] + e * (rng.chance(3) ? (double)(int)rng.below(5) - 2 : rng.range(-1, 2)) + (rng.chance(2) ? D3{ 0, 0, 0 } : cross(e, un) * rng.range(-0.5, 2)); break; } // along and beside an edge's line
			default: p = org + geo() * sc * (rng.chance(4) ? place() : 1); off = 0; break;
			}
			f32x4 fp = g3(p + un * off); p = d(fp);
			VT_OP("Plane(Triangle)"); Plane pl(tri); D3 gn = d(pl.getNormal()); if (!(std::fabs(len(gn) - 1) <= 4 * EPS)) fail("Plane(Triangle)-unit", "normal length %.9g", len(gn));
			D3 v[3] = { a, b, c }; double m = len(a) + len(b) + len(c), tp = 8 * EPS * (m + kap * L);
			for (int i = 0; i < 3; i++) { float g = M::distance3(pl, g3(v[i])); if (!(std::fabs(g) <= tp)) { fail("Plane(Triangle)", "corner %d is %.9g from the plane through the triangle (%.9g %.9g %.9g) (%.9g %.9g %.9g) (%.9g %.9g %.9g)", i, g, a.x, a.y, a.z, b.x, b.y, b.z, c.x, c.y, c.z); break; } }
			VT_OP("closestPoint(Triangle)"); D3 want = closestOnTriangle(a, b, c, p);
			// two boundary points whose distances agree to rounding are both right, so position is judged through the distance within the plane
			D3 g = d(opaque(M::closestPoint(tri, fp))), pp = p - un * dot(p - a, un); double tol = 16 * EPS * (kap * (len(p - a) + L) + m + len(p)), onShape = len(g - closestOnTriangle(a, b, c, g));
			if (!(onShape <= tol)) fail("closestPoint(Triangle)-member", "closest point to (%.9g %.9g %.9g) is (%.9g %.9g %.9g), %.3g away from the triangle, tolerance %.3g", p.x, p.y, p.z, g.x, g.y, g.z, onShape, tol);
			else if (!(len(g - pp) <= len(want - pp) + tol)) eq("closestPoint(Triangle)", g, want, tol, p);
			double h = std::fabs(dot(p - a, un)), dd = len(p - want); if (dd <= h * (1 + 1e-9) + 1e-12) VT_COUNT("nearest inside the triangle"); else if (len(want - a) < 1e-9 || len(want - b) < 1e-9 || len(want - c) < 1e-9) VT_COUNT("nearest at a corner"); else VT_COUNT("nearest on an edge");
		}
	}
	return end();
}
