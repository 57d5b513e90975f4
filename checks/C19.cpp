// vt: quick=600000
// vt: thorough=30000000
// vt: rule=each case draws boxes (nested, touching face to face, flat, sharing coordinates, overlapping on two axes only), spheres and triangles (round, random, thin) and points (inside, on faces and edges, on the extension of an edge, a few margins beside the boundary), all with garbage in the fourth lane; box answers must be exact, the others right outside a rounding margin, symmetric relations are asked both ways round, barycentric coordinates must sum to one and rebuild the point; distinct by operand bits
#include "vt.hpp"
#include "math/vector.hpp"
#include "math/simd/vector/float.hpp"
#include "math/aabb.hpp"
#include "math/sphere.hpp"
#include "math/triangle.hpp"
using namespace vt;
namespace M = math;
using math::f32x4; using math::Aabb; using math::Sphere; using math::Triangle;

static D3 d(f32x4 v) { return { v.getX(), v.getY(), v.getZ() }; }
static f32x4 g3(D3 v) { f32x4 f((float)v.x, (float)v.y, (float)v.z, genGarbage(rng)); touch(f); return f; }
static double W = 1; // the scale of the scene
static D3 geo() { return genVec(rng, -4, 4) * W; }
static double& at(D3& v, int i) { return i == 0 ? v.x : i == 1 ? v.y : v.z; }
static void yes(bool want) { if (want) VT_COUNT("answers true"); else VT_COUNT("answers false"); }
struct Box { D3 mn, mx; };
static Box genBox()
{
	D3 a = geo(), b = geo(); Box r = { { std::fmin(a.x, b.x), std::fmin(a.y, b.y), std::fmin(a.z, b.z) }, { std::fmax(a.x, b.x), std::fmax(a.y, b.y), std::fmax(a.z, b.z) } };
	if (rng.chance(6)) { int i = (int)rng.below(3); at(r.mx, i) = at(r.mn, i); }
	return r;
}
static float step(float f, int k) { for (; k > 0; k--) f = std::nextafterf(f, INFINITY); for (; k < 0; k++) f = std::nextafterf(f, -INFINITY); return f; }

int main(int argc, char** argv)
{
	begin(argc, argv);
	for (vt::u64 k = 0; k < cases; k++)
	{
		curCase = k; W = genPow2(rng, 7);
		// ---- boxes: exact
		{
			Box a = genBox(), b = genBox(); D3 p = geo(); 
			// relate the second box and the point to the first, axis by axis
			if (rng.chance(2)) for (int i = 0; i < 3; i++)
			{
				double lo = at(a.mn, i), hi = at(a.mx, i), w = hi - lo, e = (0.5 + rng.unit() * 4) * W; float l, h;
				switch (rng.below(8))
				{
				case 0: l = (float)(lo - e); h = (float)(hi + e); break;                       // encloses
				case 1: l = (float)(lo + w * 0.25); h = (float)(lo + w * 0.75); break;          // inside
				case 2: l = (float)hi; h = (float)(hi + e); break;                             // touches from above
				case 3: l = (float)(lo - e); h = (float)lo; break;                             // touches from below
				case 4: l = step((float)hi, rng.chance(2) ? 1 : -1); h = (float)(hi + e); break;
				case 5: l = (float)(lo - e); h = step((float)lo, rng.chance(2) ? 1 : -1); break;
				case 6: l = (float)lo; h = (float)hi; break;                                   // the same
				default: l = step((float)lo, (int)rng.below(3) - 1); h = step((float)hi, (int)rng.below(3) - 1); break;
				}
				if (l > h) l = h;
				at(b.mn, i) = l; at(b.mx, i) = h; at(p, i) = rng.chance(2) ? l : rng.chance(2) ? h : step((float)(rng.chance(2) ? lo : hi), (int)rng.below(3) - 1);
			}
			f32x4 amn = g3(a.mn), amx = g3(a.mx), bmn = g3(b.mn), bmx = g3(b.mx), fp = g3(p); a = { d(amn), d(amx) }; b = { d(bmn), d(bmx) }; p = d(fp); Aabb A(amn, amx), B(bmn, bmx);
			float in[9] = { (float)a.mn.x, (float)a.mn.y, (float)a.mn.z, (float)a.mx.x, (float)b.mn.x, (float)b.mx.y, (float)p.x, (float)p.y, (float)p.z }; distinctBytes(in, 36); if (k < 3) sample("box (%g %g %g)..(%g %g %g) and (%g %g %g)..(%g %g %g)", a.mn.x, a.mn.y, a.mn.z, a.mx.x, a.mx.y, a.mx.z, b.mn.x, b.mn.y, b.mn.z, b.mx.x, b.mx.y, b.mx.z);
			bool in1 = true, in2 = true, ov = true;
			for (int i = 0; i < 3; i++)
			{
				in1 = in1 && at(p, i) >= at(a.mn, i) && at(p, i) <= at(a.mx, i); in2 = in2 && at(b.mn, i) >= at(a.mn, i) && at(b.mx, i) <= at(a.mx, i);
				ov = ov && at(a.mn, i) <= at(b.mx, i) && at(b.mn, i) <= at(a.mx, i);
			}
			#define BOXES "(%.9g %.9g %.9g)..(%.9g %.9g %.9g) and (%.9g %.9g %.9g)..(%.9g %.9g %.9g)", a.mn.x, a.mn.y, a.mn.z, a.mx.x, a.mx.y, a.mx.z, b.mn.x, b.mn.y, b.mn.z, b.mx.x, b.mx.y, b.mx.z
			VT_OP("isInside(Aabb, point)"); yes(in1); if (M::isInside(A, fp) != in1) fail("isInside(Aabb,point)", "point (%.9g %.9g %.9g) in box (%.9g %.9g %.9g)..(%.9g %.9g %.9g) should be %s", p.x, p.y, p.z, a.mn.x, a.mn.y, a.mn.z, a.mx.x, a.mx.y, a.mx.z, in1 ? "true" : "false");
			VT_OP("isInside(Aabb, Aabb)"); yes(in2); if (M::isInside(A, B) != in2) fail(in2 ? "isInside(Aabb,Aabb)-missed" : "isInside(Aabb,Aabb)-wrong", BOXES);
			VT_OP("isIntersected(Aabb, Aabb)"); yes(ov); if (M::isIntersected(A, B) != ov) fail(ov ? "isIntersected(Aabb,Aabb)-missed" : "isIntersected(Aabb,Aabb)-wrong", BOXES);
			if (M::isIntersected(B, A) != ov) fail(ov ? "isIntersected(Aabb,Aabb)-swapped-missed" : "isIntersected(Aabb,Aabb)-swapped-wrong", BOXES);
			if (!M::isInside(A, A) || !M::isIntersected(A, A)) fail("Aabb-self", BOXES);
		}
		// ---- spheres
		{
			D3 c = geo() * (rng.chance(4) ? 100 : 1); float r = rng.chance(10) ? 0.0f : (float)(std::pow(10, rng.range(-2, 1.5)) * W); f32x4 fc = g3(c); c = d(fc); touch(r); Sphere s(r, fc);
			double band = (rng.chance(2) ? 1 : -1) * std::pow(10, rng.range(-6, -1)) + 1;
			D3 p = rng.chance(2) ? c + genDir(rng) * (r * band) : geo(); f32x4 fp = g3(p); p = d(fp); double q = dot(p - c, p - c), r2 = (double)r * r;
			VT_OP("isInside(Sphere, point)");
			if (std::fabs(q - r2) > 6 * EPS * (q + r2) + 1e-30) { yes(q < r2); if (M::isInside(s, fp) != (q < r2)) fail("isInside(Sphere,point)", "distance %.9g radius %.9g", std::sqrt(q), r); } else VT_COUNT("within the margin");
			float rb = rng.chance(10) ? 0.0f : (float)(std::pow(10, rng.range(-2, 1.5)) * W); touch(rb); D3 cb = rng.chance(2) ? c + genDir(rng) * (((double)r + rb) * band) : rng.chance(3) ? c + genDir(rng) * (std::fabs((double)r - rb) * 0.9) : geo(); f32x4 fb = g3(cb); cb = d(fb); Sphere t(rb, fb);
			q = dot(cb - c, cb - c); r2 = ((double)r + rb) * ((double)r + rb);
			VT_OP("isIntersected(Sphere, Sphere)");
			if (std::fabs(q - r2) > 8 * EPS * (q + r2) + 1e-30) { yes(q < r2); if (M::isIntersected(s, t) != (q < r2) || M::isIntersected(t, s) != (q < r2)) fail("isIntersected(Sphere,Sphere)", "distance %.9g radii %.9g %.9g", std::sqrt(q), r, rb); } else VT_COUNT("within the margin");
			if (rng.chance(8))
			{
				// spheres that touch exactly: round numbers and an offset of whole length, so no rounding takes part
				static const double quad[6][4] = { { 1, 0, 0, 1 }, { 3, 4, 0, 5 }, { 1, 2, 2, 3 }, { 2, 3, 6, 7 }, { 1, 4, 8, 9 }, { 2, 6, 9, 11 } }; const double* o = quad[rng.below(6)]; int turn = (int)rng.below(3); double unit = std::ldexp(1.0, (int)rng.below(7) - 3);
				D3 e, base; for (int i = 0; i < 3; i++) { at(e, i) = o[(i + turn) % 3] * unit * (rng.chance(2) ? 1 : -1); at(base, i) = ((int)rng.below(33) - 16) * unit; }
				double sum = o[3] * unit, ra = sum * 0.125 * rng.below(9), rb2 = sum - ra; f32x4 f0 = g3(base), f1 = g3(base + e); Sphere p0((float)ra, f0), p1((float)rb2, f1), p2((float)(rb2 + unit * 0.25), f1);
				VT_OP("isIntersected(Sphere, Sphere) touching"); yes(true); if (!M::isIntersected(p0, p1) || !M::isIntersected(p1, p0) || !M::isIntersected(p0, p2)) fail("isIntersected(Sphere,Sphere)-touching", "distance %.9g radii %.9g %.9g", sum, ra, rb2);
				if (rb2 >= unit * 0.5) { Sphere p3((float)(rb2 - unit * 0.25), f1); yes(false); if (M::isIntersected(p0, p3) || M::isIntersected(p3, p0)) fail("isIntersected(Sphere,Sphere)-apart", "distance %.9g radii %.9g %.9g", sum, ra, rb2 - unit * 0.25); }
			}
			Box b = genBox(); if (rng.chance(2)) { D3 n = { (double)((int)rng.below(3) - 1), (double)((int)rng.below(3) - 1), (double)((int)rng.below(3) - 1) }; double l = len(n); if (l > 0) { D3 f = { n.x > 0 ? b.mx.x : n.x < 0 ? b.mn.x : rng.range(b.mn.x, b.mx.x), n.y > 0 ? b.mx.y : n.y < 0 ? b.mn.y : rng.range(b.mn.y, b.mx.y), n.z > 0 ? b.mx.z : n.z < 0 ? b.mn.z : rng.range(b.mn.z, b.mx.z) }; c = f + n * (r * band / l); fc = g3(c); c = d(fc); s = Sphere(r, fc); } }
			f32x4 bmn = g3(b.mn), bmx = g3(b.mx); b = { d(bmn), d(bmx) }; Aabb box(bmn, bmx); D3 cl; for (int i = 0; i < 3; i++) at(cl, i) = std::fmin(std::fmax(at(c, i), at(b.mn, i)), at(b.mx, i));
			q = dot(cl - c, cl - c); r2 = (double)r * r; VT_OP("isIntersected(Sphere, Aabb)");
			if (std::fabs(q - r2) > 6 * EPS * (q + r2) + 1e-30) { yes(q < r2); if (M::isIntersected(s, box) != (q < r2)) fail("isIntersected(Sphere,Aabb)", "sphere (%.9g %.9g %.9g) radius %.9g, box (%.9g %.9g %.9g)..(%.9g %.9g %.9g), distance %.9g", c.x, c.y, c.z, r, b.mn.x, b.mn.y, b.mn.z, b.mx.x, b.mx.y, b.mx.z, std::sqrt(q)); } else VT_COUNT("within the margin");
		}
		// ---- triangles
		{
			D3 v[3] = { geo(), geo(), geo() }; int plane = (int)rng.below(4); if (plane < 3) { double z = at(v[0], plane); for (D3& q : v) at(q, plane) = z; } // axis-aligned triangles keep points exactly coplanar
			if (rng.chance(5)) v[2] = v[0] + (v[1] - v[0]) * rng.range(-1, 2) + (plane < 3 ? cross(v[1] - v[0], { plane == 0 ? 1.0 : 0, plane == 1 ? 1.0 : 0, plane == 2 ? 1.0 : 0 }) : genDir(rng) * len(v[1] - v[0])) * std::pow(10, rng.range(-2, 0));
			f32x4 f[3]; for (int i = 0; i < 3; i++) { f[i] = g3(v[i]); v[i] = d(f[i]); }
			D3 n = cross(v[1] - v[0], v[2] - v[0]); double T = len(n), L = 0; for (int i = 0; i < 3; i++) L = std::fmax(L, len(v[(i + 1) % 3] - v[i])); if (!(T > 2e-3 * L * L && L > 1e-2 * W && L > 1e-3 * (len(v[0]) + len(v[1])))) { VT_COUNT("nearly degenerate triangle, skipped"); continue; }
			D3 un = n * (1 / T), p; int e = (int)rng.below(3); D3 ed = v[(e + 1) % 3] - v[e], out = unitOf(cross(ed, un));
			switch (rng.below(6))
			{
			case 0: case 1: { double a = rng.unit(), b = rng.unit(); if (a + b > 1) { a = 1 - a; b = 1 - b; } p = v[0] + (v[1] - v[0]) * a + (v[2] - v[0]) * b; break; }
			case 2: p = v[e] + ed * rng.range(-1, 2) + out * ((rng.chance(2) ? 1 : -1) * L * std::pow(10, rng.range(-5, -1))); break; // just beside an edge or its extension
			case 3: p = v[e] + ed * ((double)(int)rng.below(9) * 0.5 - 2); break; // on an edge or its extension, exactly for round coordinates
			case 4: p = v[e] + (v[e] - (v[(e + 1) % 3] + v[(e + 2) % 3]) * 0.5) * rng.range(0, 3); break; // behind a corner
			default: p = geo(); p = p - un * dot(p - v[0], un); break;
			}
			f32x4 fp = g3(p); p = d(fp); double off = std::fabs(dot(p - v[0], un)); { bool tiny = false; for (D3& q : v) { double l = len(p - q); tiny = tiny || (l > 0 && l < 1e-10 * L); } if (tiny) { VT_COUNT("too close to a corner for double precision, skipped"); continue; } } D3 pp = p - un * dot(p - v[0], un); bool in = true, sure = true, clearOut = false; double worst = 0, big = 0;
			for (int i = 0; i < 3; i++)
			{
				D3 a = v[i], b = v[(i + 1) % 3]; double l = len(b - a), area = dot(cross(b - a, pp - a), un), prod = len(a - p) * len(b - p), mg = 24 * EPS * prod / l + 4 * off + 4 * EPS * len(p), dist = area / l;
				big = std::fmax(big, prod); if (dist < -mg) { in = false; clearOut = true; } else if (dist < mg) sure = false; worst = std::fmin(worst, dist);
			}
			if (rng.chance(2)) { f32x4 t = f[0]; f[0] = f[1]; f[1] = t; D3 u = v[0]; v[0] = v[1]; v[1] = u; } // either winding
			Triangle tri(f[0], f[1], f[2]);
			// on the line through an edge, but clearly beyond its ends, with exactly zero area: still outside
			VT_OP("isInside(Triangle, point)"); bool g = M::isInside(tri, fp);
			if ((clearOut || sure) && T > 64 * EPS * big) { yes(in); if (g != in) fail(in ? "isInside(Triangle)-missed" : "isInside(Triangle)-wrong", "point (%.9g %.9g %.9g) of triangle (%.9g %.9g %.9g) (%.9g %.9g %.9g) (%.9g %.9g %.9g), outside by %.3g", p.x, p.y, p.z, v[0].x, v[0].y, v[0].z, v[1].x, v[1].y, v[1].z, v[2].x, v[2].y, v[2].z, -worst); } else VT_COUNT("within the margin");
			D3 v0 = v[1] - v[0], v1 = v[2] - v[0], v2 = p - v[0]; double d00 = dot(v0, v0), d01 = dot(v0, v1), d11 = dot(v1, v1), T2 = T * T;
			double bv = (d11 * dot(v2, v0) - d01 * dot(v2, v1)) / T2, bw = (d00 * dot(v2, v1) - d01 * dot(v2, v0)) / T2, cn = 10 * EPS * (d00 * d11 + d01 * d01) / T2, l2 = len(v2), l0 = std::sqrt(d00), l1 = std::sqrt(d11);
			if (cn < 0.05)
			{
				double ev = 10 * EPS * l2 * (d11 * l0 + std::fabs(d01) * l1) / T2 + cn * std::fabs(bv), ew = 10 * EPS * l2 * (d00 * l1 + std::fabs(d01) * l0) / T2 + cn * std::fabs(bw);
				VT_OP("calcBarycentric"); D3 b = d(opaque(M::calcBarycentric(tri, fp))); double m = 1 + std::fabs(b.y) + std::fabs(b.z);
				if (!(std::fabs(b.x + b.y + b.z - 1) <= 3 * EPS * m)) fail("calcBarycentric-sum", "coordinates %.9g %.9g %.9g sum to %.9g", b.x, b.y, b.z, b.x + b.y + b.z);
				D3 q = v[0] * b.x + v[1] * b.y + v[2] * b.z, w = v[0] + v0 * bv + v1 * bw; double tol = ev * l0 + ew * l1 + 4 * EPS * m * (len(v[0]) + L);
				if (!(maxAbs(q - w) <= tol)) fail("calcBarycentric", "coordinates %.9g %.9g %.9g give (%.9g %.9g %.9g) want (%.9g %.9g %.9g) tolerance %.3g", b.x, b.y, b.z, q.x, q.y, q.z, w.x, w.y, w.z, tol);
			}
		}
	}
	return end();
}
