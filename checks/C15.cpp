// vt: quick=600000
// vt: thorough=20000000
// vt: rule=each case draws an eye, a target (near, far, along an axis) and an up vector (default, axis, random, as close as half a degree to the direction, of any length) with garbage in unused lanes, and a rigid matrix; the look constructions and the rigid inverse are compared element by element with double precision within conditioning, plus orthonormality, handedness and the images of eye and target; distinct by operand bits
#include "vt.hpp"
#include "math/vector.hpp"
#include "math/simd/vector/float.hpp"
#include "math/matrix/transform.hpp"
using namespace vt;
namespace M = math;
using math::quat; using math::f32x4; using math::f32x4x4;

struct Q { double x, y, z, w; };
static D3 d(f32x4 v) { return { v.getX(), v.getY(), v.getZ() }; }
static D3 rot(Q q, D3 v) { D3 u = { q.x, q.y, q.z }, c = cross(u, v); return v + c * (2 * q.w) + cross(u, c) * 2; }
static f32x4 g3(D3 v) { f32x4 f((float)v.x, (float)v.y, (float)v.z, genGarbage(rng)); touch(f); return f; }
static bool eq(const char* key, const char* what, D3 g, D3 w, double tol)
{
	if (maxAbs(g - w) <= tol) return true;
	fail(key, "%s is (%.9g %.9g %.9g) want (%.9g %.9g %.9g) tolerance %.3g", what, g.x, g.y, g.z, w.x, w.y, w.z, tol); return false;
}
static D3 row(const f32x4x4& m, int r) { return r == 0 ? D3{ m.c0.getX(), m.c1.getX(), m.c2.getX() } : r == 1 ? D3{ m.c0.getY(), m.c1.getY(), m.c2.getY() } : D3{ m.c0.getZ(), m.c1.getZ(), m.c2.getZ() }; }
static bool lastRow(const f32x4x4& m) { return m.c0.getW() == 0 && m.c1.getW() == 0 && m.c2.getW() == 0 && m.c3.getW() == 1; }
static void basis(D3 f, D3 up, D3& s, D3& u) { s = unitOf(cross(up, f)); u = cross(f, s); }

int main(int argc, char** argv)
{
	begin(argc, argv);
	f32x4x4 (*rotate3)(f32x4, f32x4, f32x4) = M::rotate; f32x4x4 (*rotate2)(f32x4, f32x4) = M::rotate;
	for (vt::u64 k = 0; k < cases; k++)
	{
		curCase = k;
		D3 from = { genGeo(rng), genGeo(rng), genGeo(rng) }, to; double dist = std::pow(10, rng.range(-2, 3)); to = from + genDir(rng) * dist;
		if (rng.chance(4)) to = genVec(rng, -3, 5); if (rng.chance(4)) from = genVec(rng, -3, 5); if (rng.chance(16)) to = from * -1; if (rng.chance(16)) from = D3{ 0, 0, 0 };
		double sc = genPow2(rng, 20); from = from * sc; to = to * sc;
		f32x4 ff = g3(from), ft = g3(to); from = d(ff); to = d(ft); D3 dir = to - from; double L = len(dir); if (L < 1e-3 * sc || L < 1e-8) { trivial++; continue; }
		D3 f = unitOf(dir); bool def = rng.chance(3); D3 up = { 0, 1, 0 };
		if (!def) up = rng.chance(4) ? unitOf(f + genDir(rng) * std::pow(10, rng.range(-2, 0))) : rng.chance(4) ? genVec(rng, -2, 4) : genDir(rng); if (!(len(up) > 1e-2)) up = { 0, 0, 1 };
		double ul = def || rng.chance(2) ? 1 : std::pow(10, rng.range(-2, 2));
		f32x4 fu = def ? f32x4(0, 1, 0, genGarbage(rng)) : g3(up * ul); touch(fu); up = unitOf(d(fu)); ul = len(d(fu));
		double sinA = len(cross(up, f)); if (sinA < 0.008) { VT_COUNT("up too close to the direction, skipped"); continue; }
		double ef = EPS * (6 + 4 * (len(from) + len(to)) / L), es = (2 * ef + 8 * EPS) / sinA, eu = ef + es + 4 * EPS;
		float in[9] = { (float)from.x, (float)from.y, (float)from.z, (float)to.x, (float)to.y, (float)to.z, fu.getX(), fu.getY(), fu.getZ() }; distinctBytes(in, 36);
		if (k < 3) sample("eye (%g %g %g) target (%g %g %g) up (%g %g %g)", in[0], in[1], in[2], in[3], in[4], in[5], in[6], in[7], in[8]);
		D3 s, u; basis(f, up, s, u);
		// ---- view matrix
		{
			VT_OP("lookAt"); f32x4x4 m = opaque(def && rng.chance(2) ? M::lookAt(ff, ft) : M::lookAt(ff, ft, fu));
			double lf = len(from);
			bool ok = eq("lookAt", "side row", row(m, 0), s, es) && eq("lookAt", "up row", row(m, 1), u, eu) && eq("lookAt", "forward row", row(m, 2), f, ef);
			if (!lastRow(m)) fail("lookAt", "last row is not 0 0 0 1");
			D3 t = d(m.c3); ok = ok && eq("lookAt", "translation", t, { -dot(s, from), -dot(u, from), -dot(f, from) }, (eu + 6 * EPS) * (lf + 1e-30) * 1.5);
			D3 eye = { dot(row(m, 0), from) + t.x, dot(row(m, 1), from) + t.y, dot(row(m, 2), from) + t.z }, tgt = { dot(row(m, 0), to) + t.x, dot(row(m, 1), to) + t.y, dot(row(m, 2), to) + t.z };
			eq("lookAt-eye", "eye", eye, { 0, 0, 0 }, 8 * EPS * (lf + 1e-30)); eq("lookAt-target", "target", tgt, { 0, 0, L }, 1.8 * eu * L + 16 * EPS * (lf + len(to)));
			if (!(dot(row(m, 1), up) > 0)) fail("lookAt-up", "the up vector is in the lower half plane");
			double det = dot(cross(row(m, 0), row(m, 1)), row(m, 2)); if (!(std::fabs(det - 1) <= 4 * eu + 1e-6)) fail("lookAt-rigid", "determinant %.9g", det);
		}
		// ---- look rotations
		{
			VT_OP("rotate(from, to, up)"); f32x4x4 m = opaque(rotate3(ff, ft, fu));
			eq("rotate-look", "side column", d(m.c0), s, es) && eq("rotate-look", "up column", d(m.c1), u, eu) && eq("rotate-look", "forward column", d(m.c2), f, ef) && eq("rotate-look", "translation", d(m.c3), { 0, 0, 0 }, 0);
			if (!lastRow(m)) fail("rotate-look", "last row is not 0 0 0 1");
		}
		{
			f32x4 fd = g3(f); D3 n = d(fd); D3 s2, u2; basis(n, up, s2, u2); double e2 = 20 * EPS / sinA;
			VT_OP("rotate(front, up)"); f32x4x4 m = opaque(def && rng.chance(2) ? M::rotate(fd) : rotate2(fd, fu));
			eq("rotate-front", "side column", d(m.c0), s2, e2) && eq("rotate-front", "up column", d(m.c1), u2, e2) && eq("rotate-front", "forward column", d(m.c2), n, 0) && eq("rotate-front", "translation", d(m.c3), { 0, 0, 0 }, 0);
			if (!lastRow(m)) fail("rotate-front", "last row is not 0 0 0 1");
			if (ul > 0.5 && ul < 2)
			{
				VT_OP("lookAtQuat"); quat q = opaque(def && rng.chance(2) ? M::lookAtQuat(fd) : M::lookAtQuat(fd, fu)); Q dq = { q.getX(), q.getY(), q.getZ(), q.getW() };
				double n1 = dq.x*dq.x + dq.y*dq.y + dq.z*dq.z + dq.w*dq.w; if (!(std::fabs(n1 - 1) <= 4e-6 + 4 * e2)) fail("lookAtQuat-unit", "squared length %.9g", n1);
				eq("lookAtQuat", "forward", rot(dq, { 0, 0, 1 }), n, 8e-6 + 4 * e2) && eq("lookAtQuat", "side", rot(dq, { 1, 0, 0 }), s2, 8e-6 + 4 * e2) && eq("lookAtQuat", "up", rot(dq, { 0, 1, 0 }), u2, 8e-6 + 4 * e2);
			}
		}
		// ---- inverse of a rigid matrix
		{
			D3 a = genDir(rng), b = unitOf(cross(a, rng.chance(2) ? D3{ 0.3, 0.5, -0.8 } : genDir(rng) + D3{ 1e-3, 2e-3, 3e-3 })), c = cross(a, b), t = genVec(rng, -6, 7); if (std::isnan(b.x)) continue;
			D3 o[3] = { a, b, c }; int r = (int)rng.below(3);
			f32x4x4 m(f32x4((float)o[r].x, (float)o[r].y, (float)o[r].z, 0), f32x4((float)o[(r+1)%3].x, (float)o[(r+1)%3].y, (float)o[(r+1)%3].z, 0), f32x4((float)o[(r+2)%3].x, (float)o[(r+2)%3].y, (float)o[(r+2)%3].z, 0), f32x4((float)t.x, (float)t.y, (float)t.z, 1)); touch(m);
			D3 c0 = d(m.c0), c1 = d(m.c1), c2 = d(m.c2); t = d(m.c3);
			VT_OP("inverseTransRot"); f32x4x4 i = opaque(M::inverseTransRot(m));
			eq("inverseTransRot", "first row", row(i, 0), c0, 2 * EPS) && eq("inverseTransRot", "second row", row(i, 1), c1, 2 * EPS) && eq("inverseTransRot", "third row", row(i, 2), c2, 2 * EPS) && eq("inverseTransRot", "translation", d(i.c3), { -dot(c0, t), -dot(c1, t), -dot(c2, t) }, 6 * EPS * len(t) + 1e-40);
			if (!lastRow(i)) fail("inverseTransRot", "last row is %.9g %.9g %.9g %.9g", i.c0.getW(), i.c1.getW(), i.c2.getW(), i.c3.getW());
		}
	}
	return end();
}
