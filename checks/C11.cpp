// vt: quick=400000
// vt: thorough=12000000
// vt: rule=each case draws two rotations (axis and angle over several turns, random, nearly identical, half turns) and a non-unit quaternion, and vectors with arbitrary fourth lane; products, rotations, their matrices, conjugates and inverses are compared with double-precision Hamilton and Rodrigues formulas; distinct by operand bits
#include "vt.hpp"
#include "math/vector.hpp"
#include "math/simd/vector/float.hpp"
#include "math/matrix/transform.hpp"
using namespace vt;
using namespace math;

struct Q { double x, y, z, w; };
static Q mul(Q a, Q b) { return { a.w*b.x + a.x*b.w + a.y*b.z - a.z*b.y, a.w*b.y + a.y*b.w + a.z*b.x - a.x*b.z, a.w*b.z + a.z*b.w + a.x*b.y - a.y*b.x, a.w*b.w - a.x*b.x - a.y*b.y - a.z*b.z }; }
static D3 rot(Q q, D3 v) { D3 u = { q.x, q.y, q.z }, c = cross(u, v); return v + c * (2 * q.w) + cross(u, c) * 2; }
static Q d(quat q) { return { q.getX(), q.getY(), q.getZ(), q.getW() }; }
static D3 d(f32x4 v) { return { v.getX(), v.getY(), v.getZ() }; }
static double err(Q a, Q b) { return std::fmax(std::fmax(std::fabs(a.x-b.x), std::fabs(a.y-b.y)), std::fmax(std::fabs(a.z-b.z), std::fabs(a.w-b.w))); }
static double norm(Q a) { return std::sqrt(a.x*a.x + a.y*a.y + a.z*a.z + a.w*a.w); }
static double worst[4]; static void note(int i, double e) { if (e > worst[i]) worst[i] = e; }
static void eq(const char* key, Q g, Q w, double tol) { double e = err(g, w); if (!(e <= tol)) fail(key, "got (%.9g %.9g %.9g %.9g) want (%.9g %.9g %.9g %.9g)", g.x, g.y, g.z, g.w, w.x, w.y, w.z, w.w); }
static void eq(const char* key, D3 g, D3 w, double tol) { double e = maxAbs(g - w); if (!(e <= tol)) fail(key, "got (%.9g %.9g %.9g) want (%.9g %.9g %.9g) tolerance %.3g", g.x, g.y, g.z, w.x, w.y, w.z, tol); }

static quat unitQ(Rng& r, D3* axis, double* angle)
{
	D3 a = genDir(r); double t;
	switch (r.below(7)) { case 3: t = (double)((int)r.below(9) - 4); if (t == 0 && r.chance(2)) t = -0.0; break; case 0: t = (double)((int)r.below(17) - 8) * 0.78539816339744831; break; case 1: t = r.range(-1e-3, 1e-3); break; case 2: t = r.range(-30, 30); break; default: t = r.range(-3.2, 3.2); }
	float ft = (float)t; *angle = ft;
	f32x4 fa = opaque(f32x4((float)a.x, (float)a.y, (float)a.z, genGarbage(r))); *axis = d(fa);
	VT_OP("quat(angle, axis)");
	quat q = opaque(quat(opaque(ft), fa));
	double s = std::sin(*angle * 0.5), c = std::cos(*angle * 0.5); Q w = { axis->x * s, axis->y * s, axis->z * s, c };
	eq("axis-angle", d(q), w, 2e-6);
	return q;
}
static f32x4 vec(Rng& r, D3* v) { D3 c = genVec(r, -8, 8); f32x4 f((float)c.x, (float)c.y, (float)c.z, genGarbage(r)); touch(f); *v = d(f); return f; }

int main(int argc, char** argv)
{
	begin(argc, argv);
	for (vt::u64 k = 0; k < cases; k++)
	{
		curCase = k; D3 ax, ax2, v; double an, an2;
		quat a = unitQ(rng, &ax, &an), b = rng.chance(8) ? quat(opaque(quat(a))) : unitQ(rng, &ax2, &an2); f32x4 fv = vec(rng, &v); double m = maxAbs(v) + 1e-30;
		float in[8] = { a.getX(), a.getY(), a.getZ(), a.getW(), b.getX(), b.getY(), b.getZ(), b.getW() }; distinctBytes(in, 32);
		if (k < 3) sample("a=(%g %g %g %g) b=(%g %g %g %g) v=(%g %g %g)", in[0], in[1], in[2], in[3], in[4], in[5], in[6], in[7], v.x, v.y, v.z);
		// product: Hamilton, composition, compound form
		VT_OP("quat * quat"); quat ab = opaque(a * b); eq("product", d(ab), mul(d(a), d(b)), 6 * EPS);
		{ quat t = a; auto&& rt = (t *= b); if ((const void*)&rt != (const void*)&t) fail("*=", "does not return itself"); touch(t); eq("*=", d(t), mul(d(a), d(b)), 6 * EPS); t = a; touch(t); t *= t; touch(t); eq("*= itself", d(t), mul(d(a), d(a)), 6 * EPS); }
		// rotation
		VT_OP("quat * vector"); D3 av = d(opaque(a * fv)); eq("rotate", av, rot(d(a), v), 16 * EPS * m);
		if (!(std::fabs(len(av) - len(v)) <= 8e-6 * m)) fail("rotate-length", "length %.9g became %.9g", len(v), len(av));
		double c = std::cos(an), s = std::sin(an); D3 rod = v * c + cross(ax, v) * s + ax * (dot(ax, v) * (1 - c));
		eq("rodrigues", av, rod, 1.2e-5 * m); note(0, maxAbs(av - rod) / m);
		eq("composition", d(opaque(ab * fv)), rot(d(a), rot(d(b), v)), 1.5e-5 * m);
		VT_OP("vector * quat"); eq("vector * quat", d(opaque(fv * a)), rot({ -(double)a.getX(), -(double)a.getY(), -(double)a.getZ(), a.getW() }, v), 1.5e-5 * m);
		eq("there and back", d(opaque(opaque(a * fv) * a)), v, 1.5e-5 * m);
		// matrix of a rotation
		VT_OP("rotate(quat)"); f32x4x4 R = opaque(math::rotate(a)); D3 e[3] = { { 1, 0, 0 }, { 0, 1, 0 }, { 0, 0, 1 } };
		const f32x4* col[3] = { &R.c0, &R.c1, &R.c2 };
		for (int i = 0; i < 3; i++) { eq("rotation matrix", d(*col[i]), rot(d(a), e[i]), 1e-5); note(1, maxAbs(d(*col[i]) - rot(d(a), e[i]))); if (col[i]->getW() != 0) fail("rotation matrix", "last row is not 0 0 0 1"); }
		if (R.c3.getX() != 0 || R.c3.getY() != 0 || R.c3.getZ() != 0 || R.c3.getW() != 1) fail("rotation matrix", "last column is not 0 0 0 1");
		eq("matrix against quaternion", d(opaque(multiply3x3(R, fv))), av, 2e-5 * m);
		// conjugate and inverse
		quat n; { float sc = rng.chance(3) ? 1.0f : (float)std::pow(10, rng.range(-6, 6)); float t[4]; bool wide = rng.chance(4); for (float& f : t) { f = rng.chance(6) ? genSign(rng) * 0.0f : rng.chance(8) ? genSign(rng) : wide ? genMag(rng, -9, 0) * sc : rng.f(-1, 1) * sc; } if (rng.chance(16)) for (float& f : t) f = rng.chance(2) ? t[0] : -t[0]; if (t[0] == 0 && t[1] == 0 && t[2] == 0 && t[3] == 0) t[3] = sc; n = opaque(quat(t[0], t[1], t[2], t[3])); }
		Q dn = d(n); double nn = norm(dn);
		VT_OP("conjugate"); eq("conjugate", d(opaque(conjugate(n))), { -dn.x, -dn.y, -dn.z, dn.w }, 0);
		VT_OP("inverse(quat)"); Q inv = d(opaque(inverse(n))), wi = { -dn.x / (nn*nn), -dn.y / (nn*nn), -dn.z / (nn*nn), dn.w / (nn*nn) };
		eq("inverse", inv, wi, 8 * EPS / nn); eq("inverse product", d(opaque(inverse(n) * n)), { 0, 0, 0, 1 }, 2e-6); eq("inverse product", d(opaque(n * inverse(n))), { 0, 0, 0, 1 }, 2e-6);
		if (nn > 1e-2 && nn < 1e2) { VT_OP("vector * quat of any length"); D3 g = d(opaque(fv * n)), w = d(opaque(opaque(inverse(n)) * fv)); double t = 32 * EPS * m * (1 + 1 / (nn * nn)); eq("vector * quat of any length", g, w, t); eq("vector * quat of any length", g, rot(wi, v), t); }
		VT_OP("normalize(quat)"); eq("normalize", d(opaque(normalize(n))), { dn.x / nn, dn.y / nn, dn.z / nn, dn.w / nn }, 5 * EPS);
		// identity
		VT_OP("identity"); eq("identity", d(quat::identity), { 0, 0, 0, 1 }, 0); eq("identity", d(opaque(quat())), { 0, 0, 0, 1 }, 0);
		eq("identity", d(opaque(quat::identity * a)), d(a), 0); eq("identity", d(opaque(a * quat::identity)), d(a), 0); eq("identity", d(opaque(quat::identity * fv)), v, 0);
		quat cp; cp = a; eq("copy", d(opaque(cp)), d(a), 0); eq("parts", d(opaque(quat(a.getX(), a.getY(), a.getZ(), a.getW()))), d(a), 0); eq("parts", d(opaque(quat((f32x4)a))), d(a), 0);
	}
	count("worst Rodrigues error, 1e-9", (vt::u64)(worst[0] * 1e9)); count("worst rotation matrix error, 1e-9", (vt::u64)(worst[1] * 1e9));
	return end();
}
