// vt: quick=500000
// vt: thorough=15000000
// vt: rule=each case draws Euler angles (any, quarter and half turns, and yaw at or within 1e-7 to 1e-2 of the gimbal singularity) or a random unit quaternion of either sign; builds, extracts and rebuilds in double precision, and extracts a quaternion from a rotation matrix with arbitrary contents outside its 3x3 part, whichever component dominates; distinct by input bits
#include "vt.hpp"
#include "math/vector.hpp"
#include "math/simd/vector/float.hpp"
#include "math/matrix/transform.hpp"
using namespace vt;
using namespace math;

struct Q { double x, y, z, w; };
static Q mul(Q a, Q b) { return { a.w*b.x + a.x*b.w + a.y*b.z - a.z*b.y, a.w*b.y + a.y*b.w + a.z*b.x - a.x*b.z, a.w*b.z + a.z*b.w + a.x*b.y - a.y*b.x, a.w*b.w - a.x*b.x - a.y*b.y - a.z*b.z }; }
static D3 rot(Q q, D3 v) { D3 u = { q.x, q.y, q.z }, c = cross(u, v); return v + c * (2 * q.w) + cross(u, c) * 2; }
static Q d(quat q) { return { q.getX(), q.getY(), q.getZ(), q.getW() }; }
static double norm(Q a) { return std::sqrt(a.x*a.x + a.y*a.y + a.z*a.z + a.w*a.w); }
static Q unit(Q a) { double n = norm(a); return { a.x/n, a.y/n, a.z/n, a.w/n }; }
static double diff(Q a, Q b) { return std::fmax(std::fmax(std::fabs(a.x-b.x), std::fabs(a.y-b.y)), std::fmax(std::fabs(a.z-b.z), std::fabs(a.w-b.w))); }
static Q neg(Q a) { return { -a.x, -a.y, -a.z, -a.w }; }
static double sameRotation(Q a, Q b) { return std::fmin(diff(a, b), diff(a, neg(b))); }
static Q euler(double p, double y, double r) { Q x = { std::sin(p/2), 0, 0, std::cos(p/2) }, yy = { 0, std::sin(y/2), 0, std::cos(y/2) }, z = { 0, 0, std::sin(r/2), std::cos(r/2) }; return mul(z, mul(yy, x)); }
static double worst[3]; static void note(int i, double e) { if (e > worst[i]) worst[i] = e; }

int main(int argc, char** argv)
{
	begin(argc, argv);
	const double PI = 3.14159265358979323846;
	for (vt::u64 k = 0; k < cases; k++)
	{
		curCase = k; quat q; Q ref;
		if (rng.below(4))
		{
			double a[3];
			for (int i = 0; i < 3; i++) switch (rng.below(6)) { case 0: a[i] = (double)((int)rng.below(17) - 8) * PI / 4; break; case 4: a[i] = (double)((int)rng.below(9) - 4); if (a[i] == 0 && rng.chance(2)) a[i] = -0.0; break; case 1: a[i] = rng.range(-1e-3, 1e-3); break; case 2: a[i] = rng.range(-10, 10); break; default: a[i] = rng.range(-PI, PI); }
			if (rng.chance(3)) { a[1] = genSign(rng) * (PI / 2 + (rng.chance(3) ? 0 : genSign(rng) * std::pow(10, rng.range(-7, -1)))); if (rng.chance(3)) a[rng.chance(2) ? 0 : 2] = 0; }
			f32x4 ang = opaque(f32x4((float)a[0], (float)a[1], (float)a[2], genGarbage(rng)));
			VT_OP("fromEulerAngles"); q = opaque(fromEulerAngles(ang)); ref = euler((float)a[0], (float)a[1], (float)a[2]);
			if (!(diff(d(q), ref) <= 3e-6)) fail("fromEulerAngles", "angles (%.9g %.9g %.9g): got (%.9g %.9g %.9g %.9g) want (%.9g %.9g %.9g %.9g)", a[0], a[1], a[2], q.getX(), q.getY(), q.getZ(), q.getW(), ref.x, ref.y, ref.z, ref.w);
			D3 v = { 0.3, -0.7, 0.6 }; (void)v;
		}
		else
		{
			double t[4]; int kind = (int)rng.below(6); for (double& x : t) x = kind == 4 ? genSign(rng) * std::pow(10, rng.range(-9, 0)) : kind == 0 ? (double)((int)rng.below(3) - 1) : kind == 1 ? rng.range(-1, 1) * (rng.chance(2) ? 1e-4 : 1) : rng.range(-1, 1);
			if (t[0]*t[0] + t[1]*t[1] + t[2]*t[2] + t[3]*t[3] < 1e-6) t[3] = 1;
			if (kind == 5) { t[1] = t[0]; if (rng.chance(2)) t[2] = t[0]; if (rng.chance(2)) t[3] = -t[2]; }
			if (rng.chance(16)) for (double& x : t) if (x == 0) x = -0.0;
			if (t[0]*t[0] + t[1]*t[1] + t[2]*t[2] + t[3]*t[3] < 1e-6) t[3] = 1;
			Q u = unit({ t[0], t[1], t[2], t[3] }); q = opaque(quat((float)u.x, (float)u.y, (float)u.z, (float)u.w));
		}
		if (rng.chance(2)) q = quat(-(f32x4)q); touch(q);
		Q dq = unit(d(q)); float in[4] = { q.getX(), q.getY(), q.getZ(), q.getW() }; distinctBytes(in, 16);
		if (k < 3) sample("q=(%g %g %g %g)", in[0], in[1], in[2], in[3]);
		// ---- extract and rebuild
		VT_OP("extract Euler angles");
		float p = opaque(q.extractPitch()), y = opaque(q.extractYaw()), r = opaque(q.extractRoll());
		double sy = 2 * (dq.w * dq.y - dq.x * dq.z), delta = std::sqrt(std::fmax(0, 1 - sy * sy)); // cosine of the yaw: 0 at the singularity
		double e = sameRotation(dq, euler(p, y, r)), tol = 2e-6 + 1.2e-6 / std::fmax(delta, 4e-4);
		note(delta > 0.1 ? 0 : 1, e); if (delta < 1e-3) VT_COUNT("cases at the gimbal singularity");
		if (!(e <= tol)) fail(delta < 0.01 ? "euler-rebuild-gimbal" : "euler-rebuild", "q=(%.9g %.9g %.9g %.9g) gives pitch %.9g yaw %.9g roll %.9g, rebuilt off by %.3g (tolerance %.3g)", in[0], in[1], in[2], in[3], p, y, r, e, tol);
		if (!(std::fabs(y) <= 1.5708f)) fail("yaw-range", "yaw %.9g", y);
		f32x4 all = opaque(q.extractEulerAngles());
		if (!(std::fabs(all.getX() - p) <= 1e-3 || delta < 1e-2 || std::fabs(std::fabs(all.getX() - p) - 2 * PI) < 1e-3) || !(std::fabs(all.getY() - y) <= 1e-3) || !(std::fabs(all.getZ() - r) <= 1e-3 || delta < 1e-2 || std::fabs(std::fabs(all.getZ() - r) - 2 * PI) < 1e-3))
			fail("euler-combined", "combined (%.9g %.9g %.9g) single (%.9g %.9g %.9g)", all.getX(), all.getY(), all.getZ(), p, y, r);
		e = sameRotation(dq, euler(all.getX(), all.getY(), all.getZ()));
		if (!(e <= tol)) fail("euler-combined-rebuild", "q=(%.9g %.9g %.9g %.9g) rebuilt off by %.3g", in[0], in[1], in[2], in[3], e);
		// ---- quaternion from a rotation matrix
		{
			float cm[3][3]; D3 ax[3] = { { 1, 0, 0 }, { 0, 1, 0 }, { 0, 0, 1 } };
			for (int c = 0; c < 3; c++) { D3 v = rot(dq, ax[c]); cm[c][0] = (float)v.x; cm[c][1] = (float)v.y; cm[c][2] = (float)v.z; }
			f32x4x4 m(f32x4(cm[0][0], cm[0][1], cm[0][2], genGarbage(rng)), f32x4(cm[1][0], cm[1][1], cm[1][2], genGarbage(rng)), f32x4(cm[2][0], cm[2][1], cm[2][2], genGarbage(rng)), f32x4(genGarbage(rng), genGarbage(rng), genGarbage(rng), genGarbage(rng)));
			touch(m); VT_OP("extractQuat"); Q g = d(opaque(extractQuat(m))); e = sameRotation(g, dq); note(2, e);
			int dom = 0; double big = std::fabs(dq.x); if (std::fabs(dq.y) > big) { dom = 1; big = std::fabs(dq.y); } if (std::fabs(dq.z) > big) { dom = 2; big = std::fabs(dq.z); } if (std::fabs(dq.w) > big) dom = 3;
			static const char* names[] = { "extractQuat with x dominant", "extractQuat with y dominant", "extractQuat with z dominant", "extractQuat with w dominant" }; count(names[dom]);
			if (!(e <= 2e-6)) fail("extractQuat", "want (%.9g %.9g %.9g %.9g) got (%.9g %.9g %.9g %.9g)", dq.x, dq.y, dq.z, dq.w, g.x, g.y, g.z, g.w);
		}
	}
	const char* n[] = { "worst rebuild error away from the singularity, 1e-9", "worst rebuild error near the singularity, 1e-9", "worst extractQuat error, 1e-9" };
	for (int i = 0; i < 3; i++) count(n[i], (vt::u64)(worst[i] * 1e9));
	return end();
}
