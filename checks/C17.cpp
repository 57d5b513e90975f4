// vt: quick=250000
// vt: thorough=12000000
// vt: rule=each case builds a camera matrix (perspective, reversed, infinite, orthographic or any 4x4, times a rigid view), extracts its planes and tests points at random and a few error margins from every plane against the clip inequality in double precision, before and after normalisation; then boxes placed inside, outside and a few margins from a plane, plain and under an affine model, are culled against frustum planes and against arrays of 0 to 255 planes where at most one rejects; guard planes around every array; distinct by matrix and box bits
#include "vt.hpp"
#include "math/vector.hpp"
#include "math/simd/vector/float.hpp"
#include "math/plane.hpp"
#include "math/aabb.hpp"
#include <memory>
using namespace vt;
namespace M = math;
using math::f32x4; using math::f32x4x4; using math::Plane; using math::Aabb;

struct M4 { double e[4][4]; }; // e[row][column]
static M4 mulM(const M4& a, const M4& b) { M4 r; for (int i = 0; i < 4; i++) for (int j = 0; j < 4; j++) { r.e[i][j] = 0; for (int k = 0; k < 4; k++) r.e[i][j] += a.e[i][k] * b.e[k][j]; } return r; }
static f32x4x4 toF(M4& m) // rounds m to what the library is given
{
	for (auto& r : m.e) for (double& v : r) v = (double)(float)v;
	auto c = [&](int j) { return f32x4((float)m.e[0][j], (float)m.e[1][j], (float)m.e[2][j], (float)m.e[3][j]); };
	f32x4x4 f(c(0), c(1), c(2), c(3)); touch(f); return f;
}
static D3 d(f32x4 v) { return { v.getX(), v.getY(), v.getZ() }; }
static f32x4 g3(D3 v) { f32x4 f((float)v.x, (float)v.y, (float)v.z, genGarbage(rng)); touch(f); return f; }
static D3 absD(D3 a) { return { std::fabs(a.x), std::fabs(a.y), std::fabs(a.z) }; }
static double W = 1; // size of the whole scene, a power of two
static D3 geo() { return genVec(rng, -4, 4) * W; }
static M4 rigid()
{
	D3 a = genDir(rng), b = unitOf(cross(a, genDir(rng) + D3{ 1e-3, 2e-3, -3e-3 })); if (std::isnan(b.x)) b = std::fabs(a.x) < 0.5 ? unitOf(cross(a, { 1, 0, 0 })) : unitOf(cross(a, { 0, 1, 0 }));
	D3 c = cross(a, b), t = geo(); return { { { a.x, a.y, a.z, t.x }, { b.x, b.y, b.z, t.y }, { c.x, c.y, c.z, t.z }, { 0, 0, 0, 1 } } };
}
static M4 camera(int kind)
{
	double t = std::tan(rng.range(0.1, 1.4)), as = rng.range(0.5, 2), n = std::pow(10, rng.range(-2, 0)) * W, f = n * std::pow(10, rng.range(0.5, 4)), mz = 0, md = 0;
	M4 p;
	switch (kind)
	{
	case 0: mz = 0; md = n; break;
	case 1: mz = n / (n - f); md = -n * f / (n - f); break;
	case 2: mz = f / (f - n); md = -n * f / (f - n); break;
	case 3: { double w = rng.range(0.1, 50) * W, h = rng.range(0.1, 50) * W, l = rng.range(0.1, 100) * W; p = { { { 2 / w, 0, 0, rng.range(-1, 1) }, { 0, -2 / h, 0, rng.range(-1, 1) }, { 0, 0, 1 / l, rng.range(-1, 1) }, { 0, 0, 0, 1 } } }; return mulM(p, rigid()); }
	default: for (auto& r : p.e) { for (double& v : r) v = genGeo(rng); r[3] *= W; } return p;
	}
	p = { { { 1 / (as * t), 0, 0, 0 }, { 0, -1 / t, 0, 0 }, { 0, 0, mz, md }, { 0, 0, 1, 0 } } };
	return rng.chance(4) ? p : mulM(p, rigid());
}
// row combinations of the six clip inequalities: w+x, w-x, w-y, w+y, z, w-z
static const int clipRow[6] = { 0, 0, 1, 1, 2, 2 }; static const double clipSgn[6] = { 1, -1, -1, 1, 1, -1 }; static const double clipW[6] = { 1, 1, 1, 1, 0, 1 };

struct Box { D3 mn, mx; f32x4 fmn, fmx; };
static Box box(D3 mn, D3 mx)
{
	Box b; b.fmn = g3(mn); b.fmx = g3(mx); b.mn = d(b.fmn); b.mx = d(b.fmx);
	return b;
}
// decides with margins: 1 culled, 0 not culled, -1 too close
static int decide(const Plane* p, int n, const Box& b, const M4* model, D3* best = nullptr)
{
	int res = 0;
	for (int i = 0; i < n; i++)
	{
		D3 pn = d(p[i].getNormal()); double pd = p[i].getDistance(), mx = -INFINITY, mg = 0; bool nan = false;
		for (int c = 0; c < 8; c++)
		{
			D3 v = { c & 1 ? b.mx.x : b.mn.x, c & 2 ? b.mx.y : b.mn.y, c & 4 ? b.mx.z : b.mn.z }, e = absD(v) * 0;
			if (model)
			{
				double in[4] = { v.x, v.y, v.z, 1 }, o[3], er[3];
				for (int r = 0; r < 3; r++) { o[r] = er[r] = 0; for (int k = 0; k < 4; k++) { o[r] += model->e[r][k] * in[k]; er[r] += std::fabs(model->e[r][k] * in[k]); } }
				v = { o[0], o[1], o[2] }; e = { er[0], er[1], er[2] };
			}
			double dist = dot(pn, v) + pd; if (std::isnan(dist)) nan = true;
			mx = std::fmax(mx, dist); mg = std::fmax(mg, 4 * EPS * (dot(absD(pn), absD(v) + e) + std::fabs(pd)) + 1e-37);
		}
		if (nan) continue; // a plane without a normal rejects nothing
		if (mx < -mg) return 1;
		if (mx < mg) res = -1;
	}
	(void)best;
	return res;
}
static void judge(const char* key, const Plane* p, int n, const Box& b, const f32x4x4* fm, const M4* model)
{
	int want = decide(p, n, b, model); Aabb a(b.fmn, b.fmx);
	bool got = fm ? M::isBehindFrustum(p, (M::uint8)n, a, *fm) : M::isBehindFrustum(p, (M::uint8)n, a);
	if (want < 0) { VT_COUNT("undecided within the margin"); return; }
	if (want) VT_COUNT("culled boxes"); else VT_COUNT("visible boxes");
	if ((int)got != want) fail(key, "box (%.9g %.9g %.9g)..(%.9g %.9g %.9g) %s against %d planes%s", b.mn.x, b.mn.y, b.mn.z, b.mx.x, b.mx.y, b.mx.z, got ? "culled although no plane has it outside" : "kept although it is outside a plane", n, fm ? " under a model" : "");
}
static D3 box8(const D3& mn, const D3& mx, D3 n) { return { n.x > 0 ? mx.x : mn.x, n.y > 0 ? mx.y : mn.y, n.z > 0 ? mx.z : mn.z }; }

int main(int argc, char** argv)
{
	begin(argc, argv);
	for (vt::u64 k = 0; k < cases; k++)
	{
		curCase = k; W = genPow2(rng, 20); const double thr = 1e-6 * std::fmin(1, 1 / W);
		int kind = (int)rng.below(5); M4 m = camera(kind); f32x4x4 fm = toF(m);
		distinctBytes(&m, sizeof m); if (k < 3) sample("camera kind %d, first row %g %g %g %g", kind, m.e[0][0], m.e[0][1], m.e[0][2], m.e[0][3]);
		std::unique_ptr<Plane[]> pl(new Plane[6]), nm(new Plane[6]); // exact size: a sanitizer sees a seventh plane
		VT_OP("extractFrustumPlanes"); M::extractFrustumPlanes(fm, pl.get());
		for (int i = 0; i < 6; i++) nm[i] = pl[i];
		VT_OP("normalizePlanes"); M::normalizePlanes(nm.get(), 6);
		for (int i = 0; i < 6; i++)
		{
			double c[4], e[4]; for (int j = 0; j < 4; j++) { c[j] = clipW[i] * m.e[3][j] + clipSgn[i] * m.e[clipRow[i]][j]; e[j] = clipW[i] * std::fabs(m.e[3][j]) + std::fabs(m.e[clipRow[i]][j]); }
			D3 cn = { c[0], c[1], c[2] }; double cl = len(cn); D3 pn = d(pl[i].getNormal()); double pd = pl[i].getDistance(), nl = len(pn);
			bool normal = nl > thr && cl > thr; D3 un = d(nm[i].getNormal());
			if (normal && !(std::fabs(len(un) - 1) <= 4 * EPS)) fail("normalizePlanes-unit", "plane %d: normal length %.9g", i, len(un));
			if (!normal) VT_COUNT("planes without a normal");
			for (int q = 0; q < 6; q++)
			{
				D3 p = geo() * (rng.chance(4) ? 30 : 1); double off = 0;
				if (q >= 2 && normal) { double mg0 = 6 * EPS * (e[0] * std::fabs(p.x) + e[1] * std::fabs(p.y) + e[2] * std::fabs(p.z) + e[3]); p = p - cn * ((dot(cn, p) + c[3]) / (cl * cl)); off = mg0 * (q & 1 ? 1 : -1) * std::pow(10, rng.range(0.5, 2)); p = p + cn * (off / (cl * cl)); }
				f32x4 fp = g3(p); p = d(fp);
				double clip = dot(cn, p) + c[3], mg = 5 * EPS * (e[0] * std::fabs(p.x) + e[1] * std::fabs(p.y) + e[2] * std::fabs(p.z) + e[3]) + 1e-36;
				VT_OP("distance3(frustum plane)"); float g = opaque(M::distance3(pl[i], fp));
				if (std::fabs(clip) <= mg) { VT_COUNT("point within the margin"); continue; }
				if (clip > 0) VT_COUNT("points inside a clip plane"); else VT_COUNT("points outside a clip plane");
				if (!(g != 0 && (g > 0) == (clip > 0))) fail("extractFrustumPlanes", "plane %d gives %.9g, clip inequality gives %.9g at (%.9g %.9g %.9g)", i, g, clip, p.x, p.y, p.z);
				if (!normal) continue;
				float h = opaque(M::distance3(nm[i], fp)); double want = clip / cl;
				// normalisation keeps the extracted plane: compare with that plane, not with the ideal one
				double ext = (dot(pn, p) + pd) / nl; double t2 = 6 * EPS * (dot(absD(pn), absD(p)) + std::fabs(pd)) / nl + 1e-36;
				if (!(std::fabs(h - ext) <= t2)) fail("normalizePlanes", "plane %d: normalised distance %.9g want %.9g (%.9g)", i, h, ext, want);
			}
		}
		// ---- boxes against the frustum
		for (int q = 0; q < 4; q++)
		{
			const Plane* p = rng.chance(2) ? pl.get() : nm.get(); int cnt = rng.chance(4) ? (int)rng.below(7) : 6;
			D3 c = geo(), ex = absD(geo()) * std::pow(10, rng.range(-2, 1)); if (rng.chance(8)) ex = { 0, 0, 0 };
			Box b = box(c - ex, c + ex); bool useModel = q & 1; M4 mod; f32x4x4 fmod;
			if (useModel)
			{
				M4 s = { { { genMag(rng, -1, 1), 0, 0, 0 }, { 0, genMag(rng, -1, 1), 0, 0 }, { 0, 0, genMag(rng, -1, 1), 0 }, { 0, 0, 0, 1 } } }; mod = mulM(rigid(), s); if (rng.chance(4)) mod.e[0][1] += rng.range(-1, 1); fmod = toF(mod);
			}
			int pi = (int)rng.below(6); D3 n = d(p[pi].getNormal()); double nl = len(n);
			if (rng.chance(2) && nl > thr && std::isfinite(nl)) // slide the box to a few margins from one plane
			{
				double mx = -INFINITY, scale = 0; for (int cc = 0; cc < 8; cc++) { D3 v = { cc & 1 ? b.mx.x : b.mn.x, cc & 2 ? b.mx.y : b.mn.y, cc & 4 ? b.mx.z : b.mn.z }; if (useModel) v = { mod.e[0][0]*v.x + mod.e[0][1]*v.y + mod.e[0][2]*v.z + mod.e[0][3], mod.e[1][0]*v.x + mod.e[1][1]*v.y + mod.e[1][2]*v.z + mod.e[1][3], mod.e[2][0]*v.x + mod.e[2][1]*v.y + mod.e[2][2]*v.z + mod.e[2][3] }; mx = std::fmax(mx, dot(n, v) + p[pi].getDistance()); scale = std::fmax(scale, dot(absD(n), absD(v)) + std::fabs((double)p[pi].getDistance())); }
				double target = (rng.chance(2) ? 1 : -1) * scale * EPS * std::pow(10, rng.range(1, 4)), shift = (target - mx) / (nl * nl);
				if (useModel) { for (int r = 0; r < 3; r++) mod.e[r][3] += shift * (r == 0 ? n.x : r == 1 ? n.y : n.z); fmod = toF(mod); } else b = box(b.mn + n * shift, b.mx + n * shift);
			}
			VT_OP("isBehindFrustum"); judge("isBehindFrustum", p, cnt, b, useModel ? &fmod : nullptr, useModel ? &mod : nullptr);
		}
		// ---- any number of planes, at most one of which rejects
		if (rng.chance(4))
		{
			int cnt = rng.chance(4) ? 255 : rng.chance(4) ? (int)rng.below(8) : (int)rng.below(256), bad = cnt && rng.chance(2) ? (int)rng.below((vt::u32)cnt) : -1; if (bad >= 0 && rng.chance(3)) bad = rng.chance(2) ? cnt - 1 : 0;
			std::unique_ptr<Plane[]> p(new Plane[(size_t)cnt]); D3 c = geo(), ex = absD(geo()); Box b = box(c - ex, c + ex);
			for (int i = 0; i < cnt; i++)
			{
				D3 n = genDir(rng); D3 far = box8(b.mn, b.mx, n), nearC = box8(b.mn, b.mx, n * -1.0);
				// a kept plane has at least one corner inside, often only just
				double s = dot(n, far), t = dot(n, nearC), dd = i == bad ? -s - (0.001 * W + 1e-5 * std::fabs(s)) : rng.chance(2) ? -s + (0.001 * W + 1e-5 * std::fabs(s)) : -t + rng.range(0.001, 5) * W;
				p[i] = Plane(f32x4((float)n.x, (float)n.y, (float)n.z, 0.0f), (float)dd, false);
			}
			std::unique_ptr<Plane[]> keep(new Plane[(size_t)cnt]); for (int i = 0; i < cnt; i++) keep[i] = p[i];
			VT_OP("isBehindFrustum(any planes)"); judge("isBehindFrustum-planes", cnt || rng.chance(2) ? p.get() : nullptr, cnt, b, nullptr, nullptr);
			if (cnt) VT_COUNT("plane arrays"); else VT_COUNT("empty plane arrays");
			M4 id = { { { 1, 0, 0, 0 }, { 0, 1, 0, 0 }, { 0, 0, 1, 0 }, { 0, 0, 0, 1 } } }; f32x4x4 fid = toF(id); judge("isBehindFrustum-planes", p.get(), cnt, b, &fid, &id);
			// normalising a prefix leaves the rest alone
			int pre = (int)rng.below((vt::u32)cnt + 1); for (int i = 0; i < cnt; i++) { float s = (float)std::pow(10, rng.range(-2, 2)); p[i] = Plane(p[i].getNormal() * s, p[i].getDistance() * s, false); } 
			std::unique_ptr<Plane[]> sc(new Plane[(size_t)cnt]); for (int i = 0; i < cnt; i++) sc[i] = p[i];
			VT_OP("normalizePlanes(prefix)"); M::normalizePlanes(p.get(), (size_t)pre);
			for (int i = 0; i < cnt; i++)
			{
				D3 g = d(p[i].getNormal()); double gd = p[i].getDistance();
				if (i >= pre) { if (memcmp(&p[i], &sc[i], sizeof(Plane))) { fail("normalizePlanes-extent", "plane %d changed although only %d were to be normalised", i, pre); break; } continue; }
				D3 w = unitOf(d(sc[i].getNormal())); double wd = sc[i].getDistance() / len(d(sc[i].getNormal()));
				if (!(maxAbs(g - w) <= 4 * EPS && std::fabs(gd - wd) <= 4 * EPS * std::fabs(wd))) { fail("normalizePlanes-array", "plane %d of %d is (%.9g %.9g %.9g %.9g) want (%.9g %.9g %.9g %.9g)", i, pre, g.x, g.y, g.z, gd, w.x, w.y, w.z, wd); break; }
			}
		}
	}
	return end();
}
