// vt: quick=400000
// vt: thorough=12000000
// vt: rule=each case draws a position, a rotation (unit or not, of either sign), a positive scale per axis over twelve orders of magnitude (often one or uniform), an arbitrary affine matrix and garbage in every unused lane; composition, decomposition and all pre/post-multiplying forms are compared with double-precision matrices; distinct by operand bits
#include "vt.hpp"
#include "math/vector.hpp"
#include "math/simd/vector/float.hpp"
#include "math/matrix/transform.hpp"
using namespace vt;
namespace M = math;
using math::quat; using math::f32x4; using math::f32x4x4; using math::float2;

struct Q { double x, y, z, w; };
static Q d(quat q) { return { q.getX(), q.getY(), q.getZ(), q.getW() }; }
static D3 d(f32x4 v) { return { v.getX(), v.getY(), v.getZ() }; }
static D3 rot(Q q, D3 v) { D3 u = { q.x, q.y, q.z }, c = cross(u, v); return v + c * (2 * q.w) + cross(u, c) * 2; }
static Q unit(Q a) { double n = std::sqrt(a.x*a.x + a.y*a.y + a.z*a.z + a.w*a.w); return { a.x/n, a.y/n, a.z/n, a.w/n }; }
static double diff(Q a, Q b) { return std::fmax(std::fmax(std::fabs(a.x-b.x), std::fabs(a.y-b.y)), std::fmax(std::fabs(a.z-b.z), std::fabs(a.w-b.w))); }
static double sameRotation(Q a, Q b) { return std::fmin(diff(a, b), diff(a, { -b.x, -b.y, -b.z, -b.w })); }
struct M4 { double e[4][4]; };
static M4 mul(const M4& a, const M4& b) { M4 r; for (int c = 0; c < 4; c++) for (int i = 0; i < 4; i++) { r.e[c][i] = 0; for (int k = 0; k < 4; k++) r.e[c][i] += a.e[k][i] * b.e[c][k]; } return r; }
static M4 absM(M4 m) { for (auto& c : m.e) for (double& x : c) x = std::fabs(x); return m; }
static const M4 ID = { { { 1, 0, 0, 0 }, { 0, 1, 0, 0 }, { 0, 0, 1, 0 }, { 0, 0, 0, 1 } } };
static M4 T(D3 t) { M4 m = ID; m.e[3][0] = t.x; m.e[3][1] = t.y; m.e[3][2] = t.z; return m; }
static M4 S(D3 s) { M4 m = ID; m.e[0][0] = s.x; m.e[1][1] = s.y; m.e[2][2] = s.z; return m; }
static M4 R(Q q) { M4 m = ID; D3 e[3] = { { 1, 0, 0 }, { 0, 1, 0 }, { 0, 0, 1 } }; for (int c = 0; c < 3; c++) { D3 v = rot(q, e[c]); m.e[c][0] = v.x; m.e[c][1] = v.y; m.e[c][2] = v.z; } return m; }
static M4 d(const f32x4x4& m) { M4 r; const f32x4* c[4] = { &m.c0, &m.c1, &m.c2, &m.c3 }; for (int i = 0; i < 4; i++) { r.e[i][0] = c[i]->getX(); r.e[i][1] = c[i]->getY(); r.e[i][2] = c[i]->getZ(); r.e[i][3] = c[i]->getW(); } return r; }
static void eq(const char* key, const f32x4x4& got, const M4& want, const M4& terms, double k)
{
	M4 g = d(got);
	for (int c = 0; c < 4; c++) for (int r = 0; r < 4; r++)
		if (!(std::fabs(g.e[c][r] - want.e[c][r]) <= k * EPS * terms.e[c][r] + 1e-37)) { fail(key, "column %d row %d is %.9g want %.9g", c, r, g.e[c][r], want.e[c][r]); return; }
}
static float lane(f32x4 v, int i) { return i == 0 ? v.getX() : i == 1 ? v.getY() : i == 2 ? v.getZ() : v.getW(); }
static f32x4 g3(float x, float y, float z) { f32x4 v(x, y, z, genGarbage(rng)); touch(v); return v; }

int main(int argc, char** argv)
{
	begin(argc, argv);
	for (vt::u64 k = 0; k < cases; k++)
	{
		curCase = k;
		D3 pv = genVec(rng, -6, 7); f32x4 p = g3((float)pv.x, (float)pv.y, (float)pv.z), s;
		switch (rng.below(9))
		{
		case 7: { D3 v = genVec(rng); float u[3] = { (float)std::fabs(v.x), (float)std::fabs(v.y), (float)std::fabs(v.z) }; for (float& x : u) if (!(x >= 1e-6f)) x = 1; s = g3(u[0], u[1], u[2]); break; }
		case 5: { float u[3]; for (float& x : u) x = fbits((vt::u32)(0x3f800000 + (int)rng.below(65) - 32)); s = g3(u[0], u[1], u[2]); break; } // within a few ulps of one
		case 6: { float u[3]; for (float& x : u) x = rng.chance(2) ? 1.0f : 1.0f + (float)((rng.chance(2) ? 1 : -1) * std::pow(10, rng.range(-7, -2))); s = g3(u[0], u[1], u[2]); break; }
		case 0: s = g3(1, 1, 1); break;
		case 1: s = f32x4(1, 1, 1, 1); break;
		case 2: { float u = (float)std::pow(10, rng.range(-3, 3)); s = g3(u, u, u); break; }
		case 3: { float u[3] = { 1, 1, 1 }; u[rng.below(3)] = (float)std::pow(10, rng.range(-3, 3)); s = g3(u[0], u[1], u[2]); break; }
		default: s = g3((float)std::pow(10, rng.range(-3, 3)), (float)std::pow(10, rng.range(-3, 3)), (float)std::pow(10, rng.range(-3, 3)));
		}
		touch(s);
		float qq[4]; { double n = 0; do { n = 0; int kind = (int)rng.below(3); for (float& x : qq) { x = kind == 0 ? (float)((int)rng.below(3) - 1) : kind == 1 && rng.chance(2) ? 0.0f : rng.f(-1, 1); n += (double)x * x; } } while (n < 1e-3); float sc = rng.chance(2) ? (float)(1 / std::sqrt(n)) : (float)std::pow(10, rng.range(-3, 3)); for (float& x : qq) x *= sc; }
		quat q = opaque(quat(qq[0], qq[1], qq[2], qq[3])); Q dq = unit(d(q)); D3 dp = d(p), ds = d(s);
		float in[10] = { (float)dp.x, (float)dp.y, (float)dp.z, qq[0], qq[1], qq[2], qq[3], (float)ds.x, (float)ds.y, (float)ds.z }; distinctBytes(in, 40);
		if (k < 3) sample("position (%g %g %g) rotation (%g %g %g %g) scale (%g %g %g)", dp.x, dp.y, dp.z, qq[0], qq[1], qq[2], qq[3], ds.x, ds.y, ds.z);
		// ---- compose
		M4 want = mul(T(dp), mul(R(dq), S(ds))), terms = ID; for (int r = 0; r < 3; r++) { terms.e[0][r] = ds.x; terms.e[1][r] = ds.y; terms.e[2][r] = ds.z; terms.e[3][r] = std::fabs(r == 0 ? dp.x : r == 1 ? dp.y : dp.z); } terms.e[3][3] = 0; // translation and last row exact to a rounding
		VT_OP("calcModel"); f32x4x4 m = opaque(M::calcModel(p, q, s)); eq("calcModel", m, want, terms, 16);
		{ M4 t1 = terms; for (int c = 0; c < 3; c++) for (int r = 0; r < 3; r++) t1.e[c][r] = 1; VT_OP("calcModel without scale"); eq("calcModel without scale", opaque(M::calcModel(p, q)), mul(T(dp), R(dq)), t1, 16); }
		{ VT_OP("calcModel defaults"); eq("calcModel defaults", opaque(M::calcModel()), ID, ID, 0); eq("calcModel defaults", opaque(M::calcModel(p)), T(dp), ID, 0); }
		// ---- decompose
		{
			VT_OP("extractTransform"); f32x4 pp, ss; quat rr; M::extractTransform(m, pp, rr, ss); touch(pp); touch(ss); touch(rr);
			if (!(maxAbs(d(pp) - dp) == 0)) fail("decompose-position", "got (%.9g %.9g %.9g) want (%.9g %.9g %.9g)", lane(pp, 0), lane(pp, 1), lane(pp, 2), dp.x, dp.y, dp.z);
			D3 e = d(ss) - ds; if (!(std::fabs(e.x) <= 2e-6 * ds.x && std::fabs(e.y) <= 2e-6 * ds.y && std::fabs(e.z) <= 2e-6 * ds.z)) fail("decompose-scale", "got (%.9g %.9g %.9g) want (%.9g %.9g %.9g)", lane(ss, 0), lane(ss, 1), lane(ss, 2), ds.x, ds.y, ds.z);
			double a = sameRotation(d(rr), dq); if (!(a <= 6e-6)) fail("decompose-rotation", "off by %.3g, rotation (%.9g %.9g %.9g %.9g)", a, dq.x, dq.y, dq.z, dq.w);
			VT_OP("extractScale"); e = d(opaque(M::extractScale(m))) - ds; if (!(std::fabs(e.x) <= 2e-6 * ds.x && std::fabs(e.y) <= 2e-6 * ds.y && std::fabs(e.z) <= 2e-6 * ds.z)) fail("extractScale", "off by (%.3g %.3g %.3g) from (%.9g %.9g %.9g)", e.x, e.y, e.z, ds.x, ds.y, ds.z);
			VT_OP("extractScale2"); float2 s2 = opaque(M::extractScale2(m)); if (!nearly(s2.x, ds.x, 2e-6, 0) || !nearly(s2.y, ds.y, 2e-6, 0)) fail("extractScale2", "got (%.9g %.9g) want (%.9g %.9g)", s2.x, s2.y, ds.x, ds.y);
			VT_OP("extractRotation"); M4 ones = ID; for (int c = 0; c < 3; c++) for (int r = 0; r < 3; r++) ones.e[c][r] = 1; ones.e[3][3] = 0;
			eq("extractRotation", opaque(M::extractRotation(m)), R(dq), ones, 24);
			f32x4x4 rigid = opaque(M::calcModel(p, q)); VT_OP("extractRotationOnly"); M4 w = d(rigid); w.e[3][0] = w.e[3][1] = w.e[3][2] = 0; eq("extractRotationOnly", opaque(M::extractRotationOnly(rigid)), w, ones, 0);
			VT_OP("extractTransform of a rigid matrix"); M::extractTransform(rigid, pp, rr); touch(pp); touch(rr); if (!(maxAbs(d(pp) - dp) == 0)) fail("decompose-rigid", "position"); if (!(sameRotation(d(rr), dq) <= 6e-6)) fail("decompose-rigid", "rotation off by %.3g", sameRotation(d(rr), dq));
		}
		// ---- any linear part: mirrored and sheared matrices, scales of either sign
		float a[4][4]; for (int c = 0; c < 4; c++) for (int r = 0; r < 4; r++) a[c][r] = r == 3 ? (c == 3 ? 1.0f : 0.0f) : genGeo(rng);
		if (rng.chance(3)) for (int c = 0; c < 4; c++) { D3 v = genVec(rng, -6, 7); a[c][0] = (float)v.x; a[c][1] = (float)v.y; a[c][2] = (float)v.z; }
		if (rng.chance(3)) { shapeMat(rng, a); for (int c = 0; c < 4; c++) a[c][3] = c == 3 ? 1.0f : 0.0f; }
		f32x4x4 A(f32x4(a[0][0], a[0][1], a[0][2], 0), f32x4(a[1][0], a[1][1], a[1][2], 0), f32x4(a[2][0], a[2][1], a[2][2], 0), f32x4(a[3][0], a[3][1], a[3][2], 1)); touch(A); M4 dA = d(A);
		M4 one3 = ID; for (int c = 0; c < 3; c++) for (int r = 0; r < 3; r++) one3.e[c][r] = 1; one3.e[3][3] = 0;
		D3 sg = { rng.chance(2) ? 1.0 : -1.0, rng.chance(2) ? 1.0 : -1.0, rng.chance(2) ? 1.0 : -1.0 }; f32x4 ns = g3((float)(ds.x * sg.x), (float)(ds.y * sg.y), (float)(ds.z * sg.z)); D3 dns = d(ns);
		{
			VT_OP("calcModel with signed scale"); f32x4x4 nm = opaque(M::calcModel(p, q, ns)); eq("calcModel-signed", nm, mul(T(dp), mul(R(dq), S(dns))), terms, 16);
			D3 e = d(opaque(M::extractScale(nm))) - ds; if (!(std::fabs(e.x) <= 2e-6 * ds.x && std::fabs(e.y) <= 2e-6 * ds.y && std::fabs(e.z) <= 2e-6 * ds.z)) fail("extractScale-signed", "off by (%.3g %.3g %.3g)", e.x, e.y, e.z);
			eq("extractRotation-signed", opaque(M::extractRotation(nm)), mul(R(dq), S(sg)), one3, 24);
			D3 l = { len(d(A.c0)), len(d(A.c1)), len(d(A.c2)) };
			if (l.x > 1e-12 && l.y > 1e-12 && l.z > 1e-12)
			{
				e = d(opaque(M::extractScale(A))); if (!nearly(e.x, l.x, 1e-6, 0) || !nearly(e.y, l.y, 1e-6, 0) || !nearly(e.z, l.z, 1e-6, 0)) fail("extractScale-any", "got (%.9g %.9g %.9g) want (%.9g %.9g %.9g)", e.x, e.y, e.z, l.x, l.y, l.z);
				float2 s2 = opaque(M::extractScale2(A)); if (!nearly(s2.x, l.x, 1e-6, 0) || !nearly(s2.y, l.y, 1e-6, 0)) fail("extractScale2-any", "got (%.9g %.9g)", s2.x, s2.y);
				M4 w = dA; for (int r = 0; r < 3; r++) { w.e[0][r] /= l.x; w.e[1][r] /= l.y; w.e[2][r] /= l.z; w.e[3][r] = 0; } eq("extractRotation-any", opaque(M::extractRotation(A)), w, one3, 8);
			}
			M4 w = dA; w.e[3][0] = w.e[3][1] = w.e[3][2] = 0; eq("extractRotationOnly-any", opaque(M::extractRotationOnly(A)), w, ID, 0);
		}
		// ---- elementary transforms
		quat u = opaque(M::normalize(q)); Q du = d(u);
		M4 ones = ID; for (auto& c : ones.e) for (double& x : c) x = 1;
		VT_OP("translate"); eq("translate", opaque(M::translate(p)), T(dp), ones, 0);
		VT_OP("scale"); eq("scale", opaque(M::scale(s)), S(ds), ones, 0);
		VT_OP("rotate"); eq("rotate", opaque(M::rotate(u)), R(du), ones, 10);
		VT_OP("translate after"); eq("translate(m, t)", opaque(M::translate(A, p)), mul(dA, T(dp)), mul(absM(dA), absM(T(dp))), 5);
		VT_OP("translate before"); eq("translate(t, m)", opaque(M::translate(p, A)), mul(T(dp), dA), mul(absM(T(dp)), absM(dA)), 2);
		if (rng.chance(3)) { s = ns; ds = dns; if (rng.chance(4)) { s = g3(rng.chance(2) ? 0.0f : lane(s, 0), rng.chance(2) ? 0.0f : lane(s, 1), lane(s, 2)); ds = d(s); } } // any scale, zero included
		VT_OP("scale after"); eq("scale(m, s)", opaque(M::scale(A, s)), mul(dA, S(ds)), mul(absM(dA), absM(S(ds))), 2);
		VT_OP("scale before"); eq("scale(s, m)", opaque(M::scale(s, A)), mul(S(ds), dA), mul(absM(S(ds)), absM(dA)), 2);
		// ---- translation part
		VT_OP("getTranslation"); if (!(maxAbs(d(opaque(M::getTranslation(A))) - d(A.c3)) == 0)) fail("getTranslation", "differs from the fourth column");
		VT_OP("setTranslation"); { f32x4x4 B = A; float w = rng.chance(2) ? 1.0f : rng.f(-3, 3); B.c3 = f32x4(a[3][0], a[3][1], a[3][2], w); touch(B); M4 x = d(B); M::setTranslation(B, p); touch(B); x.e[3][0] = dp.x; x.e[3][1] = dp.y; x.e[3][2] = dp.z; eq("setTranslation", B, x, ones, 0); }
	}
	return end();
}
