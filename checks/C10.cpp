// vt: quick=500000
// vt: thorough=15000000
// vt: rule=each case builds a matrix (random, sparse integer, permutation, shear, scaled rotation, projection, badly scaled rows or columns, negative determinant; symmetric, triangular, diagonal, orthogonal, rigid, mirrored, affine, projective, block, next to identity); if it is invertible with condition number up to 1e4 every element of the 2x2, 3x3, 4x4 and SIMD 4x4 inverse is compared with the cofactor inverse in long double, within rounding times conditioning; distinct by element bits
#include "vt.hpp"
#include "math/vector.hpp"
#include "math/simd/vector/float.hpp"
#include "math/matrix.hpp"
#include "math/simd/matrix/float.hpp"
using namespace vt;
using namespace math;
typedef long double LD;
typedef float E4[4][4];

// determinant and permanent of absolute values of the n x n matrix with rows/columns left out
static void detPerm(const E4& e, const int* cs, const int* rs, int n, LD& d, LD& p)
{
	if (n == 0) { d = p = 1; return; }
	if (n == 1) { d = e[cs[0]][rs[0]]; p = std::fabs(d); return; }
	d = p = 0; int sub[4];
	for (int i = 0; i < n; i++)
	{
		int m = 0; for (int j = 0; j < n; j++) if (j != i) sub[m++] = cs[j];
		LD sd, sp; detPerm(e, sub, rs + 1, n - 1, sd, sp);
		LD t = (LD)e[cs[i]][rs[0]]; d += (i & 1 ? -t : t) * sd; p += std::fabs(t) * sp;
	}
}
struct Ref { LD inv[4][4], tol[4][4], cond; bool ok; };
static Ref reference(const E4& e, int n)
{
	Ref R; int all[4] = { 0, 1, 2, 3 }; LD d, p; detPerm(e, all, all, n, d, p); R.ok = false; R.cond = 0;
	if (!(std::fabs(d) > 1e-30L) || !(p < 1e30L) || p / std::fabs(d) > 1e4L) return R;
	LD nm = 0, ni = 0, cof[4][4];
	for (int c = 0; c < n; c++) { LD s = 0; for (int r = 0; r < n; r++) s += std::fabs((LD)e[c][r]); nm = std::fmax(nm, s); }
	for (int c = 0; c < n; c++)
	{
		LD s = 0;
		for (int r = 0; r < n; r++)
		{
			int cs[4], rs[4], m = 0; for (int i = 0; i < n; i++) if (i != r) cs[m++] = i; m = 0; for (int i = 0; i < n; i++) if (i != c) rs[m++] = i; // inverse element (column c, row r) is the cofactor of (column r, row c)
			LD cd, cp; detPerm(e, cs, rs, n - 1, cd, cp); if ((c + r) & 1) cd = -cd;
			R.inv[c][r] = cd / d; cof[c][r] = cp / std::fabs(d); s += std::fabs(R.inv[c][r]);
		}
		ni = std::fmax(ni, s);
	}
	R.cond = nm * ni; if (R.cond > 1e4L) return R;
	for (int c = 0; c < n; c++) for (int r = 0; r < n; r++)
		R.tol[c][r] = 8 * (LD)EPS * (cof[c][r] + std::fabs(R.inv[c][r]) * p / std::fabs(d) + (n > 2 ? (LD)0.25 : 0) * R.cond * ni) + 1e-37L;
	R.ok = true; return R;
}
static double worst; 
template<class F> static void judge(const char* key, const Ref& R, int n, F get)
{
	for (int c = 0; c < n; c++) for (int r = 0; r < n; r++)
	{
		LD g = get(c, r), e = std::fabs(g - R.inv[c][r]); if (!(e <= R.tol[c][r])) { fail(key, "inverse column %d row %d is %.9Lg want %.9Lg (tolerance %.3Lg, condition %.3Lg)", c, r, g, R.inv[c][r], R.tol[c][r], R.cond); return; }
		if (e / R.tol[c][r] > worst) worst = (double)(e / R.tol[c][r]);
	}
}
static float g(const float2& v, int i) { return i ? v.y : v.x; }
static float g(const float3& v, int i) { return i == 0 ? v.x : i == 1 ? v.y : v.z; }
static float g(const float4& v, int i) { return i == 0 ? v.x : i == 1 ? v.y : i == 2 ? v.z : v.w; }
static float g(const f32x4& v, int i) { return i == 0 ? v.getX() : i == 1 ? v.getY() : i == 2 ? v.getZ() : v.getW(); }

int main(int argc, char** argv)
{
	begin(argc, argv);
	for (vt::u64 k = 0; k < cases; k++)
	{
		curCase = k; E4 e; int kind = (int)rng.below(9);
		for (int c = 0; c < 4; c++) for (int r = 0; r < 4; r++)
			switch (kind)
			{
			case 0: e[c][r] = (float)((int)rng.below(7) - 3); break;
			case 1: e[c][r] = rng.chance(2) ? 0.0f : rng.f(-10, 10); break;
			case 2: e[c][r] = c == r ? 1.0f : rng.chance(3) ? rng.f(-2, 2) : 0.0f; break; // shears
			default: e[c][r] = rng.f(-3, 3); break;
			}
		if (kind == 3) // permutation with signs and scales
		{
			int p[4] = { 0, 1, 2, 3 }, n = (int)rng.below(3) + 2; for (int i = n - 1; i > 0; i--) std::swap(p[i], p[rng.below(i + 1)]);
			for (int c = 0; c < 4; c++) for (int r = 0; r < 4; r++) e[c][r] = p[c] == r ? genSign(rng) * (rng.chance(2) ? 1.0f : rng.f(0.5, 4)) : 0.0f;
		}
		bool scaled = rng.chance(3); float whole = scaled ? (float)std::pow(10, rng.range(-6, 6)) : 1.0f; // a whole matrix of small or large scale is as well conditioned as before
		if (kind == 4) for (int c = 0; c < 4; c++) { float s = (float)std::pow(10, rng.range(-2, 2)); for (int r = 0; r < 4; r++) e[c][r] *= s; }
		if (kind == 5) for (int r = 0; r < 4; r++) { float s = (float)std::pow(10, rng.range(-2, 2)); for (int c = 0; c < 4; c++) e[c][r] *= s; }
		if (kind == 6) // affine model
		{
			double a = rng.range(0, 6.3); float s = rng.f(0.3, 3), m[4][4] = { { (float)std::cos(a) * s, (float)std::sin(a) * s, 0, 0 }, { -(float)std::sin(a), (float)std::cos(a), rng.f(-0.3, 0.3), 0 }, { rng.f(-0.3, 0.3), 0, s, 0 }, { rng.f(-20, 20), rng.f(-20, 20), rng.f(-20, 20), 1 } };
			memcpy(e, m, sizeof e);
		}
		if (kind == 7) // projection
		{
			float m[4][4] = { { rng.f(0.5, 3), 0, 0, 0 }, { 0, -rng.f(0.5, 3), 0, 0 }, { 0, 0, rng.chance(2) ? 0.0f : rng.f(-1, 1), 1 }, { 0, 0, rng.f(0.01, 2), 0 } };
			memcpy(e, m, sizeof e);
		}
		if (rng.chance(3)) shapeMat(rng, e);
		if (rng.chance(10)) // columns of length one that are not perpendicular
		{
			static const float tri[5][2] = { { 0.6f, 0.8f }, { 0.28f, 0.96f }, { 1, 0 }, { 0, 1 }, { 0.8f, 0.6f } }; int n = 2 + (int)rng.below(3); bool nice = rng.chance(2);
			for (int c = 0; c < 4; c++) for (int r = 0; r < 4; r++) e[c][r] = c >= n || r >= n ? (float)(c == r) : nice ? 0.0f : e[c][r];
			for (int c = 0; c < n; c++)
			{
				if (nice) { int i = (int)rng.below(n), j = (i + 1 + (int)rng.below(n - 1)) % n; auto t = tri[rng.below(5)]; e[c][i] = t[0] * genSign(rng); e[c][j] = t[1] * genSign(rng); }
				else { double l = 0; for (int r = 0; r < n; r++) l += (double)e[c][r] * e[c][r]; if (l > 0) for (int r = 0; r < n; r++) e[c][r] = (float)(e[c][r] / std::sqrt(l)); }
			}
			if (rng.chance(3)) for (int r = 0; r < 3; r++) { e[3][r] = n < 4 ? rng.f(-9, 9) : e[3][r]; }
			scaled = scaled && rng.chance(4); VT_COUNT("skewed matrices of unit columns");
		}
		bool any = false;
		if (scaled) for (auto& c : e) for (float& x : c) x *= whole;
		Ref r2 = reference(e, 2), r3 = reference(e, 3), r4 = reference(e, 4);
		if (r2.ok) { any = true; VT_OP("inverse 2x2"); auto i = opaque(inverse(opaque(float2x2(float2(e[0][0], e[0][1]), float2(e[1][0], e[1][1]))))); judge("inverse 2x2", r2, 2, [&](int c, int r) { return g(c ? i.c1 : i.c0, r); }); }
		if (r3.ok) { any = true; VT_OP("inverse 3x3"); auto i = opaque(inverse(opaque(float3x3(float3(e[0][0], e[0][1], e[0][2]), float3(e[1][0], e[1][1], e[1][2]), float3(e[2][0], e[2][1], e[2][2]))))); judge("inverse 3x3", r3, 3, [&](int c, int r) { return g(c == 0 ? i.c0 : c == 1 ? i.c1 : i.c2, r); }); }
		if (r4.ok)
		{
			any = true; float4x4 m(float4(e[0][0], e[0][1], e[0][2], e[0][3]), float4(e[1][0], e[1][1], e[1][2], e[1][3]), float4(e[2][0], e[2][1], e[2][2], e[2][3]), float4(e[3][0], e[3][1], e[3][2], e[3][3])); touch(m);
			VT_OP("inverse 4x4"); auto i = opaque(inverse(m)); judge("inverse 4x4", r4, 4, [&](int c, int r) { return g(c == 0 ? i.c0 : c == 1 ? i.c1 : c == 2 ? i.c2 : i.c3, r); });
			VT_OP("inverse4x4 SIMD"); auto s = opaque(inverse4x4(opaque(f32x4x4(m)))); judge("inverse4x4 SIMD", r4, 4, [&](int c, int r) { return g(c == 0 ? s.c0 : c == 1 ? s.c1 : c == 2 ? s.c2 : s.c3, r); });
		}
		if (any) { distinctBytes(e, sizeof e); if (samples.size() < 3) sample("condition 2x2 %.3Lg 3x3 %.3Lg 4x4 %.3Lg", r2.cond, r3.cond, r4.cond); }
	}
	count("worst error as a share of the tolerance, 1e-6", (vt::u64)(worst * 1e6));
	return end();
}
