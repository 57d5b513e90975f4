// vt: quick=24000
// vt: thorough=800000
// vt: rule=each case makes three independent channels with positive mean: random bands of wide relative size, lights from one or two directions (axis-aligned and exactly vertical included) over ambient, squared lobes touching zero, symmetric lobes, no first or no second band, clearly positive ones, at scales 1e-3 to 1e3 with any fourth lane; the minimum finder is compared with a densely sampled and refined minimum in double precision (exactly for symmetric functions), the de-ringed coefficients with one window per band, the result with its sampled minimum, and the strength of the window with an independent lower bound of the function at nearby strengths; distinct by coefficients
#include "vt.hpp"
#include "math/matrix.hpp"
#include "math/sh.hpp"
using namespace vt;
namespace M = math;
using math::f32x4;

static const double k0 = 0.28209479177387814, k1 = 0.4886025119029199, k2 = 1.0925484305920792, k20 = 0.31539156525252005;
static double eval(const double* c, D3 s) { return k0 * c[0] + k1 * (-c[1] * s.y + c[2] * s.z - c[3] * s.x) + k2 * (c[4] * s.x * s.y - c[5] * s.y * s.z - c[7] * s.x * s.z) + k20 * c[6] * (3 * s.z * s.z - 1) + k2 / 2 * c[8] * (s.x * s.x - s.y * s.y); }
static void light(double* c, D3 s, double e) { double y[9] = { k0, -k1 * s.y, k1 * s.z, -k1 * s.x, k2 * s.x * s.y, -k2 * s.y * s.z, k20 * (3 * s.z * s.z - 1), -k2 * s.x * s.z, k2 / 2 * (s.x * s.x - s.y * s.y) }; for (int i = 0; i < 9; i++) c[i] += e * y[i]; }
static std::vector<D3> points;
static double minimum(const double* c) // an upper bound of the minimum, tight
{
	double best = INFINITY; D3 at = { 0, 0, 1 }; for (D3 p : points) { double v = eval(c, p); if (v < best) { best = v; at = p; } }
	double st = 0.15; for (int i = 0; i < 500 && st > 1e-5; i++) { bool moved = false; D3 u = unitOf(cross(at, std::fabs(at.x) < 0.7 ? D3{ 1, 0, 0 } : D3{ 0, 1, 0 })), v = cross(at, u); for (int k = 0; k < 4; k++) { D3 q = unitOf(at + (k & 1 ? u : v) * (k & 2 ? st : -st)); double f = eval(c, q); if (f < best) { best = f; at = q; moved = true; break; } } if (!moved) st *= 0.5; }
	return best;
}
// g(angle from the pole opposite to the linear axis): the function with the worst azimuth of each order, b and d not negative
struct Bound { double a, b, c, d; double at(double t) const { double z = -std::cos(t), s = std::sin(t); return a * z * z + b * z + c + d * z * s; } double min() const { int n = 48, bi = 0; double best = INFINITY; for (int i = 0; i <= n; i++) { double v = at(M_PI / 2 * i / n); if (v < best) { best = v; bi = i; } } double l = M_PI / 2 * std::max(0, bi - 1) / n, r = M_PI / 2 * std::min(n, bi + 1) / n; for (int i = 0; i < 30; i++) { double p = l + (r - l) / 3, q = r - (r - l) / 3; if (at(p) < at(q)) r = q; else l = p; } return std::fmin(best, at((l + r) / 2)); } };
struct Parts { double c0, v, q, e, p; Bound window(double w1, double w2) const { return { w2 * (1.5 * q + e), w1 * v, c0 - w2 * (q / 2 + e), w2 * 2 * p }; } };
static Parts split(const double* c)
{
	D3 v = { -k1 * c[3], -k1 * c[1], k1 * c[2] }; double l = len(v); D3 n = l > 0 ? v * (1 / l) : D3{ 0, 0, 1 }, u = unitOf(cross(n, std::fabs(n.x) < 0.7 ? D3{ 1, 0, 0 } : D3{ 0, 1, 0 })), w = cross(n, u);
	auto Q = [&](D3 s) { return D3{ (k2 / 2 * c[8] - k20 * c[6]) * s.x + k2 / 2 * c[4] * s.y - k2 / 2 * c[7] * s.z, k2 / 2 * c[4] * s.x + (-k2 / 2 * c[8] - k20 * c[6]) * s.y - k2 / 2 * c[5] * s.z, -k2 / 2 * c[7] * s.x - k2 / 2 * c[5] * s.y + 2 * k20 * c[6] * s.z }; };
	D3 qn = Q(n), qu = Q(u), qw = Q(w); return { k0 * c[0], l, dot(n, qn), std::hypot((dot(u, qu) - dot(w, qw)) / 2, dot(u, qw)), std::hypot(dot(u, qn), dot(w, qn)) };
}
static double sinc4(int l, double w) { if (l == 0) return 1; if (l >= w) return 0; double x = M_PI * l / w; x = std::sin(x) / x; return x * x * x * x; }
static double cutoffOf(int l, double w) { double lo = l, hi = 60; for (int i = 0; i < 60; i++) { double m = (lo + hi) / 2; (sinc4(l, m) < w ? lo : hi) = m; } return lo; }
static const char* const fam[] = { "random", "one light", "two lights", "squared lobe", "symmetric", "no first band", "no second band", "clearly positive" };
static int make(double* c)
{
	for (int i = 0; i < 9; i++) c[i] = 0; int f = (int)rng.below(8); D3 n = genDir(rng);
	switch (f)
	{
	case 0: case 5: case 6: { double s1 = f == 5 ? 0 : std::pow(10, rng.range(-3, 0.5)), s2 = f == 6 ? 0 : std::pow(10, rng.range(-3, 0.5)); c[0] = rng.range(0.3, 2); for (int i = 1; i < 9; i++) c[i] = rng.range(-1, 1) * (i < 4 ? s1 : s2) * (rng.chance(8) ? 0 : 1); break; }
	case 1: light(c, n, 1); c[0] += rng.chance(2) ? 0 : rng.range(0, 3); break;
	case 2: light(c, n, 1); light(c, genDir(rng), rng.range(0.1, 1)); c[0] += rng.range(0, 1); break;
	case 3: { double k = rng.range(0.3, 1.5), o = rng.chance(2) ? 0 : rng.range(0, 0.2); // (1 + k cos)^2 + o
		double z0 = 1 + k * k / 3 + o, z1 = 2 * k, z2 = k * k * 2 / 3; double y[9] = { 0 }; light(y, n, 1); c[0] = z0 / k0; for (int i = 1; i < 4; i++) c[i] = z1 * y[i] / (k1 * k1); for (int i = 4; i < 9; i++) c[i] = z2 * y[i] / (2 * k20) / (2 * k20); break; }
	case 4: { double y[9] = { 0 }; light(y, n, 1); c[0] = rng.range(0.3, 2); double p = rng.range(0, 2), q = rng.range(-2, 2); for (int i = 1; i < 9; i++) c[i] = y[i] * (i < 4 ? p : q); break; }
	default: { c[0] = 1; double t = 0; for (int i = 1; i < 9; i++) { c[i] = rng.range(-1, 1); t += std::fabs(c[i]); } double s = rng.range(0.02, 0.18) / t; for (int i = 1; i < 9; i++) c[i] *= s; break; }
	}
	return f;
}
int main(int argc, char** argv)
{
	begin(argc, argv);
	for (int i = 0; i < 400; i++) { double z = 1 - (2 * i + 1) / 400.0, r = std::sqrt(1 - z * z), p = i * 2.399963229728653; points.push_back({ r * std::cos(p), r * std::sin(p), z }); }
	for (double a : { -1.0, 1.0 }) { points.push_back({ a, 0, 0 }); points.push_back({ 0, a, 0 }); points.push_back({ 0, 0, a }); }
	static const double windows[] = { 0.5, 1, 1.5, 2, 2.5, 3, 4.25, 8, 13, 100 };
	for (vt::u64 k = 0; k < cases; k++)
	{
		curCase = k; double c[3][9], size[3]; int f[3]; float in[9][4]; double sc = rng.chance(2) ? 1 : std::pow(10, rng.range(-3, 3));
		for (int h = 0; h < 3; h++) { if (h && rng.chance(3)) { f[h] = f[0]; for (int i = 0; i < 9; i++) c[h][i] = c[0][i]; } else { f[h] = make(c[h]); for (double& x : c[h]) x = (float)(x * sc); if (h && rng.chance(3)) { int l = (int)rng.below(3), q = (int)rng.below(3); VT_COUNT("channels that share some bands"); for (int m : { l, q }) { if (m) f[h] = 0; for (int i = m * m; i < (m + 1) * (m + 1); i++) c[h][i] = c[0][i]; } } } size[h] = 0; for (int i = 0; i < 9; i++) { in[i][h] = (float)c[h][i]; size[h] += std::fabs(c[h][i]); } vt::count(std::string("channel: ") + fam[f[h]]); }
		for (int i = 0; i < 9; i++) in[i][3] = genGarbage(rng); distinctBytes(in, sizeof in); if (k < 3) sample("%s, %s, %s, scale %.3g", fam[f[0]], fam[f[1]], fam[f[2]], sc);
		// the window itself
		{ int l = (int)rng.below(3); double w = rng.chance(2) ? windows[rng.below(10)] : rng.range(0.5, 15); float fw = (float)w; touch(fw); VT_OP("window"); double g = M::sh::sincWindow(l, fw), want = sinc4(l, fw); if (!(std::fabs(g - want) <= 2e-6 * want + 2e-6 * std::pow(want, 0.75) + 1e-20)) fail("sincWindow", "band %d at %.9g is %.9g want %.9g", l, fw, g, want);
		  float t[9]; for (int i = 0; i < 9; i++) t[i] = in[i][0]; touch(t); M::sh::windowing(t, fw); touch(t); for (int i = 0; i < 9; i++) { double e = sinc4(i == 0 ? 0 : i < 4 ? 1 : 2, fw), q = c[0][i] * e; if (!(std::fabs(t[i] - q) <= std::fabs(c[0][i]) * (3e-6 * e + 2e-6 * std::pow(e, 0.75) + 1e-20) + 1e-44)) fail("windowing", "coefficient %d %.9g at %.9g becomes %.9g want %.9g", i, c[0][i], fw, t[i], q); } }
		// the minimum
		double low[3]; for (int h = 0; h < 3; h++)
		{
			float t[9]; for (int i = 0; i < 9; i++) t[i] = in[i][h]; touch(t); VT_OP("minimum"); double g = M::sh::shmin(t), tol = 6e-6 * size[h]; low[h] = minimum(c[h]); vt::count(low[h] < 0 ? "minimum negative" : "minimum not negative");
			if (!(g <= low[h] + tol)) fail("shmin-above", "%s: %.9g, but the function is %.9g somewhere (sum of coefficients %.6g)", fam[f[h]], g, low[h], size[h]);
			else if (f[h] == 4 && std::hypot(c[h][1], std::hypot(c[h][2], c[h][3])) > 0.05 * size[h])
			{
				Parts q = split(c[h]); auto at = [&](double z) { return q.c0 + q.v * z + q.q * (1.5 * z * z - 0.5); }; double m = std::fmin(at(-1), at(1)), z0 = -q.v / (3 * q.q); if (q.q != 0 && std::fabs(z0) < 1) m = std::fmin(m, at(z0));
				if (!(std::fabs(g - m) <= 2e-5 * size[h])) fail("shmin-symmetric", "%s: %.9g, the minimum is %.9g (sum of coefficients %.6g)", fam[f[h]], g, m, size[h]);
			}
		}
		// de-ringing
		f32x4 sh[9]; for (int i = 0; i < 9; i++) sh[i] = f32x4(in[i]); touch(sh); VT_OP("deringing"); M::sh::deringingSH(sh); touch(sh); float out[9][4]; for (int i = 0; i < 9; i++) sh[i].store(out[i]);
		double w[3] = { 1, -1, -1 }; bool ok = true;
		for (int h = 0; h < 3; h++) for (int i = 0; i < 9; i++) if (std::fabs(c[h][i]) > 1e-12)
		{
			int l = i == 0 ? 0 : i < 4 ? 1 : 2; double q = out[i][h] / c[h][i]; if (w[l] < 0) { w[l] = q; if (!(q >= 0 && q <= 1)) { fail("factor-range", "band %d is scaled by %.9g", l, q); ok = false; } }
			if (l == 0 && !same(out[0][h], in[0][h])) { fail("constant-band", "channel %d: %.9g becomes %.9g", h, in[0][h], out[0][h]); ok = false; } else if (!(std::fabs(q - w[l]) <= 5e-7 * std::fabs(w[l]) + 1e-30)) { fail("common-factor", "band %d is scaled by %.9g and, coefficient %d of channel %d, by %.9g", l, w[l], i, h, q); ok = false; }
		}
		if (!ok) continue; if (w[1] >= 0 && w[2] >= 0 && !(w[2] <= w[1])) { fail("factor-order", "bands are scaled by %.9g and %.9g", w[1], w[2]); continue; }
		Parts p[3]; for (int h = 0; h < 3; h++) p[h] = split(c[h]); double s1 = sinc4(1, 3), s2 = sinc4(2, 3);
		for (int h = 0; h < 3; h++)
		{
			double o[9]; for (int i = 0; i < 9; i++) o[i] = out[i][h]; if (p[h].window(s1, s2).min() < 1e-3 * size[h]) { VT_COUNT("beyond the strongest window"); continue; } if (p[h].v < 1e-3 * size[h] && f[h] != 4) { Parts z = p[h]; double worst = z.c0 - s1 * z.v - s2 * 2 * (std::fabs(z.q) + z.e + z.p); if (worst < 0) { VT_COUNT("beyond the strongest window"); continue; } }
			VT_OP("result non-negative"); double m = minimum(o); if (!(m >= -1e-5 * size[h])) fail("negative", "%s: the minimum was %.9g and is still %.9g (constant %.6g, bands scaled %.6g %.6g)", fam[f[h]], low[h], m, k0 * c[h][0], w[1], w[2]);
		}
		bool axes = true; for (int h = 0; h < 3; h++) if (p[h].v < 1e-3 * size[h]) axes = false; if (!axes || (w[1] < 0 && w[2] < 0)) { VT_COUNT("strength not judged"); continue; }
		double cut = w[1] >= 0 ? cutoffOf(1, w[1]) : cutoffOf(2, w[2]); if (!(cut > 2.99 && cut < 13.01)) { fail("strength-range", "window of cutoff %.6g", cut); continue; } if (w[1] >= 0 && w[2] >= 0 && !(std::fabs(w[2] - sinc4(2, cut)) <= 1e-4)) fail("one-window", "bands are scaled by %.9g and %.9g, not by one window", w[1], w[2]);
		if (k % 4 == 0 && cut < 12.72)
		{   // something was negative at a slightly milder window
			VT_OP("strength"); double l = INFINITY; for (double q = cut - 0.001; q <= std::fmin(13.0, cut + 0.32); q += 0.02) for (int h = 0; h < 3; h++) l = std::fmin(l, p[h].window(sinc4(1, q), sinc4(2, q)).min() / size[h]); if (!(l <= 1e-5)) fail("too-strong", "window of cutoff %.6g, but up to %.6g every channel stays above %.6g of its size", cut, cut + 0.32, l);
		}
		else if (cut >= 12.72) VT_COUNT("mildest window");
	}
	return end();
}
