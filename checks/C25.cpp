// vt: quick=16000
// vt: thorough=600000
// vt: link=1
// vt: timeout=60
// vt: rule=each case builds a hierarchy over 1 to 300 (rarely 3600) primitives of the families with meaningful costs (random, clusters, flat, negative z, large, nested, thin, and a quarter of the cases over whole-numbered primitives mostly of the same bounds, where all costs are exact and compared without tolerance), as mesh or box list with garbage fourth lanes, with own or supplied centroids, in a new or a used hierarchy object (often of the same size); every inner node's split and every leaf larger than two is compared with brute force over all 21 candidate planes in double precision, skipping nodes with a centroid within rounding of a candidate plane or two costs within rounding; distinct by leaf structure
#include "bvhgen.hpp"
using namespace vt;
namespace M = math;

static double area(D3 lo, D3 hi) { D3 e = hi - lo; return e.x * e.y + e.y * e.z + e.z * e.x; }
struct Side { D3 lo = { INFINITY, INFINITY, INFINITY }, hi = { -INFINITY, -INFINITY, -INFINITY }; u32 n = 0; void add(D3 l, D3 h) { lo = minD(lo, l); hi = maxD(hi, h); n++; } double cost() const { return n ? n * area(lo, hi) : 0; } };

// Whole-numbered boxes or triangles whose areas and costs are exact in single precision, most of them spanning the same bounds,
// so that a split often gains nothing at all.
static Geo genExact()
{
	Geo g; g.mesh = rng.chance(2); g.family = 12; g.count = rng.chance(2) ? 3 + rng.below(5) : 3 + rng.below(40); int size[3]; for (int& v : size) v = rng.chance(8) ? 0 : 1 + (int)rng.below(32); int base[3]; for (int& v : base) v = (int)rng.below(64) - 32; u32 odd = rng.chance(3) ? 0 : 1 + rng.below(3); u32 groups = rng.chance(2) ? 1 : 2 + rng.below(3); int ax = (int)rng.below(3); const double mul = rng.chance(3) ? std::ldexp(1.0, (int)rng.below(57) - 48) : 1; // exact at any scale
	g.lo.resize(g.count); g.hi.resize(g.count); g.mean.resize(g.count); std::vector<D3> mid(g.count);
	for (u32 i = 0; i < g.count; i++)
	{
		D3 lo, hi, m; bool smaller = odd && rng.chance(odd * 4); int shift = (int)rng.below(groups) * 100;
		for (int k = 0; k < 3; k++) { int a = base[k] + (k == ax ? shift : 0), b = a + size[k]; if (smaller) { a += (int)rng.below((u32)size[k] / 2 + 1); b -= (int)rng.below((u32)size[k] / 2 + 1); } at(lo, k) = a * mul; at(hi, k) = b * mul; at(m, k) = (a + (int)rng.below((u32)(b - a) + 1)) * mul; }
		g.lo[i] = lo; g.hi[i] = hi; mid[i] = m; g.mean[i] = g.mesh ? (lo + hi + m) * (1.0 / 3) : (lo + hi) * 0.5;
	}
	if (g.mesh)
	{
		g.stride = 12 + rng.below(9); g.indexSize = rng.chance(2) ? 2 : 4; g.indexCount = g.count * 3; u32 nv = g.indexCount; g.verts.reset(new uint8_t[(size_t)nv * g.stride]); g.inds.reset(new uint8_t[(size_t)nv * g.indexSize]);
		for (u32 v = 0; v < nv; v++) { D3 p = v % 3 == 0 ? g.lo[v / 3] : v % 3 == 1 ? g.hi[v / 3] : mid[v / 3]; float f[3] = { (float)p.x, (float)p.y, (float)p.z }; memcpy(g.verts.get() + (size_t)v * g.stride, f, 12); if (g.indexSize == 2) { uint16_t w = (uint16_t)v; memcpy(g.inds.get() + (size_t)v * 2, &w, 2); } else memcpy(g.inds.get() + (size_t)v * 4, &v, 4); }
	}
	else { g.boxes.reset(new Aabb[g.count]); for (u32 i = 0; i < g.count; i++) { f32x4 l = withGarbage(g.lo[i]), h = withGarbage(g.hi[i]); g.boxes[i] = Aabb(l, h); } }
	g.rlo = g.lo[0]; g.rhi = g.hi[0]; for (u32 i = 1; i < g.count; i++) { g.rlo = minD(g.rlo, g.lo[i]); g.rhi = maxD(g.rhi, g.hi[i]); }
	g.rootLo = withGarbage(g.rlo); g.rootHi = withGarbage(g.rhi);
	g.ownCentroids = rng.chance(2); if (g.ownCentroids) { g.centroids.reset(new f32x4[g.count]); for (u32 i = 0; i < g.count; i++) { D3 c; c.x = rng.chance(8) ? 0.0f : rng.f(-50, 50); c.y = rng.f(-50, 50); c.z = rng.f(-50, 50); g.centroids[i] = withGarbage(c * mul); } }
	return g;
}
int main(int argc, char** argv)
{
	begin(argc, argv);
	Bvh kept; u32 lastCount = 0;
	for (vt::u64 k = 0; k < cases; k++)
	{
		curCase = k;
		bool again = rng.chance(3), exact = rng.chance(4); if (again && rng.chance(6)) { kept = Bvh(); lastCount = 0; } Geo g; if (exact) g = genExact(); else g = genGeometry(300, true, again && rng.chance(3) ? lastCount : 0); const double slack = exact ? 0 : 1e-5; if (again) lastCount = g.count; Bvh fresh; Bvh& b = again ? kept : fresh; if (again) VT_COUNT("rebuilds of a used hierarchy"); VT_OP("recreate"); g.build(b); char why[256]; Tree t; if (!t.load(b, g.count, why, sizeof why)) { fail("structure", "%s", why); continue; }
		auto& nodes = b.getNodes(); auto& prims = b.getPrimitives(); if (k < 3) sample("%u %s, %s, %zu nodes", g.count, g.mesh ? "triangles" : "boxes", familyName[g.family], nodes.size());
		const f32x4* cen = g.ownCentroids ? g.centroids.get() : b.getCentroids().data(); if (!g.ownCentroids && b.getCentroids().size() != g.count) { fail("centroids", "%zu centroids", b.getCentroids().size()); continue; }
		if (!g.ownCentroids) { bool wrong = false; for (u32 i = 0; i < g.count && !wrong; i++) { D3 w = g.mean[i], v = dv(cen[i]); double m = std::fmax(maxAbs(g.lo[i]), maxAbs(g.hi[i])) * 8 * EPS + 1e-44; if (!(maxAbs(v - w) <= m)) { fail("centroids", "%s hierarchy splits primitive %u at (%.9g %.9g %.9g), its centroid is (%.9g %.9g %.9g)", again ? "rebuilt" : "new", i, v.x, v.y, v.z, w.x, w.y, w.z); wrong = true; } } if (wrong) continue; }
		vt::count(exact ? std::string("family: whole numbers") : std::string("family: ") + familyName[g.family]); vt::u64 h = 1;
		for (u32 i = 0; i < nodes.size(); i++)
		{
			u32 f = t.first[i], n = t.number[i]; bool leaf = nodes[i].isLeaf(); if (leaf) h = hashMix(h, n); if (leaf && n <= 2) { VT_COUNT("small leaves"); continue; }
			double best = INFINITY; bool ambiguous = false; int bestAxis = -1; Side whole; for (u32 p = f; p < f + n; p++) whole.add(g.lo[prims[p]], g.hi[prims[p]]);
			u32 ln = 0, lf = 0; if (!leaf) { u32 l = nodes[i].getLeftNode(); lf = t.first[l]; ln = t.number[l]; }
			bool byPlane = false;
			for (int a = 0; a < 3; a++)
			{
				double mn = INFINITY, mx = -INFINITY; for (u32 p = f; p < f + n; p++) { double c = at(dv(cen[prims[p]]), a); mn = std::fmin(mn, c); mx = std::fmax(mx, c); }
				if (!(mx > mn)) continue;
				Side bins[8]; double ext = mx - mn, tol = 1e-5 * ext + 4 * EPS * std::fmax(std::fabs(mn), std::fabs(mx));
				for (u32 p = f; p < f + n; p++) { double c = at(dv(cen[prims[p]]), a); int q = std::min(7, (int)((c - mn) / ext * 8)); bins[q].add(g.lo[prims[p]], g.hi[prims[p]]); for (int s = 1; s < 8; s++) if (std::fabs(c - (mn + ext * s / 8)) < tol) ambiguous = true; }
				for (int s = 1; s < 8; s++)
				{
					Side l, r; for (int q = 0; q < 8; q++) if (bins[q].n) { Side& d = q < s ? l : r; d.lo = minD(d.lo, bins[q].lo); d.hi = maxD(d.hi, bins[q].hi); d.n += bins[q].n; }
					if (!l.n || !r.n) continue; double c = l.cost() + r.cost(); if (c < best) { best = c; bestAxis = a; }
					if (!leaf && !byPlane && (l.n == ln || r.n == ln))
					{
						bool same = true, swapped = true; for (u32 p = f; p < f + n; p++) { bool left = p >= lf && p < lf + ln, low = at(dv(cen[prims[p]]), a) < mn + ext * s / 8; if (left != low) same = false; if (left == low) swapped = false; }
						byPlane = same || swapped;
					}
				}
			}
			if (ambiguous) { VT_COUNT("nodes with a centroid on a candidate plane, skipped"); continue; }
			// the node's own cost uses the bounds it was given (root) or computed
			double own = n * area(dv(nodes[i].aabb.getMin()), dv(nodes[i].aabb.getMax()));
			if (leaf)
			{
				VT_OP("leaf decision"); if (exact) VT_COUNT("exact leaf decisions"); if (best < own * (1 - slack)) fail("unsplit", "leaf %u with %u primitives (%s) could be split along %c at cost %.9g, whole %.9g", i, n, familyName[g.family], "xyz"[bestAxis], best, own);
				continue;
			}
			Side l, r; for (u32 p = f; p < f + n; p++) (p >= lf && p < lf + ln ? l : r).add(g.lo[prims[p]], g.hi[prims[p]]); double c = l.cost() + r.cost();
			VT_OP("split decision"); if (exact) VT_COUNT("exact split decisions"); if (n > 8) VT_COUNT("splits of more than eight");
			if (!byPlane) { fail("not-a-plane", "split of node %u (%u primitives, %s) into %u and %u is none of the candidate planes", i, n, familyName[g.family], l.n, r.n); continue; }
			if (c > best * (1 + slack)) fail("not-cheapest", "split of node %u (%u primitives, %s) costs %.9g, the best candidate (along %c) costs %.9g", i, n, familyName[g.family], c, "xyz"[bestAxis], best);
			if (exact ? c >= own : c > own * (1 + slack)) fail("no-gain", "split of node %u (%u primitives, %s) costs %.9g, the whole node %.9g", i, n, familyName[g.family], c, own);
		}
		distinct(h);
	}
	return end();
}
