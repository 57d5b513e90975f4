// vt: quick=25000
// vt: thorough=400000
// vt: link=1
// vt: timeout=60
// vt: rule=each case is a history of one to five builds of one hierarchy object over meshes and box lists of 1 to 240 (rarely 2900, once per run about 80000) primitives from fifteen geometry families (random, clustered, grids, identical, few positions, collinear, flat, one ulp apart, denormal sized, negative, large, up to 1e37, nested, thin, geometric series), 16 and 32-bit indices, any stride, exact-size input buffers, vertex arrays longer than 4 GiB, garbage fourth lanes, with and without supplied (also unrelated) centroids; the whole tree is walked after every build; distinct by the leaf structure
#include "bvhgen.hpp"
#include <sys/mman.h>
using namespace vt;
namespace M = math;

static void judge(const Bvh& b, const Geo& g, const char* how)
{
	char why[256]; Tree t; if (!t.load(b, g.count, why, sizeof why)) { fail("structure", "%s of %u primitives (%s, %s): %s", how, g.count, g.mesh ? "mesh" : "boxes", familyName[g.family], why); return; }
	auto& nodes = b.getNodes(); auto& prims = b.getPrimitives();
	D3 lo = dv(nodes[0].aabb.getMin()), hi = dv(nodes[0].aabb.getMax());
	if (maxAbs(lo - g.rlo) != 0 || maxAbs(hi - g.rhi) != 0) fail("root-bounds", "root bounds (%.9g %.9g %.9g)..(%.9g %.9g %.9g) were given as (%.9g %.9g %.9g)..(%.9g %.9g %.9g)", lo.x, lo.y, lo.z, hi.x, hi.y, hi.z, g.rlo.x, g.rlo.y, g.rlo.z, g.rhi.x, g.rhi.y, g.rhi.z);
	auto in = [](D3 l, D3 h, D3 a, D3 b2) { return l.x <= a.x && l.y <= a.y && l.z <= a.z && h.x >= b2.x && h.y >= b2.y && h.z >= b2.z; };
	vt::u64 h = 1; u32 leaves = 0, depth = 0;
	for (u32 i = 0; i < nodes.size(); i++)
	{
		lo = dv(nodes[i].aabb.getMin()); hi = dv(nodes[i].aabb.getMax());
		for (u32 p = t.first[i]; p < t.first[i] + t.number[i]; p++) if (!in(lo, hi, g.lo[prims[p]], g.hi[prims[p]])) { fail("bounds", "%s: node %u (%.9g %.9g %.9g)..(%.9g %.9g %.9g) does not enclose primitive %u (%.9g %.9g %.9g)..(%.9g %.9g %.9g) (%s)", how, i, lo.x, lo.y, lo.z, hi.x, hi.y, hi.z, prims[p], g.lo[prims[p]].x, g.lo[prims[p]].y, g.lo[prims[p]].z, g.hi[prims[p]].x, g.hi[prims[p]].y, g.hi[prims[p]].z, familyName[g.family]); return; }
		if (i) { auto& pn = nodes[t.parent[i]]; if (!in(dv(pn.aabb.getMin()), dv(pn.aabb.getMax()), lo, hi)) { fail("child-bounds", "%s: node %u reaches out of its parent %u (%s)", how, i, t.parent[i], familyName[g.family]); return; } }
		if (nodes[i].isLeaf()) { leaves++; h = hashMix(h, t.number[i]); u32 d = 0; for (u32 k = i; k; k = t.parent[k]) d++; depth = std::max(depth, d); }
	}
	distinct(hashMix(h, depth)); vt::count("leaves walked", leaves); vt::count("nodes walked", nodes.size()); if (depth > 8) VT_COUNT("deep trees"); if (depth > 40) VT_COUNT("trees deeper than 40"); if (leaves == 1) VT_COUNT("single-leaf trees");
	if (!g.ownCentroids)
	{
		auto& c = b.getCentroids(); if (c.size() != g.count) { fail("centroids", "%zu centroids for %u primitives", c.size(), g.count); return; }
		for (u32 i = 0; i < g.count; i++) { D3 w = g.mean[i], v = dv(c[i]); double m = std::fmax(maxAbs(g.lo[i]), maxAbs(g.hi[i])) * 8 * EPS + 1e-44; if (m < 1e30 && !(maxAbs(v - w) <= m)) { fail("centroids", "centroid %u is (%.9g %.9g %.9g) want (%.9g %.9g %.9g)", i, v.x, v.y, v.z, w.x, w.y, w.z); return; } }
	}
}

// A mesh whose vertex array is larger than 32-bit byte offsets count; only the pages with a position exist.
static void wideMesh()
{
	VT_OP("vertex array beyond 4 GiB"); Geo g; g.mesh = true; g.family = 0; g.count = 2 + rng.below(40); u32 nv = g.count * 3, stride, step = 1; bool far = rng.chance(2);
	if (far) stride = 0x50000000u / g.count + rng.below(1000000) + 1; // few vertices, far apart
	else { stride = 12 + rng.below(60); step = 0x50000000u / (g.count * stride / 4); } // only some vertices of a long array are used
	size_t bytes = (size_t)stride * step * nv + 12; if (bytes <= 0x100000000ull) { trivial++; return; }
	auto* v = (uint8_t*)mmap(nullptr, bytes, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0); if (v == MAP_FAILED) { trivial++; return; }
	std::vector<u32> idx(nv); g.lo.resize(g.count); g.hi.resize(g.count); g.mean.resize(g.count);
	for (u32 i = 0; i < nv; i++)
	{
		float f[3]; for (float& x : f) x = rng.f(-20, 20); idx[i] = (nv - 1 - i) * step; memcpy(v + (size_t)idx[i] * stride, f, 12); D3 p{ f[0], f[1], f[2] }; u32 t = i / 3;
		if (i % 3 == 0) { g.lo[t] = g.hi[t] = g.mean[t] = p; } else { g.lo[t] = minD(g.lo[t], p); g.hi[t] = maxD(g.hi[t], p); g.mean[t] = g.mean[t] + p; } if (i % 3 == 2) g.mean[t] = g.mean[t] * (1.0 / 3);
	}
	g.rlo = g.lo[0]; g.rhi = g.hi[0]; for (u32 i = 1; i < g.count; i++) { g.rlo = minD(g.rlo, g.lo[i]); g.rhi = maxD(g.rhi, g.hi[i]); } g.rootLo = withGarbage(g.rlo); g.rootHi = withGarbage(g.rhi);
	Bvh b; b.recreate(v, (const uint8_t*)idx.data(), Aabb(g.rootLo, g.rootHi), nv, stride, 4, nullptr); judge(b, g, "build over a vertex array beyond 4 GiB"); VT_COUNT("meshes with vertices beyond 4 GiB"); munmap(v, bytes);
}

// A node keeps whatever count, link and bounds it is given, and setting one leaves the others alone.
static void nodeParts()
{
	auto any = [] { u32 v = (u32)rng.next(); return rng.chance(3) ? v >> rng.below(32) : rng.chance(4) ? (1u << rng.below(32)) + (u32)rng.below(3) - 1 : v; };
	auto box = [](D3& lo, D3& hi) { D3 a = { rng.f(-9, 9), rng.f(-9, 9), rng.f(-9, 9) }, b = { rng.f(-9, 9), rng.f(-9, 9), rng.f(-9, 9) }; lo = minD(a, b); hi = maxD(a, b); return Aabb(withGarbage(lo), withGarbage(hi)); };
	Bvh::Node n; D3 lo{ 0, 0, 0 }, hi{ 0, 0, 0 }; u32 count = n.getPrimitiveCount(), link = n.getLeftNode();
	for (int i = 0; i < 12; i++)
	{
		VT_OP("node parts");
		switch (rng.below(4))
		{
		case 0: n.aabb = box(lo, hi); count = any(); link = any(); n.setPrimitiveCount(count); n.setFirstPrimitive(link); break; // as the builder does
		case 1: count = any(); n.setPrimitiveCount(count); break;
		case 2: link = any(); n.setLeftNode(link); break;
		default: link = any(); n.setFirstPrimitive(link); break;
		}
		Bvh::Node c = n; D3 l = dv(c.aabb.getMin()), h = dv(c.aabb.getMax());
		if (c.getPrimitiveCount() != count || c.getLeftNode() != link || c.getFirstPrimitive() != link || c.isLeaf() != (count != 0)) fail("node", "a node given count %u and link %u reports %u, %u and %u and is %sa leaf", count, link, c.getPrimitiveCount(), c.getLeftNode(), c.getFirstPrimitive(), c.isLeaf() ? "" : "not ");
		if (maxAbs(l - lo) != 0 || maxAbs(h - hi) != 0) fail("node", "the bounds of a node changed as its count and link were set");
	}
}

int main(int argc, char** argv)
{
	begin(argc, argv);
	#if defined(__OPTIMIZE__) && defined(NDEBUG)
	if (cases > 2000) for (int i = 0; i < 6; i++) wideMesh(); // not in the sanitizers' and memcheck's address spaces
	#endif
	for (vt::u64 k = 0; k < cases; k++)
	{
		curCase = k; nodeParts();
		Bvh b; if (!b.getNodes().empty() || !b.getPrimitives().empty()) fail("empty", "a new hierarchy is not empty");
		int builds = 1 + (int)rng.below(5);
		for (int n = 0; n < builds; n++)
		{
			bool big = k == 0 && n == 0; Geo g = genGeometry(240, false, big ? 70000 + rng.below(20000) : 0); if (big) VT_COUNT("hierarchies over more than 65536 primitives"); if (k < 3 && !n) sample("%u %s, %s, stride %u index %u", g.count, g.mesh ? "triangles" : "boxes", familyName[g.family], g.stride, g.indexSize);
			vt::count(std::string("family: ") + familyName[g.family]);
			if (n == 0 && rng.chance(2)) { VT_OP("construct"); b = g.create(); judge(b, g, "construction"); }
			else { VT_OP("recreate"); g.build(b); judge(b, g, n ? "rebuild" : "build"); if (n) VT_COUNT("rebuilds"); }
			if (!b.getNodeStack().empty()) fail("stack", "the node stack is not empty after a build");
			if (rng.chance(8)) { VT_OP("copy"); Bvh c = b; g.build(c); judge(c, g, "build of a copy"); judge(b, g, "original after its copy was rebuilt"); }
		}
	}
	return end();
}
