// Geometry and tree model shared by the hierarchy checks.
#pragma once
#include "vt.hpp"
#include "math/vector.hpp"
#include "math/simd/vector/float.hpp"
#include "math/bvh.hpp"
#include <algorithm>
#include <memory>

namespace vt
{
using math::Bvh; using math::f32x4; using math::Aabb;

inline D3 dv(f32x4 v) { return { v.getX(), v.getY(), v.getZ() }; }
inline double& at(D3& v, int i) { return i == 0 ? v.x : i == 1 ? v.y : v.z; }
inline double at(const D3& v, int i) { return i == 0 ? v.x : i == 1 ? v.y : v.z; }
inline f32x4 withGarbage(D3 v) { f32x4 f((float)v.x, (float)v.y, (float)v.z, genGarbage(rng)); touch(f); return f; }
inline D3 minD(D3 a, D3 b) { return { std::fmin(a.x, b.x), std::fmin(a.y, b.y), std::fmin(a.z, b.z) }; }
inline D3 maxD(D3 a, D3 b) { return { std::fmax(a.x, b.x), std::fmax(a.y, b.y), std::fmax(a.z, b.z) }; }

struct Geo
{
	bool mesh = false, ownCentroids = false; u32 count = 0, stride = 12, indexSize = 4, indexCount = 0; int family = 0;
	std::unique_ptr<uint8_t[]> verts, inds; // exactly as large as needed: a sanitizer sees any access beyond
	std::unique_ptr<Aabb[]> boxes; std::unique_ptr<f32x4[]> centroids;
	std::vector<D3> lo, hi, mean; D3 rlo, rhi; f32x4 rootLo, rootHi;

	void build(Bvh& b) const
	{
		Aabb root(rootLo, rootHi); const f32x4* c = ownCentroids ? centroids.get() : nullptr;
		if (mesh) b.recreate(verts.get(), inds.get(), root, indexCount, stride, indexSize, c);
		else b.recreate(boxes.get(), root, count, c);
	}
	Bvh create() const
	{
		Aabb root(rootLo, rootHi); const f32x4* c = ownCentroids ? centroids.get() : nullptr;
		return mesh ? Bvh(verts.get(), inds.get(), root, indexCount, stride, indexSize, c) : Bvh(boxes.get(), root, count, c);
	}
};
inline const char* const familyName[] = { "random", "clusters", "grid", "identical", "few positions", "collinear", "flat", "one ulp apart", "tiny", "negative z", "large", "huge", "nested", "long and thin", "geometric" };
constexpr int familyCount = 15;

// sane: only families whose costs are meaningful numbers, without ties
// exact: this many primitives, of a family without coinciding positions
inline Geo genGeometry(u32 maxCount, bool sane, u32 exact = 0)
{
	Geo g; g.mesh = rng.chance(2); g.family = (int)rng.below(familyCount);
	if (sane || exact) { static const int ok[] = { 0, 1, 6, 9, 10, 12, 13, 14 }; g.family = ok[rng.below(exact ? 7 : 8)]; }
	g.count = rng.chance(4) ? 1 + rng.below(6) : rng.chance(2) ? 1 + rng.below(40) : 1 + rng.below(maxCount); if (rng.chance(200)) g.count = 1 + rng.below(maxCount * 12); if (exact) g.count = exact;
	D3 org = rng.chance(3) ? genDir(rng) * std::pow(10, rng.range(0, 3)) : D3{ 0, 0, 0 }; double sc = 1, spread = rng.range(1, 20); int ax = (int)rng.below(3);
	if (g.family == 7) org = genDir(rng) * 1e6; if (g.family == 8) { org = { 0, 0, 0 }; sc = std::pow(10, rng.range(-44, -36)); } if (g.family == 10) sc = std::pow(10, rng.range(2, 6)); if (g.family == 11) { sc = std::pow(10, rng.range(12, 37)); org = { 0, 0, 0 }; } if (g.family == 9) org = { 0, 0, -spread * 3 };
	double mul = rng.chance(3) && g.family != 8 && g.family != 11 && g.family != 14 ? std::ldexp(1.0, (int)rng.below(57) - 48) : 1; // the whole scene, exactly scaled
	double ratio = std::pow(2, rng.range(0.3, 4)); u32 bunch = 1 + rng.below(6); if (g.family == 14) { org = { 0, 0, 0 }; g.count = std::max(g.count, 2u + rng.below(maxCount)); } // few split off at a time: deep trees
	double lowest = sane ? 1e-12 : rng.chance(2) ? 1e-18 : 1e-35; bool slanted = rng.chance(3); double turn = rng.chance(2) ? 1 : -1;
	D3 clusters[4]; for (D3& c : clusters) c = genDir(rng) * spread; D3 fixed[3] = { genDir(rng), genDir(rng), genDir(rng) };
	auto centre = [&](u32 i) -> D3 {
		switch (g.family)
		{
		case 1: return clusters[rng.below(4)] + genDir(rng) * rng.range(0, 0.5);
		case 2: { u32 w = 1 + (u32)std::sqrt((double)g.count); return { (double)(i % w), ax ? 0.0 : (double)(i % 3), (double)(i / w) }; }
		case 3: return { 0, 0, 0 };
		case 4: return clusters[rng.below(3)];
		case 5: { D3 p = { 0, 0, 0 }; at(p, ax) = rng.chance(2) ? (double)i : rng.range(0, (double)g.count); return p; }
		case 7: return { (double)((int)rng.below(3) - 1) * 0.0625, (double)((int)rng.below(2)) * 0.0625, 0 };
		case 12: return genDir(rng) * rng.range(0, 0.1);
		case 13: { D3 p = { rng.range(-0.1, 0.1), rng.range(-0.1, 0.1), rng.range(-0.1, 0.1) }; at(p, ax) = rng.range(-spread, spread); return p; }
		case 14: { double r = spread * turn * std::pow(ratio, -(double)(i / bunch)); if (std::fabs(r) < lowest) r = lowest * rng.range(0, 1); D3 p = slanted ? D3{ r, r * 0.7, -r } : D3{ 0, 0, 0 }; at(p, ax) = r; return p; }
		default: return { rng.range(-spread, spread), rng.range(-spread, spread), rng.range(-spread, spread) };
		}
	};
	g.lo.resize(g.count); g.hi.resize(g.count); g.mean.resize(g.count); double size = g.family == 7 ? 0 : rng.range(0.01, 1); bool same = g.family == 3 || (g.family != 7 && rng.chance(16));
	auto rnd = [&](D3 c, int which) { D3 p = c; if (g.family == 12) p = c + genDir(rng) * (1 + (double)which) * rng.range(0.5, 3); else if (g.family == 14) p = c + genDir(rng) * len(c) * 0.1 * rng.unit(); else p = c + (same ? fixed[which] : genDir(rng)) * size * (same ? 1 : rng.unit()); if (g.family == 6) at(p, ax) = 1; p = (org + p * sc) * mul; return D3{ (double)(float)p.x, (double)(float)p.y, (double)(float)p.z }; };
	if (g.mesh)
	{
		bool shared = rng.chance(3) && g.family != 3 && g.family != 4; u32 nv = shared ? 3 + rng.below(g.count * 2 + 1) : g.count * 3; if (exact > 30000 && rng.chance(2)) { shared = true; nv = std::min(nv, 65536u); }
		g.stride = rng.chance(2) ? 12 : rng.chance(3) ? 12 + rng.below(20) : 12 + 4 * rng.below(12); g.indexSize = nv <= 65536 && rng.chance(2) ? 2 : 4; g.indexCount = g.count * 3 + (rng.chance(4) ? rng.below(3) : 0);
		u32 base = nv <= 65536 && rng.chance(40) ? (rng.chance(2) ? 65536 : 32768 + rng.below(32768)) : 0; base = base > nv ? base - nv : 0; if (base && rng.chance(2)) g.indexSize = 2; // unused vertices come first
		size_t vb = (size_t)(nv + base) * g.stride; if (rng.chance(2)) vb -= g.stride - 12; // the last vertex may end with its position
		g.verts.reset(new uint8_t[vb]); memset(g.verts.get(), (int)(rng.u() & 255), (size_t)base * g.stride); for (size_t i = (size_t)base * g.stride; i < vb; i++) g.verts[i] = (uint8_t)rng.u();
		g.inds.reset(new uint8_t[(size_t)g.indexCount * g.indexSize]); std::vector<D3> pos(nv);
		for (u32 i = 0; i < nv; i++)
		{
			static D3 c; if (shared || i % 3 == 0) c = centre(shared ? i : i / 3); pos[i] = rnd(c, (int)(i % 3)); float f[3] = { (float)pos[i].x, (float)pos[i].y, (float)pos[i].z }; memcpy(g.verts.get() + (size_t)(i + base) * g.stride, f, 12);
		}
		std::vector<u32> perm(nv); for (u32 i = 0; i < nv; i++) perm[i] = i;
		for (u32 i = 0; i < g.indexCount; i++)
		{
			u32 id = shared ? (rng.chance(8) ? (rng.chance(2) ? nv - 1 : 0) : rng.below(nv)) : i < nv ? i : rng.below(nv);
			if (g.indexSize == 2) { uint16_t s = (uint16_t)(id + base); memcpy(g.inds.get() + (size_t)i * 2, &s, 2); } else { u32 s = id + base; memcpy(g.inds.get() + (size_t)i * 4, &s, 4); }
			u32 t = i / 3; if (t >= g.count) continue; D3 p = pos[id];
			if (i % 3 == 0) { g.lo[t] = g.hi[t] = p; g.mean[t] = p; } else { g.lo[t] = minD(g.lo[t], p); g.hi[t] = maxD(g.hi[t], p); g.mean[t] = g.mean[t] + p; }
			if (i % 3 == 2) g.mean[t] = g.mean[t] * (1.0 / 3);
		}
	}
	else
	{
		g.boxes.reset(new Aabb[g.count]);
		for (u32 i = 0; i < g.count; i++)
		{
			D3 c = centre(i), a = rnd(c, 0), b = rng.chance(16) ? a : rnd(c, 1); f32x4 l = withGarbage(minD(a, b)), h = withGarbage(maxD(a, b)); g.boxes[i] = Aabb(l, h); g.lo[i] = dv(l); g.hi[i] = dv(h); g.mean[i] = (g.lo[i] + g.hi[i]) * 0.5;
		}
	}
	g.rlo = g.lo[0]; g.rhi = g.hi[0]; for (u32 i = 1; i < g.count; i++) { g.rlo = minD(g.rlo, g.lo[i]); g.rhi = maxD(g.rhi, g.hi[i]); }
	if (!sane && rng.chance(4)) { g.rlo = g.rlo - D3{ 1, 2, 3 }; g.rhi = g.rhi + D3{ 3, 2, 1 }; for (int i = 0; i < 3; i++) { at(g.rlo, i) = (double)std::nextafterf((float)at(g.rlo, i), -INFINITY); at(g.rhi, i) = (double)std::nextafterf((float)at(g.rhi, i), INFINITY); } }
	g.rootLo = withGarbage(g.rlo); g.rootHi = withGarbage(g.rhi); g.rlo = dv(g.rootLo); g.rhi = dv(g.rootHi);
	g.ownCentroids = rng.chance(4);
	if (g.ownCentroids)
	{
		bool odd = !sane && rng.chance(2), ladder = rng.chance(3); double step = rng.range(3, 3.6), top = rng.range(120, 127) - (g.family == 8 || g.family == 11 ? 60 : 0);
		auto rung = [&](u32 i) { int e = (int)(top - step * (double)i); return sane && e < -110 ? 0.0 : std::ldexp(turn, e); }; g.centroids.reset(new f32x4[g.count]);
		for (u32 i = 0; i < g.count; i++) g.centroids[i] = withGarbage(ladder ? D3{ ax == 0 ? rung(i) : 0, ax == 1 ? rung(i) : 0, ax == 2 ? rung(i) : 0 } : odd ? centre(rng.u() % g.count) * (sc * mul) : g.mean[i]);
	}
	return g;
}

// the tree as built, node by node, with a verdict instead of an assumption about every link
struct Tree
{
	std::vector<u32> parent; std::vector<u32> first, number; // of the primitives below each node
	bool ok = false;
	bool load(const Bvh& b, u32 count, char* why, size_t n)
	{
		auto& nodes = b.getNodes(); auto& prims = b.getPrimitives(); size_t N = nodes.size();
		#define TREE_BAD(...) do { snprintf(why, n, __VA_ARGS__); return false; } while (0)
		if (prims.size() != count) TREE_BAD("primitive list has %zu entries for %u primitives", prims.size(), count);
		std::vector<char> got(count); for (u32 p : prims) { if (p >= count) TREE_BAD("primitive list names primitive %u of %u", p, count); if (got[p]++) TREE_BAD("primitive %u is listed twice", p); }
		if (N == 0 || N > (size_t)count * 2 - 1) TREE_BAD("%zu nodes for %u primitives", N, count);
		parent.assign(N, UINT32_MAX); first.assign(N, 0); number.assign(N, 0);
		std::vector<u32> order{ 0 }; std::vector<char> seenN(N); seenN[0] = 1;
		for (size_t k = 0; k < order.size(); k++)
		{
			u32 i = order[k]; if (nodes[i].isLeaf()) continue;
			u32 l = nodes[i].getLeftNode(); if (l >= N || l + 1 >= N) TREE_BAD("node %u links to children %u and %u of %zu nodes", i, l, l + 1, N);
			for (u32 c = l; c <= l + 1; c++) { if (seenN[c]++) TREE_BAD("node %u is reached twice, again from node %u", c, i); parent[c] = i; order.push_back(c); }
		}
		if (order.size() != N) TREE_BAD("only %zu of %zu nodes are reachable", order.size(), N);
		std::vector<char> used(count);
		for (u32 i : order) if (nodes[i].isLeaf())
		{
			u32 f = nodes[i].getFirstPrimitive(), c = nodes[i].getPrimitiveCount(); if (c > count || f > count - c) TREE_BAD("leaf %u has range %u + %u of %u", i, f, c, count);
			for (u32 p = f; p < f + c; p++) if (used[p]++) TREE_BAD("leaf ranges overlap at %u", p);
			first[i] = f; number[i] = c;
		}
		for (u32 p = 0; p < count; p++) if (!used[p]) TREE_BAD("no leaf holds entry %u of the primitive list", p);
		for (size_t k = order.size(); k-- > 0;)
		{
			u32 i = order[k]; if (nodes[i].isLeaf()) continue; u32 l = nodes[i].getLeftNode();
			u32 a = first[l] < first[l + 1] ? l : l + 1, o = a == l ? l + 1 : l; if (first[a] + number[a] != first[o]) TREE_BAD("children of node %u hold separate ranges", i);
			first[i] = first[a]; number[i] = number[a] + number[o];
		}
		return ok = true;
	}
};
} // namespace vt
