// vt: quick=9000
// vt: thorough=400000
// vt: link=1
// vt: timeout=60
// vt: rule=each case interleaves one to four (re)builds of one hierarchy with three to eight queries: frustum queries with 1 to 12 planes placed around, across and beside the geometry and a few margins from leaf bounds, into an exact-size output buffer, with the internal or a caller's stack; and traversals whose answers are a random function of the node, recorded node by node; reported sets are compared with every leaf taken by itself; distinct by the set reported
#include "bvhgen.hpp"
#include "math/plane.hpp"
#include <stack>
using namespace vt;
namespace M = math;
using math::Plane;

static D3 absD(D3 a) { return { std::fabs(a.x), std::fabs(a.y), std::fabs(a.z) }; }
static int behind(const std::vector<Plane>& pl, D3 lo, D3 hi) // 1 behind some plane, 0 not, -1 too close to tell
{
	int r = 0;
	for (auto& p : pl)
	{
		D3 n = dv(p.getNormal()); double d = p.getDistance(), s = d + (n.x > 0 ? n.x * hi.x : n.x * lo.x) + (n.y > 0 ? n.y * hi.y : n.y * lo.y) + (n.z > 0 ? n.z * hi.z : n.z * lo.z);
		double m = 8 * EPS * (dot(absD(n), maxD(absD(lo), absD(hi))) + std::fabs(d)) + 1e-37; if (s < -m) return 1; if (s < m) r = -1;
	}
	return r;
}
static std::vector<Plane> planes(const Geo& g, const Bvh& b)
{
	std::vector<Plane> r; int n = rng.chance(3) ? 6 : 1 + (int)rng.below(12); D3 c = (g.rlo + g.rhi) * 0.5, e = (g.rhi - g.rlo) * 0.5; double size = len(e) + 1e-30; D3 focus = c + D3{ e.x * rng.range(-1, 1), e.y * rng.range(-1, 1), e.z * rng.range(-1, 1) };
	double tight = std::pow(10, rng.range(-1.5, 0.5)); if (rng.chance(8)) focus = c + genDir(rng) * size * 3;
	for (int i = 0; i < n; i++)
	{
		D3 nn = i < 6 && rng.chance(2) ? D3{ i / 2 == 0 ? (i & 1 ? 1.0 : -1) : 0, i / 2 == 1 ? (i & 1 ? 1.0 : -1) : 0, i / 2 == 2 ? (i & 1 ? 1.0 : -1) : 0 } : genDir(rng);
		double d = -dot(nn, focus) + size * tight * rng.range(0.1, 1);
		if (rng.chance(4)) // just beside the bounds of one node
		{
			auto& nd = b.getNodes()[rng.below((vt::u32)b.getNodes().size())]; D3 lo = dv(nd.aabb.getMin()), hi = dv(nd.aabb.getMax()), far = { nn.x > 0 ? hi.x : lo.x, nn.y > 0 ? hi.y : lo.y, nn.z > 0 ? hi.z : lo.z };
			d = -dot(nn, far) + (rng.chance(2) ? 1 : -1) * (std::fabs(dot(nn, far)) + size * 1e-3) * EPS * std::pow(10, rng.range(1.3, 3));
		}
		r.push_back(Plane(f32x4((float)nn.x, (float)nn.y, (float)nn.z, 0.0f), (float)d, false));
	}
	return r;
}

// the hierarchy lives on in another object, and the one it came from is rebuilt or goes away
static void relocate(std::unique_ptr<Bvh>& b)
{
	if (!rng.chance(3)) return;
	int how = (int)rng.below(4); VT_OP(how == 0 ? "copy" : how == 1 ? "move" : how == 2 ? "copy assignment" : "move assignment"); VT_COUNT("hierarchies copied or moved"); std::unique_ptr<Bvh> to;
	if (how == 0) to.reset(new Bvh(*b)); else if (how == 1) to.reset(new Bvh(std::move(*b)));
	else { to.reset(new Bvh()); if (rng.chance(2)) genGeometry(40, false, 0).build(*to); if (how == 2) *to = *b; else *to = std::move(*b); }
	if (rng.chance(2)) genGeometry(60, false, 0).build(*b);
	b.swap(to);
	if (rng.chance(2)) { VT_OP("self-assignment"); Bvh& self = *b; touch(self); *b = self; }
}

int main(int argc, char** argv)
{
	begin(argc, argv);
	for (vt::u64 k = 0; k < cases; k++)
	{
		curCase = k;
		std::unique_ptr<Bvh> owner(new Bvh()); std::stack<Bvh::Node*> own;
		{ Bvh& b = *owner; Plane p = Plane::left; VT_OP("query of an empty hierarchy"); if (b.collectInFrustum(&p, 1, nullptr) != 0) fail("empty", "an empty hierarchy reports primitives"); b.traverse([](const Bvh::Node&) { fail("empty", "an empty hierarchy visits a node"); return false; }, [](vt::u32, vt::u32) { fail("empty", "an empty hierarchy visits a leaf"); }); }
		int builds = 1 + (int)rng.below(4);
		for (int n = 0; n < builds; n++)
		{
			bool big = k == 0 && n == 0; Geo g = genGeometry(240, false, big ? 70000 + rng.below(20000) : 0); g.build(*owner); relocate(owner); Bvh& b = *owner; char why[256]; Tree t; if (!t.load(b, g.count, why, sizeof why)) { fail("structure", "%s", why); break; }
			auto& nodes = b.getNodes(); auto& prims = b.getPrimitives(); if (nodes.size() > 65536) VT_COUNT("hierarchies of more than 65536 nodes"); if (k < 3 && !n) sample("%u %s, %s, %zu nodes", g.count, g.mesh ? "triangles" : "boxes", familyName[g.family], nodes.size());
			int queries = 3 + (int)rng.below(6);
			for (int q = 0; q < queries; q++)
			{
				bool useOwn = rng.chance(3);
				if (rng.chance(2))
				{
					std::vector<Plane> pl = planes(g, b); std::unique_ptr<Plane[]> arr(new Plane[pl.size()]); for (size_t i = 0; i < pl.size(); i++) arr[i] = pl[i];
					std::unique_ptr<u32[]> out(new u32[g.count]); for (u32 i = 0; i < g.count; i++) out[i] = 0xfffffff0u;
					VT_OP("collectInFrustum"); u32 got = b.collectInFrustum(arr.get(), (uint8_t)pl.size(), out.get(), useOwn ? &own : nullptr);
					if (!own.empty() || !b.getNodeStack().empty()) { fail("stack", "the node stack is left with %zu and %zu entries", own.size(), b.getNodeStack().size()); while (!own.empty()) own.pop(); while (!b.getNodeStack().empty()) b.getNodeStack().pop(); }
					if (got > g.count) { fail("count", "%u primitives of %u reported", got, g.count); continue; }
					std::vector<u32> times(g.count); bool bad = false;
					for (u32 i = 0; i < got; i++) { if (out[i] >= g.count) { fail("count", "says it wrote %u primitives, entry %u is %u", got, i, out[i]); bad = true; break; } times[out[i]]++; }
					for (u32 i = got; i < g.count && !bad; i++) if (out[i] != 0xfffffff0u) { fail("excess", "writes entry %u although it reports %u", i, got); bad = true; }
					if (bad) continue;
					vt::u64 h = got;
					for (u32 i = 0; i < nodes.size(); i++) if (nodes[i].isLeaf())
					{
						int w = behind(pl, dv(nodes[i].aabb.getMin()), dv(nodes[i].aabb.getMax())); if (w < 0) { VT_COUNT("leaves too close to tell"); }
						else if (w) VT_COUNT("leaves behind"); else VT_COUNT("leaves visible");
						u32 have = times[prims[t.first[i]]]; h = hashMix(h, have);
						for (u32 p = t.first[i]; p < t.first[i] + t.number[i]; p++)
						{
							u32 x = times[prims[p]];
							if (w < 0 ? x > 1 || x != have : x != (w ? 0u : 1u)) { fail(w == 0 && x == 0 ? "missed" : x > 1 ? "repeated" : "unwanted", "primitive %u of leaf %u (%s) reported %u times with %zu planes (%s, %u primitives)", prims[p], i, w < 0 ? "close to a plane" : w ? "behind the frustum" : "in the frustum", x, pl.size(), familyName[g.family], g.count); break; }
						}
					}
					distinct(h); if (got == 0) VT_COUNT("queries seeing nothing"); else if (got == g.count) VT_COUNT("queries seeing everything"); else VT_COUNT("queries seeing a part");
				}
				else
				{
					u32 oneIn = rng.chance(4) ? 0 : 2 + rng.below(12); vt::u64 salt = rng.next(); if (rng.chance(16)) oneIn = 1;
					auto accept = [&](u32 i) { return oneIn == 0 || hashMix(salt, i) % oneIn != 0; };
					std::vector<u32> asked(nodes.size()), given(nodes.size()); u32 strange = 0, entries = 0; std::unordered_map<u32, u32> byRange; for (u32 i = 0; i < nodes.size(); i++) if (nodes[i].isLeaf()) byRange[t.first[i]] = i;
					// now and then the callbacks ask the same hierarchy a frustum question with their own stack
					u32 nest = g.count < 400 && rng.chance(4) ? 1 + rng.below(6) : 0, calls = 0, wrong = 0; std::unique_ptr<u32[]> inner(new u32[g.count]); f32x4 axis((float)genDir(rng).x, 1.0f, 0.5f, 0.0f); float away = (float)(4 * (len(g.rlo) + len(g.rhi)) * 2 + 1); Plane all(axis, away, false), none(axis, -away, false);
					auto ask = [&] { if (!nest || calls++ % nest || away > 1e37f) return; VT_COUNT("queries from inside a traversal"); bool see = calls % 3 != 0; u32 n = b.collectInFrustum(see ? &all : &none, 1, inner.get(), &own); if (n != (see ? g.count : 0u)) wrong++; };
					VT_OP("traverse");
					b.traverse([&](const Bvh::Node& nd) { size_t i = &nd - nodes.data(); if (i >= nodes.size()) { strange++; return false; } asked[i]++; entries++; ask(); return accept((u32)i); },
						[&](vt::u32 f, vt::u32 c) { auto it = byRange.find(f); entries++; ask(); if (it == byRange.end() || t.number[it->second] != c) { strange++; return; } given[it->second]++; });
					vt::count("visit log entries", entries); if (wrong || !own.empty()) { fail("nested", "%u frustum queries from inside a traversal were wrong, %zu entries left on their stack", wrong, own.size()); while (!own.empty()) own.pop(); } if (strange) fail("traverse-strange", "%u nodes or ranges are not of this hierarchy", strange);
					if (!b.getNodeStack().empty()) { fail("traverse-stack", "the node stack is left with %zu entries", b.getNodeStack().size()); while (!b.getNodeStack().empty()) b.getNodeStack().pop(); }
					std::vector<char> open(nodes.size()); vt::u64 h = 7;
					for (u32 i = 0; i < nodes.size(); i++) // ancestors accepted?
					{
						bool o = true; for (u32 p = i; o;) { o = accept(p); if (!p) break; p = t.parent[p]; } open[i] = o;
						if (nodes[i].isLeaf()) { h = hashMix(h, given[i]); if (given[i] != (o ? 1u : 0u)) { fail(o && !given[i] ? "traverse-missed" : given[i] > 1 ? "traverse-repeated" : "traverse-unwanted", "leaf %u handed out %u times, %s", i, given[i], o ? "accepted with all ancestors" : "not accepted"); break; } if (o) VT_COUNT("leaves handed out"); else VT_COUNT("leaves cut off"); }
					}
					distinct(h);
				}
			}
		}
	}
	return end();
}
