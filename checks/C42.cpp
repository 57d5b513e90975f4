// vt: link=1
// vt: configs=sse2,scalar
// vt: quick=2
// vt: thorough=40
// vt: tshards=1
// vt: units=aabb angles brdf bvh color-space color common flags hex ibl line matrix matrix/float matrix/projection matrix/transform packed-vector pbr-colors plane quaternion ray sh simd/matrix/float simd/types simd/vector/float simd/vector/int simd/vector/uint sphere tone-mapping triangle types vector vector/float vector/int vector/uint version
// vt: alone=pbr-colors
// vt: rule=one unit per public header that includes it first and the other headers after it in an order of its own, all linked into one program ahead of the library (and behind it, in every other configuration); a static object of each unit records every named constant and about a hundred results over all parts of the library (functions, shapes, projections, colors, harmonics, a hierarchy and a query) while the program starts, again in main, in threads, and while the program ends; all records must be the same bytes; distinct by record
#include "unit.hpp"
#include "vt.hpp"
#include <thread>
#include <unistd.h>
#include <sys/wait.h>
using namespace vt;
namespace vtu { Unit* units = nullptr; }
void vtu::raw(std::vector<Item>& o, const char* n, const void* p, size_t size) { o.push_back({ n, { (const unsigned char*)p, (const unsigned char*)p + size } }); }
bool vtu::lazy() { return getenv("VTU_LAZY") != nullptr; }
static bool differ(const std::vector<vtu::Item>& a, const std::vector<vtu::Item>& b, char* w, size_t n)
{
	if (a.size() != b.size()) { snprintf(w, n, "%zu values instead of %zu", b.size(), a.size()); return true; }
	for (size_t i = 0; i < a.size(); i++) if (a[i].bytes != b[i].bytes)
	{
		std::string s; for (auto* v : { &a[i].bytes, &b[i].bytes }) { s += v == &a[i].bytes ? " " : " instead of "; for (size_t k = 0; k < v->size() && k < 16; k += 4) { float f = 0; memcpy(&f, v->data() + k, std::min<size_t>(4, v->size() - k)); char t[32]; snprintf(t, sizeof t, "%s%g", k ? "," : "", f); s += t; } }
		snprintf(w, n, "%s:%s", a[i].name, s.c_str()); return true;
	}
	return false;
}
void vtu::atEnd(Unit& u)
{
	std::vector<Item> now; u.record(now); char w[300]; if (!differ(u.early, now, w, sizeof w)) return;
	printf("FAIL\tat-end\tunit that includes %s first: while the program ends, %s\n", u.name, w); fflush(stdout); _exit(10);
}
// The documented value of a named constant, as numbers in the order of the members; empty: none documented here.
static std::vector<float> documented(const std::string& type, const std::string& name)
{
	std::vector<float> dir; if (name == "left") dir = { -1, 0, 0, 0 }; if (name == "right") dir = { 1, 0, 0, 0 }; if (name == "bottom") dir = { 0, -1, 0, 0 }; if (name == "top") dir = { 0, 1, 0, 0 }; if (name == "back") dir = { 0, 0, -1, 0 }; if (name == "front") dir = { 0, 0, 1, 0 };
	float inf = INFINITY; std::vector<float> r; auto box = [](float a, float b) { return std::vector<float>{ a, a, a, a, b, b, b, b }; };
	if (type == "Aabb") { if (name == "zero") return box(0, 0); if (name == "one") return box(-0.5f, 0.5f); if (name == "two") return box(-1, 1); if (name == "half") return box(-0.25f, 0.25f); if (name == "full") return box(-FLT_MAX, FLT_MAX); if (name == "inf") return box(-inf, inf); return r; }
	if (type == "Ray") { r = { 0, 0, 0, 0 }; r.insert(r.end(), dir.begin(), dir.end()); return dir.empty() ? dir : r; }
	if (type == "Plane") { r = dir; if (r.size()) r.resize(8); return r; }
	if (type == "Sphere") { float x = name == "one" ? 0.5f : name == "two" ? 1.0f : 0.25f; return { 0, 0, 0, 0, x, x, x, x }; }
	if (type == "Color") return r;
	if (name == "identity")
	{
		if (type == "quat") return { 0, 0, 0, 1 }; int c = type == "f32x4x4" || type == "float4x4" ? 4 : type == "float4x3" ? 4 : type == "float3x3" ? 3 : type == "float2x2" ? 2 : 0, h = type == "float4x3" ? 3 : c;
		for (int i = 0; i < c; i++) for (int j = 0; j < h; j++) r.push_back(i == j); return r;
	}
	size_t n = type == "f32x4x4" || type == "float4x4" ? 16 : type == "float4x3" ? 12 : type == "float3x3" ? 9 : type == "float2x2" ? 4 : type.back() - '0'; if (n > 16) n = 4;
	if (dir.size()) { dir.resize(n); return dir; }
	float v; if (name == "zero") v = 0; else if (name == "one") v = 1; else if (name == "minusOne") v = -1; else if (type[0] != 'f') return r; else if (name == "min") v = FLT_MIN; else if (name == "minusMin") v = -FLT_MIN; else if (name == "max") v = FLT_MAX; else if (name == "minusMax") v = -FLT_MAX; else if (name == "epsilon") v = FLT_EPSILON; else if (name == "inf") v = inf; else if (name == "minusInf") v = -inf; else return r;
	return std::vector<float>(n, v);
}
static void constants(const vtu::Unit& u, const std::vector<vtu::Item>& now)
{
	VT_OP("documented values");
	for (auto& i : now)
	{
		std::string s = i.name; auto p = s.find("::"); if (p == std::string::npos || s.find('(') != std::string::npos) continue; auto type = s.substr(0, p); auto want = documented(type, s.substr(p + 2)); if (want.empty()) continue; VT_COUNT("documented constants");
		bool whole = type[0] == 'i' || type[0] == 'u'; std::string got; bool ok = i.bytes.size() >= want.size() * 4;
		for (size_t k = 0; ok && k < want.size(); k++) { float f; int32_t w; memcpy(&f, i.bytes.data() + 4 * k, 4); memcpy(&w, i.bytes.data() + 4 * k, 4); if (whole) f = (float)w; if (!(f == want[k] || (want.size() == 8 && type != "u32x4" && k % 4 == 3))) { ok = false; got = std::to_string(f) + " at " + std::to_string(k) + " instead of " + std::to_string(want[k]); } }
		evaluations++; if (!ok) fail("documented-constant", "unit that includes %s first: %s is %s", u.name, i.name, got.c_str());
	}
}
int main(int argc, char** argv)
{
	if (vtu::lazy()) { for (auto* u = vtu::units; u; u = u->next) u->record(u->early); return 0; }
	begin(argc, argv); int n = 0; std::vector<vtu::Item> first; char w[300]; const char* firstName = "";
	for (auto* u = vtu::units; u; u = u->next) n++;
	if (n < VT_UNITS) fail("units", "%d units of %d were initialised", n, VT_UNITS);
	for (auto* u = vtu::units; u; u = u->next)
	{
		VT_OP("start"); std::vector<vtu::Item> now; u->record(now); vt::evaluations += now.size(); VT_COUNT("units"); for (auto& i : now) { distinctBytes(i.bytes.data(), i.bytes.size()); static std::map<std::string, bool> seen; if (!seen[i.name]) { seen[i.name] = true; VT_COUNT("different things recorded"); } }
		constants(*u, now);
		if (differ(now, u->early, w, sizeof w)) fail("at-start", "unit that includes %s first: while the program starts, in main and then, recorded at the start, %s", u->name, w);
		if (first.empty()) { first = now; firstName = u->name; sample("%zu values in the unit that includes %s first", now.size(), u->name); } else if (differ(first, now, w, sizeof w)) fail("between-units", "units that include %s and %s first: %s", firstName, u->name, w);
		for (vt::u64 k = 0; k < cases; k++)
		{
			VT_OP("threads"); std::vector<vtu::Item> r[2]; std::thread a([&] { u->record(r[0]); }), b([&] { u->record(r[1]); }); a.join(); b.join(); evaluations += 2 * now.size();
			for (auto& x : r) if (differ(now, x, w, sizeof w)) fail("in-thread", "unit that includes %s first: in main and then in a thread %s", u->name, w);
		}
	}
	fflush(stdout); VT_OP("first use in main"); pid_t child = fork(); // the same program again, with no use before main
	if (!child) { setenv("VTU_LAZY", "1", 1); execv("/proc/self/exe", argv); _exit(11); }
	int status = 0; waitpid(child, &status, 0); VT_COUNT("program without a use before main");
	if (!WIFEXITED(status) || WEXITSTATUS(status)) fail("at-end", "a program that uses the library from main on and while it ends: %s (status %d)", WIFEXITED(status) && WEXITSTATUS(status) == 10 ? "results change at the end" : "it dies", status);
	return end();
}
