// Forced into every unit of an instrumented copy of the library by tools/triggers.py (never used by the checks).
// Each function of the library asks vtt::hit(function, lanes of its arguments...) whether the active planted fault fires.
#pragma once
#include <cmath>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <limits>
#include <type_traits>
#include <vector>
namespace vtt
{
struct Lanes { int n = 0; bool fl = false; double v[64]; uint32_t h = 2166136261u; };
template<char K, class T> Lanes lanes(const T& x)
{
	Lanes l; unsigned char b[sizeof(T)]; memcpy(b, (const void*)&x, sizeof(T));
	for (size_t i = 0; i < sizeof(T); i++) l.h = (l.h ^ b[i]) * 16777619u;
	l.h ^= l.h >> 15; l.h *= 2246822519u; l.h ^= l.h >> 13;
	if constexpr (std::is_arithmetic_v<T>) { l.n = 1; l.fl = std::is_floating_point_v<T>; l.v[0] = (double)x; }
	else if (K == 'f') { l.fl = true; l.n = sizeof(T) / 4 < 64 ? sizeof(T) / 4 : 64; for (int i = 0; i < l.n; i++) { float f; memcpy(&f, b + i * 4, 4); l.v[i] = f; } }
	else if (K == 'i') { l.n = sizeof(T) / 4 < 64 ? sizeof(T) / 4 : 64; for (int i = 0; i < l.n; i++) { int32_t f; memcpy(&f, b + i * 4, 4); l.v[i] = f; } }
	else if (K == 'u') { l.n = sizeof(T) / 4 < 64 ? sizeof(T) / 4 : 64; for (int i = 0; i < l.n; i++) { uint32_t f; memcpy(&f, b + i * 4, 4); l.v[i] = f; } }
	else if (K == 'c') { l.n = sizeof(T) < 64 ? sizeof(T) : 64; for (int i = 0; i < l.n; i++) l.v[i] = b[i]; }
	return l;
}
constexpr int TRIGGERS = 50;
inline const char* name(int t)
{
	static const char* n[TRIGGERS] = {"always", "a-lane-is-zero", "first-two-lanes-equal", "first-three-lanes-equal", "a-lane-above-1e4", "all-lanes-below-1e-3", "arguments-equal", "arguments-opposite",
		"all-lanes-whole", "three-lanes-negative", "a-lane-is-one", "ratio-above-1e6", "one-in-64-inputs", "2nd-lane-is-zero", "2nd-all-below-1e-3", "2nd-above-1e4", "negative-zero", "a-lane-above-1e7", "x-zero-y-zero", "above-65535",
		"above-2^24", "ten-divides", "2nd-first-three-lanes-equal", "2nd-negative", "z-is-largest", "one-in-1024-inputs",
		"length-near-one", "length-exactly-one", "2nd-length-near-one", "share-one-lane", "orthogonal", "parallel", "2nd-ratio-above-1e6", "lane-near-one", "descending", "x-largest-negative", "exactly-half", "odd-negative",
		"power-of-two", "2nd-power-of-two", "extreme-integer", "w-is-zero", "a-lane-above-1e12", "all-lanes-below-1e-12", "last-lane-largest", "2nd-a-lane-is-one", "2nd-all-zero", "2nd-much-larger", "2nd-much-smaller", "nearly-equal"};
	return n[t];
}
inline bool test(int t, const Lanes& a, const Lanes* b)
{
	int k = a.n < 4 ? a.n : a.n; int m = k < 3 ? k : 3;
	switch (t)
	{
	case 0: return true;
	case 1: for (int i = 0; i < m; i++) if (a.v[i] == 0) return true; return false;
	case 2: return k > 1 && a.v[0] == a.v[1];
	case 3: return k > 2 && a.v[0] == a.v[1] && a.v[1] == a.v[2];
	case 4: if (!a.fl) return false; for (int i = 0; i < m; i++) if (std::abs(a.v[i]) > 1e4 && std::abs(a.v[i]) < 1e7) return true; return false;
	case 5: { if (!a.fl) return false; bool nz = false; for (int i = 0; i < m; i++) { if (!(std::abs(a.v[i]) < 1e-3)) return false; nz |= a.v[i] != 0; } return nz; }
	case 6: return b && b->n == a.n && a.n && !memcmp(a.v, b->v, sizeof(double) * a.n);
	case 7: if (!b || b->n != a.n || !a.n) return false; { bool nz = false; for (int i = 0; i < m; i++) { if (a.v[i] != -b->v[i]) return false; nz |= a.v[i] != 0; } return nz; }
	case 8: if (!a.fl) return false; for (int i = 0; i < m; i++) if (a.v[i] != std::floor(a.v[i]) || std::abs(a.v[i]) > 1e4) return false; return k > 0;
	case 9: for (int i = 0; i < m; i++) if (!(a.v[i] < 0)) return false; return k > 0;
	case 10: for (int i = 0; i < m; i++) if (std::abs(a.v[i]) == 1) return true; return false;
	case 11: { if (k < 2) return false; double lo = INFINITY, hi = 0; for (int i = 0; i < m; i++) { double x = std::abs(a.v[i]); if (x == 0 || !std::isfinite(x)) return false; if (x < lo) lo = x; if (x > hi) hi = x; } return hi > lo * 1e6; }
	case 12: return k && ((a.h ^ (b ? b->h * 31 : 0)) & 63) == 5;
	case 13: if (!b) return false; for (int i = 0; i < b->n && i < 3; i++) if (b->v[i] == 0) return true; return false;
	case 14: { if (!b || !b->fl) return false; bool nz = false; for (int i = 0; i < b->n && i < 3; i++) { if (!(std::abs(b->v[i]) < 1e-3)) return false; nz |= b->v[i] != 0; } return nz; }
	case 15: if (!b || !b->fl) return false; for (int i = 0; i < b->n && i < 3; i++) if (std::abs(b->v[i]) > 1e4 && std::abs(b->v[i]) < 1e7) return true; return false;
	case 16: if (!a.fl) return false; for (int i = 0; i < m; i++) if (a.v[i] == 0 && std::signbit(a.v[i])) return true; return false;
	case 17: if (!a.fl) return false; for (int i = 0; i < m; i++) if (std::abs(a.v[i]) > 1e7 && std::abs(a.v[i]) < 1e12) return true; return false;
	case 18: return k > 2 && a.v[0] == 0 && a.v[1] == 0 && a.v[2] != 0;
	case 19: if (a.fl) return false; for (int i = 0; i < m; i++) if (a.v[i] > 65535) return true; return false;
	case 20: if (a.fl) return false; for (int i = 0; i < m; i++) if (a.v[i] > 16777216.0) return true; return false;
	case 21: if (a.fl) return false; for (int i = 0; i < m; i++) if (a.v[i] >= 10 && std::fmod(a.v[i], 10) == 0) return true; return false;
	case 22: return b && b->n > 2 && b->v[0] == b->v[1] && b->v[1] == b->v[2];
	case 23: if (!b) return false; for (int i = 0; i < b->n && i < 3; i++) if (!(b->v[i] < 0)) return false; return b->n > 0;
	case 24: return k > 2 && std::abs(a.v[2]) > std::abs(a.v[0]) && std::abs(a.v[2]) > std::abs(a.v[1]);
	case 25: return k && ((a.h ^ (b ? b->h * 31 : 0)) & 1023) == 5;
	default: break;
	}
	auto len = [](const Lanes& l) { double s = 0; int n = l.n < 4 ? l.n : (l.n == 4 ? 4 : 3); for (int i = 0; i < n; i++) s += l.v[i] * l.v[i]; return std::sqrt(s); };
	auto len3 = [](const Lanes& l) { double s = 0; for (int i = 0; i < l.n && i < 3; i++) s += l.v[i] * l.v[i]; return std::sqrt(s); };
	auto big = [](const Lanes& l) { double s = 0; for (int i = 0; i < l.n && i < 3; i++) if (std::abs(l.v[i]) > s) s = std::abs(l.v[i]); return s; };
	auto pow2 = [](double v) { if (v == 0 || !std::isfinite(v)) return false; int e; return std::abs(std::frexp(v, &e)) == 0.5; };
	switch (t)
	{
	case 26: { if (!a.fl || k < 2) return false; double l = len(a), l3 = len3(a); return (std::abs(l - 1) < 1e-2 && std::abs(l - 1) > 1e-6) || (std::abs(l3 - 1) < 1e-2 && std::abs(l3 - 1) > 1e-6); }
	case 27: { if (!a.fl || k < 2) return false; return std::abs(len(a) - 1) < 1e-6 || std::abs(len3(a) - 1) < 1e-6; }
	case 28: { if (!b || !b->fl || b->n < 2) return false; double l = len(*b), l3 = len3(*b); return (std::abs(l - 1) < 1e-2 && std::abs(l - 1) > 1e-6) || (std::abs(l3 - 1) < 1e-2 && std::abs(l3 - 1) > 1e-6); }
	case 29: { if (!b || b->n != a.n || a.n < 2) return false; int e = 0; for (int i = 0; i < m; i++) e += a.v[i] == b->v[i]; return e > 0 && e < m; }
	case 30: { if (!b || b->n < 3 || a.n < 3) return false; double d = a.v[0] * b->v[0] + a.v[1] * b->v[1] + a.v[2] * b->v[2], l = len3(a) * len3(*b); return l > 0 && std::abs(d) < 1e-3 * l; }
	case 31: { if (!b || b->n < 3 || a.n < 3) return false; double d = a.v[0] * b->v[0] + a.v[1] * b->v[1] + a.v[2] * b->v[2], l = len3(a) * len3(*b); return l > 0 && std::abs(d) > l * (1 - 1e-5); }
	case 32: { if (!b || b->n < 2) return false; double lo = INFINITY, hi = 0; for (int i = 0; i < b->n && i < 3; i++) { double x = std::abs(b->v[i]); if (x == 0 || !std::isfinite(x)) return false; if (x < lo) lo = x; if (x > hi) hi = x; } return hi > lo * 1e6; }
	case 33: if (!a.fl) return false; for (int i = 0; i < m; i++) if (a.v[i] != 1 && std::abs(std::abs(a.v[i]) - 1) < 1e-3) return true; return false;
	case 34: return k > 2 && a.v[0] > a.v[1] && a.v[1] > a.v[2] && a.v[2] > 0;
	case 35: return k > 2 && a.v[0] < 0 && -a.v[0] > std::abs(a.v[1]) && -a.v[0] > std::abs(a.v[2]);
	case 36: for (int i = 0; i < m; i++) if (std::abs(a.v[i]) == 0.5) return true; return false;
	case 37: for (int i = 0; i < m; i++) if (a.v[i] < 0 && std::fmod(a.v[i], 2) == -1) return true; return false;
	case 38: for (int i = 0; i < m; i++) if (!pow2(a.v[i])) return false; return k > 0;
	case 39: if (!b) return false; for (int i = 0; i < b->n && i < 3; i++) if (!pow2(b->v[i])) return false; return b->n > 0;
	case 40: if (a.fl) return false; for (int i = 0; i < m; i++) if (a.v[i] == -2147483648.0 || a.v[i] == 2147483647.0 || a.v[i] == 4294967295.0) return true; return false;
	case 41: return a.n == 4 && a.v[3] == 0;
	case 42: if (!a.fl) return false; for (int i = 0; i < m; i++) if (std::abs(a.v[i]) > 1e12 && std::isfinite(a.v[i])) return true; return false;
	case 43: { if (!a.fl) return false; bool nz = false; for (int i = 0; i < m; i++) { if (!(std::abs(a.v[i]) < 1e-12)) return false; nz |= a.v[i] != 0; } return nz; }
	case 44: { if (k < 2) return false; for (int i = 0; i + 1 < k; i++) if (!(std::abs(a.v[i]) < std::abs(a.v[k - 1]))) return false; return true; }
	case 45: if (!b) return false; for (int i = 0; i < b->n && i < 3; i++) if (std::abs(b->v[i]) == 1) return true; return false;
	case 46: if (!b || !b->n) return false; for (int i = 0; i < b->n && i < 3; i++) if (b->v[i] != 0) return false; return true;
	case 47: return b && b->n && k && big(a) > 0 && big(*b) > big(a) * 1e5 && std::isfinite(big(*b));
	case 48: return b && b->n && k && big(*b) > 0 && big(a) > big(*b) * 1e5 && std::isfinite(big(a));
	case 49: { if (!b || !a.fl || b->n != a.n || !a.n) return false; double d = 0; for (int i = 0; i < m; i++) d = std::fmax(d, std::abs(a.v[i] - b->v[i])); return d > 0 && d < 1e-4 * big(a); }
	}
	return false;
}
struct State
{
	int fn = -1, trig = -1; double scale = 0.3; const char* out = nullptr; std::vector<uint32_t> n;
	State()
	{
		if (auto p = getenv("VTT_MUT")) sscanf(p, "%d:%d:%lf", &fn, &trig, &scale);
		out = getenv("VTT_OUT"); if (out) n.assign(VTT_COUNT * TRIGGERS, 0);
	}
	~State()
	{
		if (!out) return;
		FILE* f = fopen(out, "w"); for (size_t i = 0; i < n.size(); i++) if (n[i]) fprintf(f, "%zu %zu %u\n", i / TRIGGERS, i % TRIGGERS, n[i]); fclose(f); out = nullptr;
	}
};
inline State& state() { static State s; return s; }
inline State& vttEarly = state();
inline thread_local bool busy = false;
inline bool decide(int id, const Lanes& a, const Lanes* b)
{
	State& s = state();
	if (s.out) { for (int t = 0; t < TRIGGERS; t++) if (test(t, a, b)) s.n[id * TRIGGERS + t]++; return false; }
	return test(s.trig, a, b);
}
inline bool live(int id) { State& s = state(); return !busy && (s.out || s.fn == id); }
struct Busy { Busy() { busy = true; } ~Busy() { busy = false; } };
template<char K, class T> void perturb(T& x)
{
	double s = state().scale;
	if constexpr (std::is_same_v<T, bool>) x = !x;
	else if constexpr (std::is_floating_point_v<T>) x = (T)(x + s * (std::abs(x) > 1e-3 ? std::abs(x) : (T)1));
	else if constexpr (std::is_integral_v<T>) x = (T)(x + 1);
	else if constexpr (K == 'f')
	{
		float f[sizeof(T) / 4]; memcpy(f, (const void*)&x, sizeof(f)); float m = 0; for (float v : f) if (std::abs(v) > m && std::isfinite(v)) m = std::abs(v);
		f[1 % (sizeof(T) / 4)] += (float)s * (m > 1e-3f ? m : 1.0f); memcpy((void*)&x, f, sizeof(f));
	}
	else if constexpr (K == 'i' || K == 'u') { uint32_t f[sizeof(T) / 4]; memcpy(f, (const void*)&x, sizeof(f)); uint32_t& w = f[1 % (sizeof(T) / 4)]; w = w == UINT32_MAX ? 0 : w == 0 ? UINT32_MAX : w + 1; memcpy((void*)&x, f, sizeof(f)); }
	else if constexpr (K == 'c') { unsigned char f[sizeof(T)]; memcpy(f, (const void*)&x, sizeof(f)); f[sizeof(T) > 1]++; memcpy((void*)&x, f, sizeof(f)); }
}
template<char KA, class A> bool fire(int id, const A& a) { return decide(id, lanes<KA>(a), nullptr); }
template<char KA, char KB, class A, class B> bool fire(int id, const A& a, const B& b) { auto l = lanes<KB>(b); return decide(id, lanes<KA>(a), &l); }
template<class F> void alone(F f) { Busy g; f(); }
template<char K, class F> auto twist(F f) { Busy g; auto r = f(); perturb<K>(r); return r; }
template<char K, class F> auto twistp(F f) { Busy g; auto r = f(); perturb<K>(*r); return r; }
}
#define VTT_ON(ID) (!__builtin_is_constant_evaluated() && ::vtt::live(ID))
