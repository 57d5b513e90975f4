// Forced into every unit of an instrumented copy of the library by tools/memo.py (never used by the checks).
// Each function of the library may answer from a one-entry cache whose key leaves something out.
#pragma once
#include <cmath>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <type_traits>
#include <vector>
namespace vtm
{
constexpr int MODES = 9;
// 0 first argument only, 1 all but the last argument, 2 last argument only, 3 first lane of each, 4 first three lanes of each, 5 all but each last lane, 6 nearly equal (1e-6 relative), 7 close (1e-4 absolute), 8 signs ignored
struct Args { int n = 0, at[12], len[12]; bool ok = true; uint32_t w[160]; int total = 0; };
template<class T> void put(Args& a, const T& x)
{
	if constexpr (!std::is_trivially_copyable_v<T>) a.ok = false;
	else
	{
		int k = (int)((sizeof(T) + 3) / 4); if (a.n >= 12 || a.total + k > 160) { a.ok = false; return; }
		a.w[a.total + k - 1] = 0; memcpy(a.w + a.total, (const void*)&x, sizeof(T)); a.at[a.n] = a.total; a.len[a.n++] = k; a.total += k;
	}
}
inline float fl(uint32_t u) { float f; memcpy(&f, &u, 4); return f; }
inline bool equal(int mode, const Args& a, const Args& b)
{
	for (int i = 0; i < a.n; i++)
	{
		if (mode == 0 && i) continue;
		if (mode == 1 && i == a.n - 1) continue;
		if (mode == 2 && i != a.n - 1) continue;
		int k = a.len[i]; if (mode == 3) k = 1; if (mode == 4 && k > 3) k = 3; if (mode == 5 && k > 1) k--;
		for (int j = 0; j < k; j++)
		{
			uint32_t x = a.w[a.at[i] + j], y = b.w[b.at[i] + j]; if (x == y) continue;
			if (mode == 6 && std::fabs(fl(x) - fl(y)) <= 1e-6f * std::fabs(fl(x))) continue;
			if (mode == 7 && std::fabs(fl(x) - fl(y)) <= 1e-4f) continue;
			if (mode == 8 && (x ^ y) == 0x80000000u) continue;
			return false;
		}
	}
	return !((mode == 0 || mode == 1 || mode == 2) && a.n < 2);
}
struct State
{
	int fn = -1, mode = -1; const char* out = nullptr; std::vector<uint32_t> n;
	State() { if (auto p = getenv("VTT_MUT")) sscanf(p, "%d:%d", &fn, &mode); out = getenv("VTT_OUT"); if (out) n.assign((size_t)VTT_COUNT * MODES, 0); }
	~State() { if (!out) return; FILE* f = fopen(out, "w"); for (size_t i = 0; i < n.size(); i++) if (n[i]) fprintf(f, "%zu %zu %u\n", i / MODES, i % MODES, n[i]); fclose(f); out = nullptr; }
};
inline State& state() { static State s; return s; }
inline State& early = state();
inline thread_local bool busy = false;
inline bool live(int id) { State& s = state(); return !busy && (s.out || s.fn == id); }
struct Busy { Busy() { busy = true; } ~Busy() { busy = false; } };
template<class R> struct Entry { bool full = false; Args key; alignas(R) unsigned char r[sizeof(R)]; };
template<int ID, class F, class... A> auto memo(F f, const A&... as)
{
	typedef decltype(f()) R; Busy g; R r = f();
	if constexpr (std::is_trivially_copyable_v<R>)
	{
		static thread_local Entry<R> es[MODES]; Args key; (put(key, as), ...); State& s = state(); bool rec = s.out;
		if (key.ok) for (int m = rec ? 0 : s.mode; m < (rec ? MODES : s.mode + 1); m++)
		{
			Entry<R>& e = es[m];
			if (e.full && equal(m, e.key, key))
			{
				if (rec) { if (memcmp(e.r, (void*)&r, sizeof(R))) s.n[(size_t)ID * MODES + m]++; }
				else memcpy((void*)&r, e.r, sizeof(R));
			}
			else { e.full = true; e.key = key; memcpy(e.r, (void*)&r, sizeof(R)); }
		}
	}
	return r;
}
template<int ID, class O, class F, class... A> void memoOut(O& o, F f, const A&... as)
{
	Args key; (put(key, as), ...); { Busy g; f(); }
	if constexpr (std::is_trivially_copyable_v<O>)
	{
		static thread_local Entry<O> es[MODES]; State& s = state(); bool rec = s.out;
		if (key.ok) for (int m = rec ? 0 : s.mode; m < (rec ? MODES : s.mode + 1); m++)
		{
			Entry<O>& e = es[m];
			if (e.full && equal(m, e.key, key)) { if (rec) { if (memcmp(e.r, (void*)&o, sizeof(O))) s.n[(size_t)ID * MODES + m]++; } else memcpy((void*)&o, e.r, sizeof(O)); }
			else { e.full = true; e.key = key; memcpy(e.r, (void*)&o, sizeof(O)); }
		}
	}
}
}
#define VTT_ON(ID) (!__builtin_is_constant_evaluated() && ::vtm::live(ID))
