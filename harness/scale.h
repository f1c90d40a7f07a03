// Similarity monitor: the library has no preferred unit of length. A configuration and the same configuration scaled
// by a power of two must give the same answers, lengths scaled along. No reference value is needed, so it reaches
// scales (0.000001 and below, a million and above) at which the error bounds of the reference models say little.
//
// A computation records its answers with the power of length they carry. Where the two runs differ, both are repeated
// with inputs disturbed by far more than a rounding error: only a difference that stands out from what such
// disturbances cause is reported (a library that rounds differently near a border keeps the property).
#pragma once
#include "vf.h"
namespace vf {
using namespace mathlib;
template <class R> struct Sc {
	R s; int k; double eps; Rng jr;
	std::vector<L> out; std::vector<char> kind;
	Sc(int k_, double e, uint64_t seed) : s(std::ldexp(R(1), k_)), k(k_), eps(e), jr(seed) {}
	R jit(R x) { return eps == 0 ? x : R(x * (1 + eps * jr.uni(-1, 1))); }
	R len(R x, int deg = 1) { return std::ldexp(jit(x), deg * k); }
	Vec2<R> len(const Vec2<R>& v, int deg = 1) { R a = len(v.x, deg), b = len(v.y, deg); return Vec2<R>(a, b); }
	Vec3<R> len(const Vec3<R>& v, int deg = 1) { R a = len(v.x, deg), b = len(v.y, deg), c = len(v.z, deg); return Vec3<R>(a, b, c); }
	// answers
	void v(R x, int deg) { out.push_back(std::ldexp(L(x), -deg * k)); kind.push_back(0); }
	void v(const Vec2<R>& x, int deg) { v(x.x, deg); v(x.y, deg); }
	void v(const Vec3<R>& x, int deg) { v(x.x, deg); v(x.y, deg); v(x.z, deg); }
	void v(Quat<R> q, int deg) { for (int j = 0; j < 4; j++) v(q.data()[j], deg); }
	bool b(bool x) { out.push_back(x); kind.push_back(1); return x; }
	void i(int x) { out.push_back(x); kind.push_back(1); }
};
template <class R> R gSim(Rng& r) {
	switch (r.n(8)) { case 0: return R(0); case 1: case 2: return R(r.in(-3, 3)); case 3: return R(r.sgn() * r.logu(0.05, 4)); default: return R(r.uni(-4, 4)); }
}
template <class R> Vec2<R> gSim2(Rng& r) { R a = gSim<R>(r), b = gSim<R>(r); return Vec2<R>(a, b); }
template <class R> Vec3<R> gSim3(Rng& r) { R a = gSim<R>(r), b = gSim<R>(r), c = gSim<R>(r); return Vec3<R>(a, b, c); }

// an object made by from() or by set() on one that held something else
template <class T, class... X> T made(bool inPlace, const X&... x) { if (!inPlace) return T::from(x...); T t; memset((void*)&t, 0x45, sizeof t); t.set(x...); return t; }

// power: the highest power of length an intermediate value may reach without leaving the range of R
template <class R, class F> void similar(Case& c, const char* site, int power, F f) {
	// (power 1: nothing multiplies two lengths, so the scale may be one whose square is zero or infinite)
	int lim = (std::numeric_limits<R>::max_exponent - 10) / power - 6; lim = std::min(lim, power > 1 || sizeof(R) == 4 ? 90 : 700);
	int k = c.r.in(lim / 3, lim) * (c.r.p(0.75) ? -1 : 1); if (k > 0) k = std::max(1, k - 4);
	c.in("scale 2^", k);
	auto run = [&](int kk, double e, uint64_t seed) { Sc<R> o(kk, e, seed); f(o); return o; };
	Sc<R> a = run(0, 0, 1), b = run(k, 0, 1);
	auto eq = [](const Sc<R>& x, const Sc<R>& y) {
		if (x.kind != y.kind) return false;
		for (size_t i = 0; i < x.out.size(); i++) if (!(x.out[i] == y.out[i] || (x.out[i] != x.out[i] && y.out[i] != y.out[i]))) return false;
		return true; };
	if (eq(a, b)) { c.chk(true, site); return; }
	c.cls("scaled run differs");
	std::vector<Sc<R>> A(1, a), B(1, b); double e = sizeof(R) == 4 ? 2e-5 : 1e-10;
	for (int i = 0; i < 8; i++) { A.push_back(run(0, e, 7 + i)); B.push_back(run(k, e, 7 + i)); }
	auto shape = [](const Sc<R>& x) { std::string s; for (size_t i = 0; i < x.kind.size(); i++) { s += x.kind[i] ? (x.out[i] ? 'T' : 'F') : std::isfinite((double)x.out[i]) ? 'v' : 'n'; if (x.kind[i]) s += char(32 + int(x.out[i]) % 64); } return s; };
	std::string sa = shape(a), sb = shape(b);
	for (auto& x : A) if (shape(x) != sa) { c.cls("on a border"); return; }
	for (auto& x : B) if (shape(x) != sb) { c.cls("on a border"); return; }
	if (!c.chk(sa == sb, site, "answers differ between scale 1 and scale 2^%d", k)) return;
	for (size_t i = 0; i < a.out.size(); i++) if (!a.kind[i] && std::isfinite((double)a.out[i])) {
		L la = a.out[i], ha = la, lb = b.out[i], hb = lb;
		for (auto& x : A) { la = std::min(la, x.out[i]); ha = std::max(ha, x.out[i]); }
		for (auto& x : B) { lb = std::min(lb, x.out[i]); hb = std::max(hb, x.out[i]); }
		L gap = std::max(la - hb, lb - ha), spread = (ha - la) + (hb - lb);
		c.chk(gap <= 2 * spread + 64 * E<R>::u() * (fabsl(a.out[i]) + fabsl(b.out[i])), site, "value %zu is %.9Lg at scale 1 and %.9Lg (scaled back) at scale 2^%d", i, a.out[i], b.out[i], k);
	}
}
}
