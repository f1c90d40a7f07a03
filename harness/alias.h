// Own-parts monitor: an operation whose argument is a part of the object it changes must do what it does with an
// argument of the same value taken from elsewhere. The same call runs twice, on x with an argument taken from x and on a
// copy with the argument taken from a second copy; no reference value is needed.
#pragma once
#include "vf.h"
namespace vf {
using namespace mathlib;
// What an object holds, by its public members: classes may hold more than that, and in any layout.
typedef std::vector<L> Parts;
template <class R> struct Part {
	Parts o;
	void p(R x) { o.push_back(x); }
	void p(const Vec2<R>& v) { p(v.x); p(v.y); }
	void p(const Vec3<R>& v) { p(v.x); p(v.y); p(v.z); }
	void p(const Vec4<R>& v) { p(v.x); p(v.y); p(v.z); p(v.w); }
	void p(const Mat2<R>& m) { p(m.x); p(m.y); }
	void p(const Mat3<R>& m) { p(m.x); p(m.y); p(m.z); }
	void p(const Mat34<R>& m) { p(m.rs); p(m.t); }
	void p(const Mat4<R>& m) { p(m.x); p(m.y); p(m.z); p(m.t); }
	void p(const Quat<R>& q) { p(q.x); p(q.y); p(q.z); p(q.w); }
	void p(const AABB2<R>& b) { p(b.inf); p(b.sup); }
	void p(const AABB3<R>& b) { p(b.inf); p(b.sup); }
	void p(const CAABB2<R>& b) { p(b.center); p(b.extents); }
	void p(const CAABB3<R>& b) { p(b.center); p(b.extents); }
	void p(const Circle<R>& b) { p(b.center); p(b.radius); }
	void p(const Sphere<R>& b) { p(b.center); p(b.radius); }
	void p(const Plane<R>& b) { p(b.normal); p(b.d); }
	void p(const ColorRGB<R>& x) { p(x.r); p(x.g); p(x.b); }
	void p(const ColorRGBA<R>& x) { p(x.r); p(x.g); p(x.b); p(x.a); }
	void p(const ColorHSV<R>& x) { p(x.h); p(x.s); p(x.v); }
	void p(const std::pair<Vec3<R>, Vec3<R>>& x) { p(x.first); p(x.second); }
};
template <class R, class T> Parts parts(const T& t) { Part<R> x; x.p(t); return x.o; }
// Two ways to the same value: equal but for rounding.
template <class R, class T> bool alike(const T& x, const T& y) {
	Parts a = parts<R>(x), b = parts<R>(y); L big = 0;
	for (size_t i = 0; i < a.size(); i++) { if (std::isfinite((double)a[i])) big = std::max(big, fabsl(a[i])); if (std::isfinite((double)b[i])) big = std::max(big, fabsl(b[i])); }
	for (size_t i = 0; i < a.size(); i++) if (!(a[i] == b[i] || (a[i] != a[i] && b[i] != b[i]) || fabsl(a[i] - b[i]) <= 64 * std::numeric_limits<R>::epsilon() * big)) return false;
	return true;
}
// An overwritten argument changes whole values, so the bound is generous; rounding may differ between the two runs.
// Operations that measure only a small part of what they hold (cancelled values) may be arbitrarily inexact there, hence
// the bound relates to the largest value in sight, before and after.
template <class R, class T, class F> void own(Case& c, const char* site, const T& value, F f) {
	T x = value, y = value; const T z = value;
	f(x, (const T&)x); f(y, z);
	std::vector<L> a = parts<R>(x), b = parts<R>(y), v = parts<R>(value); L big = 0;
	for (size_t i = 0; i < b.size(); i++) { if (std::isfinite((double)b[i])) big = std::max(big, fabsl(b[i])); }
	for (size_t i = 0; i < v.size(); i++) big = std::max(big, fabsl(v[i]) * 1e-3L);
	for (size_t i = 0; i < b.size(); i++) {
		bool same = a[i] == b[i] || (a[i] != a[i] && b[i] != b[i]) || (std::isfinite((double)a[i]) && std::isfinite((double)b[i]) && fabsl(a[i] - b[i]) <= (sizeof(R) == 4 ? 1e-3L : 1e-9L) * big);
		if (!c.chk(same, site, "value %zu is %.9Lg with an argument of its own, %.9Lg with a copy of it", i, a[i], b[i])) return;
	}
	c.cls(site);
}
template <class R> R gOwn(Rng& r) { switch (r.n(6)) { case 0: return R(r.in(-4, 4)); case 1: return R(r.sgn() * r.logu(0.01, 10)); default: return R(r.uni(-3, 3)); } }
template <class R> Vec2<R> gOwn2(Rng& r) { R a = gOwn<R>(r), b = gOwn<R>(r); return Vec2<R>(a, b); }
template <class R> Vec3<R> gOwn3(Rng& r) { R a = gOwn<R>(r), b = gOwn<R>(r), d = gOwn<R>(r); return Vec3<R>(a, b, d); }
}
