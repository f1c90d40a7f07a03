// dimension-independent view of the 2D and 3D shapes, shared by c17-c20
#pragma once
#include "vf.h"
namespace vf {
using namespace mathlib;
template <class R> struct D2 {
	enum { N = 2 }; typedef R Real; typedef Vec2<R> V; typedef AABB2<R> A; typedef CAABB2<R> C; typedef Circle<R> B; typedef Ray2<R> Ray; typedef Line2<R> Line;
	static R& at(V& v, int i) { return i ? v.y : v.x; } static R at(const V& v, int i) { return i ? v.y : v.x; }
	static V vec(Rng& r) { return gVec2<R>(r); } static V all(R k) { return V(k, k); }
	template <class X> static B inner(const X& a) { return a.innerCircle(); } template <class X> static B outer(const X& a) { return a.outerCircle(); } template <class X> static R measure(const X& a) { return a.area(); }
	template <class T> struct To { typedef D2<T> type; };
};
template <class R> struct D3 {
	enum { N = 3 }; typedef R Real; typedef Vec3<R> V; typedef AABB3<R> A; typedef CAABB3<R> C; typedef Sphere<R> B; typedef Ray3<R> Ray; typedef Line3<R> Line;
	static R& at(V& v, int i) { return i == 0 ? v.x : i == 1 ? v.y : v.z; } static R at(const V& v, int i) { return i == 0 ? v.x : i == 1 ? v.y : v.z; }
	static V vec(Rng& r) { return gVec3<R>(r); } static V all(R k) { return V(k, k, k); }
	template <class X> static B inner(const X& a) { return a.innerSphere(); } template <class X> static B outer(const X& a) { return a.outerSphere(); } template <class X> static R measure(const X& a) { return a.volume(); }
	template <class T> struct To { typedef D3<T> type; };
};
template <class D, class F> typename D::V map(F f) { typename D::V v = D::all(0); for (int i = 0; i < D::N; i++) D::at(v, i) = f(i); return v; }
// an array of points laid out with a stride: element i starts at i*stride
template <class D> struct Strided {
	typedef typename D::V V; std::vector<char> mem; int stride, n;
	Strided(Rng& r, const std::vector<V>& p, int pad) : stride(int(sizeof(V)) + pad * int(sizeof(typename D::Real))), n(int(p.size())) {
		mem.resize(size_t(stride) * (n - 1) + sizeof(V));       // nothing after the last point: reading past it is an error
		for (size_t i = 0; i < mem.size(); i++) mem[i] = char(r.next());
		for (int i = 0; i < n; i++) memcpy(&mem[size_t(i) * stride], (const void*)&p[i], sizeof(V));
	}
	const V* data() const { return (const V*)mem.data(); }
};
template <class D> std::vector<typename D::V> gPoints(Case& c, int n) {
	std::vector<typename D::V> p; for (int i = 0; i < n; i++) { p.push_back(i && c.r.p(0.1) ? p[c.r.n(i)] : D::vec(c.r)); if (i < 16) c.in("p", p.back()); }
	c.cls("very many points", n > 200);
	if (n > 1 && c.r.p(0.15)) { int k = c.r.n(D::N); for (auto& q : p) D::at(q, k) = D::at(p[0], k); c.note("flattened axis", k); }
	return p;
}
template <class D> typename D::A gBox(Case& c, const char* n) {
	typedef typename D::Real R; typename D::V a = D::vec(c.r), b = D::vec(c.r);
	if (c.r.p(0.1)) { int k = c.r.n(D::N); D::at(a, k) = D::at(b, k); } if (c.r.p(0.05)) b = a;
	typename D::A x; x.inf = map<D>([&](int i) { return std::min(D::at(a, i), D::at(b, i)); }); x.sup = map<D>([&](int i) { return std::max(D::at(a, i), D::at(b, i)); });
	std::string s = n; if (c.log) { c.in((s + ".inf").c_str(), x.inf); c.in((s + ".sup").c_str(), x.sup); } else { c.in("", x.inf); c.in("", x.sup); }
	return x;
}
// a point placed relative to a box: inside, on a face, just off a face or anywhere
template <class D> typename D::V gNearBox(Rng& r, const typename D::A& a) {
	typedef typename D::Real R;
	return map<D>([&](int i) { R l = D::at(a.inf, i), h = D::at(a.sup, i);
		switch (r.n(8)) { case 0: return l; case 1: return h; case 2: return std::nextafter(l, R(-1e30)); case 3: return std::nextafter(h, R(1e30)); case 4: return gReal<R>(r); default: return std::min(h, std::max(l, R(l + (h - l) * R(r.u01())))); } });
}
template <class D> bool inBox(const typename D::A& a, const typename D::V& p) { for (int i = 0; i < D::N; i++) if (!(D::at(p, i) >= D::at(a.inf, i) && D::at(p, i) <= D::at(a.sup, i))) return false; return true; }
template <class D> bool sameBox(const typename D::A& a, const typename D::A& b) { for (int i = 0; i < D::N; i++) if (D::at(a.inf, i) != D::at(b.inf, i) || D::at(a.sup, i) != D::at(b.sup, i)) return false; return true; }
}
#define VF_DIMS(fn, name, n, ...) \
	vf::reg(std::string(name) + " 2.f", n, [](vf::Case& c) { fn<vf::D2<float>>(c); }, std::vector<std::string>{__VA_ARGS__}); \
	vf::reg(std::string(name) + " 2.d", n, [](vf::Case& c) { fn<vf::D2<double>>(c); }, std::vector<std::string>{__VA_ARGS__}); \
	vf::reg(std::string(name) + " 3.f", n, [](vf::Case& c) { fn<vf::D3<float>>(c); }, std::vector<std::string>{__VA_ARGS__}); \
	vf::reg(std::string(name) + " 3.d", n, [](vf::Case& c) { fn<vf::D3<double>>(c); }, std::vector<std::string>{__VA_ARGS__})
