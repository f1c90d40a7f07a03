// C19: where rays and segments meet axis-aligned boxes (entry and exit parameters)
#include "geo.h"
#include "scale.h"
using namespace vf;
// reference: slab intervals with error bounds. meet: 1 yes, 0 no, -1 too close to call
template <class D> struct Slabs { L in = -1e300L, out = 1e300L, ein = 0, eout = 0; bool parallelOut = false, unsure = false, any = false; };
template <class D> Slabs<D> slabs(const typename D::A& a, const typename D::V& s, std::function<E<typename D::Real>(int)> d) {
	typedef typename D::Real R; typedef E<R> X; Slabs<D> r;
	for (int i = 0; i < D::N; i++) {
		X di = d(i), S(D::at(s, i)), l(D::at(a.inf, i)), h(D::at(a.sup, i));
		if (di.v == 0) { if (S.v < l.v || S.v > h.v) r.parallelOut = true; continue; }
		r.any = true; X t1 = (l - S) / di, t2 = (h - S) / di; if (t1.v > t2.v) std::swap(t1, t2); t1.e *= 4; t2.e *= 4;
		if (!(t1.e < 1e30L) || !(t2.e < 1e30L)) r.unsure = true;
		r.in = std::max(r.in, t1.v); r.ein = std::max(r.ein, t1.e); r.out = std::min(r.out, t2.v); r.eout = std::max(r.eout, t2.e);
	}
	return r;
}
template <class D> void check(Case& c, const Slabs<D>& s, bool seg, bool hit, typename D::Real ht, bool meets, typename D::Real t1, typename D::Real t2, const char* H, const char* T, const char* I, const char* P) {
	if (s.unsure) { c.cls("undecided"); return; }
	L e = s.ein + s.eout + 1e-30L; int m, h;     // m: the part t >= 0 (t <= 1) meets the box; h: it enters it from outside
	if (s.parallelOut) m = h = 0;
	else if (!s.any) { m = 1; h = -1; }
	else {
		L lo = std::max(s.in, (L)0), hi = seg ? std::min(s.out, (L)1) : s.out;
		m = hi - lo > e ? 1 : hi - lo < -e ? 0 : -1;
		h = (s.out - s.in < -e || s.in < -e || (seg && s.in > 1 + e)) ? 0 : (s.out - s.in > e && s.in > e && (!seg || s.in < 1 - e)) ? 1 : -1;
	}
	c.cls(m > 0 ? "meets" : m == 0 ? "misses" : "grazing"); c.cls(h > 0 ? "enters" : h == 0 ? "does not enter" : "grazing"); c.cls("starts inside", m > 0 && s.any && s.in < -e); c.cls("box behind", m == 0 && !s.parallelOut && s.out < -e); c.cls("beyond the end", seg && m == 0 && !s.parallelOut && s.in > 1 + e); c.cls("passes by", m == 0 && !s.parallelOut && s.in > s.out + e && s.out > e); c.cls("parallel outside", s.parallelOut);
	if (h >= 0) c.chk(hit == (h == 1), H, "reported %d, entry %.17Lg exit %.17Lg", int(hit), s.in, s.out);
	if (h == 1 && hit) c.nearAbs(ht, s.in, 2 * e, T);
	if (m >= 0) c.chk(meets == (m == 1), I, "reported %d, entry %.17Lg exit %.17Lg", int(meets), s.in, s.out);
	if (m == 1 && meets) { c.nearAbs(t1, std::max(s.in, (L)0), 2 * e, P); if (s.any || seg) c.nearAbs(t2, seg ? std::min(s.out, (L)1) : s.out, 2 * e, P); c.chk(t1 <= t2, P, "interval %.17g..%.17g", double(t1), double(t2)); }
	if (hit) c.chk(meets || m < 0, "a hit box is also intersected");
}
template <class D> void gStartDir(Case& c, const typename D::A& a, typename D::V& s, typename D::V& e) {
	typedef typename D::Real R;
	s = c.r.p(0.25) ? gNearBox<D>(c.r, a) : map<D>([&](int i) { R w = D::at(a.sup, i) - D::at(a.inf, i) + R(0.5); return D::at(a.inf, i) + w * R(c.r.uni(-3, 4)); });
	e = c.r.p(0.6) ? gNearBox<D>(c.r, a) : map<D>([&](int i) { R w = D::at(a.sup, i) - D::at(a.inf, i) + R(0.5); return D::at(a.inf, i) + w * R(c.r.uni(-3, 4)); });
	if (c.r.p(0.3)) { int k = c.r.n(D::N); D::at(e, k) = D::at(s, k); if (D::N == 3 && c.r.p(0.4)) { k = c.r.n(3); D::at(e, k) = D::at(s, k); } }
	if (c.r.p(0.15)) s = s + (s - e) * R(c.r.uni(0.1, 2));         // pulled away along the line
}
template <class D> void rays(Case& c) {
	typedef typename D::V V; typedef typename D::A A; typedef typename D::Real R; A a = gBox<D>(c, "box"); V s, e; gStartDir<D>(c, a, s, e);
	typename D::Ray r; if (c.r.p(0.8)) r = D::Ray::from(s, e - s); else { r.start = s; r.direction = e - s; c.cls("unnormalised direction"); }
	if (c.r.p(0.1)) r.direction = -r.direction; c.in("start", r.start); c.in("direction", r.direction);
	bool zero = true; for (int i = 0; i < D::N; i++) if (D::at(r.direction, i) != 0) zero = false; if (zero) { c.trivial = true; return; }
	for (int i = 0; i < D::N; i++) if (D::at(r.direction, i) != 0 && std::fabs(D::at(r.direction, i)) < R(1e-12)) { c.trivial = true; return; }
	auto sl = slabs<D>(a, r.start, [&](int i) { return E<R>(D::at(r.direction, i)); }); R t = R(-7), t1 = R(-7), t2 = R(-7); bool h = a.hits(t, r), m = a.intersects(t1, t2, r);
	check<D>(c, sl, false, h, t, m, t1, t2, "box hits ray", "ray entry parameter", "box intersects ray", "ray interval");
	if (h) { V p = r.pointAt(t); L off = -1e300L, sz = 0, dl = 0; for (int i = 0; i < D::N; i++) { sz = std::max(sz, fabsl((L)D::at(p, i)) + fabsl((L)D::at(r.start, i)) + fabsl((L)D::at(a.inf, i)) + fabsl((L)D::at(a.sup, i))); dl = std::max(dl, fabsl((L)D::at(r.direction, i))); off = std::max(off, std::max((L)D::at(a.inf, i) - D::at(p, i), (L)D::at(p, i) - D::at(a.sup, i))); }
		if (!sl.unsure) c.chk(fabsl(off) <= 64 * E<R>::u() * sz + 4 * sl.ein * dl, "the hit point lies on the box", "off by %.17Lg", off); }
}
template <class D> void lines(Case& c) {
	typedef typename D::V V; typedef typename D::A A; typedef typename D::Real R; A a = gBox<D>(c, "box"); V s, e; gStartDir<D>(c, a, s, e); if (c.r.p(0.03)) e = s; c.in("start", s); c.in("end", e); c.cls("null segment", s == e);
	typename D::Line l = D::Line::from(s, e); auto sl = slabs<D>(a, s, [&](int i) { return E<R>(D::at(e, i)) - E<R>(D::at(s, i)); }); R t = R(-7), t1 = R(-7), t2 = R(-7); bool h = a.hits(t, l), m = a.intersects(t1, t2, l);
	check<D>(c, sl, true, h, t, m, t1, t2, "box hits segment", "segment entry parameter", "box intersects segment", "segment interval");
	// a segment and its reverse meet the same boxes
	R u1, u2; bool m2 = a.intersects(u1, u2, D::Line::from(e, s)); if (m && m2 && !sl.unsure && s != e) { L tol = 4 * (sl.ein + sl.eout) + 8 * E<R>::u(); c.nearAbs(u1, 1 - (L)t2, tol, "reversed segment interval"); c.nearAbs(u2, 1 - (L)t1, tol, "reversed segment interval"); }
}
// small integers and directions of powers of two, on which every step is exact: starts and ends on faces, edges and corners, touching passes
template <class D> void grid(Case& c) {
	typedef typename D::Real R; typedef typename D::V V; typedef typename D::A A; A a; a.inf = map<D>([&](int) { return R(c.r.in(-6, 6)); }); a.sup = map<D>([&](int i) { return D::at(a.inf, i) + R(c.r.p(0.1) ? 0 : c.r.in(1, 5)); }); c.in("inf", a.inf); c.in("sup", a.sup);
	V s = c.in("start", map<D>([&](int i) { switch (c.r.n(5)) { case 0: return D::at(a.inf, i); case 1: return D::at(a.sup, i); case 2: return R(c.r.in(-9, 12)); case 3: return D::at(a.inf, i) + (D::at(a.sup, i) - D::at(a.inf, i)) / 2; default: return D::at(a.inf, i) - R(1 << c.r.n(3)); } }));
	V d = c.in("direction", map<D>([&](int) { return c.r.p(0.35) ? R(0) : R(c.r.sgn()) * R(1 << c.r.n(4)); })); double in = -1e300, out = 1e300; bool par = false, any = false, on = false;
	for (int i = 0; i < D::N; i++) { double S = D::at(s, i), l = D::at(a.inf, i), h = D::at(a.sup, i), q = D::at(d, i); if (S == l || S == h) on = true; if (q == 0) { if (S < l || S > h) par = true; continue; } any = true; double x = (l - S) / q, y = (h - S) / q; in = std::max(in, std::min(x, y)); out = std::min(out, std::max(x, y)); }
	bool h = !par && any && in >= 0 && in <= out, m = !par && std::max(in, 0.0) <= out; R t = R(-7), t1 = R(-7), t2 = R(-7);
	c.cls("start on a face, inwards", h && in == 0); c.cls("start on a face, outwards", m && out == 0); c.cls("touches an edge or corner", m && in == out); c.cls("slides along a face", m && on && in < out); c.cls("misses", !m);
	typename D::Ray r; r.start = s; r.direction = d; if (any) { bool g = a.hits(t, r), k = a.intersects(t1, t2, r); c.chk(g == h, "box hits ray on a grid", "reported %d, entry %g exit %g", int(g), in, out); if (g && h) c.same(t, R(in), "ray entry on a grid"); c.chk(k == m, "box intersects ray on a grid", "reported %d, entry %g exit %g", int(k), in, out); if (k && m) { c.same(t1, R(std::max(in, 0.0)), "ray interval on a grid"); c.same(t2, R(out), "ray interval on a grid"); } }
	typename D::Line l = D::Line::from(s, s + d); bool hs = h && in <= 1, ms = m && in <= 1; c.cls("ends on a face", hs && in == 1); bool g = a.hits(t, l), k = a.intersects(t1, t2, l); c.chk(g == hs, "box hits segment on a grid", "reported %d, entry %g exit %g", int(g), in, out); if (g && hs) c.same(t, R(in), "segment entry on a grid");
	c.chk(k == ms, "box intersects segment on a grid", "reported %d, entry %g exit %g", int(k), in, out); if (k && ms) { c.same(t1, R(std::max(in, 0.0)), "segment interval on a grid"); c.same(t2, R(std::min(out, 1.0)), "segment interval on a grid"); }
}
// the same ray, segment and box in another unit of length
template <class D> void scaled(Case& c) {
	typedef typename D::Real R; typedef typename D::V V; typedef typename D::A A; auto pt = [&]() { return map<D>([&](int) { return gSim<R>(c.r); }); };
	V a = c.in("a", pt()), b = c.in("b", pt()), s = c.in("start", pt()), e = c.in("end", pt()); if (c.r.p(0.4)) { R f = R(c.r.uni(0, 1)); e = a + (b - a) * f; c.in("aimed at", e); }
	bool zero = true; for (int i = 0; i < D::N; i++) if (D::at(e, i) != D::at(s, i)) zero = false; if (zero) { c.trivial = true; return; } bool met = false;
	similar<R>(c, "box, ray and segment in another unit of length", 3, [&](Sc<R>& o) {
		V pts[2] = {o.len(a), o.len(b)}; V u = o.len(s), w = o.len(e); A x = A::from(2, pts); R t, t1, t2; typename D::Ray r; r.start = u; r.direction = w - u; typename D::Ray n = D::Ray::from(u, w - u); typename D::Line l = D::Line::from(u, w);
		if (o.b(x.hits(t, r))) { o.v(t, 0); met = true; } if (o.b(x.intersects(t1, t2, r))) { o.v(t1, 0); o.v(t2, 0); } if (o.b(x.hits(t, n))) o.v(t, 1); if (o.b(x.intersects(t1, t2, n))) { o.v(t1, 1); o.v(t2, 1); }
		if (o.b(x.hits(t, l))) o.v(t, 0); if (o.b(x.intersects(t1, t2, l))) { o.v(t1, 0); o.v(t2, 0); } });
	c.cls("enters", met);
}
void vf::registerAll() {
	VF_DIMS(rays, "ray", 120000, "meets", "misses", "enters", "does not enter", "starts inside", "box behind", "passes by", "parallel outside");
	VF_DIMS(lines, "segment", 120000, "meets", "misses", "enters", "does not enter", "starts inside", "box behind", "beyond the end", "passes by", "parallel outside", "null segment");
	VF_DIMS(grid, "grid", 60000, "start on a face, inwards", "start on a face, outwards", "touches an edge or corner", "slides along a face", "misses", "ends on a face");
	VF_DIMS(scaled, "another unit", 60000, "enters");
}
VF_MAIN()
