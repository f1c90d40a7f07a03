// C04: matrix composition, over random histories of every composing operation
#include "matops.h"
#include "alias.h"
using namespace vf;
using namespace mathlib;

#define HIST(T, gen, op) \
template <class R> void hist##T(Case& c) { \
	T<R> m = gen<R>(c, "m"); \
	int n = c.r.in(1, 10); \
	for (int i = 0; i < n; i++) { \
		if (!tame(ref(m))) { m = gen<R>(c, "m"); c.cls("restart"); } \
		c.cls(op<R>(c, m)); \
	} \
}
HIST(Mat2, gMat2, op2)
HIST(Mat3, gMat3, op3)
HIST(Mat34, gMat34, op34)
HIST(Mat4, gMat4, op4)

// the scale operations against the composition their comment documents (r * v = scale * (rs * v + t))
template <class R> void scaleLaw(Case& c) {
	Mat34<R> m = gMat34<R>(c, "m");
	Vec3<R> s = gCoef3<R, 3>(c);
	RM<R> M = ref(m), W = widen(rScale(s)) * M;
	bool diag = true;
	for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) if (i != j && M.a[i][j].v != 0) diag = false;
	if (s.x == s.y && s.y == s.z) diag = true;
	c.cls(diag ? "commutes" : "does not commute");
	Mat4<R> q(m.rs.x, m.rs.y, m.rs.z, m.t);
	Mat34<R> a = m; a.scale(s);
	Mat4<R> b = q; b.scale(s);
	Mat4<R> d = q.scaled(s);
	if (diag) { chkM(c, ref(a), {W}, "Mat34 scale composition"); chkM(c, ref(b), {W}, "Mat4 scale composition"); chkM(c, ref(d), {W}, "Mat4 scaled composition"); }
	else { chkM(c, ref(a), {W}, "Mat34 scale composition (rs and scale do not commute)"); chkM(c, ref(b), {W}, "Mat4 scale composition (rs and scale do not commute)"); chkM(c, ref(d), {W}, "Mat4 scaled composition (rs and scale do not commute)"); }
}

// constants, comparison, element access, conversions
template <class R> void basics(Case& c) {
	typedef typename std::conditional<sizeof(R) == 4, double, float>::type O;
	Mat2<R> a = gMat2<R>(c, "a"), a2 = gMat2<R>(c, "a2"); Mat3<R> b = gMat3<R>(c, "b"), b2 = gMat3<R>(c, "b2"); Mat34<R> d = gMat34<R>(c, "d"), d2 = gMat34<R>(c, "d2"); Mat4<R> e = gMat4<R>(c, "e"), e2 = gMat4<R>(c, "e2");
	// layout: data() walks the columns
	for (int i = 0; i < 4; i++) c.same(a.data()[i], R(ref(a).a[i % 2][i / 2].v), "Mat2 data");
	for (int i = 0; i < 9; i++) c.same(b.data()[i], R(ref(b).a[i % 3][i / 3].v), "Mat3 data");
	for (int i = 0; i < 16; i++) { c.same(e.data()[i], R(ref(e).a[i % 4][i / 4].v), "Mat4 data"); c.same(static_cast<const Mat4<R>&>(e).data()[i], e.data()[i], "Mat4 data const"); }
	for (int i = 0; i < 9; i++) c.same(d.data()[i], R(ref(d).a[i % 3][i / 3].v), "Mat34 data");
	for (int j = 0; j < 3; j++) { same(c, d[Coord(j)], j == 0 ? d.rs.x : j == 1 ? d.rs.y : d.rs.z, "Mat34 []"); same(c, e[Coord(j)], j == 0 ? e.x : j == 1 ? e.y : e.z, "Mat4 []"); same(c, static_cast<const Mat4<R>&>(e)[Coord(j)], e[Coord(j)], "Mat4 [] const"); same(c, static_cast<const Mat34<R>&>(d)[Coord(j)], d[Coord(j)], "Mat34 [] const"); }
	// equality is elementwise
	auto eq = [&](const RM<R>& p, const RM<R>& q) { for (int i = 0; i < p.n; i++) for (int j = 0; j < p.n; j++) if (p.a[i][j].v != q.a[i][j].v) return false; return true; };
	if (c.r.p(0.5)) { a2 = a; b2 = b; d2 = d; e2 = e; int k = c.r.n(16); if (c.r.p(0.7)) { R dl = R(1); a2.data()[k % 4] += dl; b2.data()[k % 9] += dl; if (k < 9) d2.data()[k] += dl; else (&d2.t.x)[k % 3] += dl; e2.data()[k] += dl; } }
	c.chk((a == a2) == eq(ref(a), ref(a2)) && (a != a2) == !eq(ref(a), ref(a2)), "Mat2 ==");
	c.chk((b == b2) == eq(ref(b), ref(b2)) && (b != b2) == !eq(ref(b), ref(b2)), "Mat3 ==");
	c.chk((d == d2) == eq(ref(d), ref(d2)) && (d != d2) == !eq(ref(d), ref(d2)), "Mat34 ==");
	c.chk((e == e2) == eq(ref(e), ref(e2)) && (e != e2) == !eq(ref(e), ref(e2)), "Mat4 ==");
	// set / from / copies
	{ Mat2<R> t; t.set(a); chkM(c, ref(t), {ref(a)}, "Mat2 set", 0); chkM(c, ref(Mat2<R>::from(a.x, a.y)), {ref(a)}, "Mat2 from", 0); t.setIdentity(); chkM(c, ref(t), {RM<R>(2)}, "Mat2 setIdentity", 0); }
	{ Mat3<R> t; t.set(b); chkM(c, ref(t), {ref(b)}, "Mat3 set", 0); chkM(c, ref(Mat3<R>::from(b.x, b.y, b.z)), {ref(b)}, "Mat3 from", 0); t.setIdentity(); chkM(c, ref(t), {RM<R>(3)}, "Mat3 setIdentity", 0); }
	{ Mat34<R> t; t.set(d); chkM(c, ref(t), {ref(d)}, "Mat34 set", 0); t.set(b); chkM(c, ref(t), {widen(ref(b))}, "Mat34 set(Mat3)", 0); t.set(b, d.t); chkM(c, ref(t), {rTrans(d.t) * widen(ref(b))}, "Mat34 set(Mat3,t)", 2); chkM(c, ref(Mat34<R>(b, d.t)), {ref(t)}, "Mat34(Mat3,t)", 0); chkM(c, ref(Mat34<R>::from(d.rs.x, d.rs.y, d.rs.z, d.t)), {ref(d)}, "Mat34 from", 0); t.set(d.rs.x, d.rs.y, d.rs.z); chkM(c, ref(t), {widen(ref(d.rs))}, "Mat34 set(x,y,z)", 0); t.setIdentity(); chkM(c, ref(t), {RM<R>(4)}, "Mat34 setIdentity", 0); }
	{ Mat4<R> t; t.set(e); chkM(c, ref(t), {ref(e)}, "Mat4 set", 0); t.set(b, d.t); chkM(c, ref(t), {ref(Mat34<R>(b, d.t))}, "Mat4 set(Mat3,t)", 0); chkM(c, ref(Mat4<R>(b, d.t)), {ref(t)}, "Mat4(Mat3,t)", 0); chkM(c, ref(Mat4<R>(b)), {widen(ref(b))}, "Mat4(Mat3)", 0); chkM(c, ref(Mat4<R>::from(e.x, e.y, e.z, e.t)), {ref(e)}, "Mat4 from(Vec4)", 0); chkM(c, ref(Mat4<R>::from(b.x, b.y, b.z, d.t)), {ref(t)}, "Mat4 from(Vec3)", 0); chkM(c, ref(Mat4<R>(b.x, b.y, b.z)), {widen(ref(b))}, "Mat4(x,y,z)", 0); t.setIdentity(); chkM(c, ref(t), {RM<R>(4)}, "Mat4 setIdentity", 0); }
	R k = gK<R>(c);
	chkM(c, ref(Mat2<R>(k)), {rScale(Vec2<R>(k, k))}, "Mat2(k)", 0); chkM(c, ref(Mat3<R>(k)), {rScale(Vec3<R>(k, k, k))}, "Mat3(k)", 0); chkM(c, ref(Mat34<R>(k)), {widen(rScale(Vec3<R>(k, k, k)))}, "Mat34(k)", 0); chkM(c, ref(Mat4<R>(k)), {widen(rScale(Vec3<R>(k, k, k)))}, "Mat4(k)", 0);
	chkM(c, ref(Mat2<R>::One), {RM<R>(2)}, "Mat2 One", 0); chkM(c, ref(Mat3<R>::One), {RM<R>(3)}, "Mat3 One", 0); chkM(c, ref(Mat34<R>::One), {RM<R>(4)}, "Mat34 One", 0); chkM(c, ref(Mat4<R>::One), {RM<R>(4)}, "Mat4 One", 0);
	chkM(c, ref(Mat2<R>::Zero), {zero<R>(2)}, "Mat2 Zero", 0); chkM(c, ref(Mat3<R>::Zero), {zero<R>(3)}, "Mat3 Zero", 0); chkM(c, ref(Mat4<R>::Zero), {zero<R>(4)}, "Mat4 Zero", 0);
	// cast
	auto castOk = [&](const auto& m, const auto& n, const char* site) { bool ok = true; auto p = ref(m); auto q = ref(n); for (int i = 0; i < p.n; i++) for (int j = 0; j < p.n; j++) if (L(O(R(p.a[i][j].v))) != q.a[i][j].v) ok = false; c.chk(ok, site); };
	castOk(a, a.template cast<O>(), "Mat2 cast"); castOk(b, b.template cast<O>(), "Mat3 cast"); castOk(d, d.template cast<O>(), "Mat34 cast"); castOk(e, e.template cast<O>(), "Mat4 cast");
}

// operations on a matrix with one of its own rows or elements
template <class R> void owns(Case& c) {
	typedef Vec3<R> V; typedef Mat2<R> A; typedef Mat3<R> B; typedef Mat34<R> T; typedef Mat4<R> H; typedef const B CB; typedef const T CT; typedef const H CH;
	V r[4]; for (V& v : r) v = gOwn3<R>(c.r); c.in("x", r[0]); c.in("y", r[1]); c.in("z", r[2]); c.in("t", r[3]); int i = c.in("row", c.r.n(3)), e = c.in("element", c.r.n(9)), g = c.r.n(12), h = c.r.n(16), f = e % 4;
	A a2(Vec2<R>(r[0].x, r[0].y), Vec2<R>(r[1].x, r[1].y)); B a3(r[0], r[1], r[2]); T a34(r[0], r[1], r[2], r[3]); H a4(Vec4<R>(r[0].x, r[0].y, r[0].z, gOwn<R>(c.r)), Vec4<R>(r[1].x, r[1].y, r[1].z, gOwn<R>(c.r)), Vec4<R>(r[2].x, r[2].y, r[2].z, gOwn<R>(c.r)), Vec4<R>(r[3].x, r[3].y, r[3].z, gOwn<R>(c.r)));
	own<R>(c, "Mat2 *= own element", a2, [&](A& x, const A& y) { x *= y.data()[f]; }); own<R>(c, "Mat2 *= itself", a2, [&](A& x, const A& y) { x *= y; }); if (a2.data()[f] != 0) own<R>(c, "Mat2 /= own element", a2, [&](A& x, const A& y) { x /= y.data()[f]; });
	 own<R>(c, "Mat2 rotate by own element", a2, [&](A& x, const A& y) { x.rotate(y.data()[f]); }); own<R>(c, "Mat2 rotatePre by own element", a2, [&](A& x, const A& y) { x.rotatePre(y.data()[f]); });
	own<R>(c, "Mat2 set to own element as angle", a2, [&](A& x, const A& y) { x.set(y.data()[f]); });
	own<R>(c, "Mat3 *= own element", a3, [&](B& x, CB& y) { x *= y.data()[e]; }); own<R>(c, "Mat3 *= itself", a3, [&](B& x, CB& y) { x *= y; }); if (a3.data()[e] != 0) own<R>(c, "Mat3 /= own element", a3, [&](B& x, CB& y) { x /= y.data()[e]; });
	
	own<R>(c, "Mat3 rotate about an axis by own element", a3, [&](B& x, CB& y) { x.rotate(Coord(f % 3), y.data()[e]); }); own<R>(c, "Mat3 rotatePre about an axis by own element", a3, [&](B& x, CB& y) { x.rotatePre(Coord(f % 3), y.data()[e]); });
	own<R>(c, "Mat3 set to a rotation by own element", a3, [&](B& x, CB& y) { x.set(Coord(f % 3), y.data()[e]); });
	own<R>(c, "Mat3 rotate by itself", a3, [&](B& x, CB& y) { x.rotate(y); }); own<R>(c, "Mat3 rotatePre by itself", a3, [&](B& x, CB& y) { x.rotatePre(y); });
	
	
	own<R>(c, "Mat34 translate by own row", a34, [&](T& x, CT& y) { x.translate((&y.rs.x)[f]); }); own<R>(c, "Mat34 translatePre by own row", a34, [&](T& x, CT& y) { x.translatePre((&y.rs.x)[f]); });
	own<R>(c, "Mat34 rotate about an axis by own element", a34, [&](T& x, CT& y) { x.rotate(Coord(i), y.data()[g]); }); own<R>(c, "Mat34 rotatePre about an axis by own element", a34, [&](T& x, CT& y) { x.rotatePre(Coord(i), y.data()[g]); });
	own<R>(c, "Mat34 set to a rotation by own element", a34, [&](T& x, CT& y) { x.set(Coord(i), y.data()[g], y.t); });
	own<R>(c, "Mat34 transform by own matrix", a34, [&](T& x, CT& y) { x.transform(y.rs); }); own<R>(c, "Mat34 transformPre by own matrix", a34, [&](T& x, CT& y) { x.transformPre(y.rs); }); own<R>(c, "Mat34 transform by itself", a34, [&](T& x, CT& y) { x.transform(y); }); own<R>(c, "Mat34 transformPre by itself", a34, [&](T& x, CT& y) { x.transformPre(y); });
	own<R>(c, "Mat4 /= own element", a4, [&](H& x, CH& y) { R k = y.data()[h]; if (k != 0) x /= y.data()[h]; });
	
	own<R>(c, "Mat4 transform by itself", a4, [&](H& x, CH& y) { x.transform(y); }); own<R>(c, "Mat4 transformPre by itself", a4, [&](H& x, CH& y) { x.transformPre(y); });
	own<R>(c, "Mat4 rotate about an axis by own element", a4, [&](H& x, CH& y) { x.rotate(Coord(i), y.data()[h]); }); own<R>(c, "Mat4 rotatePre about an axis by own element", a4, [&](H& x, CH& y) { x.rotatePre(Coord(i), y.data()[h]); });
	own<R>(c, "Mat4 set to a rotation by own element", a4, [&](H& x, CH& y) { x.set(Coord(i), y.data()[h]); });
}
void vf::registerAll() {
	VF_BOTH(histMat2, "histMat2", 30000, "*=m", "*m", "multiply", "*=self", "*k", "/k", "neg", "scale", "transpose", "rotate", "rotatePre", "zero", "near-identity", "singular", "reflection");
	VF_BOTH(histMat3, "histMat3", 30000, "*=m", "*m", "multiply", "*=self", "*k", "/k", "scale", "transpose", "rotate(m)", "rotatePre(m)", "rotate", "rotatePre", "near-identity", "rot coord", "rot axis-angle", "rot quat");
	VF_BOTH(histMat34, "histMat34", 30000, "*=m34", "*m34", "multiply", "*=self", "*m3", "transform(m3)", "transform", "transformPre", "scale", "scalePre", "translate", "translatePre", "rotate", "rotatePre", "t null", "t small");
	VF_BOTH(histMat4, "histMat4", 30000, "*m", "multiply", "*self", "*k", "/k", "scale", "scalePre", "translate", "translatePre", "transform", "transformPre", "transpose", "rotate", "rotatePre", "TRS", "projective", "t.w only");
	VF_BOTH(scaleLaw, "scaleLaw", 5000, "commutes", "does not commute");
	VF_BOTH(basics, "basics", 10000);
	VF_BOTH(owns, "own parts", 8000, "Mat3 /= own element", "Mat4 /= own element");
}
VF_MAIN()
