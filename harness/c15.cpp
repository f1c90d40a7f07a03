// C15: RGB and RGBA colours
#include "vf.h"
#include "alias.h"
using namespace vf;
using namespace mathlib;
template <class R> ColorRGB<R> gRGB(Case& c, const char* n) { Vec3<R> v = c.r.p(0.5) ? Vec3<R>(R(c.r.u01()), R(c.r.u01()), R(c.r.u01())) : gVec3<R>(c.r); c.in(n, v); return ColorRGB<R>(v.x, v.y, v.z); }
template <class R> ColorRGBA<R> gRGBA(Case& c, const char* n) { Vec4<R> v = gVec4<R>(c.r); c.in(n, v); return ColorRGBA<R>(v.x, v.y, v.z, v.w); }
template <class R> void eq3(Case& c, const ColorRGB<R>& g, R r, R gg, R b, const char* site) { c.same(g.r, r, site); c.same(g.g, gg, site); c.same(g.b, b, site); }
template <class R> void eq4(Case& c, const ColorRGBA<R>& g, R r, R gg, R b, R a, const char* site) { c.same(g.r, r, site); c.same(g.g, gg, site); c.same(g.b, b, site); c.same(g.a, a, site); }
template <class R> void rgb(Case& c) {
	typedef E<R> X; typedef ColorRGB<R> C; C a = gRGB<R>(c, "a"), b = gRGB<R>(c, "b"); R k = c.in("k", gNonZero<R>(c.r)), t = c.in("t", c.r.p(0.3) ? R(c.r.n(2)) : c.r.p(0.2) ? R(c.r.uni(-1, 2)) : gRatio<R>(c.r));
	c.cls("ratio 0", t == 0); c.cls("ratio 1", t == 1); c.cls("ratio between", t > 0 && t < 1);
	auto nr = [&](const C& g, X r, X gg, X bb, const char* s) { c.near(g.r, r, s, 2); c.near(g.g, gg, s, 2); c.near(g.b, bb, s, 2); };
	X ar(a.r), ag(a.g), ab(a.b), br(b.r), bg(b.g), bb(b.b), K(k), T(t);
	nr(a + b, ar + br, ag + bg, ab + bb, "rgb +"); nr(a - b, ar - br, ag - bg, ab - bb, "rgb -"); nr(a * k, ar * K, ag * K, ab * K, "rgb * k"); nr(a / k, ar / K, ag / K, ab / K, "rgb / k"); eq3(c, -a, -a.r, -a.g, -a.b, "rgb negation");
	C x = a; nr(x += b, ar + br, ag + bg, ab + bb, "rgb +="); x = a; nr(x -= b, ar - br, ag - bg, ab - bb, "rgb -="); x = a; nr(x *= k, ar * K, ag * K, ab * K, "rgb *="); x = a; x /= k; nr(x, ar / K, ag / K, ab / K, "rgb /=");
	x = a; x += x; nr(x, ar + ar, ag + ag, ab + ab, "rgb += itself"); x = a; x -= x; eq3(c, x, R(0), R(0), R(0), "rgb -= itself");
	nr(C::fromInterp(a, b, t), ar + (br - ar) * T, ag + (bg - ag) * T, ab + (bb - ab) * T, "rgb interp"); x = a; nr(x.interp(x, b, t), ar + (br - ar) * T, ag + (bg - ag) * T, ab + (bb - ab) * T, "rgb interp onto the first color"); x = b; nr(x.interp(a, x, t), ar + (br - ar) * T, ag + (bg - ag) * T, ab + (bb - ab) * T, "rgb interp onto the second color");
	if (t == 0) c.chk(C::fromInterp(a, b, t) == a, "rgb interp at 0"); if (t == 1) c.chk(C::fromInterp(a, b, t) == b, "rgb interp at 1");
	c.chk(a == a && !(a != a), "rgb equality"); C d = a; int ch = c.in("channel", c.r.n(3)); R& w = ch == 0 ? d.r : ch == 1 ? d.g : d.b; w = std::nextafter(w, R(1e30)); c.chk(a != d && !(a == d), "rgb inequality in one channel");
	eq3(c, C(a.r, a.g, a.b), a.r, a.g, a.b, "rgb constructor"); eq3(c, C(k), k, k, k, "rgb gray constructor"); int i = c.in("i", c.r.n(256)), j = c.in("j", c.r.n(256)), l = c.in("l", c.r.n(256));
	nr(C(i, j, l), X(R(i)) / X(R(255)), X(R(j)) / X(R(255)), X(R(l)) / X(R(255)), "rgb from bytes"); C y; eq3(c, y.set(a.r, a.g, a.b), a.r, a.g, a.b, "rgb set"); C z; z.set(b); c.chk(z == b, "rgb set color");
	const C ca = a; C ma = a; for (int q = 0; q < 3; q++) { R v = q == 0 ? a.r : q == 1 ? a.g : a.b; c.same(ca.data()[q], v, "rgb data"); c.same(ma.data()[q], v, "rgb data"); } ma.data()[2] = k; eq3(c, ma, a.r, a.g, k, "rgb data is writable");
	eq4(c, a.toRGBA(k), a.r, a.g, a.b, k, "rgb toRGBA"); eq4(c, a.toRGBA(), a.r, a.g, a.b, R(1), "rgb toRGBA opaque");
	ColorRGB<double> cd = a.template cast<double>(); c.same(cd.r, double(a.r), "rgb cast"); c.same(cd.g, double(a.g), "rgb cast"); c.same(cd.b, double(a.b), "rgb cast"); ColorRGB<float> cf = a.template cast<float>(); c.same(cf.r, float(a.r), "rgb cast"); c.same(cf.g, float(a.g), "rgb cast"); c.same(cf.b, float(a.b), "rgb cast");
	eq3(c, C::Black, R(0), R(0), R(0), "rgb Black"); eq3(c, C::White, R(1), R(1), R(1), "rgb White"); eq3(c, C::Red, R(1), R(0), R(0), "rgb Red"); eq3(c, C::Green, R(0), R(1), R(0), "rgb Green"); eq3(c, C::Blue, R(0), R(0), R(1), "rgb Blue");
}
template <class R> void rgba(Case& c) {
	typedef E<R> X; typedef ColorRGBA<R> C; C a = gRGBA<R>(c, "a"), b = gRGBA<R>(c, "b"); R k = c.in("k", gNonZero<R>(c.r)), t = c.in("t", c.r.p(0.3) ? R(c.r.n(2)) : c.r.p(0.2) ? R(c.r.uni(-1, 2)) : gRatio<R>(c.r));
	c.cls("ratio 0", t == 0); c.cls("ratio 1", t == 1); c.cls("ratio between", t > 0 && t < 1);
	auto nr = [&](const C& g, X r, X gg, X bb, X aa, const char* s) { c.near(g.r, r, s, 2); c.near(g.g, gg, s, 2); c.near(g.b, bb, s, 2); c.near(g.a, aa, s, 2); };
	X ar(a.r), ag(a.g), ab(a.b), aa(a.a), br(b.r), bg(b.g), bb(b.b), ba(b.a), K(k), T(t);
	nr(a + b, ar + br, ag + bg, ab + bb, aa, "rgba +"); nr(a - b, ar - br, ag - bg, ab - bb, aa, "rgba -"); nr(a * k, ar * K, ag * K, ab * K, aa, "rgba * k"); nr(a / k, ar / K, ag / K, ab / K, aa, "rgba / k"); eq4(c, -a, -a.r, -a.g, -a.b, a.a, "rgba negation");
	C x = a; nr(x += b, ar + br, ag + bg, ab + bb, aa, "rgba +="); x = a; nr(x -= b, ar - br, ag - bg, ab - bb, aa, "rgba -="); x = a; nr(x *= k, ar * K, ag * K, ab * K, aa, "rgba *="); x = a; x /= k; nr(x, ar / K, ag / K, ab / K, aa, "rgba /="); x = a; nr(x += x, ar + ar, ag + ag, ab + ab, aa, "rgba += itself");
	nr(C::fromInterp(a, b, t), ar + (br - ar) * T, ag + (bg - ag) * T, ab + (bb - ab) * T, aa + (ba - aa) * T, "rgba interp"); x = a; nr(x.interp(x, b, t), ar + (br - ar) * T, ag + (bg - ag) * T, ab + (bb - ab) * T, aa + (ba - aa) * T, "rgba interp onto the first color"); x = b; nr(x.interp(a, x, t), ar + (br - ar) * T, ag + (bg - ag) * T, ab + (bb - ab) * T, aa + (ba - aa) * T, "rgba interp onto the second color");
	if (t == 0) c.chk(C::fromInterp(a, b, t) == a, "rgba interp at 0"); if (t == 1) c.chk(C::fromInterp(a, b, t) == b, "rgba interp at 1");
	c.chk(a == a && !(a != a), "rgba equality"); C d = a; int ch = c.in("channel", c.r.n(4)); R& w = ch == 0 ? d.r : ch == 1 ? d.g : ch == 2 ? d.b : d.a; w = std::nextafter(w, R(1e30)); c.chk(a != d && !(a == d), "rgba inequality in one channel");
	eq4(c, C(a.r, a.g, a.b, a.a), a.r, a.g, a.b, a.a, "rgba constructor"); eq4(c, C(a.r, a.g, a.b), a.r, a.g, a.b, R(1), "rgba opaque constructor"); eq4(c, C(k), k, k, k, R(1), "rgba gray constructor"); eq4(c, C(k, t), k, k, k, t, "rgba gray and alpha constructor");
	int i = c.in("i", c.r.n(256)), j = c.in("j", c.r.n(256)), l = c.in("l", c.r.n(256)), m = c.in("m", c.r.n(256)); X N(R(255));
	nr(C(i, j, l, m), X(R(i)) / N, X(R(j)) / N, X(R(l)) / N, X(R(m)) / N, "rgba from bytes"); nr(C(i, j, l), X(R(i)) / N, X(R(j)) / N, X(R(l)) / N, X(R(1)), "rgba from bytes, opaque");
	C y; eq4(c, y.set(a.r, a.g, a.b, k), a.r, a.g, a.b, k, "rgba set"); eq4(c, y.set(b.r, b.g, b.b), b.r, b.g, b.b, R(1), "rgba set opaque"); C z; z.set(b); c.chk(z == b, "rgba set color");
	const C ca = a; C ma = a; for (int q = 0; q < 4; q++) { R v = q == 0 ? a.r : q == 1 ? a.g : q == 2 ? a.b : a.a; c.same(ca.data()[q], v, "rgba data"); c.same(ma.data()[q], v, "rgba data"); } ma.data()[3] = k; eq4(c, ma, a.r, a.g, a.b, k, "rgba data is writable");
	eq3(c, a.toRGB(), a.r, a.g, a.b, "rgba toRGB"); c.chk(a.toRGB().toRGBA(a.a) == a, "rgba to rgb and back");
	ColorRGBA<double> cd = a.template cast<double>(); c.same(cd.r, double(a.r), "rgba cast"); c.same(cd.g, double(a.g), "rgba cast"); c.same(cd.b, double(a.b), "rgba cast"); c.same(cd.a, double(a.a), "rgba cast"); ColorRGBA<float> cf = a.template cast<float>(); c.same(cf.a, float(a.a), "rgba cast"); c.same(cf.r, float(a.r), "rgba cast"); c.same(cf.g, float(a.g), "rgba cast"); c.same(cf.b, float(a.b), "rgba cast");
	eq4(c, C::Black, R(0), R(0), R(0), R(1), "rgba Black"); eq4(c, C::White, R(1), R(1), R(1), R(1), "rgba White"); eq4(c, C::Red, R(1), R(0), R(0), R(1), "rgba Red"); eq4(c, C::Green, R(0), R(1), R(0), R(1), "rgba Green"); eq4(c, C::Blue, R(0), R(0), R(1), R(1), "rgba Blue");
}
// colors changed by their own channels
template <class R> void owns(Case& c) {
	typedef ColorRGB<R> A; typedef ColorRGBA<R> B; typedef ColorHSV<R> H; auto u = [&] { return R(c.r.uni(0.05, 1)); }; A a(u(), u(), u()), a1(u(), u(), u()); B b(u(), u(), u(), u()), b1(u(), u(), u(), u()); H h(R(c.r.uni(0, 6)), u(), u()), h1(R(c.r.uni(0, 6)), u(), u()); int i = c.in("channel", c.r.n(4)), j = i % 3; R w = c.in("w", u());
	for (int k = 0; k < 3; k++) c.in("rgb", (&a.r)[k]);
	own<R>(c, "rgb *= own channel", a, [&](A& x, const A& y) { x *= (&y.r)[j]; }); own<R>(c, "rgb /= own channel", a, [&](A& x, const A& y) { x /= (&y.r)[j]; }); own<R>(c, "rgb += itself", a, [&](A& x, const A& y) { x += y; }); own<R>(c, "rgb -= itself", a, [&](A& x, const A& y) { x -= y; }); own<R>(c, "rgb set from its channels", a, [&](A& x, const A& y) { x.set(y.b, y.r, y.g); }); own<R>(c, "rgb set to itself", a, [&](A& x, const A& y) { x.set(y); });
	own<R>(c, "rgb interp from itself", a, [&](A& x, const A& y) { x.interp(y, a1, w); }); own<R>(c, "rgb interp to itself", a, [&](A& x, const A& y) { x.interp(a1, y, w); }); own<R>(c, "rgb interp with own channel as weight", a, [&](A& x, const A& y) { x.interp(y, a1, (&y.r)[j]); });
	own<R>(c, "rgba *= own channel", b, [&](B& x, const B& y) { x *= (&y.r)[i]; }); own<R>(c, "rgba /= own channel", b, [&](B& x, const B& y) { x /= (&y.r)[i]; }); own<R>(c, "rgba += itself", b, [&](B& x, const B& y) { x += y; }); own<R>(c, "rgba -= itself", b, [&](B& x, const B& y) { x -= y; }); own<R>(c, "rgba set from its channels", b, [&](B& x, const B& y) { x.set(y.b, y.a, y.g, y.r); });  own<R>(c, "rgba set to itself", b, [&](B& x, const B& y) { x.set(y); });
	own<R>(c, "rgba interp from itself", b, [&](B& x, const B& y) { x.interp(y, b1, w); }); own<R>(c, "rgba interp to itself", b, [&](B& x, const B& y) { x.interp(b1, y, w); }); own<R>(c, "rgba interp with own channel as weight", b, [&](B& x, const B& y) { x.interp(y, b1, (&y.r)[i]); });
	own<R>(c, "hsv set from its channels", h, [&](H& x, const H& y) { x.set(y.s, y.v, y.s); }); own<R>(c, "hsv set to itself", h, [&](H& x, const H& y) { x.set(y); }); 
	{ L d = fabsl(L(h.h) - h1.h); if (fabsl(d - 3.14159265358979L) > 0.01L) { own<R>(c, "hsv interp from itself", h, [&](H& x, const H& y) { x.interp(y, h1, w); }); own<R>(c, "hsv interp to itself", h, [&](H& x, const H& y) { x.interp(h1, y, w); }); own<R>(c, "hsv interp with own channel as weight", h, [&](H& x, const H& y) { x.interp(y, h1, y.s); }); } }
}
void vf::registerAll() {
	VF_BOTH(rgb, "rgb", 80000, "ratio 0", "ratio 1", "ratio between");
	VF_BOTH(rgba, "rgba", 80000, "ratio 0", "ratio 1", "ratio between");
	VF_BOTH(owns, "own parts", 8000, "hsv interp to itself");
}
VF_MAIN()
