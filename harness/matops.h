// One random public operation on a matrix, checked against the reference product of what the operands really held
#pragma once
#include "mats.h"
namespace vf {

template <class R> struct Rot { RM<R> ref; int kind; int ax; Vec3<R> axis; R ang; Quat<R> q; };
template <class R> Rot<R> gRot(Case& c) {
	Rot<R> r{RM<R>(3), c.r.n(3), c.r.n(3), gAxis<R>(c.r), gAngle<R>(c.r), gQuat<R>(c.r)};
	if (c.r.p(0.25)) { R e = R(c.r.sgn() * c.r.logu(1e-6, 0.3)); r.ang = e; }
	if (r.kind == 0) { r.ref = rRotC<R>(r.ax, r.ang); c.in("coord", r.ax); c.in("ang", r.ang); c.cls("rot coord"); }
	else if (r.kind == 1) { r.ref = rRotA<R>(r.axis, r.ang); c.in("axis", r.axis); c.in("ang", r.ang); c.cls("rot axis-angle"); }
	else { r.ref = rRotQ<R>(r.q); in(c, "q", r.q); c.cls("rot quat"); }
	return r;
}
template <class R, int N> Vec3<R> gCoef3(Case& c) {
	int k = c.r.n(5);
	Vec3<R> v(gNonZero<R>(c.r), gNonZero<R>(c.r), gNonZero<R>(c.r));
	if (k == 0) v = Vec3<R>(R(1), R(1), R(1));
	if (k == 1) { R u = gNonZero<R>(c.r); v = Vec3<R>(u, u, u); }
	if (k == 2) v = Vec3<R>(R(c.r.uni(0.95, 1.05)), R(c.r.uni(0.95, 1.05)), R(c.r.uni(0.95, 1.05)));
	if (k == 3) v = Vec3<R>(R(c.r.sgn()), R(c.r.sgn()), R(c.r.sgn()));
	return c.in("s", v);
}
template <class R> R gK(Case& c) { R k = c.r.p(0.2) ? R(1) : c.r.p(0.2) ? R(-1) : c.r.p(0.2) ? R(c.r.uni(0.97, 1.03)) : c.r.p(0.1) ? R(1) + R(c.r.sgn() * c.r.logu(1e-9, 1e-2)) : c.r.p(0.05) ? R(c.r.sgn() * c.r.logu(1e-12, 1e-4)) : gNonZero<R>(c.r); return c.in("k", k); }

#define OP(name) c.note("op:" name, 0)

template <class R> const char* op2(Case& c, Mat2<R>& m) {
	RM<R> M = ref(m);
	Mat2<R>* self = &m;
	switch (c.r.n(12)) {
	case 0: { Mat2<R> b = gMat2<R>(c, "b"); c.chk(&(m *= b) == self, "Mat2 *= returns itself"); chkMul(c, ref(m), M, ref(b), "Mat2 *= Mat2"); return "*=m"; }
	case 1: { Mat2<R> b = gMat2<R>(c, "b"); m = m * b; chkMul(c, ref(m), M, ref(b), "Mat2 * Mat2"); return "*m"; }
	case 2: { Mat2<R> b = gMat2<R>(c, "b"), d; Mat2<R>::multiply(d, b, m); m = d; chkMul(c, ref(m), ref(b), M, "Mat2 multiply"); return "multiply"; }
	case 3: { m *= m; chkMul(c, ref(m), M, M, "Mat2 *= itself"); return "*=self"; }
	case 4: { R k = c.r.p(0.03) ? c.in("k", R(0)) : gK<R>(c); if (c.r.p(0.5)) m *= k; else m = m * k; chkM(c, ref(m), {muls(M, E<R>(k))}, "Mat2 * k"); return "*k"; }
	case 5: { R k = gK<R>(c); if (c.r.p(0.5)) m /= k; else m = m / k; chkM(c, ref(m), {divs(M, E<R>(k))}, "Mat2 / k"); return "/k"; }
	case 6: { m = -m; chkM(c, ref(m), {neg(M)}, "Mat2 unary minus"); return "neg"; }
	case 7: { Vec3<R> s3 = gCoef3<R, 2>(c); Vec2<R> s(s3.x, s3.y); Mat2<R> t = m.scaled(s); chkM(c, ref(t), {M * rScale(s)}, "Mat2 scaled"); c.chk(&m.scale(s) == self, "Mat2 scale returns itself"); chkM(c, ref(m), {M * rScale(s)}, "Mat2 scale"); return "scale"; }
	case 8: { Mat2<R> t = m.transposed(); chkM(c, ref(t), {tr(M)}, "Mat2 transposed", 0); m.transpose(); chkM(c, ref(m), {tr(M)}, "Mat2 transpose", 0); return "transpose"; }
	case 9: { R a = c.in("a", gAngle<R>(c.r)); Mat2<R> t = m.rotated(a); chkM(c, ref(t), {rRot2(a) * M}, "Mat2 rotated"); c.chk(&m.rotate(a) == self, "Mat2 rotate returns itself"); chkM(c, ref(m), {rRot2(a) * M}, "Mat2 rotate"); return "rotate"; }
	case 10: { R a = c.in("a", gAngle<R>(c.r)); c.chk(&m.rotatePre(a) == self, "Mat2 rotatePre returns itself"); chkM(c, ref(m), {M * rRot2(a)}, "Mat2 rotatePre"); return "rotatePre"; }
	default: { m = c.r.p(0.5) ? m * R(0) : m / R(0); chkM(c, ref(m), {zero<R>(2)}, "Mat2 * or / zero is Zero", 0); return "zero"; }
	}
}

template <class R> const char* op3(Case& c, Mat3<R>& m) {
	RM<R> M = ref(m);
	Mat3<R>* self = &m;
	switch (c.r.n(15)) {
	case 0: { Mat3<R> b = gMat3<R>(c, "b"); c.chk(&(m *= b) == self, "Mat3 *= returns itself"); chkMul(c, ref(m), M, ref(b), "Mat3 *= Mat3"); return "*=m"; }
	case 1: { Mat3<R> b = gMat3<R>(c, "b"); m = m * b; chkMul(c, ref(m), M, ref(b), "Mat3 * Mat3"); return "*m"; }
	case 2: { Mat3<R> b = gMat3<R>(c, "b"), d; Mat3<R>::multiply(d, b, m); m = d; chkMul(c, ref(m), ref(b), M, "Mat3 multiply"); return "multiply"; }
	case 3: { int k = c.r.n(3); if (k == 0) m *= m; else if (k == 1) m.rotate(m); else m.rotatePre(m); chkMul(c, ref(m), M, M, "Mat3 multiplied by itself"); return "*=self"; }
	case 4: { R k = c.r.p(0.03) ? c.in("k", R(0)) : gK<R>(c); if (c.r.p(0.5)) m *= k; else m = m * k; chkM(c, ref(m), {muls(M, E<R>(k))}, "Mat3 * k"); return "*k"; }
	case 5: { R k = gK<R>(c); if (c.r.p(0.5)) m /= k; else m = m / k; chkM(c, ref(m), {divs(M, E<R>(k))}, "Mat3 / k"); return "/k"; }
	case 6: { m = -m; chkM(c, ref(m), {neg(M)}, "Mat3 unary minus"); return "neg"; }
	case 7: { Vec3<R> s = gCoef3<R, 3>(c); Mat3<R> t = m.scaled(s); chkM(c, ref(t), {M * rScale(s)}, "Mat3 scaled"); c.chk(&m.scale(s) == self, "Mat3 scale returns itself"); chkM(c, ref(m), {M * rScale(s)}, "Mat3 scale"); return "scale"; }
	case 8: { Mat3<R> t = m.transposed(); chkM(c, ref(t), {tr(M)}, "Mat3 transposed", 0); m.transpose(); chkM(c, ref(m), {tr(M)}, "Mat3 transpose", 0); return "transpose"; }
	case 9: { Mat3<R> b = gMat3<R>(c, "b"); Mat3<R> t = m.rotated(b); chkMul(c, ref(t), ref(b), M, "Mat3 rotated(Mat3)"); m.rotate(b); chkMul(c, ref(m), ref(b), M, "Mat3 rotate(Mat3)"); return "rotate(m)"; }
	case 10: { Mat3<R> b = gMat3<R>(c, "b"); Mat3<R> t = m.rotatedPre(b); chkMul(c, ref(t), M, ref(b), "Mat3 rotatedPre(Mat3)"); m.rotatePre(b); chkMul(c, ref(m), M, ref(b), "Mat3 rotatePre(Mat3)"); return "rotatePre(m)"; }
	case 11: case 12: {
		Rot<R> r = gRot<R>(c); Mat3<R> t;
		if (r.kind == 0) { t = m.rotated(Coord(r.ax), r.ang); m.rotate(Coord(r.ax), r.ang); chkM(c, ref(t), {r.ref * M}, "Mat3 rotated(Coord)"); chkM(c, ref(m), {r.ref * M}, "Mat3 rotate(Coord)"); }
		else if (r.kind == 1) { t = m.rotated(r.axis, r.ang); m.rotate(r.axis, r.ang); chkMul(c, ref(t), r.ref, M, "Mat3 rotated(axis,angle)"); chkMul(c, ref(m), r.ref, M, "Mat3 rotate(axis,angle)"); }
		else { t = m.rotated(r.q); m.rotate(r.q); chkMul(c, ref(t), r.ref, M, "Mat3 rotated(Quat)"); chkMul(c, ref(m), r.ref, M, "Mat3 rotate(Quat)"); }
		return "rotate";
	}
	case 13: {
		Rot<R> r = gRot<R>(c); Mat3<R> t;
		if (r.kind == 0) { t = m.rotatedPre(Coord(r.ax), r.ang); m.rotatePre(Coord(r.ax), r.ang); chkM(c, ref(t), {M * r.ref}, "Mat3 rotatedPre(Coord)"); chkM(c, ref(m), {M * r.ref}, "Mat3 rotatePre(Coord)"); }
		else if (r.kind == 1) { t = m.rotatedPre(r.axis, r.ang); m.rotatePre(r.axis, r.ang); chkMul(c, ref(t), M, r.ref, "Mat3 rotatedPre(axis,angle)"); chkMul(c, ref(m), M, r.ref, "Mat3 rotatePre(axis,angle)"); }
		else { t = m.rotatedPre(r.q); m.rotatePre(r.q); chkMul(c, ref(t), M, r.ref, "Mat3 rotatedPre(Quat)"); chkMul(c, ref(m), M, r.ref, "Mat3 rotatePre(Quat)"); }
		return "rotatePre";
	}
	default: { m = c.r.p(0.5) ? m * R(0) : m / R(0); chkM(c, ref(m), {zero<R>(3)}, "Mat3 * or / zero is Zero", 0); return "zero"; }
	}
}

// affine products: the linear part may use the identity shortcut, the translation may follow either way
template <class R> RM<R> lin(const RM<R>& m) { RM<R> r(3); for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) r.a[i][j] = m.a[i][j]; return r; }
template <class R> bool chkAff(Case& c, const RM<R>& got, const RM<R>& a, const RM<R>& b, const char* site) {
	bool ok = chkMul(c, lin(got), lin(a), lin(b), site);
	RM<R> p = a * b;
	bool t1 = true, t2 = nearId(lin(a));
	for (int i = 0; i < 3; i++) {
		L g = got.a[i][3].v, e = p.a[i][3].e;
		if (e < (L)std::numeric_limits<R>::max() / 64 && !(fabsl(g - p.a[i][3].v) <= 8 * e + 4 * E<R>::dm())) t1 = false;
		E<R> s = a.a[i][3] + b.a[i][3];
		if (!(fabsl(g - s.v) <= 8 * s.e + 4 * E<R>::dm())) t2 = false;
	}
	return c.chk(t1 || t2, site, "translation: got %s expected %s", show(got).c_str(), show(p).c_str()) && ok;
}

template <class R> const char* op34(Case& c, Mat34<R>& m) {
	RM<R> M = ref(m);
	Mat34<R>* self = &m;
	switch (c.r.n(15)) {
	case 0: { Mat34<R> b = gMat34<R>(c, "b"); c.chk(&(m *= b) == self, "Mat34 *= returns itself"); chkAff(c, ref(m), M, ref(b), "Mat34 *= Mat34"); return "*=m34"; }
	case 1: { Mat34<R> b = gMat34<R>(c, "b"); m = m * b; chkAff(c, ref(m), M, ref(b), "Mat34 * Mat34"); return "*m34"; }
	case 2: { Mat34<R> b = gMat34<R>(c, "b"), d; Mat34<R>::multiply(d, b, m); m = d; chkAff(c, ref(m), ref(b), M, "Mat34 multiply"); return "multiply"; }
	case 3: { int k = c.r.n(3); if (k == 0) m *= m; else if (k == 1) m.transform(m); else m.transformPre(m); chkAff(c, ref(m), M, M, "Mat34 multiplied by itself"); return "*=self"; }
	case 4: { Mat3<R> b = gMat3<R>(c, "b"); int k = c.r.n(3); if (k == 0) m *= b; else if (k == 1) m = m * b; else m.transformPre(b); chkAff(c, ref(m), M, widen(ref(b)), "Mat34 * Mat3"); return "*m3"; }
	case 5: { Mat3<R> b = gMat3<R>(c, "b"); c.chk(&m.transform(b) == self, "Mat34 transform returns itself"); chkAff(c, ref(m), widen(ref(b)), M, "Mat34 transform(Mat3)"); return "transform(m3)"; }
	case 6: { Mat34<R> b = gMat34<R>(c, "b"); m.transform(b); chkAff(c, ref(m), ref(b), M, "Mat34 transform(Mat34)"); return "transform"; }
	case 7: { Mat34<R> b = gMat34<R>(c, "b"); m.transformPre(b); chkAff(c, ref(m), M, ref(b), "Mat34 transformPre(Mat34)"); return "transformPre"; }
	case 8: { RM<R> n = neg(M); n.a[3][3] = E<R>(1); for (int j = 0; j < 3; j++) n.a[3][j] = E<R>(0); m = -m; chkM(c, ref(m), {n}, "Mat34 unary minus"); return "neg"; }
	case 9: {
		Vec3<R> s = gCoef3<R, 3>(c);
		RM<R> w = lin(M) * rScale(s), x = widen(w);
		for (int i = 0; i < 3; i++) x.a[i][3] = M.a[i][3] * (i == 0 ? E<R>(s.x) : i == 1 ? E<R>(s.y) : E<R>(s.z));
		c.chk(&m.scale(s) == self, "Mat34 scale returns itself"); chkM(c, ref(m), {x}, "Mat34 scale"); return "scale";
	}
	case 10: { Vec3<R> s = gCoef3<R, 3>(c); c.chk(&m.scalePre(s) == self, "Mat34 scalePre returns itself"); chkM(c, ref(m), {M * widen(rScale(s))}, "Mat34 scalePre"); return "scalePre"; }
	case 11: { Vec3<R> t = c.in("t", gTrans<R>(c)); c.chk(&m.translate(t) == self, "Mat34 translate returns itself"); chkM(c, ref(m), {rTrans(t) * M}, "Mat34 translate"); return "translate"; }
	case 12: { Vec3<R> t = c.in("t", gTrans<R>(c)); c.chk(&m.translatePre(t) == self, "Mat34 translatePre returns itself"); chkM(c, ref(m), {M * rTrans(t)}, "Mat34 translatePre"); return "translatePre"; }
	default: {
		Rot<R> r = gRot<R>(c); RM<R> W = widen(r.ref);
		if (c.r.p(0.5)) {
			if (r.kind == 0) { m.rotate(Coord(r.ax), r.ang); chkAff(c, ref(m), W, M, "Mat34 rotate(Coord)"); }
			else if (r.kind == 1) { m.rotate(r.axis, r.ang); chkAff(c, ref(m), W, M, "Mat34 rotate(axis,angle)"); }
			else { m.rotate(r.q); chkAff(c, ref(m), W, M, "Mat34 rotate(Quat)"); }
			return "rotate";
		}
		if (r.kind == 0) { m.rotatePre(Coord(r.ax), r.ang); chkAff(c, ref(m), M, W, "Mat34 rotatePre(Coord)"); }
		else if (r.kind == 1) { m.rotatePre(r.axis, r.ang); chkAff(c, ref(m), M, W, "Mat34 rotatePre(axis,angle)"); }
		else { m.rotatePre(r.q); chkAff(c, ref(m), M, W, "Mat34 rotatePre(Quat)"); }
		return "rotatePre";
	}
	}
}

template <class R> const char* op4(Case& c, Mat4<R>& m) {
	RM<R> M = ref(m);
	Mat4<R>* self = &m;
	switch (c.r.n(16)) {
	case 0: { Mat4<R> b = gMat4<R>(c, "b"); m = m * b; chkMul(c, ref(m), M, ref(b), "Mat4 * Mat4"); return "*m"; }
	case 1: { Mat4<R> b = gMat4<R>(c, "b"), d; Mat4<R>::multiply(d, b, m); m = d; chkMul(c, ref(m), ref(b), M, "Mat4 multiply"); return "multiply"; }
	case 2: { int k = c.r.n(3); if (k == 0) m = m * m; else if (k == 1) m.transform(m); else m.transformPre(m); chkMul(c, ref(m), M, M, "Mat4 multiplied by itself"); return "*self"; }
	case 3: { R k = c.r.p(0.03) ? c.in("k", R(0)) : gK<R>(c); if (c.r.p(0.5)) m *= k; else m = m * k; chkM(c, ref(m), {muls(M, E<R>(k))}, "Mat4 * k"); return "*k"; }
	case 4: { R k = gK<R>(c); if (c.r.p(0.5)) m /= k; else m = m / k; chkM(c, ref(m), {divs(M, E<R>(k))}, "Mat4 / k"); return "/k"; }
	case 5: { m = -m; chkM(c, ref(m), {neg(M)}, "Mat4 unary minus"); return "neg"; }
	case 6: {       // as the unit tests pin it: columns scaled, translation scaled componentwise
		Vec3<R> s = gCoef3<R, 3>(c);
		RM<R> x = M * widen(rScale(s));
		for (int i = 0; i < 3; i++) x.a[i][3] = M.a[i][3] * (i == 0 ? E<R>(s.x) : i == 1 ? E<R>(s.y) : E<R>(s.z));
		Mat4<R> t = m.scaled(s); chkM(c, ref(t), {x}, "Mat4 scaled"); c.chk(&m.scale(s) == self, "Mat4 scale returns itself"); chkM(c, ref(m), {x}, "Mat4 scale"); return "scale";
	}
	case 7: { Vec3<R> s = gCoef3<R, 3>(c); RM<R> x = M * widen(rScale(s)); Mat4<R> t = m.scaledPre(s); chkM(c, ref(t), {x}, "Mat4 scaledPre"); c.chk(&m.scalePre(s) == self, "Mat4 scalePre returns itself"); chkM(c, ref(m), {x}, "Mat4 scalePre"); return "scalePre"; }
	case 8: {       // adds to the translation column (exact composition when m is TRS)
		Vec3<R> v = c.in("t", gTrans<R>(c));
		RM<R> x = M; x.a[0][3] = x.a[0][3] + E<R>(v.x); x.a[1][3] = x.a[1][3] + E<R>(v.y); x.a[2][3] = x.a[2][3] + E<R>(v.z);
		Mat4<R> t = m.translated(v); chkM(c, ref(t), {x}, "Mat4 translated"); c.chk(&m.translate(v) == self, "Mat4 translate returns itself"); chkM(c, ref(m), {x}, "Mat4 translate"); return "translate";
	}
	case 9: {
		Vec3<R> v = c.in("t", gTrans<R>(c));
		RM<R> x = M * rTrans(v); for (int j = 0; j < 4; j++) x.a[3][j] = M.a[3][j];
		Mat4<R> t = m.translatedPre(v); chkM(c, ref(t), {x}, "Mat4 translatedPre"); c.chk(&m.translatePre(v) == self, "Mat4 translatePre returns itself"); chkM(c, ref(m), {x}, "Mat4 translatePre"); return "translatePre";
	}
	case 10: { Mat4<R> b = gMat4<R>(c, "b"); Mat4<R> t = m.transformed(b); chkMul(c, ref(t), ref(b), M, "Mat4 transformed"); c.chk(&m.transform(b) == self, "Mat4 transform returns itself"); chkMul(c, ref(m), ref(b), M, "Mat4 transform"); return "transform"; }
	case 11: { Mat4<R> b = gMat4<R>(c, "b"); Mat4<R> t = m.transformedPre(b); chkMul(c, ref(t), M, ref(b), "Mat4 transformedPre"); c.chk(&m.transformPre(b) == self, "Mat4 transformPre returns itself"); chkMul(c, ref(m), M, ref(b), "Mat4 transformPre"); return "transformPre"; }
	case 12: { Mat4<R> t = m.transposed(); chkM(c, ref(t), {tr(M)}, "Mat4 transposed", 0); m.transpose(); chkM(c, ref(m), {tr(M)}, "Mat4 transpose", 0); return "transpose"; }
	case 13: { m = c.r.p(0.5) ? m * R(0) : m / R(0); chkM(c, ref(m), {zero<R>(4)}, "Mat4 * or / zero is Zero", 0); return "zero"; }
	default: {
		Rot<R> r = gRot<R>(c); RM<R> W = widen(r.ref); Mat4<R> t;
		if (c.r.p(0.5)) {
			if (r.kind == 0) { t = m.rotated(Coord(r.ax), r.ang); m.rotate(Coord(r.ax), r.ang); }
			else if (r.kind == 1) { t = m.rotated(r.axis, r.ang); m.rotate(r.axis, r.ang); }
			else { t = m.rotated(r.q); m.rotate(r.q); }
			chkMul(c, ref(t), W, M, "Mat4 rotated"); chkMul(c, ref(m), W, M, "Mat4 rotate");
			return "rotate";
		}
		if (r.kind == 0) { t = m.rotatedPre(Coord(r.ax), r.ang); m.rotatePre(Coord(r.ax), r.ang); }
		else if (r.kind == 1) { t = m.rotatedPre(r.axis, r.ang); m.rotatePre(r.axis, r.ang); }
		else { t = m.rotatedPre(r.q); m.rotatePre(r.q); }
		chkMul(c, ref(t), M, W, "Mat4 rotatedPre"); chkMul(c, ref(m), M, W, "Mat4 rotatePre");
		return "rotatePre";
	}
	}
}
template <class R> bool tame(const RM<R>& m) { L s = 0; for (int i = 0; i < m.n; i++) for (int j = 0; j < m.n; j++) { s = std::max(s, fabsl(m.a[i][j].v)); if (!(fabsl(m.a[i][j].v) < 1e6L)) return false; } return true; }

} // namespace vf
