// Reference matrices (values with rounding-error bounds) and matrix generators shared by the matrix drivers
#pragma once
#include "vf.h"
namespace vf {
using namespace mathlib;

template <class R> struct RM {          // n x n, a[row][col]
	int n;
	E<R> a[4][4];
	unsigned fl = 0;                    // flags of the matrix it was read from: 1 there was one, 2 initialized, 4 normal, 8 orthogonal, 16 identity, 32 trs, 64 no translation
	explicit RM(int k = 4) : n(k) { for (int i = 0; i < 4; i++) for (int j = 0; j < 4; j++) a[i][j] = E<R>(i == j ? 1 : 0); }
};
template <class T> unsigned flagsOf(const T& m) { return 1u | (m.isInitialized() ? 2 : 0) | (m.isNormal() ? 4 : 0) | (m.isOrthogonal() ? 8 : 0) | (m.isIdentity() ? 16 : 0); }
template <class R> RM<R> ref(const Mat2<R>& m) { RM<R> r(2); r.fl = flagsOf(m); r.a[0][0] = m.x.x; r.a[1][0] = m.x.y; r.a[0][1] = m.y.x; r.a[1][1] = m.y.y; return r; }
template <class R> void setcol(RM<R>& r, int j, const Vec3<R>& v) { r.a[0][j] = v.x; r.a[1][j] = v.y; r.a[2][j] = v.z; }
template <class R> void setcol(RM<R>& r, int j, const Vec4<R>& v) { r.a[0][j] = v.x; r.a[1][j] = v.y; r.a[2][j] = v.z; r.a[3][j] = v.w; }
template <class R> RM<R> ref(const Mat3<R>& m) { RM<R> r(3); r.fl = flagsOf(m); setcol(r, 0, m.x); setcol(r, 1, m.y); setcol(r, 2, m.z); return r; }
template <class R> RM<R> ref(const Mat34<R>& m) { RM<R> r(4); r.fl = flagsOf(m) | 64; setcol(r, 0, m.rs.x); setcol(r, 1, m.rs.y); setcol(r, 2, m.rs.z); setcol(r, 3, m.t); return r; }
template <class R> RM<R> ref(const Mat4<R>& m) { RM<R> r(4); r.fl = flagsOf(m) | (m.isTrs() ? 32 : 0); setcol(r, 0, m.x); setcol(r, 1, m.y); setcol(r, 2, m.z); setcol(r, 3, m.t); return r; }
template <class R> RM<R> operator*(const RM<R>& p, const RM<R>& q) {
	RM<R> r(p.n);
	for (int i = 0; i < p.n; i++) for (int j = 0; j < p.n; j++) {
		E<R> s = p.a[i][0] * q.a[0][j];
		for (int k = 1; k < p.n; k++) s = s + p.a[i][k] * q.a[k][j];
		r.a[i][j] = s;
	}
	return r;
}
template <class R> RM<R> widen(const RM<R>& m) { RM<R> r(4); for (int i = 0; i < m.n; i++) for (int j = 0; j < m.n; j++) r.a[i][j] = m.a[i][j]; return r; }
template <class R> RM<R> tr(const RM<R>& m) { RM<R> r(m.n); for (int i = 0; i < m.n; i++) for (int j = 0; j < m.n; j++) r.a[i][j] = m.a[j][i]; return r; }
template <class R> RM<R> neg(const RM<R>& m) { RM<R> r(m.n); for (int i = 0; i < m.n; i++) for (int j = 0; j < m.n; j++) r.a[i][j] = -m.a[i][j]; return r; }
template <class R> RM<R> muls(const RM<R>& m, const E<R>& k) { RM<R> r(m.n); for (int i = 0; i < m.n; i++) for (int j = 0; j < m.n; j++) r.a[i][j] = m.a[i][j] * k; return r; }
template <class R> RM<R> divs(const RM<R>& m, const E<R>& k) { RM<R> r(m.n); for (int i = 0; i < m.n; i++) for (int j = 0; j < m.n; j++) r.a[i][j] = m.a[i][j] / k; return r; }
template <class R> RM<R> zero(int n) { RM<R> r(n); for (int i = 0; i < n; i++) r.a[i][i] = E<R>(0); return r; }

// elementary matrices
template <class R> RM<R> rRot2(R ang) { RM<R> r(2); E<R> s = esin(E<R>(ang)), c = ecos(E<R>(ang)); r.a[0][0] = c; r.a[1][1] = c; r.a[0][1] = -s; r.a[1][0] = s; return r; }
template <class R> RM<R> rRotC(int ax, R ang) {
	RM<R> r(3); E<R> s = esin(E<R>(ang)), c = ecos(E<R>(ang));
	int j = (ax + 1) % 3, k = (ax + 2) % 3;
	r.a[j][j] = c; r.a[k][k] = c; r.a[j][k] = -s; r.a[k][j] = s;
	return r;
}
template <class R> RM<R> rRotA(const Vec3<R>& axis, R ang) {      // Rodrigues
	V3<R> v(axis); E<R> l = len(v);
	v = V3<R>(v.x / l, v.y / l, v.z / l);
	E<R> s = esin(E<R>(ang)), c = ecos(E<R>(ang)), t = E<R>(1) - c;
	RM<R> r(3);
	for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) {
		E<R> e = v[i] * v[j] * t;
		if (i == j) e = e + c;
		else { int k = 3 - i - j; E<R> w = v[k] * s; e = ((j - i + 3) % 3 == 1) ? e - w : e + w; }
		r.a[i][j] = e;
	}
	return r;
}
template <class R> RM<R> rRotQ(const Quat<R>& q) {
	E<R> x(q.x), y(q.y), z(q.z), w(q.w), one(1), two(2);
	RM<R> r(3);
	r.a[0][0] = one - two * (y * y + z * z); r.a[0][1] = two * (x * y - w * z); r.a[0][2] = two * (x * z + w * y);
	r.a[1][0] = two * (x * y + w * z); r.a[1][1] = one - two * (x * x + z * z); r.a[1][2] = two * (y * z - w * x);
	r.a[2][0] = two * (x * z - w * y); r.a[2][1] = two * (y * z + w * x); r.a[2][2] = one - two * (x * x + y * y);
	return r;
}
template <class R> RM<R> rTrans(const Vec3<R>& t) { RM<R> r(4); setcol(r, 3, t); return r; }
template <class R> RM<R> rScale(const Vec2<R>& k) { RM<R> r(2); r.a[0][0] = k.x; r.a[1][1] = k.y; return r; }
template <class R> RM<R> rScale(const Vec3<R>& k) { RM<R> r(3); r.a[0][0] = k.x; r.a[1][1] = k.y; r.a[2][2] = k.z; return r; }

template <class R> std::string show(const RM<R>& m) {
	std::string s = "[";
	char b[48];
	for (int i = 0; i < m.n; i++) { for (int j = 0; j < m.n; j++) { snprintf(b, sizeof b, "%s%.9Lg", j ? " " : "", m.a[i][j].v); s += b; } s += i + 1 < m.n ? "; " : "]"; }
	return s;
}
template <class R> bool close(const RM<R>& got, const RM<R>& want, L K = 8) {
	// bound: the largest error of the row+column the element belongs to
	for (int i = 0; i < want.n; i++) for (int j = 0; j < want.n; j++) {
		L e = want.a[i][j].e;
		if (!(e < (L)std::numeric_limits<R>::max() / 64) || fabsl(want.a[i][j].v) > (L)std::numeric_limits<R>::max() / 64) continue;
		if (!(fabsl(got.a[i][j].v - want.a[i][j].v) <= K * e + 4 * E<R>::dm())) return false;
	}
	return true;
}
// squared Frobenius distance to the identity, in extended precision
template <class R> L idErr(const RM<R>& m) { L s = 0; for (int i = 0; i < m.n; i++) for (int j = 0; j < m.n; j++) { L d = m.a[i][j].v - (i == j); s += d * d; } return s; }
// C07 only: every matrix an operation yields, stored or returned, is initialized and its set flags are true of its values
inline bool& flagMonitor() { static bool on = false; return on; }
template <class R> L gramErr(const RM<R>& m, int cols, int rows, bool diag) {
	L e = 0;
	for (int j = 0; j < cols; j++) for (int k = j; k < cols; k++) {
		if ((j == k) != diag) continue;
		L d = diag ? -1 : 0;
		for (int i = 0; i < rows; i++) d += m.a[i][j].v * m.a[i][k].v;
		e += d * d;
	}
	return e;
}
template <class R> void flagsTrue(Case& c, const RM<R>& m, const char* op) {
	L s = 0;
	for (int i = 0; i < m.n; i++) for (int j = 0; j < m.n; j++) { if (!std::isfinite(double(m.a[i][j].v))) return; s = std::max(s, fabsl(m.a[i][j].v)); }
	if (s > 1e9L) return;
	bool was = c.mute; c.mute = false;
	int lin = m.n == 4 && (m.fl & 96) ? 3 : m.n;                      // columns and rows normality is about
	L rt = sqrtl(1e-3L) * 1.01L + 16 * E<R>::u() * s * s, hi = rt * rt;
	c.chk(m.fl & 2, "yielded matrix is initialized", "by %s", op);
	if (m.fl & 4) c.chk(gramErr(m, lin, lin, true) <= hi, "yielded matrix: isNormal is true", "by %s: %s", op, show(m).c_str());
	if (m.fl & 8) c.chk(gramErr(m, std::min(lin, 3), lin, false) <= hi, "yielded matrix: isOrthogonal is true", "by %s: %s", op, show(m).c_str());
	if (m.fl & 16) c.chk(idErr(m) <= hi, "yielded matrix: isIdentity is true", "by %s: %s", op, show(m).c_str());
	if (m.fl & 32) c.chk(m.a[3][0].v == 0 && m.a[3][1].v == 0 && m.a[3][2].v == 0 && m.a[3][3].v == 1, "yielded matrix: isTrs is true", "by %s: %s", op, show(m).c_str());
	c.mute = was;
}
template <class R> bool chkM(Case& c, const RM<R>& got, std::initializer_list<RM<R>> want, const char* site, L K = 8) {
	if (flagMonitor() && got.fl) flagsTrue(c, got, site);
	for (auto& w : want) if (close(got, w, K)) { Local::bump(c.loc->sites, site); return true; }
	return c.chk(false, site, "got %s expected %s", show(got).c_str(), show(*want.begin()).c_str());
}
// An operand this close to the identity may be treated as the identity (documented by MatrixTolerance)
template <class R> bool nearId(const RM<R>& m) { return idErr(m) <= 1.02e-3L; }
// product a*b with the identity shortcuts the library documents
template <class R> bool chkMul(Case& c, const RM<R>& got, const RM<R>& a, const RM<R>& b, const char* site) {
	RM<R> p = a * b;
	if (nearId(a) && nearId(b)) return chkM(c, got, {p, a, b}, site);
	if (nearId(a)) return chkM(c, got, {p, b}, site);
	if (nearId(b)) return chkM(c, got, {p, a}, site);
	return chkM(c, got, {p}, site);
}

// ------------------------------------------------------------------ generators
template <class R> void gMatRaw(Rng& r, int n, double a[4][4], Case* c = nullptr) {
	for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) a[i][j] = i == j;
	auto cls = [&](const char* s) { if (c) c->cls(s); };
	int kind = r.n(10);
	auto rot = [&](double m[4][4]) {
		// product of random plane rotations
		for (int k = 0; k < 3; k++) {
			int i = r.n(n), j = (i + 1 + (n > 2 ? r.n(n - 1) : 0)) % n;
			if (i == j) continue;
			double t = r.p(0.2) ? r.in(-4, 4) * 1.5707963267948966 : r.uni(-3.2, 3.2), cs = std::cos(t), sn = std::sin(t);
			for (int q = 0; q < n; q++) { double u = m[q][i], v = m[q][j]; m[q][i] = u * cs + v * sn; m[q][j] = -u * sn + v * cs; }
		}
	};
	if (kind == 0) cls("identity");
	else if (kind == 1) { cls("near-identity"); double e = r.logu(1e-6, 0.2); for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) a[i][j] += r.uni(-e, e); }
	else if (kind <= 3) { cls("rotation"); rot(a); }
	else if (kind == 4) { cls("near-rotation"); rot(a); double e = r.logu(1e-4, 0.1); for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) a[i][j] += r.uni(-e, e); }
	else if (kind == 5) { cls("scaled-rotation"); rot(a); for (int j = 0; j < n; j++) { double k = r.p(0.3) ? r.sgn() : r.sgn() * r.logu(0.2, 5); for (int i = 0; i < n; i++) a[i][j] *= k; } }
	else if (kind == 6) { cls("reflection"); rot(a); int j = r.n(n); for (int i = 0; i < n; i++) a[i][j] = -a[i][j]; }
	else if (kind == 7) { cls("unit-columns"); for (int j = 0; j < n; j++) { double l = 0; for (int i = 0; i < n; i++) { a[i][j] = r.gauss(); l += a[i][j] * a[i][j]; } l = std::sqrt(l); for (int i = 0; i < n; i++) a[i][j] /= l; } }
	else if (kind == 8 && r.p(0.4)) { cls("singular"); for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) a[i][j] = r.in(-3, 3); if (n >= 2) for (int i = 0; i < n; i++) a[i][n - 1] = a[i][0] * 2; }
	else { cls("general"); for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) a[i][j] = r.p(0.3) ? r.in(-4, 4) : r.uni(-4, 4); }
	// unit volume without being a rotation: scales that cancel, shears
	if (kind == 5 && r.p(0.25)) { cls("unit volume"); double v = 1; for (int j = 0; j < n; j++) { double l = 0; for (int i = 0; i < n; i++) l += a[i][j] * a[i][j]; v *= std::sqrt(l); } for (int i = 0; i < n; i++) a[i][n - 1] /= v; return; }
	if (kind == 9 && r.p(0.2)) { cls("unit volume"); for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) a[i][j] = i == j; if (r.p(0.5)) rot(a); for (int q = 0; q < 2; q++) { int j = r.n(n), l = (j + 1 + r.n(n - 1)) % n; double k = r.p(0.5) ? r.in(-3, 3) : r.uni(-2, 2); for (int i = 0; i < n; i++) a[i][j] += k * a[i][l]; } return; }
	// far from unit size: no absolute threshold separates such a matrix from a singular or a normal one
	if ((kind == 5 || kind >= 8) && r.p(0.15)) { cls("tiny or huge"); double k = r.p(0.5) ? r.logu(1e-3, 0.05) : r.logu(20, 1e3); for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) a[i][j] *= k; }
}
template <class R> void logm(Case& c, const char* nm, const RM<R>& m) {
	for (int i = 0; i < m.n; i++) for (int j = 0; j < m.n; j++) c.hash(m.a[i][j].v);
	if (c.log) { c.text += c.text.empty() ? "" : " "; c.text += nm; c.text += "="; c.text += show(m); }
}
template <class R> Mat2<R> gMat2(Case& c, const char* nm) {
	double a[4][4]; gMatRaw<R>(c.r, 2, a, &c);
	Vec2<R> k0{R(a[0][0]), R(a[1][0])}, k1{R(a[0][1]), R(a[1][1])};
	Mat2<R> m(k0, k1);
	if (c.r.p(0.08)) m.setIdentity();
	logm(c, nm, ref(m));
	return m;
}
template <class R> Mat3<R> gMat3(Case& c, const char* nm) {
	double a[4][4]; gMatRaw<R>(c.r, 3, a, &c);
	Vec3<R> k[3];
	for (int j = 0; j < 3; j++) k[j] = Vec3<R>(R(a[0][j]), R(a[1][j]), R(a[2][j]));
	Mat3<R> m(k[0], k[1], k[2]);
	if (c.r.p(0.08)) m.setIdentity();
	logm(c, nm, ref(m));
	return m;
}
template <class R> Vec3<R> gTrans(Case& c) {
	int k = c.r.n(6);
	if (k == 0) { c.cls("t null"); return Vec3<R>(R(0), R(0), R(0)); }
	if (k == 1) { c.cls("t small"); R e = R(c.r.logu(1e-5, 0.05)); return Vec3<R>(e * R(c.r.uni(-1, 1)), e * R(c.r.uni(-1, 1)), e * R(c.r.uni(-1, 1))); }
	return gVec3<R>(c.r);
}
template <class R> Mat34<R> gMat34(Case& c, const char* nm) {
	double a[4][4]; gMatRaw<R>(c.r, 3, a, &c);
	Vec3<R> k[3];
	for (int j = 0; j < 3; j++) k[j] = Vec3<R>(R(a[0][j]), R(a[1][j]), R(a[2][j]));
	Vec3<R> t = gTrans<R>(c);
	Mat34<R> m(k[0], k[1], k[2], t);
	if (c.r.p(0.08)) m.setIdentity();
	logm(c, nm, ref(m));
	return m;
}
template <class R> Mat4<R> gMat4(Case& c, const char* nm) {
	double a[4][4];
	Mat4<R> m;
	if (c.r.p(0.7)) {
		c.cls("TRS");
		gMatRaw<R>(c.r, 3, a, &c);
		Vec3<R> k[3];
		for (int j = 0; j < 3; j++) k[j] = Vec3<R>(R(a[0][j]), R(a[1][j]), R(a[2][j]));
		m.set(k[0], k[1], k[2], gTrans<R>(c));
	} else {
		c.cls("projective");
		gMatRaw<R>(c.r, 4, a, &c);
		Vec4<R> k[4];
		for (int j = 0; j < 4; j++) k[j] = Vec4<R>(R(a[0][j]), R(a[1][j]), R(a[2][j]), R(a[3][j]));
		if (c.r.p(0.3)) { k[0].w = k[1].w = k[2].w = R(0); if (c.r.p(0.5)) { c.cls("t.w only"); k[3].w = R(c.r.in(2, 4)); } else k[3].w = R(1); }
		m.set(k[0], k[1], k[2], k[3]);
	}
	if (c.r.p(0.08)) m.setIdentity();
	logm(c, nm, ref(m));
	return m;
}
template <class R> Vec3<R> gAxis(Rng& r) {
	Vec3<R> v = gUnit3<R>(r);
	R k = r.p(0.5) ? R(1) : R(r.logu(1e-2, 1e2));
	return v * k;
}
template <class R> Quat<R> gQuat(Rng& r) {
	double q[4], l;
	do { l = 0; for (int i = 0; i < 4; i++) { q[i] = r.p(0.15) ? 0 : r.gauss(); l += q[i] * q[i]; } } while (l < 1e-4);
	l = std::sqrt(l);
	if (r.p(0.15)) { Vec3<R> a = gUnit3<R>(r); double t = r.logu(1e-5, 0.2); q[0] = a.x * std::sin(t); q[1] = a.y * std::sin(t); q[2] = a.z * std::sin(t); q[3] = std::cos(t) * r.sgn(); l = 1; }
	return Quat<R>(R(q[0] / l), R(q[1] / l), R(q[2] / l), R(q[3] / l), false);
}
template <class R> Quat<R> in(Case& c, const char* nm, const Quat<R>& q) { c.in(nm, Vec4<R>(q.x, q.y, q.z, q.w)); return q; }

} // namespace vf
