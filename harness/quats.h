// Reference quaternions in extended precision
#pragma once
#include "mats.h"
namespace vf {
struct LQ { L x, y, z, w; };
template <class R> LQ lq(const Quat<R>& q) { return LQ{q.x, q.y, q.z, q.w}; }
inline LQ operator*(const LQ& a, const LQ& b) {
	return LQ{a.w * b.x + a.x * b.w + a.y * b.z - a.z * b.y, a.w * b.y - a.x * b.z + a.y * b.w + a.z * b.x, a.w * b.z + a.x * b.y - a.y * b.x + a.z * b.w, a.w * b.w - a.x * b.x - a.y * b.y - a.z * b.z};
}
inline LQ operator+(const LQ& a, const LQ& b) { return LQ{a.x + b.x, a.y + b.y, a.z + b.z, a.w + b.w}; }
inline LQ operator*(const LQ& a, L k) { return LQ{a.x * k, a.y * k, a.z * k, a.w * k}; }
inline LQ conj(const LQ& a) { return LQ{-a.x, -a.y, -a.z, a.w}; }
inline L dot(const LQ& a, const LQ& b) { return a.x * b.x + a.y * b.y + a.z * b.z + a.w * b.w; }
inline L len(const LQ& a) { return sqrtl(dot(a, a)); }
inline LQ unit(const LQ& a) { return a * (1 / len(a)); }
inline L vlen(const LQ& a) { return sqrtl(a.x * a.x + a.y * a.y + a.z * a.z); }
inline LQ qlog(const LQ& q) { L s = vlen(q), a = atan2l(s, q.w); L k = s > 0 ? a / s : 0; return LQ{q.x * k, q.y * k, q.z * k, 0}; }
inline LQ qexp(const LQ& q) { L a = vlen(q), k = a > 0 ? sinl(a) / a : 1; return LQ{q.x * k, q.y * k, q.z * k, cosl(a)}; }
inline L maxd(const LQ& a, const LQ& b) { return std::max(std::max(fabsl(a.x - b.x), fabsl(a.y - b.y)), std::max(fabsl(a.z - b.z), fabsl(a.w - b.w))); }
// rotation angle between two orientations, in [0, pi]
inline L between(const LQ& a, const LQ& b) { LQ d = conj(unit(a)) * unit(b); return 2 * atan2l(vlen(d), fabsl(d.w)); }
struct LV { L x, y, z; };
inline LV rot(const LQ& q, L x, L y, L z) { LQ r = q * LQ{x, y, z, 0} * conj(q); return LV{r.x, r.y, r.z}; }
inline bool qnear(Case& c, const LQ& got, const LQ& want, L tol, const char* site) {
	L d = maxd(got, want);
	return c.chk(d <= tol, site, "got (%.10Lg %.10Lg %.10Lg %.10Lg) expected (%.10Lg %.10Lg %.10Lg %.10Lg) +-%.3Lg", got.x, got.y, got.z, got.w, want.x, want.y, want.z, want.w, tol);
}
inline LQ flip(const LQ& a, const LQ& like) { return dot(a, like) < 0 ? a * -1 : a; }
} // namespace vf
