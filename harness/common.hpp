// Shared helpers: generators for shapes and data, and independent reference arithmetic on shapes.
#pragma once
#include "pbt.hpp"
#include <algorithm>
#include <numeric>

using pbt::Ctx;
using pbt::Src;
using pbt::show;
typedef std::vector<size_t> Dims;
typedef std::vector<double> Vec;

namespace ref {

inline size_t prod (const Dims& d)
{
	if (d.empty()) return 0;
	size_t p = 1; for (size_t x : d) p *= x; return p;
}
inline bool full (const Dims& d)
{
	if (d.empty()) return false;
	for (size_t x : d) if (x == 0) return false;
	return true;
}
inline Dims unflat (size_t i, const Dims& d)
{
	Dims c; for (size_t x : d) { c.push_back(i % x); i /= x; } return c;
}
// dimension 0 varies fastest; missing coordinates count as 0
inline size_t flat (const Dims& c, const Dims& d)
{
	size_t idx = 0, stride = 1;
	for (size_t i = 0; i < d.size(); ++i) { idx += (i < c.size() ? c[i] : 0) * stride; stride *= d[i]; }
	return idx;
}
inline Dims trim (Dims d)
{
	size_t b = 0, e = d.size();
	while (b < e && d[b] == 1) b++;
	while (e > b && d[e - 1] == 1) e--;
	return Dims(d.begin() + b, d.begin() + e);
}
// same rank: every pair of dimensions equal, or one of them unknown
inline bool pairwise (const Dims& a, const Dims& b)
{
	for (size_t i = 0; i < a.size(); ++i) if (a[i] && b[i] && a[i] != b[i]) return false;
	return true;
}
// the part of `in` that fits `out`, zero elsewhere (common coordinates keep their value)
template <typename T>
std::vector<T> refit (const std::vector<T>& in, const Dims& id, const Dims& od)
{
	std::vector<T> out(prod(od), (T) 0);
	for (size_t i = 0; i < out.size(); ++i)
	{
		Dims c = unflat(i, od);
		bool ok = true;
		for (size_t k = 0; k < c.size(); ++k)
		{
			if (k < id.size() ? c[k] >= id[k] : c[k] > 0) { ok = false; break; }
		}
		if (ok)
		{
			c.resize(id.size(), 0);
			out[i] = in[flat(c, id)];
		}
	}
	return out;
}
} // namespace ref

namespace gen {

// fully defined dimensions
inline Dims dims (Src& s, size_t minrank = 1, size_t maxrank = 4, size_t maxdim = 5, size_t maxn = 240)
{
	if (maxrank >= 4 && s.flip(1, 20)) { maxrank += 2; maxdim *= 6; maxn *= 6; } // rarely beyond the usual sizes
	size_t r = s.sz(minrank, maxrank);
	Dims d; size_t n = 1;
	for (size_t i = 0; i < r; ++i)
	{
		size_t m = std::max<size_t>(1, std::min(maxdim, maxn / n));
		size_t x = s.flip(1, 4) ? 1 : s.sz(1, m);
		d.push_back(x); n *= x;
	}
	return d;
}
// dimensions of which some may be unknown (0); may be empty
inline Dims partial (Src& s, size_t maxrank = 4, size_t maxdim = 5)
{
	if (s.flip(1, 10)) return Dims();
	Dims d = dims(s, 1, maxrank, maxdim);
	for (size_t& x : d) if (s.flip(1, 3)) x = 0;
	return d;
}
inline Vec data (Src& s, size_t n, int mag = 4, int den = 8)
{
	Vec v(n); for (double& x : v) x = s.dyadic(mag, den); return v;
}
// distinct values, so that every misplaced element shows
inline Vec distinct (Src& s, size_t n)
{
	Vec v(n); double step = s.range(1, 3) * 0.25; double base = s.dyadic(6, 4);
	for (size_t i = 0; i < n; ++i) v[i] = base + step * i;
	if (s.flip(1, 2)) s.shuffle(v);
	return v;
}
} // namespace gen

inline bool close_to (double a, double b, double rel = 1e-9, double abs = 1e-9)
{
	if (std::isnan(a) || std::isnan(b)) return std::isnan(a) && std::isnan(b);
	if (std::isinf(a) || std::isinf(b)) return a == b;
	return std::fabs(a - b) <= abs + rel * std::max(std::fabs(a), std::fabs(b));
}
inline bool close_to (const Vec& a, const Vec& b, double rel = 1e-9, double abs = 1e-9)
{
	if (a.size() != b.size()) return false;
	for (size_t i = 0; i < a.size(); ++i) if (!close_to(a[i], b[i], rel, abs)) return false;
	return true;
}
