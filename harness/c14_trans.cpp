// C14: transforms: transpose, fit, extend, flip, cross-correlation
#include "ops.hpp"
using namespace nnet;

static Dims padded (Dims d, size_t rank) { if (d.size() < rank) d.resize(rank, 1); return d; }
static Dims notail (Dims d) { while (d.size() > 1 && d.back() == 1) d.pop_back(); return d; }

struct Ref { Dims d; Vec v; };
static Ref transposed (const Ref& a, size_t i, size_t j)
{
	Ref r; Dims in = padded(a.d, std::max(i, j) + 1);
	r.d = in; std::swap(r.d[i], r.d[j]); r.v.resize(a.v.size());
	for (size_t k = 0; k < a.v.size(); ++k) { Dims co = ref::unflat(k, in); std::swap(co[i], co[j]); r.v[ref::flat(co, r.d)] = a.v[k]; }
	return r;
}
static Ref extended (const Ref& a, size_t ax, size_t m)
{
	if (m == 1) return a;
	Dims in = padded(a.d, ax + 1); Ref r; r.d = in; r.d[ax] *= m; r.v.resize(ref::prod(r.d));
	for (size_t k = 0; k < r.v.size(); ++k) { Dims co = ref::unflat(k, r.d); co[ax] %= in[ax]; r.v[k] = a.v[ref::flat(co, in)]; }
	return r;
}
static Ref flipped (const Ref& a, const Dims& dims)
{
	Ref r = a;
	for (size_t k = 0; k < a.v.size(); ++k)
	{
		Dims co = ref::unflat(k, a.d);
		for (size_t x : dims) if (x < co.size()) co[x] = a.d[x] - 1 - co[x];
		r.v[k] = a.v[ref::flat(co, a.d)];
	}
	return r;
}
static Ref corr (const Ref& a, const Ref& f, size_t p, size_t q, bool flipf)
{
	Ref r; r.d = a.d; r.d[p] = a.d[p] + 1 - f.d[p]; r.d[q] = a.d[q] + 1 - f.d[q]; r.v.assign(ref::prod(r.d), 0);
	for (size_t k = 0; k < r.v.size(); ++k)
	{
		Dims co = ref::unflat(k, r.d);
		for (size_t i = 0; i < f.d[p]; ++i) for (size_t j = 0; j < f.d[q]; ++j)
		{
			Dims ac = co; ac[p] += i; ac[q] += j;
			Dims fc(f.d.size(), 0); fc[p] = flipf ? f.d[p] - 1 - i : i; fc[q] = flipf ? f.d[q] - 1 - j : j;
			r.v[k] += a.v[ref::flat(ac, a.d)] * f.v[ref::flat(fc, f.d)];
		}
	}
	return r;
}

static void expect (Ctx& c, Vp node, const Ref& w, const std::string& what)
{
	Val g = value_of(node.get());
	if (g.v.size() == 1 && w.v.size() > 1)
	{
		for (double x : w.v) P_CHECK(c, close_to(g.v[0], x), what << " is the scalar " << g.v[0] << ", expected " << show(w.v));
		return;
	}
	P_CHECK(c, close_to(g.v, w.v, 1e-12, 1e-12), what << " is " << show(g) << ", expected " << show(w.d) << "=" << show(w.v));
	P_CHECK(c, notail(g.d) == notail(w.d), what << " has shape " << show(g.d) << ", expected " << show(w.d));
}

static void chain (Ctx& c)
{
	Src& s = c.s; Pool pool;
	Dims d = gen::dims(s, 1, 4, 4, 48); if (s.flip(1, 5)) for (size_t& x : d) x = d[0];
	if (ref::prod(d) > 128) c.discard();
	int kind = (int) s.weighted({4, 2, 1});
	Operand a = pool.leaf(s, kind, d, gen::distinct(s, ref::prod(d)), "a");
	struct Step { int op; size_t i, j; Dims dims; size_t watch; };
	std::vector<Step> steps; std::vector<Operand> watches; std::vector<Vp> nodes;
	Vp cur = a.p; size_t size = ref::prod(d); Dims cd = d;
	for (size_t k = s.sz(1, 4); k > 0; --k)
	{
		Step t; t.op = (int) s.weighted({4, 3, 3, 3}); t.i = t.j = t.watch = 0;
		std::ostringstream nm;
		switch (t.op)
		{
			case 0:
				t.i = s.below(cd.size()); t.j = s.below(cd.size());
				if (s.flip(1, 5)) t.j = cd.size() + s.below(2);
				if (s.flip(1, 12)) t.i = cd.size() + s.below(2);
				if (s.flip(1, 3) && !steps.empty() && steps.back().op == 0) { t.i = steps.back().i; t.j = steps.back().j; }
				nm << "transpose " << t.i << "," << t.j;
				cur = transpose<double>(cur, {t.i, t.j});
				cd = padded(cd, std::max(t.i, t.j) + 1); std::swap(cd[t.i], cd[t.j]);
				break;
			case 1:
			{
				Dims w = s.flip() ? gen::dims(s, 1, 4, 5, 64) : cd;
				if (s.flip()) for (size_t& x : w) if (s.flip(1, 3)) x = s.sz(1, 5);
				if (ref::prod(w) > 400) c.discard();
				int wk = (int) s.weighted({3, 2, 1});
				t.watch = watches.size(); watches.push_back(pool.leaf(s, wk, w, gen::distinct(s, ref::prod(w)), "w"));
				nm << "fit to " << kind_name(wk) << show(w);
				cur = fit<double>(cur, watches.back().p); cd = w;
				break;
			}
			case 2:
				t.i = s.below(cd.size()); if (s.flip(1, 8)) t.i = cd.size() + s.below(2);
				t.j = s.sz(1, 3); if (size * t.j > 400) t.j = 1;
				size *= t.j;
				nm << "extend axis " << t.i << " by " << t.j;
				cur = extend<double>(cur, t.i, t.j);
				if (t.j > 1) { cd = padded(cd, t.i + 1); cd[t.i] *= t.j; }
				break;
			default:
				for (size_t x = 0; x < cd.size(); ++x) if (s.flip()) t.dims.push_back(x);
				if (s.flip(1, 10)) t.dims.push_back(cd.size());
				s.shuffle(t.dims);
				nm << "flip " << show(t.dims);
				cur = flip<double>(cur, t.dims);
				break;
		}
		size = ref::prod(cd);
		P_LOG(c, nm.str());
		c.label(nm.str().substr(0, nm.str().find(' ')));
		P_CHECK(c, cur.get() != nullptr, "no node");
		steps.push_back(t); nodes.push_back(cur);
	}
	c.nontrivial(ref::prod(d) > 1);
	size_t rounds = kind == 2 ? 1 : s.sz(1, 3);
	for (size_t r = 0; r < rounds; ++r)
	{
		if (r) Pool::fill(a, gen::distinct(s, ref::prod(d)));
		P_LOG(c, "a=" << kind_name(kind) << show(d) << show(a.v));
		Ref x{d, a.v};
		for (size_t k = 0; k < steps.size(); ++k)
		{
			const Step& t = steps[k];
			switch (t.op)
			{
				case 0: x = transposed(x, t.i, t.j); break;
				case 1: { Dims w = watches[t.watch].d; Vec v = ref::refit(x.v, x.d, w); x = Ref{w, v}; break; }
				case 2: x = extended(x, t.i, t.j); break;
				default: x = flipped(x, t.dims); break;
			}
			std::ostringstream nm; nm << "step " << k;
			expect(c, nodes[k], x, nm.str());
		}
		P_CHECK(c, value_of(a.p.get()).v == a.v, "a transform changed its operand");
	}
}

// several transforms of one tensor are each what was asked for
static void beside (Ctx& c)
{
	Src& s = c.s; Pool pool;
	Dims d = gen::dims(s, 1, 4, 4, 48); if (s.flip(1, 2)) { size_t x = s.sz(2, 3); for (size_t& y : d) y = x; }
	if (ref::prod(d) > 100) c.discard();
	Operand a = pool.leaf(s, (int) s.weighted({4, 2, 1}), d, gen::distinct(s, ref::prod(d)), "a");
	std::vector<Operand> others; std::vector<Dims> ods;
	for (size_t i = 0; i < 2; ++i) { Dims e = s.flip() ? d : gen::dims(s, 1, 3, 4, 30); ods.push_back(e); others.push_back(pool.leaf(s, (int) s.below(2), e, gen::distinct(s, ref::prod(e)), i ? "c" : "b")); }
	struct Q { int op; size_t i, j; Dims dims; bool turn; Vp node; };
	std::vector<Q> qs;
	for (size_t k = s.sz(2, 7); k > 0; --k)
	{
		Q q; q.op = (int) s.below(5); q.i = s.below(d.size() + 1); q.j = s.sz(0, d.size()); q.turn = false;
		if (!qs.empty() && s.flip(2, 3)) { q = qs[s.below(qs.size())]; if (s.flip()) std::swap(q.i, q.j); else if (s.flip()) q.i = s.below(d.size() + 1); else q.turn = !q.turn; }
		std::ostringstream nm;
		switch (q.op)
		{
			case 0: nm << "transpose " << q.i << "," << q.j; q.node = transpose<double>(a.p, {q.i, q.j}); break;
			case 1: q.j = q.j % 3 + 1; nm << "extend axis " << q.i << " by " << q.j; q.node = extend<double>(a.p, q.i, q.j); break;
			case 2:
				q.dims.clear(); for (size_t x = 0; x <= d.size(); ++x) if ((q.i * 5 + q.j * 3 + x * 2) % 4 < 2) q.dims.push_back(x);
				if (q.turn) std::reverse(q.dims.begin(), q.dims.end());
				nm << "flip " << show(q.dims); q.node = flip<double>(a.p, q.dims); break;
			case 3: q.i %= 2; nm << (q.turn ? "fit the other to a, " : "fit a to ") << q.i; q.node = q.turn ? fit<double>(others[q.i].p, a.p) : fit<double>(a.p, others[q.i].p); break;
			default:
			{
				size_t o = q.turn ? 1 : 0; // correlate with a tensor of the same shape, over both orders of the axes
				if (d.size() < 2 || ods[0] != d) continue;
				q.i %= d.size(); q.j %= d.size(); if (q.i == q.j) q.j = (q.i + 1) % d.size();
				bool outer_ok = true; for (size_t x = 0; x < d.size(); ++x) if (x != q.i && x != q.j && d[x] != 1) outer_ok = false;
				if (!outer_ok) continue;
				nm << (o ? "correlate b with a over " : "correlate a with b over ") << q.i << "," << q.j;
				q.node = o ? cross_corr2d<double>(others[0].p, a.p, {q.i, q.j}) : cross_corr2d<double>(a.p, others[0].p, {q.i, q.j});
			}
		}
		P_LOG(c, nm.str() << " of " << show(d));
		P_CHECK(c, q.node.get() != nullptr, "no node");
		qs.push_back(q); c.label("beside " + nm.str().substr(0, nm.str().find(' ')));
	}
	for (size_t r = 0, rounds = s.sz(1, 3); r < rounds; ++r)
	{
		if (r && a.kind != 2) Pool::fill(a, gen::distinct(s, ref::prod(d)));
		if (r && s.flip()) Pool::fill(others[0], gen::distinct(s, ref::prod(ods[0])));
		Ref x{d, a.v}; size_t k = 0;
		for (const Q& q : qs)
		{
			std::string nm = "transform " + std::to_string(k++); Ref o{ods[q.op == 3 ? q.i : 0], others[q.op == 3 ? q.i : 0].v};
			switch (q.op)
			{
				case 0: expect(c, q.node, transposed(x, q.i, q.j), nm); break;
				case 1: expect(c, q.node, q.j > 1 ? extended(x, q.i, q.j) : x, nm); break;
				case 2: expect(c, q.node, flipped(x, q.dims), nm); break;
				case 3: expect(c, q.node, q.turn ? Ref{d, ref::refit(o.v, o.d, d)} : Ref{o.d, ref::refit(x.v, d, o.d)}, nm); break;
				default: expect(c, q.node, q.turn ? corr(o, x, q.i, q.j, false) : corr(x, o, q.i, q.j, false), nm);
			}
		}
	}
	c.nontrivial(ref::prod(d) > 1 && qs.size() > 1);
}

static void special (Ctx& c)
{
	Src& s = c.s; Pool pool;
	Dims d = gen::dims(s, 1, 4, 4, 48);
	Operand a = pool.leaf(s, (int) s.below(2), d, gen::distinct(s, ref::prod(d)), "a");
	size_t ax = s.below(d.size());
	P_LOG(c, "extend " << show(d) << " axis " << ax << " by 0 and 1");
	P_CHECK(c, extend<double>(a.p, ax, 1).get() == a.p.get(), "extending once is not the operand itself");
	Val z = value_of(extend<double>(a.p, ax, 0).get());
	P_CHECK(c, z.v == Vec{0}, "extending zero times gives " << show(z));
	size_t i = s.below(d.size() + 1), j = s.below(d.size() + 1);
	Vp tt = transpose<double>(transpose<double>(a.p, {i, j}), {j, i});
	expect(c, tt, Ref{d, a.v}, "double transpose");
	Dims fl; for (size_t x = 0; x < d.size(); ++x) if (s.flip()) fl.push_back(x);
	expect(c, flip<double>(flip<double>(a.p, fl), fl), Ref{d, a.v}, "double flip");
	c.nontrivial(ref::prod(d) > 1);
}

static void convolution (Ctx& c)
{
	Src& s = c.s; Pool pool;
	Dims d = gen::dims(s, 2, 4, 5, 100);
	size_t p = s.below(d.size()), q = s.below(d.size() - 1); if (q >= p) q++;
	for (size_t x : {p, q}) if (d[x] == 1 && s.flip()) d[x] = s.sz(2, 4);
	Dims f(std::max(p, q) + 1, 1); f[p] = s.sz(1, d[p]); f[q] = s.sz(1, d[q]);
	bool conv = s.flip();
	Operand a = pool.leaf(s, (int) s.below(2), d, gen::data(s, ref::prod(d), 4, 2), "a");
	Operand k = pool.leaf(s, (int) s.below(3), f, gen::data(s, ref::prod(f), 4, 2), "filter");
	P_LOG(c, (conv ? "convolve " : "correlate ") << show(d) << " with " << show(f) << " over " << p << "," << q);
	Vp node = conv ? conv2d<double>(a.p, k.p, {p, q}) : cross_corr2d<double>(a.p, k.p, {p, q});
	for (size_t r = s.sz(1, 2); r > 0; --r)
	{
		P_LOG(c, "a=" << show(a.v) << " filter=" << show(k.v));
		expect(c, node, corr(Ref{d, a.v}, Ref{f, k.v}, p, q, conv), conv ? "convolution" : "cross correlation");
		Pool::fill(a, gen::data(s, ref::prod(d), 4, 2));
	}
	c.label(conv ? "convolution" : "cross correlation");
	c.nontrivial(ref::prod(d) > 1 && ref::prod(f) > 1);
}

int main (int argc, char** argv)
{
	pbt::reset_hook() = graph_reset;
	pbt::Prop p;
	p.id = "C14";
	p.rule = "chains of 1..4 random transforms (transpose of any two axes, fit to another node's shape, extend, flip) of a random tensor of rank 1..4 with every intermediate result compared, several transforms beside each other of one tensor, double transposes and flips, and 2-dimensional correlations and convolutions over random axis pairs, through 1..3 data changes; non-trivial: more than one element";
	p.facets = {{"chain", chain, 6}, {"beside", beside, 4}, {"special", special, 1}, {"convolution", convolution, 3}};
	p.quick = 36000; p.thorough = 400000; p.batch = 150;
	p.assumptions = {"shapes of transforms are compared up to trailing dimensions of size one"};
	return pbt::harness_main(argc, argv, {p});
}
