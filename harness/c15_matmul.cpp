// C15: matrix multiplication
#include "ops.hpp"
using namespace nnet;

// rows x columns matrices, several behind each other
struct Mats { size_t rows, cols, count; Vec v; double at (size_t k, size_t r, size_t c) const { return v[k * rows * cols + r * cols + c]; } };
static Mats product (const Mats& a, const Mats& b)
{
	Mats r{a.rows, b.cols, a.count, Vec(a.count * a.rows * b.cols, 0)};
	for (size_t k = 0; k < r.count; ++k) for (size_t i = 0; i < r.rows; ++i) for (size_t j = 0; j < r.cols; ++j)
	{
		double x = 0; for (size_t z = 0; z < a.cols; ++z) x += a.at(k, i, z) * b.at(k, z, j);
		r.v[k * r.rows * r.cols + i * r.cols + j] = x;
	}
	return r;
}
static Mats turned (const Mats& a)
{
	Mats r{a.cols, a.rows, a.count, Vec(a.v.size())};
	for (size_t k = 0; k < a.count; ++k) for (size_t i = 0; i < a.rows; ++i) for (size_t j = 0; j < a.cols; ++j)
		r.v[k * a.rows * a.cols + j * a.rows + i] = a.at(k, i, j);
	return r;
}
// dimensions as a user writes them: columns first; a single row needs no second dimension
static Dims layout (Src& s, size_t rows, size_t cols, const Dims& extra)
{
	Dims d{cols};
	if (rows > 1 || !extra.empty() || s.flip()) d.push_back(rows);
	d.insert(d.end(), extra.begin(), extra.end());
	if (d.size() >= 2 && s.flip(1, 8)) d.push_back(1);
	return d;
}
static Vec ints (Src& s, size_t n) { Vec v(n); for (double& x : v) x = (double) s.range(-6, 6); return v; }

// the result of a product as the library reports it
static void expect (Ctx& c, Node* n, const Mats& w, const Dims& extra, const std::string& what)
{
	Val g = value_of(n);
	Dims d{w.cols, w.rows}; d.insert(d.end(), extra.begin(), extra.end());
	Dims gd = g.d; while (gd.size() > 1 && gd.back() == 1) gd.pop_back();
	while (d.size() > 1 && d.back() == 1) d.pop_back();
	P_CHECK(c, gd == d, what << " has shape " << show(g.d) << ", expected " << show(d));
	P_CHECK(c, g.v == w.v, what << " is " << show(g.v) << ", expected " << show(w.v));
}

static void mul (Ctx& c)
{
	Src& s = c.s; Pool pool;
	size_t m = s.sz(1, 6), n = s.sz(1, 6), z = s.sz(1, 6);
	if (s.flip(1, 4)) m = n = z;
	Dims extra; if (s.flip(1, 3)) { extra = Dims{s.sz(1, 3)}; if (s.flip(1, 3)) extra.push_back(s.sz(1, 3)); }
	size_t k = extra.empty() ? 1 : ref::prod(extra);
	bool ta = s.flip(1, 3), tb = s.flip(1, 3), same = m == n && m == z && s.flip(1, 3);
	Dims da = ta ? layout(s, z, m, extra) : layout(s, m, z, extra), db = tb ? layout(s, n, z, extra) : layout(s, z, n, extra);
	if (same) { da = db = Dims{m, m}; da.insert(da.end(), extra.begin(), extra.end()); db = da; }
	int ka = (int) s.weighted({4, 2, 1}), kb = (int) s.weighted({4, 2, 1});
	bool late = s.flip(1, 6);
	Operand a = pool.leaf(s, ka, da, ints(s, m * z * k), "a", late && ka != 2);
	Operand b = same ? a : pool.leaf(s, kb, db, ints(s, z * n * k), "b", late && kb != 2);
	P_LOG(c, (ta ? "transposed " : "") << kind_name(ka) << show(da) << " times " << (tb ? "transposed " : "") << (same ? "itself" : kind_name(kb)) << show(db));
	size_t pre = s.below(3); // transposes may exist already
	Vp hold;
	if (pre == 1) hold = transpose<double>(a.p, {0, 1}); else if (pre == 2) hold = transpose<double>(b.p, {1, 0});
	Vp node = matmul<double>(a.p, b.p, ta, tb);
	P_CHECK(c, node.get() != nullptr, "no node");
	Vp again = matmul<double>(a.p, b.p, ta, tb);
	P_CHECK(c, again.get() == node.get(), "the same product is built twice");
	bool flips = m == n; Vp flipped; if (flips) flipped = matmul<double>(b.p, a.p, tb, ta); // the other order is another product
	size_t rounds = s.sz(1, 3);
	for (size_t r = 0; r < rounds; ++r)
	{
		if (r || late) { if (ka != 2 && (!r || s.flip())) Pool::fill(a, ints(s, m * z * k)); if (same) b.v = a.v; else if (kb != 2 && (!r || s.flip())) Pool::fill(b, ints(s, z * n * k)); }
		P_LOG(c, "a=" << show(a.v) << " b=" << show(b.v));
		Mats A{ta ? z : m, ta ? m : z, k, a.v}, B{tb ? n : z, tb ? z : n, k, b.v};
		if (ta) A = turned(A);
		if (tb) B = turned(B);
		expect(c, node.get(), product(A, B), extra, "product");
		if (flips) expect(c, flipped.get(), product(B, A), extra, "product in the other order");
	}
	c.nontrivial(z > 1 && (m > 1 || n > 1));
	c.label(k > 1 ? "several matrices" : "one matrix"); c.label(ta || tb ? "transposed" : "plain");
}

// every product of the same square matrices, in both orders and transposed in every way
static void square (Ctx& c)
{
	Src& s = c.s; Pool pool;
	size_t m = s.sz(2, 4); Dims extra; if (s.flip(1, 4)) extra = Dims{s.sz(1, 2)};
	size_t k = extra.empty() ? 1 : ref::prod(extra); Dims d{m, m}; d.insert(d.end(), extra.begin(), extra.end());
	std::vector<Operand> ops; for (size_t i = 0; i < 2; ++i) ops.push_back(pool.leaf(s, (int) s.weighted({4, 2, 1}), d, ints(s, m * m * k), i ? "b" : "a"));
	struct Q { size_t l, r; bool tl, tr; Vp node; }; std::vector<Q> qs;
	for (size_t n = s.sz(2, 8); n > 0; --n)
	{
		Q q{s.below(2), s.below(2), s.flip(), s.flip(), Vp()};
		if (!qs.empty() && s.flip()) { q = qs[s.below(qs.size())]; switch (s.below(4)) { case 0: std::swap(q.l, q.r); break; case 1: std::swap(q.tl, q.tr); break; case 2: q.tl = !q.tl; break; default: q.tr = !q.tr; } }
		P_LOG(c, (q.tl ? "transposed " : "") << (q.l ? "b" : "a") << " times " << (q.tr ? "transposed " : "") << (q.r ? "b" : "a"));
		q.node = matmul<double>(ops[q.l].p, ops[q.r].p, q.tl, q.tr);
		P_CHECK(c, q.node.get() != nullptr, "no node");
		qs.push_back(q);
	}
	for (size_t r = 0, rounds = s.sz(1, 3); r < rounds; ++r)
	{
		if (r) for (Operand& o : ops) if (o.kind != 2 && s.flip()) Pool::fill(o, ints(s, m * m * k));
		for (size_t i = 0; i < qs.size(); ++i)
		{
			const Q& q = qs[s.flip() ? i : qs.size() - 1 - i];
			Mats A{m, m, k, ops[q.l].v}, B{m, m, k, ops[q.r].v};
			expect(c, q.node.get(), product(q.tl ? turned(A) : A, q.tr ? turned(B) : B), extra, "product");
		}
	}
	c.nontrivial(); c.label("square");
}

// a product of a chain of matrices, of every association
static void chain (Ctx& c)
{
	Src& s = c.s; Pool pool;
	size_t len = s.sz(3, 5);
	std::vector<size_t> dim; for (size_t i = 0; i <= len; ++i) dim.push_back(s.sz(1, 4));
	std::vector<Operand> ops; std::vector<std::pair<Vp, Mats> > cur;
	for (size_t i = 0; i < len; ++i)
	{
		bool t = s.flip(1, 3);
		size_t r = dim[i], q = dim[i + 1];
		ops.push_back(pool.leaf(s, (int) s.below(2), t ? Dims{r, q} : Dims{q, r}, ints(s, r * q), "m"));
		Mats x{t ? q : r, t ? r : q, 1, ops.back().v};
		cur.push_back({t ? transpose<double>(ops.back().p, {0, 1}) : ops.back().p, t ? turned(x) : x});
	}
	while (cur.size() > 1)
	{
		size_t i = s.below(cur.size() - 1);
		cur[i] = {matmul<double>(cur[i].first, cur[i + 1].first), product(cur[i].second, cur[i + 1].second)};
		cur.erase(cur.begin() + i + 1);
	}
	P_LOG(c, "a chain of " << len << " matrices with dimensions " << show(dim));
	expect(c, cur[0].first.get(), cur[0].second, Dims{}, "chain");
	c.nontrivial();
}

static void refuse (Ctx& c)
{
	Src& s = c.s; Pool pool;
	Dims da{s.sz(1, 4), s.sz(1, 4)}, db{s.sz(1, 4), da[0]};
	if (s.flip(1, 3)) da.pop_back();
	int how = (int) s.below(2);
	if (how == 0) { da[0] = db.size() > 1 ? db[1] + s.sz(1, 2) : 2; }
	else
	{
		if (da.size() < 2) da.push_back(1);
		Dims& l = s.flip() ? da : db; Dims& o = &l == &da ? db : da;
		size_t e = s.sz(1, 3); l.push_back(e + 1);
		if (s.flip()) o.push_back(e + 1 + s.sz(1, 2)); // both, of different size
	}
	Operand a = pool.leaf(s, (int) s.below(2), da, Vec(ref::prod(da), 1), "a"), b = pool.leaf(s, (int) s.below(2), db, Vec(ref::prod(db), 1), "b");
	P_LOG(c, show(da) << " times " << show(db));
	bool threw = false;
	try { matmul<double>(a.p, b.p)->eval(); } catch (std::logic_error&) { threw = true; }
	P_CHECK(c, threw, "matrices of shape " << show(da) << " and " << show(db) << " are multiplied");
	c.label("refused"); c.nontrivial();
}

#ifdef ENABLE_STRASSEN
static void large (Ctx& c)
{
	Src& s = c.s; Pool pool;
	size_t dim[3]; for (size_t& x : dim) x = s.flip() ? s.sz(1, 40) : s.sz(200, 300);
	dim[s.below(3)] = s.flip(1, 6) ? s.sz(500, 530) : s.sz(257, 300);
	size_t m = dim[0], z = dim[1], n = dim[2], k = s.flip(1, 5) ? 2 : 1;
	if (m * z * n * k > 40000000) c.discard();
	Dims da{z, m}, db{n, z}; if (k > 1) { da.push_back(k); db.push_back(k); }
	P_LOG(c, "large product " << show(da) << " times " << show(db));
	uint64_t state = s.below(1u << 30) * 2 + 1;
	auto fill = [&](size_t cnt) { Vec v(cnt); for (double& x : v) { state = state * 6364136223846793005ull + 1442695040888963407ull; x = (double) ((int64_t) (state >> 33) % 9 - 4); } return v; };
	Mats A{m, z, k, fill(m * z * k)}, B{z, n, k, fill(z * n * k)};
	Operand a = pool.leaf(s, 1, da, A.v, "a"), b = pool.leaf(s, 1, db, B.v, "b");
	Vp node = matmul<double>(a.p, b.p);
	Val g = value_of(node.get()); Mats w = product(A, B);
	Dims d{n, m}; if (k > 1) d.push_back(k);
	P_CHECK(c, g.d == d, "the product has shape " << show(g.d));
	for (size_t i = 0; i < w.v.size(); ++i)
		P_CHECK(c, g.v[i] == w.v[i], "element " << show(ref::unflat(i, d)) << " of the product is " << g.v[i] << ", expected " << w.v[i]);
	P_CHECK(c, value_of(a.p.get()).v == A.v && value_of(b.p.get()).v == B.v, "a product changed its operands");
	c.nontrivial(); c.label("large");
}
#endif

int main (int argc, char** argv)
{
	pbt::reset_hook() = graph_reset;
	pbt::Prop p;
	p.id = "C15";
#ifdef ENABLE_STRASSEN
	p.rule = "products of matrices of 1..530 rows and columns with at least one dimension above the threshold of the fast algorithm, one or two matrices deep; every case is non-trivial";
	p.facets = {{"large", large, 1}};
	p.quick = 60; p.thorough = 3000; p.batch = 10;
#else
	p.rule = "products of random matrices of 1..6 rows and columns, single or in stacks of up to 9, plain or transposed, of variables, placeholders and constants, of a matrix with itself, through 1..3 data changes; chains of 3..5 matrices in random association; mismatched operands; non-trivial: more than one term per element and more than one element (or a refusal)";
	p.facets = {{"mul", mul, 10}, {"square", square, 3}, {"chain", chain, 2}, {"refuse", refuse, 2}};
	p.quick = 8000; p.thorough = 400000; p.batch = 150;
#endif
	return pbt::harness_main(argc, argv, {p});
}
