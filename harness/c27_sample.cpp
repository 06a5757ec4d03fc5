// C27: nodes of binomial samples and of random values
#include "ops.hpp"
#include "graph/connector/immutable/generator.hpp"
typedef nnet::generator<double> Gen;
using namespace nnet;

static Vec trials (Src& s, size_t n) { Vec v(n); for (double& x : v) x = s.sz(0, 9); return v; }
static Vec chances (Src& s, size_t n) { Vec v(n); for (double& x : v) x = s.sz(0, 4) / 4.0; return v; }
static Dims some_dims (Src& s) { Dims d; for (size_t k = s.sz(1, 3); k > 0; --k) d.push_back(s.sz(1, 4)); return d; }
static size_t volume (const Dims& d) { size_t n = 1; for (size_t x : d) n *= x; return n; }

struct Draw { int form; double n0, p0; size_t a = 0, b = 0; }; // form 0: number and node, 1: node and number, 2: two nodes
static Vp draw (const Draw& d, const std::vector<Operand>& ops)
{
	switch (d.form) { case 0: return binomial_sample<double>(d.n0, ops[d.b].p); case 1: return binomial_sample<double>(ops[d.a].p, d.p0); default: return binomial_sample<double>(ops[d.a].p, ops[d.b].p); }
}
// sampling nodes over changing leaves
static void binomial (Ctx& c)
{
	Src& s = c.s; use_seed(s.below(1u << 30)); Pool pool; Dims d = some_dims(s); size_t n = volume(d);
	std::vector<Operand> ops; std::vector<bool> ready; std::vector<bool> isp;
	for (size_t k = 0; k < 4; ++k)
	{
		bool one = s.flip(1, 4); Dims od = one ? Dims{1} : d; int kind = (int) s.below(3); bool p = k % 2, late = kind < 2 && s.flip(1, 3);
		Vec v = p ? chances(s, volume(od)) : trials(s, volume(od)); std::ostringstream nm; nm << (p ? "p" : "n") << k;
		ops.push_back(pool.leaf(s, kind, od, v, nm.str(), late)); ready.push_back(!late); isp.push_back(p);
		P_LOG(c, nm.str() << " = " << kind_name(kind) << " " << show(od) << (late ? " without data" : "=" + show(v)));
	}
	std::vector<Draw> ds; std::vector<Vp> nodes, plus; std::vector<Val> last; size_t looked = 0;
	for (size_t k = s.sz(1, 3); k > 0; --k)
	{
		Draw q; q.form = (int) s.below(3); q.n0 = s.sz(0, 9); q.p0 = s.sz(0, 4) / 4.0; q.a = 2 * s.below(2); q.b = 1 + 2 * s.below(2);
		Vp r = draw(q, ops); if (!r.get()) P_CHECK(c, false, "no sample");
		P_LOG(c, "s" << ds.size() << " = samples of " << (q.form == 0 ? std::to_string(q.n0) : "n" + std::to_string(q.a)) << " trials of chance " << (q.form == 1 ? std::to_string(q.p0) : "p" + std::to_string(q.b)));
		ds.push_back(q); nodes.push_back(r); last.push_back(Val()); plus.push_back(s.flip() && !dynamic_cast<constant<double>*>(r.get()) ? r + 1.0 : Vp());
	}
	for (size_t step = s.sz(2, 8); step > 0; --step)
	{
		if (s.flip())
		{
			size_t k = s.below(ops.size()); if (ops[k].kind == 2) continue; Vec v = isp[k] ? chances(s, ops[k].v.size()) : trials(s, ops[k].v.size());
			Pool::fill(ops[k], v); ready[k] = true; P_LOG(c, (isp[k] ? "p" : "n") << k << " = " << show(v));
			for (size_t j = 0; j < ds.size(); ++j) if ((ds[j].form != 1 && ds[j].b == k) || (ds[j].form != 0 && ds[j].a == k)) last[j] = Val();
			continue;
		}
		size_t j = s.below(ds.size()); const Draw& q = ds[j]; bool np = q.form != 1, nn = q.form != 0;
		Val got = value_of(nodes[j].get());
		if ((np && !ready[q.b]) || (nn && !ready[q.a])) { P_CHECK(c, got.v.empty() || dynamic_cast<constant<double>*>(nodes[j].get()), "s" << j << " is " << show(got) << " before its operands have data"); continue; }
		Vec vn = nn ? ops[q.a].v : Vec{q.n0}, vp = np ? ops[q.b].v : Vec{q.p0}; size_t len = std::max(vn.size(), vp.size());
		P_CHECK(c, got.v.size() == len, "s" << j << " is " << show(got) << ", expected " << len << " samples");
		P_CHECK(c, ref::trim(got.d) == ref::trim(vn.size() == len && nn ? ops[q.a].d : np ? ops[q.b].d : Dims{1}) , "s" << j << " has shape " << show(got.d));
		for (size_t i = 0; i < len; ++i)
		{
			double t = vn[vn.size() > 1 ? i : 0], p = vp[vp.size() > 1 ? i : 0], x = got.v[i];
			P_CHECK(c, x == std::floor(x) && x >= 0 && x <= t && (p > 0 || x == 0) && (p < 1 || x == t), "sample " << i << " of " << t << " trials of chance " << p << " is " << x);
		}
		if (!last[j].v.empty()) P_CHECK(c, got.v == last[j].v, "s" << j << " was " << show(last[j]) << " and is " << show(got) << " though nothing changed");
		last[j] = got; looked++;
		if (plus[j].get()) { Val o = value_of(plus[j].get()); Vec w = got.v; for (double& x : w) x += 1; P_CHECK(c, o.v == w, "1 + s" << j << " is " << show(o) << " while s" << j << " is " << show(got)); }
		c.label(q.form == 0 ? "trials by number" : q.form == 1 ? "chance by number" : "both by node");
	}
	for (const Operand& o : ops) if (o.owned) { Val v = value_of(o.owned); P_CHECK(c, v.v.empty() || v.v == o.v, "sampling changed an operand"); }
	c.nontrivial(looked > 1 && n > 1);
}

// how samples are distributed, and drawn anew when an operand changes
static void moments (Ctx& c)
{
	Src& s = c.s; unsigned seed = (unsigned) s.below(1u << 30); use_seed(seed); int form = (int) s.below(3), kind = (int) s.below(3); size_t N = 1500;
	double t[2] = {(double) s.sz(1, 12), (double) s.sz(1, 12)}, p[2] = {s.sz(1, 15) / 16.0, s.sz(1, 15) / 16.0};
	if (form == 0) t[1] = t[0]; if (form == 1) p[1] = p[0];
	// halves of different trials and chances
	Vec vn(N), vp(N); for (size_t i = 0; i < N; ++i) { vn[i] = t[i % 2]; vp[i] = p[i % 2]; }
	P_LOG(c, N << " samples of " << t[0] << " and " << t[1] << " trials of chance " << p[0] << " and " << p[1] << " given as " << (form == 0 ? "number and " : form == 1 ? "node and number, " : "two nodes, ") << kind_name(kind));
	Vec first; bool constant_ = kind == 2;
	for (size_t run = 0; run < 2; ++run)
	{
		use_seed(seed); Pool pool; Operand n = pool.leaf(s, kind, Dims{N}, vn, "n"), q = pool.leaf(s, kind, Dims{N}, vp, "p");
		Vp r = form == 0 ? binomial_sample<double>(t[0], q.p) : form == 1 ? binomial_sample<double>(n.p, p[0]) : binomial_sample<double>(n.p, q.p);
		Vec old;
		for (size_t round = 0; round < (constant_ ? 1 : 2); ++round)
		{
			Val got = value_of(r.get()); P_CHECK(c, got.v.size() == N, "the samples have shape " << show(got.d));
			if (round == 0 && run == 0) first = got.v;
			if (round == 0 && run == 1) P_CHECK(c, got.v == first, "the same seed gives other samples");
			for (size_t h = 0; h < 2; ++h)
			{
				double m = 0, v = 0, len = N / 2; for (size_t i = h; i < N; i += 2) { P_CHECK(c, got.v[i] == std::floor(got.v[i]) && got.v[i] >= 0 && got.v[i] <= t[h], "a sample is " << got.v[i]); m += got.v[i] / len; }
				double mu = t[h] * p[h], var = mu * (1 - p[h]); for (size_t i = h; i < N; i += 2) v += (got.v[i] - mu) * (got.v[i] - mu) / len;
				P_CHECK(c, std::fabs(m - mu) <= 6.5 * std::sqrt(var / len) + 0.01 * (t[h] / len + 0.1), "the mean of " << len << " samples is " << m << ", expected " << mu);
				double m4 = var * (1 + 3 * (t[h] - 2) * p[h] * (1 - p[h])) , sd = std::sqrt(std::max(m4 - var * var, 0.0) / len);
				P_CHECK(c, std::fabs(v - var) <= 7.5 * sd + 0.05 * var + 0.02, "the variance of " << len << " samples is " << v << ", expected " << var);
			}
			// samples next to each other or of another time are independent
			for (size_t lag = 0; lag < 3; lag += 2)
			{
				if (!lag && old.empty()) continue;
				double cov = 0; size_t k = 0; for (size_t i = 0; i + lag < N; ++i, ++k) cov += (got.v[i] - t[i % 2] * p[i % 2]) * ((lag ? got.v[i + lag] : old[i]) - t[i % 2] * p[i % 2]);
				double var = 0; for (size_t h = 0; h < 2; ++h) { double x = t[h] * p[h] * (1 - p[h]); var += x * x / 2; }
				P_CHECK(c, std::fabs(cov / k) <= 7.5 * std::sqrt(var / k) + 0.01, "samples " << (lag ? "next to each other" : "drawn anew") << " have covariance " << cov / k);
			}
			old = got.v;
			if (!constant_) { if (form != 1) Pool::fill(q, vp); else Pool::fill(n, vn); }
		}
	}
	c.nontrivial();
}

// sources of random values shaped like a node
static void sources (Ctx& c)
{
	Src& s = c.s; use_seed(s.below(1u << 30)); Dims d = some_dims(s); size_t n = volume(d);
	struct G { Gen* g; size_t dep; int init; double lo, hi; Vec v; bool known = false; };
	struct All { std::vector<Ph*> deps; std::vector<G> gs; ~All() { for (Ph* p : deps) delete p; } } all; // sources end with the node they are shaped like
	std::vector<Dims> dims; std::vector<bool> ready;
	for (size_t k = 0; k < 2; ++k)
	{
		Dims o = k ? some_dims(s) : d; bool open = s.flip(1, 3); Dims declared = o; if (open) declared.back() = 0; Ph* p = new Ph(tensorshape(declared), k ? "d1" : "d0"); bool late = s.flip();
		if (!late) *p = gen::data(s, volume(o)); all.deps.push_back(p); dims.push_back(o); ready.push_back(!late); P_LOG(c, "d" << k << " of shape " << show(o) << (late ? " without data" : ""));
	}
	auto make = [&](size_t dep)
	{
		G g; g.dep = dep; g.init = (int) s.below(2); g.lo = s.dyadic(4, 4); g.hi = g.lo + (g.init ? s.sz(1, 4) : 0);
		if (g.init) { rand_uniform<double> r(g.lo, g.hi); g.g = Gen::get(all.deps[dep], r, "g"); } else { const_init<double> r(g.lo); g.g = Gen::get(all.deps[dep], r, "g"); }
		P_LOG(c, "g" << all.gs.size() << " like d" << dep << " in " << g.lo << " to " << g.hi); all.gs.push_back(g);
	};
	make(0); std::vector<std::pair<Vp, size_t> > users; size_t looked = 0;
	auto look = [&](size_t i)
	{
		G& g = all.gs[i]; if (!g.g) return; Val v = value_of(g.g);
		if (!ready[g.dep]) { P_CHECK(c, v.v.empty() && !g.g->good_status(), "g" << i << " is " << show(v) << " before its shape is known"); return; }
		P_CHECK(c, v.d == dims[g.dep] && g.g->good_status() && g.g->get_shape().as_list() == v.d, "g" << i << " has shape " << show(v.d) << ", expected " << show(dims[g.dep]));
		for (double x : v.v) P_CHECK(c, x >= g.lo && x <= g.hi, "g" << i << " holds " << x);
		std::set<double> u(v.v.begin(), v.v.end()); if (g.init) P_CHECK(c, u.size() == v.v.size(), "g" << i << " repeats values: " << show(v));
		if (g.known) P_CHECK(c, v.v == g.v, "g" << i << " was " << show(g.v) << " and is " << show(v));
		for (size_t j = 0; j < all.gs.size(); ++j) if (j != i && g.init && all.gs[j].known && all.gs[j].g && !g.known) for (double x : all.gs[j].v) P_CHECK(c, !u.count(x), "g" << i << " and g" << j << " share values");
		g.v = v.v; g.known = true; looked++;
	};
	for (size_t step = s.sz(3, 10); step > 0; --step)
	{
		size_t i = s.below(all.gs.size()); G& g = all.gs[i];
		switch (s.weighted({4, 3, 2, 2, 1, 1, 2}))
		{
			case 0: look(i); break;
			case 1: { size_t k = s.below(2); for (size_t j = 0; j < all.gs.size(); ++j) look(j); *all.deps[k] = gen::data(s, volume(dims[k])); ready[k] = true; P_LOG(c, "d" << k << " gets data"); break; }
			case 2: if (all.gs.size() < 5) make(s.below(2)); break;
			case 3: { if (!g.g || all.gs.size() > 4) break; look(i); G h = g; h.g = g.g->clone(); P_LOG(c, "g" << all.gs.size() << " = clone of g" << i); all.gs.push_back(h); c.label("cloned"); break; }
			case 4: { if (!g.g) break; look(i); P_LOG(c, "g" << i << " moves"); Gen* m = g.g->move(); P_CHECK(c, value_of(g.g).v.empty(), "a moved source keeps its values"); delete g.g; g.g = m; c.label("moved"); break; }
			case 5:
			{
				size_t j = s.below(all.gs.size()); G& h = all.gs[j]; if (!g.g || !h.g || !ready[g.dep] || !ready[h.dep] || dims[g.dep] != dims[h.dep]) break; look(i); look(j); P_LOG(c, "g" << i << " = g" << j); *g.g = *h.g; Gen* p = g.g; g = h; g.g = p; c.label("assigned"); break;
			}
			default:
			{
				if (!g.g) break; look(i); Vp u = Vp(g.g) * 2.0; users.push_back({u, i}); P_LOG(c, "u" << users.size() - 1 << " = 2 g" << i);
			}
		}
		for (auto& u : users)
		{
			if (!u.first.get()) continue; look(u.second); Val v = value_of(u.first.get()); Vec w = all.gs[u.second].v; for (double& x : w) x *= 2;
			if (!all.gs[u.second].known) { P_CHECK(c, v.v.empty(), "2 g" << u.second << " is " << show(v) << " without g" << u.second); continue; }
			P_CHECK(c, v.v == w, "2 g" << u.second << " is " << show(v) << ", expected " << show(w));
		}
	}
	c.nontrivial(looked > 1 && n > 1);
}

int main (int argc, char** argv)
{
	pbt::reset_hook() = graph_reset;
	pbt::Prop p;
	p.id = "C27";
	p.rule = "graphs of binomial samples whose trials and chances are numbers, variables, placeholders or constants, over histories of changes; 1500 samples of two mixed distributions with their means, variances and covariances, drawn twice from one seed; histories of sources of random values with late data, clones, moves and assignments; non-trivial: several elements looked at several times";
	p.assumptions = {"means and covariances may deviate by 6.5 to 7.5 standard deviations"};
	p.facets = {{"binomial", binomial, 5}, {"moments", moments, 1}, {"sources", sources, 4}};
	p.quick = 72000; p.thorough = 1000000; p.batch = 100;
	return pbt::harness_main(argc, argv, {p});
}
