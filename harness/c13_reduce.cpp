// C13: reductions
#include "ops.hpp"
using namespace nnet;

struct Agg { const char* name; double (*f)(double, double); };
static const std::vector<Agg> AGG = {
	{"sum", [](double a, double b) { return a + b; }},
	{"max", [](double a, double b) { return std::max(a, b); }},
	{"min", [](double a, double b) { return std::min(a, b); }},
	{"left", [](double a, double) { return a; }},
	{"right", [](double, double b) { return b; }},
	{"minus", [](double a, double b) { return a - b; }}, // order matters
};
static Dims reduced (Dims d, size_t axis)
{
	if (axis >= d.size()) return d;
	if (d.size() == 1) return Dims{1};
	if (axis == 0) d.erase(d.begin());
	else if (axis + 1 == d.size()) d.pop_back();
	else d[axis] = 1;
	return d;
}
// the elements along the axis for every output element
static std::vector<Vec> lines (const Vec& v, const Dims& d, size_t axis)
{
	std::vector<Vec> r;
	if (axis >= d.size()) { for (double x : v) r.push_back(Vec{x}); return r; }
	size_t inner = 1; for (size_t i = 0; i < axis; ++i) inner *= d[i];
	size_t outer = v.size() / inner / d[axis];
	for (size_t o = 0; o < outer; ++o) for (size_t i = 0; i < inner; ++i)
	{
		Vec l; for (size_t k = 0; k < d[axis]; ++k) l.push_back(v[i + inner * (k + d[axis] * o)]);
		r.push_back(l);
	}
	return r;
}

struct Red { std::string name; bool all; size_t axis; std::function<double(const Vec&)> f; Vp node; bool arg; };

static void reduce (Ctx& c)
{
	Src& s = c.s; Pool pool;
	Dims d = gen::dims(s, 1, 4, 4, 64);
	if (s.flip(1, 5)) for (size_t& x : d) x = d[0];
	size_t n = ref::prod(d);
	if (n > 256) c.discard();
	int kind = (int) s.weighted({4, 2, 2});
	auto vals = [&](void) { Vec v = gen::distinct(s, n); if (s.flip(1, 4)) for (double& x : v) x = -x; if (s.flip(1, 4)) v = gen::data(s, n, 2, 1); return v; };
	bool late = kind != 2 && s.flip(1, 5);
	Operand a = pool.leaf(s, kind, d, vals(), "a", late);
	std::vector<Red> reds;
	for (size_t k = s.sz(1, 5); k > 0; --k)
	{
		Red r; r.all = s.flip(1, 3); r.axis = s.below(d.size()); r.arg = false;
		size_t op = s.below(4 + AGG.size() + 2);
		if (!r.all && s.flip(1, 10)) r.axis = d.size() + s.below(2);
		optional<size_t> ax; if (!r.all) ax = r.axis;
		switch (op)
		{
			case 0: r.name = "reduce_sum"; r.node = reduce_sum<double>(a.p, ax); r.f = [](const Vec& l) { return std::accumulate(l.begin(), l.end(), 0.0); }; break;
			case 1: r.name = "reduce_max"; r.node = reduce_max<double>(a.p, ax); r.f = [](const Vec& l) { return *std::max_element(l.begin(), l.end()); }; break;
			case 2: r.name = "reduce_mean"; r.node = reduce_mean<double>(a.p, ax); r.f = [](const Vec& l) { return std::accumulate(l.begin(), l.end(), 0.0) / l.size(); }; break;
			case 3: case 4:
				r.arg = true;
				if (!r.all && r.axis >= d.size()) r.axis = 0;
				if (!r.all) ax = r.axis;
				r.f = [](const Vec& l) { return (double) (std::max_element(l.begin(), l.end()) - l.begin()); };
				r.name = "arg_max"; r.node = arg_max<double>(a.p, ax);
				break;
			case 5:
				r.arg = true;
				if (!r.all && r.axis >= d.size()) r.axis = 0;
				if (!r.all) ax = r.axis;
				r.f = [](const Vec& l) { return l.front() + 100 * l.back() + 1000 * l.size(); };
				r.name = "arg_compress"; r.node = arg_compress<double>(a.p, [](std::vector<double> l) { return l.front() + 100 * l.back() + 1000 * l.size(); }, ax, "ends");
				break;
			default:
			{
				const Agg& g = AGG[op - 6];
				r.name = std::string("compress ") + g.name; r.node = compress<double>(a.p, AGGREGATE<double>(g.f), ax, std::string("c_") + g.name);
				auto f = g.f; r.f = [f](const Vec& l) { double x = l[0]; for (size_t i = 1; i < l.size(); ++i) x = f(x, l[i]); return x; };
			}
		}
		std::ostringstream nm; nm << r.name; if (!r.all) nm << " along " << r.axis;
		c.label(r.name + (r.all ? " all" : r.axis >= d.size() ? " beyond rank" : r.axis == 0 ? " first" : r.axis + 1 == d.size() ? " last" : " middle"));
		r.name = nm.str(); reds.push_back(r);
		P_LOG(c, r.name << " of " << kind_name(kind) << show(d) << (late ? " (initialised later)" : ""));
		P_CHECK(c, r.node.get() != nullptr, "no node");
	}
	c.nontrivial(n > 1);
	size_t rounds = kind == 2 ? 1 : s.sz(1, 3);
	for (size_t k = 0; k < rounds; ++k)
	{
		if (k || late) Pool::fill(a, vals());
		P_LOG(c, "a=" << show(a.v));
		for (Red& r : reds)
		{
			Dims od = r.all ? Dims{1} : reduced(d, r.axis);
			std::vector<Vec> ls = r.all ? std::vector<Vec>{a.v} : lines(a.v, d, r.axis);
			Vec w; for (const Vec& l : ls) w.push_back(r.f(l));
			Val g = value_of(r.node.get());
			P_CHECK(c, close_to(g.v, w, 1e-12, 1e-12), r.name << " is " << show(g) << ", expected " << show(od) << "=" << show(w));
			P_CHECK(c, g.d == od || (w.size() == 1 && g.v.size() == 1), r.name << " has shape " << show(g.d) << ", expected " << show(od));
		}
		P_CHECK(c, value_of(a.p.get()).v == a.v, "a reduction changed its operand");
	}
}

// an index along an axis that does not exist is refused
static void refuse (Ctx& c)
{
	Src& s = c.s; Pool pool;
	Dims d = gen::dims(s, 1, 3, 4, 24);
	Operand a = pool.leaf(s, (int) s.below(2), d, Vec(ref::prod(d), 1), "a");
	bool threw = false; size_t ax = d.size() + s.below(3);
	P_LOG(c, "arg_max of " << show(d) << " along " << ax);
	try { Vp r = arg_max<double>(a.p, ax); r->eval(); } catch (std::logic_error&) { threw = true; }
	P_CHECK(c, threw, "arg_max of " << show(d) << " along " << ax << " is not refused");
	c.nontrivial();
}

// the Euclidean norm, and scaling down to it
static void norms (Ctx& c)
{
	Src& s = c.s; Pool pool;
	Dims d = gen::dims(s, 1, 3, 4, 48); size_t n = ref::prod(d); if (n > 64) c.discard();
	int kind = (int) s.weighted({4, 2, 2});
	auto vals = [&](void) { Vec v = gen::data(s, n, 3, 4); if (s.flip(1, 6)) v.assign(n, 0); return v; };
	Operand a = pool.leaf(s, kind, d, vals(), "a", kind != 2 && s.flip(1, 5));
	bool late = a.kind == 0 && !static_cast<Var*>(a.owned)->good_status();
	if (a.kind == 1) late = !static_cast<Ph*>(a.owned)->good_status();
	Vp norm = l2norm<double>(a.p); std::vector<std::pair<double, Vp> > clips;
	for (size_t k = s.sz(1, 3); k > 0; --k)
	{
		double cap = s.sz(1, 64) / 8.0; if (s.flip(1, 3) && !clips.empty()) cap = clips[0].first * (1 + s.sz(1, 9) * 1e-8);
		clips.push_back({cap, clip_norm<double>(a.p, cap)}); P_LOG(c, "clip the norm of " << kind_name(kind) << show(d) << " to " << cap);
	}
	for (size_t r = kind == 2 ? 1 : s.sz(1, 3); r > 0; --r)
	{
		if (late || (kind != 2 && s.flip())) Pool::fill(a, vals());
		late = false;
		P_LOG(c, "a=" << show(a.v));
		double l = 0; for (double x : a.v) l += x * x; l = std::sqrt(l);
		auto check_norm = [&] { Val g = value_of(norm.get()); P_CHECK(c, g.v.size() == 1 && close_to(g.v[0], l, 1e-12, 1e-12), "the norm is " << show(g) << ", expected " << l); };
		if (s.flip()) check_norm();
		for (auto& cl : clips)
		{
			Vec w = a.v; if (l > cl.first) for (double& x : w) x *= cl.first / l;
			expect_elem(c, value_of(cl.second.get()), d, w, "the operand with its norm clipped", 1e-12, 1e-12);
			c.label(l > cl.first ? "norm clipped" : "norm below the cap");
		}
		check_norm();
		P_CHECK(c, value_of(a.p.get()).v == a.v, "clipping changed its operand");
	}
	c.nontrivial(n > 1);
}

int main (int argc, char** argv)
{
	pbt::reset_hook() = graph_reset;
	pbt::Prop p;
	p.id = "C13";
	p.rule = "1..5 random reductions (sum, max, mean, index of the maximum, custom collectors sensitive to order) per case over the whole tensor or one axis of a random shape of rank 1..4, over variables, placeholders and constants, through 1..3 data changes; Euclidean norms and clipping to a norm likewise; non-trivial: more than one element (or a refusal)";
	p.facets = {{"reduce", reduce, 12}, {"norms", norms, 2}, {"refuse", refuse, 1}};
	p.quick = 27000; p.thorough = 400000; p.batch = 150;
	return pbt::harness_main(argc, argv, {p});
}
