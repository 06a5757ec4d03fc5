// C08: elementwise operations against scalar arithmetic
#include "ops.hpp"
using namespace nnet;

struct U { const char* name; Vp (*f)(Vp); double (*r)(double); };
static const std::vector<U> UN = {
	{"neg", [](Vp a) { return -a; }, [](double x) { return -x; }},
	{"identity", [](Vp a) { return identity<double>(a); }, [](double x) { return x; }},
	{"abs", [](Vp a) { return +a; }, [](double x) { return std::fabs(x); }},
	{"sin", [](Vp a) { return sin<double>(a); }, [](double x) { return std::sin(x); }},
	{"cos", [](Vp a) { return cos<double>(a); }, [](double x) { return std::cos(x); }},
	{"tan", [](Vp a) { return tan<double>(a); }, [](double x) { return std::tan(x); }},
	{"csc", [](Vp a) { return csc<double>(a); }, [](double x) { return 1 / std::sin(x); }},
	{"sec", [](Vp a) { return sec<double>(a); }, [](double x) { return 1 / std::cos(x); }},
	{"cot", [](Vp a) { return cot<double>(a); }, [](double x) { return std::cos(x) / std::sin(x); }},
	{"exp", [](Vp a) { return exp<double>(a); }, [](double x) { return std::exp(x); }},
	{"sqrt", [](Vp a) { return sqrt<double>(a); }, [](double x) { return std::sqrt(x); }},
	{"round", [](Vp a) { return round<double>(a); }, [](double x) { return std::round(x); }},
	{"log", [](Vp a) { return log<double>(a); }, [](double x) { return std::log(x); }},
};
typedef bool (*Cmp)(double, double);
struct CM { const char* name; Cmp f; };
static const std::vector<CM> CMP = {
	{"lt", [](double a, double b) { return a < b; }}, {"gt", [](double a, double b) { return a > b; }},
	{"le", [](double a, double b) { return a <= b; }}, {"ge", [](double a, double b) { return a >= b; }},
	{"same", [](double a, double b) { return a == b; }}, {"differ", [](double a, double b) { return a != b; }},
};
// binary operations by index; 0..3 arithmetic, 4.. comparisons, 10/11 eq/neq
static const size_t NBIN = 12;
static std::string bname (size_t k)
{
	const char* n[] = {"+", "-", "*", "/"};
	if (k < 4) return n[k];
	if (k < 10) return CMP[k - 4].name;
	return k == 10 ? "eq" : "neq";
}
static double bref (size_t k, double a, double b)
{
	switch (k)
	{
		case 0: return a + b; case 1: return a - b; case 2: return a * b; case 3: return a / b;
		case 10: return a == b; case 11: return a != b;
		default: return CMP[k - 4].f(a, b);
	}
}
static Vp bnode (size_t k, Vp a, Vp b)
{
	switch (k)
	{
		case 0: return a + b; case 1: return a - b; case 2: return a * b; case 3: return a / b;
		case 10: return eq<double>(a, b); case 11: return neq<double>(a, b);
		default: return conditional<double>(a, b, CMP[k - 4].f, CMP[k - 4].name);
	}
}
static Vp bleft (size_t k, double a, Vp b)
{
	switch (k)
	{
		case 0: return a + b; case 1: return a - b; case 2: return a * b; case 3: return a / b;
		default: return conditional<double>(a, b, CMP[k - 4].f, CMP[k - 4].name);
	}
}
static Vp bright (size_t k, Vp a, double b)
{
	switch (k)
	{
		case 0: return a + b; case 1: return a - b; case 2: return a * b; case 3: return a / b;
		default: return conditional<double>(a, b, CMP[k - 4].f, CMP[k - 4].name);
	}
}

static Vec values (Src& s, size_t n, bool nonzero)
{
	Vec v(n);
	for (double& x : v) x = nonzero ? s.dyadic_nz() : s.dyadic();
	return v;
}

// every operation over one variable, looked at before and after the data changes
static void unary (Ctx& c)
{
	Src& s = c.s; Pool pool;
	Dims d = gen::dims(s, 1, 4, 5, 48); size_t n = ref::prod(d);
	int kind = (int) s.weighted({4, 2, 2});
	bool late = kind != 2 && s.flip(1, 4);
	Operand a = pool.leaf(s, kind, d, values(s, n, false), "a", late);
	std::vector<size_t> ops;
	for (size_t k = s.sz(1, 5); k > 0; --k) ops.push_back(s.below(UN.size() + 3));
	std::vector<Vp> nodes; std::vector<std::function<double(double)> > refs; std::vector<std::string> names;
	for (size_t k : ops)
	{
		if (k < UN.size()) { nodes.push_back(UN[k].f(a.p)); refs.push_back(UN[k].r); names.push_back(UN[k].name); }
		else if (k == UN.size())
		{
			double e = s.flip(1, 3) ? s.dyadic(4, 2) : (double) s.range(-3, 5);
			nodes.push_back(pow<double>(a.p, e)); refs.push_back([e](double x) { return std::pow(x, e); }); names.push_back("pow " + std::to_string(e));
		}
		else
		{
			double lo = s.dyadic(), hi = s.dyadic();
			nodes.push_back(clip_val<double>(a.p, lo, hi));
			refs.push_back([lo, hi](double x) { return std::min(std::max(x, std::min(lo, hi)), std::max(lo, hi)); });
			names.push_back("clip " + std::to_string(lo) + " " + std::to_string(hi));
		}
		P_LOG(c, names.back() << " of " << kind_name(kind) << " " << show(d) << (late ? " (initialised later)" : ""));
	}
	c.nontrivial(n > 1);
	size_t rounds = kind == 2 ? 1 : s.sz(1, 3);
	for (size_t r = 0; r < rounds; ++r)
	{
		if (r || late)
		{
			if (late && r == 0) for (size_t i = 0; i < nodes.size(); ++i)
				if (!dynamic_cast<constant<double>*>(nodes[i].get()))
					P_CHECK(c, value_of(nodes[i].get()).v.empty(), names[i] << " of an uninitialised operand has a value");
			Pool::fill(a, values(s, n, false));
		}
		P_LOG(c, "a=" << show(a.v));
		for (size_t i = 0; i < nodes.size(); ++i)
		{
			Vec w(n); for (size_t j = 0; j < n; ++j) w[j] = refs[i](a.v[j]);
			expect_elem(c, value_of(nodes[i].get()), d, w, names[i]);
		}
		P_CHECK(c, value_of(a.p.get()).v == a.v, "an operation changed its operand");
	}
	c.label(kind_name(kind)); for (const std::string& m : names) c.label(m.substr(0, m.find(' ')));
}

static void binary (Ctx& c)
{
	Src& s = c.s; Pool pool;
	Dims d = gen::dims(s, 1, 4, 5, 48);
	Dims da = d, db = d;
	size_t form = s.weighted({4, 2, 2, 1});
	if (form == 1) da = Dims(s.sz(1, 2), 1); else if (form == 2) db = Dims(s.sz(1, 2), 1);
	else if (form == 3 && ref::prod(d) > 1) db.insert(db.end(), s.sz(1, 2), 1); // same shape but for outer ones
	int ka = (int) s.weighted({4, 2, 2}), kb = (int) s.weighted({4, 2, 2});
	size_t op = s.weighted({6, 6, 6, 6, 1, 1, 1, 1, 1, 1, 2, 2});
	bool div = op == 3;
	bool late = s.flip(1, 5);
	size_t na = ref::prod(da), nb = ref::prod(db);
	auto va = [&](void) { return values(s, na, div && ka == 2); };
	auto vb = [&](void) { return values(s, nb, div && (kb == 2 || ka == 2 || s.flip())); };
	Operand a = pool.leaf(s, ka, da, va(), "a", late && ka != 2);
	Operand b = pool.leaf(s, kb, db, vb(), "b", late && kb != 2 && s.flip());
	P_LOG(c, kind_name(ka) << show(da) << " " << bname(op) << " " << kind_name(kb) << show(db));
	Vp node = bnode(op, a.p, b.p);
	P_CHECK(c, node.get() != nullptr, "no node");
	size_t n = std::max(na, nb);
	Dims od = na == 1 ? db : da; if (na > 1 && nb > 1) od = db;
	c.nontrivial(n > 1);
	size_t rounds = s.sz(1, 3);
	for (size_t r = 0; r < rounds; ++r)
	{
		if (a.kind != 2 && (r ? s.flip() : !a.p->good_status())) Pool::fill(a, va());
		if (b.kind != 2 && (r ? s.flip() : !b.p->good_status())) Pool::fill(b, vb());
		P_LOG(c, "a=" << show(a.v) << " b=" << show(b.v));
		Vec w(n);
		for (size_t i = 0; i < n; ++i) w[i] = bref(op, a.v[na == 1 ? 0 : i], b.v[nb == 1 ? 0 : i]);
		Val got = value_of(node.get());
		if (form == 3) { P_CHECK(c, ref::trim(got.d) == ref::trim(od) || got.v.size() == 1, "shape " << show(got.d)); if (got.v.size() > 1) got.d = od; }
		expect_elem(c, got, od, w, "a " + bname(op) + " b");
	}
	c.label(bname(op)); c.label(na == nb ? "same size" : "scalar operand");
}

static void scalar (Ctx& c)
{
	Src& s = c.s; Pool pool;
	Dims d = gen::dims(s, 1, 4, 5, 48); size_t n = ref::prod(d);
	int kind = (int) s.weighted({4, 2, 2});
	Operand a = pool.leaf(s, kind, d, values(s, n, kind == 2), "a");
	std::vector<Vp> nodes; struct K { size_t op; bool left; double k; }; std::vector<K> ks;
	for (size_t m = s.sz(1, 5); m > 0; --m)
	{
		K k; k.op = s.below(10); k.left = s.flip();
		k.k = s.flip(1, 3) ? (double) s.range(0, 1) : s.dyadic();
		if (s.flip(1, 4) && !ks.empty()) { k.k = ks.back().k; k.op = ks.back().op; k.left = !ks.back().left; } // mirrored
		if (s.flip(1, 6) && !ks.empty()) { k = ks.back(); k.k += k.k * 1e-9 + 1e-9; } // hardly different
		if (k.op == 3 && !k.left && k.k == 0) k.k = 1;
		P_LOG(c, (k.left ? "" : kind_name(kind)) << show(k.left ? Dims() : d) << " " << bname(k.op) << (k.left ? " (scalar left) " : " ") << k.k);
		nodes.push_back(k.left ? bleft(k.op, k.k, a.p) : bright(k.op, a.p, k.k));
		P_CHECK(c, nodes.back().get() != nullptr, "no node");
		ks.push_back(k);
		c.label(bname(k.op) + (k.left ? " left" : " right"));
	}
	c.nontrivial(n > 1);
	size_t rounds = kind == 2 ? 1 : s.sz(1, 3);
	for (size_t r = 0; r < rounds; ++r)
	{
		if (r) Pool::fill(a, values(s, n, false));
		P_LOG(c, "a=" << show(a.v));
		for (size_t i = 0; i < nodes.size(); ++i)
		{
			const K& k = ks[i];
			Vec w(n);
			bool zdiv = false;
			for (size_t j = 0; j < n; ++j)
			{
				w[j] = k.left ? bref(k.op, k.k, a.v[j]) : bref(k.op, a.v[j], k.k);
				if (k.op == 3 && k.left && k.k == 0 && a.v[j] == 0) zdiv = true;
			}
			if (zdiv) continue; // zero divided by zero is taken as zero
			std::ostringstream what; what.precision(17); what << "operation " << i << " (" << bname(k.op) << (k.left ? " scalar left " : " scalar right ") << k.k << ")";
			expect_elem(c, value_of(nodes[i].get()), d, w, what.str(), 1e-13, 0);
		}
	}
}

// several operations over the same operands, in both orders and with themselves, are each what was asked for
static void several (Ctx& c)
{
	Src& s = c.s; Pool pool;
	Dims d = gen::dims(s, 1, 3, 4, 24); size_t n = ref::prod(d);
	std::vector<Operand> ops; std::vector<Dims> ds;
	size_t m = s.sz(2, 3);
	for (size_t i = 0; i < m; ++i)
	{
		Dims di = s.flip(1, 6) ? Dims{1} : d;
		int kind = (int) s.weighted({6, 3, 1});
		ops.push_back(pool.leaf(s, kind, di, values(s, ref::prod(di), true), std::string(1, (char) ('a' + i)), kind != 2 && s.flip(1, 6)));
		ds.push_back(di);
	}
	struct Q { size_t op, l, r; Vp node; };
	std::vector<Q> qs;
	size_t a0 = s.below(m), b0 = (a0 + s.sz(1, m - 1)) % m;
	for (size_t k = s.sz(2, 7); k > 0; --k)
	{
		Q q; q.op = s.below(12);
		if (s.flip(1, 4)) { q.l = s.below(m); q.r = s.below(m); } else { q.l = a0; q.r = b0; if (s.flip()) std::swap(q.l, q.r); }
		if (!qs.empty() && s.flip(1, 2)) { q = qs[s.below(qs.size())]; if (s.flip(2, 3)) std::swap(q.l, q.r); }
		if (q.op == 3 && q.l == q.r) q.op = 0;
		P_LOG(c, (char) ('a' + q.l) << " " << bname(q.op) << " " << (char) ('a' + q.r));
		q.node = bnode(q.op, ops[q.l].p, ops[q.r].p);
		P_CHECK(c, q.node.get() != nullptr, "no node");
		qs.push_back(q);
		c.label(bname(q.op)); if (q.l == q.r) c.label("with itself");
	}
	c.nontrivial(n > 1);
	for (size_t r = 0, rounds = s.sz(1, 3); r < rounds; ++r)
	{
		for (size_t i = 0; i < m; ++i)
			if (ops[i].kind != 2 && (r ? s.flip() : !ops[i].p->good_status())) Pool::fill(ops[i], values(s, ref::prod(ds[i]), true));
		for (size_t i = 0; i < m; ++i) P_LOG(c, (char) ('a' + i) << "=" << show(ops[i].v));
		for (size_t k = 0; k < qs.size(); ++k)
		{
			const Q& q = qs[s.flip() ? k : qs.size() - 1 - k];
			const Vec& x = ops[q.l].v; const Vec& y = ops[q.r].v;
			size_t on = std::max(x.size(), y.size());
			Vec w(on); for (size_t i = 0; i < on; ++i) w[i] = bref(q.op, x[x.size() == 1 ? 0 : i], y[y.size() == 1 ? 0 : i]);
			Val got = value_of(q.node.get());
			Dims od = x.size() == 1 ? ds[q.r] : ds[q.l];
			if (q.l == q.r && q.op == 1 && got.v.size() == 1 && on > 1) { P_CHECK(c, got.v[0] == 0, "a node less itself is " << got.v[0]); continue; }
			expect_elem(c, got, od, w, std::string(1, (char) ('a' + q.l)) + " " + bname(q.op) + " " + (char) ('a' + q.r));
		}
	}
}

// dividing by a constant zero is refused
static void refuse (Ctx& c)
{
	Src& s = c.s; Pool pool;
	Dims d = gen::dims(s, 1, 3, 4, 24); size_t n = ref::prod(d);
	Operand a = pool.leaf(s, (int) s.below(2), d, values(s, n, true), "a");
	bool threw = false; size_t form = s.below(3);
	P_LOG(c, "division by zero, form " << form);
	try
	{
		switch (form)
		{
			case 0: a.p / 0.0; break;
			case 1: a.p / Vp(constant<double>::get(0.0)); break;
			default: s.dyadic_nz() / Vp(constant<double>::get(0.0)); break;
		}
	}
	catch (std::logic_error&) { threw = true; }
	P_CHECK(c, threw, "division by a constant zero is not refused");
	Operand b = pool.leaf(s, 0, d, values(s, n, true), "b");
	Dims e = d; size_t k = s.below(e.size()); e[k] += s.sz(1, 2); if (d[k] == 1 && n == 1) e[k]++;
	if (n == 1) { c.nontrivial(); return; }
	Operand f = pool.leaf(s, (int) s.below(2), e, values(s, ref::prod(e), true), "f");
	P_LOG(c, show(d) << " with " << show(e));
	Vp bad = bnode(s.below(4), b.p, f.p);
	threw = false;
	try { bad->eval(); } catch (std::runtime_error&) { threw = true; }
	P_CHECK(c, threw, "operands of shape " << show(d) << " and " << show(e) << " are combined");
	c.nontrivial();
}

int main (int argc, char** argv)
{
	pbt::reset_hook() = graph_reset;
	pbt::Prop p;
	p.id = "C08";
	p.rule = "random elementwise operations (13 functions, powers, clipping, four arithmetic operators and eight comparisons, between nodes and with scalars on either side) over variables, placeholders and constants of random shapes, equal up to outer ones or single-element, evaluated through 1..3 data changes, several of them over the same operands in both orders; non-trivial: more than one element (or a refusal)";
	p.facets = {{"unary", unary, 3}, {"binary", binary, 4}, {"scalar", scalar, 4}, {"several", several, 4}, {"refuse", refuse, 1}};
	p.quick = 36000; p.thorough = 400000; p.batch = 150;
	p.assumptions = {"zero divided by zero and a node divided by itself are taken as the folded constant"};
	return pbt::harness_main(argc, argv, {p});
}
