// C20: derivatives of operations and sums along an axis
#include "ops.hpp"
using namespace nnet;

struct Dual { double v = 0, t = 0; };
struct DV { Dims d; std::vector<Dual> x; };

static Dims drop_axis (Dims d, size_t axis)
{
	if (d.size() == 1) return Dims{1};
	if (axis == 0) d.erase(d.begin());
	else if (axis == d.size() - 1) d.pop_back();
	else d[axis] = 1;
	return d;
}
// position in the operand without the axis that element i of the full one pairs with
static size_t slot (size_t i, const Dims& d, size_t axis)
{
	Dims e = drop_axis(d, axis);
	if (ref::prod(e) == 1) return 0;
	Dims co = ref::unflat(i, d);
	if (axis == 0 && d.size() > 1) co.erase(co.begin()); else co[axis] = 0;
	return ref::flat(co, e);
}
static Dual ap (size_t op, Dual a, Dual b)
{
	switch (op)
	{
		case 0: return {a.v + b.v, a.t + b.t};
		case 1: return {a.v - b.v, a.t - b.t};
		case 2: return {a.v * b.v, a.t * b.v + a.v * b.t};
		default: return {a.v / b.v, (a.t * b.v - a.v * b.t) / (b.v * b.v)};
	}
}
static Vp mk (size_t op, bool left, Vp a, Vp b, size_t ax)
{
	switch (op * 2 + left)
	{
		case 0: return add_axial_b<double>(a, b, ax); case 1: return add_axial_a<double>(a, b, ax);
		case 2: return sub_axial_b<double>(a, b, ax); case 3: return sub_axial_a<double>(a, b, ax);
		case 4: return mul_axial_b<double>(a, b, ax); case 5: return mul_axial_a<double>(a, b, ax);
		case 6: return div_axial_b<double>(a, b, ax); default: return div_axial_a<double>(a, b, ax);
	}
}
static Vp elem (size_t op, Vp a, Vp b) { return op == 0 ? a + b : op == 1 ? a - b : op == 2 ? a * b : a / b; }

// unary and elementwise functions around a leaf
enum Fn { ID, SIN, EXP, NEG, TIMES, PLUS, SQUARE, WITH, FNS };
static const char* FN[] = {"itself", "sin", "exp", "neg", "times", "plus", "square", "with"};
struct Wrap { Fn f; double k; size_t op; bool left; };
static Wrap draw (Src& s, bool with) { Wrap w; w.f = (Fn) s.below(with ? FNS : WITH); w.k = s.dyadic_nz(2, 4); w.op = s.below(3); w.left = s.flip(); return w; }
static Vp wrap (const Wrap& w, Vp a, Vp other)
{
	switch (w.f)
	{
		case ID: return a;
		case SIN: return sin<double>(a);
		case EXP: return exp<double>(a * 0.25);
		case NEG: return -a;
		case TIMES: return a * w.k;
		case PLUS: return a + w.k;
		case SQUARE: return a * a;
		default: return w.left ? elem(w.op, other, a) : elem(w.op, a, other);
	}
}
static Dual wrap (const Wrap& w, Dual a, Dual other)
{
	switch (w.f)
	{
		case ID: return a;
		case SIN: return {std::sin(a.v), std::cos(a.v) * a.t};
		case EXP: { double e = std::exp(0.25 * a.v); return {e, 0.25 * e * a.t}; }
		case NEG: return {-a.v, -a.t};
		case TIMES: return {a.v * w.k, a.t * w.k};
		case PLUS: return {a.v + w.k, a.t};
		case SQUARE: return {a.v * a.v, 2 * a.v * a.t};
		default: return w.left ? ap(w.op, other, a) : ap(w.op, a, other);
	}
}
static std::string tell (const Wrap& w, const std::string& a) { std::ostringstream o; o << FN[w.f]; if (w.f == TIMES || w.f == PLUS) o << " " << w.k; if (w.f == WITH) o << " op" << w.op << (w.left ? " left" : " right"); o << "(" << a << ")"; return o.str(); }

// one step on what lacks the axis (reduced) or has it (axial)
struct Step { int kind; Wrap w, in; size_t op, axis, along; bool left, mean, fixed; };   // 0 function, 1 operand without the axis, 2 another reduction, 3 an operand that lacks an axis
struct Expr { Wrap in, thin; std::vector<Step> steps; size_t op, axis; bool left, mean; int total; Vp node; std::vector<size_t> ws; };

static void run (Ctx& c, bool reduced)
{
	Src& s = c.s; Pool pool;
	Dims d = gen::dims(s, s.flip(1, 6) ? 1 : 2, 3, 3, 27);
	if (s.flip()) for (size_t& x : d) x = d[0]; // equal lengths hide a wrong axis
	size_t n = ref::prod(d);
	if (n > 64) c.discard();
	auto vals = [&](size_t k) { Vec v(k); for (double& x : v) x = s.flip() ? s.real(0.4, 2) : -s.real(0.4, 2); return v; };
	Operand X = pool.leaf(s, 0, d, vals(n), "x"), U = pool.leaf(s, (int) s.below(2), d, vals(n), "u");
	std::vector<Operand> W, V;
	for (size_t a = 0; a < d.size(); ++a) { Dims e = drop_axis(d, a); W.push_back(pool.leaf(s, 0, e, vals(ref::prod(e)), "w")); V.push_back(pool.leaf(s, (int) s.below(2), e, vals(ref::prod(e)), "v")); }
	auto squeeze = [](bool mean, Vp f, size_t axis) { return mean ? reduce_mean<double>(f, axis) : reduce_sum<double>(f, axis); };
	std::vector<Expr> es;
	Wrap in = draw(s, true);
	for (size_t k = s.sz(1, 3); k > 0; --k)
	{
		Expr e; e.in = s.flip() ? in : draw(s, true); e.thin = draw(s, true); e.op = s.below(4); e.axis = s.below(d.size()); e.left = s.flip(); e.mean = s.flip(1, 3); e.ws.push_back(e.axis); e.total = (int) s.weighted({4, 1, 1});
		Vp full = wrap(e.in, X.p, U.p), thin = wrap(e.thin, W[e.axis].p, V[e.axis].p), mid;
		P_LOG(c, "n" << es.size() << ": " << (reduced ? (e.mean ? "mean along " : "sum along ") : "op" + std::to_string(e.op) + (e.left ? " of the operand without and with axis " : " of the operand with and without axis ")) << e.axis << " of " << tell(e.in, "x") << show(d) << (reduced ? "" : " and " + tell(e.thin, "w")));
		if (reduced) mid = squeeze(e.mean, full, e.axis);
		else mid = e.left ? mk(e.op, true, thin, full, e.axis) : mk(e.op, false, full, thin, e.axis);
		for (size_t m = s.sz(0, 3); m > 0; --m)
		{
			Step t; t.kind = (int) (reduced ? s.weighted({3, 4, 2}) : s.weighted({2, 0, 0, 1})); t.axis = s.below(d.size()); t.fixed = std::count(e.ws.begin(), e.ws.end(), t.axis); t.w = draw(s, false); t.along = e.axis; if (t.kind == 2 && s.flip()) { size_t a = s.below(d.size()); if (drop_axis(d, a) == drop_axis(d, e.axis)) t.along = a; } if (t.along != e.axis) c.label("along two axes"); t.in = t.kind == 2 ? (s.flip() ? e.in : draw(s, true)) : draw(s, true); t.op = s.below(4); t.left = s.flip(); t.mean = s.flip(1, 3);
			if (t.kind == 3)
			{
				Vp other = t.fixed ? V[t.axis].p : wrap(t.in, W[t.axis].p, V[t.axis].p); if (!t.fixed) e.ws.push_back(t.axis);
				mid = t.left ? mk(t.op, true, other, mid, t.axis) : mk(t.op, false, mid, other, t.axis);
				P_LOG(c, "  op" << t.op << (t.left ? " left " : " right ") << (t.fixed ? "v" : tell(t.in, "w")) << " along axis " << t.axis); c.label("several operands");
			}
			else if (t.kind == 0) { mid = wrap(t.w, mid, Vp()); P_LOG(c, "  " << FN[t.w.f] << " " << t.w.k); }
			else
			{
				Vp other = t.kind == 1 ? wrap(t.in, W[e.axis].p, V[e.axis].p) : squeeze(t.mean, wrap(t.in, X.p, U.p), t.along);
				mid = t.left ? elem(t.op, other, mid) : elem(t.op, mid, other);
				P_LOG(c, "  op" << t.op << (t.left ? " left " : " right ") << (t.kind == 1 ? "w" : (t.mean ? "mean along " : "sum along ") + std::to_string(t.along)) << " of " << tell(t.in, t.kind == 1 ? "w" : "x"));
			}
			if (dynamic_cast<constant<double>*>(mid.get())) c.discard(); // a constant is left of it
			e.steps.push_back(t);
		}
		if (e.total == 1) mid = reduce_sum<double>(mid, optional<size_t>());
		if (e.total == 2) mid = reduce_mean<double>(mid, optional<size_t>());
		e.node = mid;
		es.push_back(e);
	}
	// sum of the output's elements along a direction, and the largest intermediate value
	auto reference = [&](const Expr& e, size_t wa, const Vec* tx, const Vec* tw)
	{
		size_t m = ref::prod(drop_axis(d, e.axis));
		auto full = [&](const Wrap& w, size_t i) { return wrap(w, Dual{X.v[i], tx ? (*tx)[i] : 0}, Dual{U.v[i], 0}); };
		auto thin_of = [&](const Wrap& w, size_t axis, size_t j) { return wrap(w, Dual{W[axis].v[j], tw && axis == wa ? (*tw)[j] : 0}, Dual{V[axis].v[j], 0}); };
		auto thin = [&](const Wrap& w, size_t j) { return thin_of(w, e.axis, j); };
		double big = 0; auto note = [&](Dual q) { big = std::max(big, std::max(std::fabs(q.v), std::fabs(q.t))); if (!(std::fabs(q.v) < 1e5)) big = 1e9; return q; };
		auto squash = [&](const Wrap& w, bool mean, size_t axis, size_t j) { Dual r; for (size_t i = 0; i < n; ++i) if (slot(i, d, axis) == j) { Dual f = full(w, i); r.v += f.v; r.t += f.t; } if (mean) { r.v /= d[axis]; r.t /= d[axis]; } return r; };
		std::vector<Dual> q;
		if (reduced) for (size_t j = 0; j < m; ++j) q.push_back(note(squash(e.in, e.mean, e.axis, j)));
		else for (size_t i = 0; i < n; ++i) { Dual f = full(e.in, i), t = thin(e.thin, slot(i, d, e.axis)); if (std::fabs((e.left ? f : t).v) < 0.05 && e.op == 3) big = 1e9; q.push_back(note(e.left ? ap(e.op, t, f) : ap(e.op, f, t))); }
		for (const Step& t : e.steps) for (size_t j = 0; j < q.size(); ++j)
		{
			if (t.kind == 0) { q[j] = note(wrap(t.w, q[j], Dual())); continue; }
			size_t k = t.kind == 3 ? slot(j, d, t.axis) : 0;
			Dual o = t.kind == 3 ? t.fixed ? Dual{V[t.axis].v[k], 0} : thin_of(t.in, t.axis, k) : t.kind == 1 ? thin(t.in, j) : squash(t.in, t.mean, t.along, j);
			if (std::fabs((t.left ? q[j] : o).v) < 0.05 && t.op == 3) big = 1e9;
			q[j] = note(t.left ? ap(t.op, o, q[j]) : ap(t.op, q[j], o));
		}
		double sum = 0; for (Dual x : q) sum += x.t;
		return std::make_pair(e.total == 2 ? sum / q.size() : sum, big);
	};
	for (size_t k = s.sz(1, 5); k > 0; --k)
	{
		if (s.flip(1, 3)) { Pool::fill(X, vals(n)); for (Operand& w : W) if (s.flip()) Pool::fill(w, vals(w.v.size())); P_LOG(c, "new data"); }
		Expr& e = es[s.below(es.size())]; bool by_w = s.flip(1, 3);
		size_t wa = e.ws[s.below(e.ws.size())]; Operand& leaf = by_w ? W[wa] : X;
		std::ostringstream nm; nm << "the derivative of n" << (&e - &es[0]) << " by " << (by_w ? "w" + std::to_string(wa) : "x");
		P_LOG(c, nm.str());
		Vec want; double big = 1;
		for (size_t i = 0; i < leaf.v.size(); ++i)
		{
			Vec dir(leaf.v.size(), 0); dir[i] = 1;
			auto r = reference(e, wa, by_w ? nullptr : &dir, by_w ? &dir : nullptr);
			want.push_back(r.first); big = std::max(big, r.second);
		}
		Vp g; bool mixed = false; for (const Step& q : e.steps) if (q.kind == 2 && q.along != e.axis) mixed = true;
		try { g = e.node->derive(leaf.p.get()); if (mixed && g) { if (auto ii = dynamic_cast<inode<double>*>(g.get())) ii->eval(); } }
		catch (std::exception& x) { if (!mixed) throw; P_LOG(c, "  refused: " << x.what()); c.label("refused along two axes"); return; }
		P_CHECK(c, g.get() != nullptr, "no derivative node");
		if (!(big < 1e6)) continue;
		Val got = value_of(g.get());
		if (mixed && got.v.empty()) continue; // refused before
		P_CHECK(c, !got.v.empty(), nm.str() << " has no value");
		expect_elem(c, got, leaf.d, want, nm.str(), 1e-8, 1e-9 * big);
		c.label(by_w ? "by the operand without the axis" : "by the operand with the axis");
		if (n > 1 && ref::prod(drop_axis(d, e.axis)) > 1 && d[e.axis] > 1) c.nontrivial();
	}
}
static void axial (Ctx& c) { run(c, false); }
static void reduced (Ctx& c) { run(c, true); }

int main (int argc, char** argv)
{
	pbt::reset_hook() = graph_reset;
	pbt::Prop p;
	p.id = "C20";
	p.rule = "1..3 expressions over a variable of rank 1..3 and a variable per axis that lacks it: a tensor combined along an axis with an operand, or a sum or mean along an axis, each of a function of its variable, followed by up to 3 functions, operations with the operand or with further reductions of the same or another axis, and possibly a total; derived in any order and several times, with new contents in between, and compared with forward-mode differentiation; non-trivial: both the axis and the rest are longer than one";
	p.facets = {{"axial", axial, 1}, {"reduced", reduced, 1}};
	p.quick = 20000; p.thorough = 300000; p.batch = 150;
	p.assumptions = {"a one-element derivative standing for a tensor of equal elements is accepted", "a variable enters the operand or the tensor, not both: the library refuses derivatives by leaves of both", "the library may refuse the derivative of reductions along different axes combined, but not give a wrong one", "divisors below 0.05 and values beyond 1e5 are left out", "tolerance 1e-8 relative to the largest value involved"};
	return pbt::harness_main(argc, argv, {p});
}
