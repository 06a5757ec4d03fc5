// C19: assignments and initialisers give variables exactly the values they stand for
#include "dag.hpp"
using namespace dag;

struct Update { variable_updater<double> up; int how; size_t var; int from; Vec k; std::string text; };

static void assigns (Ctx& c)
{
	Src& s = c.s; World w(s); w.structural = false;
	Dims d{s.sz(1, 3)}; if (s.flip()) d.push_back(s.sz(1, 3));
	size_t n = ref::prod(d);
	w.add_leaf(0, d, false); w.add_leaf(0, d, false, s.flip());
	if (s.flip()) w.add_leaf(1, d, false);
	if (s.flip(1, 3)) w.add_leaf(0, Dims{1}, false);
	for (size_t k = s.sz(1, 5); k > 0; --k) { if (!w.grow()) continue; if (!w.sane(w.reference())) w.undo(); }
	for (size_t i = 0; i < w.ex.size(); ++i) P_LOG(c, w.describe(i));
	size_t nv = 0; std::vector<size_t> vars; for (size_t i = 0; i < w.leaves.size(); ++i) if (w.leaves[i].o.kind == 0) vars.push_back(i);
	std::vector<Update> ups; size_t applied = 0, silent = 0;
	auto fits = [&](size_t var, const Expr& e) { return ref::prod(e.d) == ref::prod(w.leaves[var].o.d) || ref::prod(e.d) == 1; };
	for (size_t step = s.sz(2, 14); step > 0; --step)
	{
		switch (s.weighted({4, 6, 3, 2}))
		{
			case 0: // an update is prepared
			{
				Update u; u.var = vars[s.below(vars.size())]; u.how = (int) s.below(3); u.from = -1;
				const Dims& vd = w.leaves[u.var].o.d; Var* v = static_cast<Var*>(w.leaves[u.var].o.owned);
				Node* in = nullptr; constant<double>* k = nullptr; std::ostringstream t;
				t << "L" << u.var << (u.how == 0 ? " := " : u.how == 1 ? " += " : " -= ");
				if (s.flip(1, 3))
				{
					u.k = Vec(s.flip() ? 1 : ref::prod(vd)); for (double& x : u.k) x = s.flip(1, 6) ? 0 : s.dyadic(2, 4);
					in = k = constant<double>::get(u.k, tensorshape(Dims{u.k.size()})); t << "constant " << show(u.k);
				}
				else
				{
					size_t i = s.below(w.ex.size()); if (!fits(u.var, w.ex[i])) break;
					if (dynamic_cast<constant<double>*>(w.ex[i].node.get())) break;
					u.from = (int) i; in = w.ex[i].node.get(); t << "n" << i;
				}
				u.up = u.how == 0 ? v->assign(in) : u.how == 1 ? v->assign_add(in) : v->assign_sub(in);
				if (k) delete k;
				u.text = t.str(); P_LOG(c, "prepare " << u.text); ups.push_back(u);
				break;
			}
			case 1: // a prepared update is made, again and again
			{
				if (ups.empty()) break;
				Update& u = ups[s.below(ups.size())]; Leaf& l = w.leaves[u.var];
				Vec old = l.o.v, in = u.k;
				if (u.from >= 0) { std::vector<Ref> r = w.reference(); if (!r[u.from].ok) break; in = r[u.from].v; }
				Vec want = old; for (size_t j = 0; j < want.size(); ++j) { double x = in.size() == 1 ? in[0] : in[j]; want[j] = u.how == 0 ? x : u.how == 1 ? old[j] + x : old[j] - x; }
				l.o.v = want; bool sane = w.sane(w.reference()); l.o.v = old; if (!sane) break;
				bool quiet = s.flip(1, 5);
				P_LOG(c, u.text << " (" << show(want) << ")" << (quiet ? " without telling" : ""));
				u.up(!quiet); applied++;
				l.o.v = want;
				Val g = value_of(l.o.owned); P_CHECK(c, close_to(g.v, want, 1e-8, 1e-8), "after " << u.text << " the variable is " << show(g) << ", expected " << show(want));
				P_CHECK(c, g.d == l.o.d, "after " << u.text << " the variable has shape " << show(g.d));
				if (quiet) { silent++; l.o.owned->notify(UPDATE); } // dependents are told separately
				break;
			}
			case 2: // leaves change by other means
			{
				size_t i = s.below(w.leaves.size()); Leaf& l = w.leaves[i];
				Vec old = l.o.v, v = w.fresh(l); l.o.v = v; bool sane = w.sane(w.reference()); l.o.v = old; if (!sane) break;
				P_LOG(c, "L" << i << " gets " << show(v)); w.set_leaf(i, v);
				break;
			}
			default: { size_t i = s.below(w.ex.size()); P_LOG(c, "read n" << i); w.check(c, i, w.reference()); }
		}
		for (Leaf& l : w.leaves) { Val g = value_of(l.o.owned ? l.o.owned : l.o.p.get()); P_CHECK(c, close_to(g.v, l.o.v, 1e-8, 1e-8), "a leaf is " << show(g) << ", expected " << show(l.o.v)); }
	}
	std::vector<Ref> r = w.reference();
	for (size_t i = w.ex.size(); i-- > 0;) w.check(c, i, r);
	(void) n; (void) nv;
	if (silent) c.label("silent update");
	c.nontrivial(applied > 1);
}

// initialisers
static Vec draw (Src& s, int kind, double a, double b, const Dims& d, Var*& v, const std::string& nm, bool partial)
{
	Dims p = d; if (partial) p[s.below(p.size())] = 0;
	switch (kind)
	{
		case 0: { const_init<double> i(a); v = new Var(tensorshape(p), i, nm); break; }
		case 1: { rand_uniform<double> i(a, b); v = new Var(tensorshape(p), i, nm); break; }
		default: { rand_normal<double> i(a, b); v = new Var(tensorshape(p), i, nm); }
	}
	if (partial) v->initialize(tensorshape(d)); else v->initialize();
	return value_of(v).v;
}
static void inits (Ctx& c)
{
	Src& s = c.s;
	int kind = (int) s.below(3); double a = s.dyadic(4, 4), b = kind == 1 ? a + s.dyadic_nz(3, 4) : std::fabs(s.dyadic_nz(3, 4));
	if (kind == 1 && b < a) std::swap(a, b);
	Dims d = gen::dims(s, 1, 3, 12, 300); size_t n = ref::prod(d); bool partial = s.flip(1, 3);
	uint64_t seed = s.below(1 << 20);
	P_LOG(c, (kind == 0 ? "constant " : kind == 1 ? "uniform " : "normal ") << a << " " << b << " over " << show(d) << (partial ? " (one dimension given late)" : ""));
	std::vector<Node*> mine; struct Clean { std::vector<Node*>& m; ~Clean () { for (Node* x : m) delete x; } } clean{mine};
	Var* v = nullptr; use_seed(seed); Vec x = draw(s, kind, a, b, d, v, "a", partial); mine.push_back(v);
	P_CHECK(c, v->good_status() && x.size() == n && value_of(v).d == d, "the initialised variable is " << show(value_of(v)));
	Vp dep = Vp(v) * 2.0;
	// at least as many draws as six standard deviations need
	Vec all = x; Vec last = x; size_t same = 0, reps = 0;
	for (size_t k = s.sz(1, 3); k > 0; --k)
	{
		Vec y; bool other = s.flip();
		if (other) { Var* q = nullptr; y = draw(s, kind, a, b, d, q, "b", false); mine.push_back(q); }
		else { v->initialize(); y = value_of(v).v; x = y; }
		P_CHECK(c, y.size() == n, "initialising again gives " << show(y));
		all.insert(all.end(), y.begin(), y.end()); reps++; if (y == last) same++;
		last = y;
	}
	Vec dv = value_of(dep.get()).v, cur = value_of(v).v;
	for (size_t i = 0; i < n; ++i) P_CHECK(c, close_to(dv.size() == 1 ? dv[0] : dv[i], 2 * cur[i]), "a dependent of the variable was not told of its initialisation");
	// further variables that exist already are initialised in a row
	if (kind != 0 && n > 1)
	{
		rand_uniform<double> iu(kind == 1 ? a : 0, kind == 1 ? b : 1); rand_normal<double> in(a, std::max(b, 0.25));
		std::vector<Vec> got; std::vector<Var*> row;
		for (int k = 0; k < 2; ++k) { row.push_back(kind == 1 ? new Var(tensorshape(d), iu, "r") : new Var(tensorshape(d), in, "r")); mine.push_back(row.back()); }
		for (Var* r : row) { r->initialize(); got.push_back(value_of(r).v); }
		P_CHECK(c, got[0] != got[1], "two variables initialised in a row both are " << show(got[0]));
		P_CHECK(c, same == 0, "initialising anew draws the same numbers again");
		std::set<double> u(got[0].begin(), got[0].end()); P_CHECK(c, u.size() > n / 2, "random values repeat: " << show(got[0]));
	}
	if (kind == 0) for (double e : all) P_CHECK(c, e == a, "a constant initialiser of " << a << " gives " << e);
	if (kind == 1)
	{
		double m = 0; for (double e : all) { P_CHECK(c, e >= a && e < b, "a uniform initialiser between " << a << " and " << b << " gives " << e); m += e; }
		m /= all.size(); double sd = (b - a) / std::sqrt(12.0 * all.size());
		P_CHECK(c, std::fabs(m - (a + b) / 2) < 6.5 * sd, "the mean of " << all.size() << " uniform values between " << a << " and " << b << " is " << m);
	}
	if (kind == 2)
	{
		double m = 0, q = 0; for (double e : all) { P_CHECK(c, std::fabs(e - a) < 9 * b, "a normal initialiser of " << a << " " << b << " gives " << e); m += e; }
		m /= all.size(); for (double e : all) q += (e - a) * (e - a); q /= all.size();
		P_CHECK(c, std::fabs(m - a) < 6.5 * b / std::sqrt(all.size()), "the mean of " << all.size() << " normal values of " << a << " " << b << " is " << m);
		if (all.size() >= 60) P_CHECK(c, q < b * b * (1 + 10 / std::sqrt(all.size())) && q > b * b * (1 - 7.5 / std::sqrt(all.size())), "the variance of " << all.size() << " normal values is " << q << ", expected " << b * b);
	}
	// the same seed gives the same values
	Var* z = nullptr; use_seed(seed); Src t(std::vector<uint64_t>{}, nullptr); Vec y1 = draw(t, kind, a, b, d, z, "a", false); mine.push_back(z);
	use_seed(seed); Vec y2 = draw(t, kind, a, b, d, z, "a", false); mine.push_back(z);
	P_CHECK(c, y1 == y2, "the same seed gives " << show(y1) << " and " << show(y2));
	c.label(kind == 0 ? "constant" : kind == 1 ? "uniform" : "normal"); c.nontrivial(n > 1);
}

// which shapes a variable can be initialised to
static void shapes (Ctx& c)
{
	Src& s = c.s; Dims d = gen::partial(s, 3, 4); double k = s.dyadic(3, 4); const_init<double> ci(k);
	Var v((tensorshape(d)), ci, "v"); Vp dep = Vp(&v) * 2.0; bool good = false; Dims cur; double val = k;
	P_LOG(c, "a variable of " << show(d) << " filled with " << k); P_CHECK(c, v.can_init(), "a variable with an initialiser cannot be initialised");
	for (size_t n = s.sz(1, 5); n > 0; --n)
	{
		switch (s.below(4))
		{
			case 0:
			{
				bool fits = good || ref::full(d), ok = true; P_LOG(c, "initialised" << (fits ? "" : ", its shape unknown"));
				try { v.initialize(); } catch (std::exception&) { ok = false; }
				P_CHECK(c, ok == fits, (ok ? "accepted" : "refused")); if (ok) { if (!good) cur = d; good = true; val = k; } else c.nontrivial();
				break;
			}
			case 1:
			{
				Dims e = s.flip() ? d : gen::partial(s, 3, 4); if (s.flip(2, 3)) for (size_t& x : e) if (!x) x = s.sz(1, 4);
				if (ref::full(e) && tensorshape(e).is_compatible_with(tensorshape(good ? cur : d)) && (good || ref::full(d))) break; // nothing is said about naming the shape it has
				bool fits = ref::full(e) && tensorshape(e).is_compatible_with(tensorshape(d)), ok = true; P_LOG(c, "initialised as " << show(e));
				if (good && fits && dep.get()) break; // nodes have taken the former shape
				try { v.initialize(tensorshape(e)); } catch (std::exception&) { ok = false; }
				P_CHECK(c, ok == fits, "initialising " << show(d) << " as " << show(e) << " is " << (ok ? "accepted" : "refused")); if (ok) { cur = e; good = true; val = k; } else c.nontrivial();
				break;
			}
			case 2: k = s.dyadic(3, 4); v.set_initializer(const_init<double>(k)); P_LOG(c, "fills with " << k << " from now on"); break;
			default: if (good) { val = s.dyadic(3, 4); set_var(&v, Vec(ref::prod(cur), val)); P_LOG(c, "set to " << val); }
		}
		Val x = value_of(&v), y = value_of(dep.get());
		P_CHECK(c, v.good_status() == good, "the variable says it is " << (good ? "not " : "") << "initialised");
		if (good)
		{
			P_CHECK(c, x.d == cur && x.v == Vec(ref::prod(cur), val), "the variable is " << show(x) << ", expected " << val << " over " << show(cur));
			for (double e : y.v) P_CHECK(c, close_to(e, 2 * val), "a node computed from the variable is " << show(y)); P_CHECK(c, !y.v.empty(), "a node computed from an initialised variable has no value");
		}
		else P_CHECK(c, y.v.empty(), "a node computed from an uninitialised variable is " << show(y));
	}
	c.label(good ? "initialised" : "never initialised");
}

int main (int argc, char** argv)
{
	pbt::reset_hook() = graph_reset;
	pbt::Prop p;
	p.id = "C19";
	p.rule = "histories of 2..14 steps preparing, making and repeating assignments, increments and decrements of 1..4 variables by constants and expressions (which may contain the variable itself), announced or not, against a model; and constant, uniform and normal initialisers over random shapes checked for range, mean and variance (6.5 standard deviations), for differing between variables and draws, and for being determined by the seed; and variables of full and partial shapes initialised to fitting and unfitting shapes; non-trivial: at least two assignments made, more than one element, or an initialisation refused";
	p.facets = {{"assigns", assigns, 3}, {"inits", inits, 1}, {"shapes", shapes, 1}};
	p.quick = 27000; p.thorough = 400000; p.batch = 150;
	return pbt::harness_main(argc, argv, {p});
}
