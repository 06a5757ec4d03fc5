// C05: copies and moves of leaves and of operation nodes
#include "graph.hpp"
#include <set>
using namespace nnet;

struct M
{
	bool ph = false;
	Dims shape;           // what the node reports
	bool init = false;
	Vec data;
	bool has_init = false; double initval = 0;   // constant initialiser
	bool dead = false;    // moved from
	std::string label;
};
struct Sys
{
	std::vector<ivariable<double>*> n;
	std::vector<M> m;
	std::vector<Node*> neg;   // a dependent of each leaf, or null
};

static void check (Ctx& c, Sys& y)
{
	for (size_t i = 0; i < y.n.size(); ++i)
	{
		M& m = y.m[i];
		if (m.dead) continue;
		ivariable<double>* n = y.n[i];
		P_CHECK(c, n->good_status() == m.init, "leaf " << i << ": initialised is " << n->good_status());
		P_CHECK(c, n->can_init() == m.has_init, "leaf " << i << ": can_init is " << n->can_init());
		P_CHECK(c, n->get_shape().as_list() == m.shape, "leaf " << i << ": shape " << show(n->get_shape().as_list()) << ", expected " << show(m.shape));
		P_CHECK(c, n->get_label() == m.label, "leaf " << i << ": label " << n->get_label() << ", expected " << m.label);
		Val v = value_of(n);
		P_CHECK(c, v.v == (m.init ? m.data : Vec()), "leaf " << i << ": value " << show(v) << ", expected " << show(m.data));
		if (y.neg[i] && m.init)
		{
			Val d = value_of(y.neg[i]); Vec w = m.data; for (double& x : w) x = x + 1;
			P_CHECK(c, d.v == w && (d.d == m.shape || w.size() == 1), "dependent of leaf " << i << ": " << show(d) << ", expected " << show(w));
		}
	}
}

static void leaves (Ctx& c)
{
	Src& s = c.s;
	Sys y;
	size_t steps = s.sz(2, 14), copies = 0;
	for (size_t st = 0; st < steps; ++st)
	{
		size_t op = y.n.empty() ? 0 : s.weighted({3, 5, 4, 4, 3, 2, 2});
		size_t i = y.n.empty() ? 0 : s.below(y.n.size()), j = y.n.empty() ? 0 : s.below(y.n.size());
		switch (op)
		{
		case 0:
		{
			M m; m.ph = s.flip(1, 3);
			m.shape = gen::dims(s, 1, 3, 4, 24);
			m.label = "n" + std::to_string(st);
			P_LOG(c, "leaf " << y.n.size() << (m.ph ? " placeholder " : " variable ") << show(m.shape));
			if (m.ph) y.n.push_back(new Ph(tensorshape(m.shape), m.label));
			else if (s.flip(2, 3))
			{
				m.has_init = true; m.initval = s.dyadic();
				y.n.push_back(new Var(tensorshape(m.shape), const_init<double>(m.initval), m.label));
			}
			else y.n.push_back(new Var(tensorshape(m.shape), m.label));
			y.m.push_back(m); y.neg.push_back(nullptr);
			break;
		}
		case 1: // give it data
		{
			M& m = y.m[i]; if (m.dead) break;
			size_t n = ref::prod(m.shape);
			if (m.ph)
			{
				m.data = gen::distinct(s, n); m.init = true;
				P_LOG(c, "leaf " << i << " = " << show(m.data));
				if (s.flip(1, 3)) { tensor<double> t((tensorshape(m.shape))); assign_func<double> as; as(t, m.data); *static_cast<Ph*>(y.n[i]) = t; }
				else *static_cast<Ph*>(y.n[i]) = m.data;
			}
			else if (m.has_init && (!m.init || s.flip(1, 4)))
			{
				P_LOG(c, "initialise leaf " << i);
				static_cast<Var*>(y.n[i])->initialize(); m.init = true; m.data.assign(n, m.initval);
			}
			else if (m.init)
			{
				m.data = gen::distinct(s, n);
				P_LOG(c, "leaf " << i << " := " << show(m.data));
				set_var(static_cast<Var*>(y.n[i]), m.data);
			}
			else
			{
				m.has_init = true; m.initval = s.dyadic();
				P_LOG(c, "set initialiser of leaf " << i << " to " << m.initval);
				static_cast<Var*>(y.n[i])->set_initializer(const_init<double>(m.initval));
			}
			break;
		}
		case 2: // assignment
		{
			if (i == j || y.m[j].dead || y.m[i].ph != y.m[j].ph || y.m[i].dead) break;
			if (y.neg[i] && y.m[i].shape != y.m[j].shape) break; // a dependent keeps its shape
			P_LOG(c, "leaf " << i << " = leaf " << j);
			if (y.m[i].ph) *static_cast<Ph*>(y.n[i]) = *static_cast<const Ph*>(y.n[j]);
			else *static_cast<Var*>(y.n[i]) = *static_cast<const Var*>(y.n[j]);
			y.m[i] = M(y.m[j]); copies++;
			if (y.neg[i] && y.neg[i]->get_label().empty()) {}
			break;
		}
		case 3: // clone
		{
			if (y.m[j].dead) break;
			P_LOG(c, "leaf " << y.n.size() << " = clone of leaf " << j);
			ivariable<double>* k = y.m[j].ph ? (ivariable<double>*) static_cast<Ph*>(y.n[j])->clone() : static_cast<Var*>(y.n[j])->clone();
			P_CHECK(c, k != y.n[j] && k->get_uid() != y.n[j]->get_uid(), "a clone shares the identity of its original");
			P_CHECK(c, k->no_audience(), "a clone starts with the observers of its original");
			y.n.push_back(k); y.m.push_back(M(y.m[j])); y.neg.push_back(nullptr); copies++;
			break;
		}
		case 4: // move construction: observers follow
		{
			if (y.m[j].dead) break;
			P_LOG(c, "leaf " << y.n.size() << " = move of leaf " << j);
			ivariable<double>* k = y.m[j].ph ? (ivariable<double>*) static_cast<Ph*>(y.n[j])->move() : static_cast<Var*>(y.n[j])->move();
			size_t aud = y.neg[j] ? 1 : 0;
			P_CHECK(c, k->n_audience() == aud && y.n[j]->no_audience(), "observers did not follow a moved leaf");
			y.n.push_back(k); y.m.push_back(M(y.m[j])); y.neg.push_back(y.neg[j]); y.neg[j] = nullptr;
			y.m[j].dead = true; copies++; c.label("move");
			break;
		}
		case 5: // move assignment between leaves nobody depends on
		{
			if (i == j || y.m[j].dead || y.m[i].ph != y.m[j].ph || y.neg[j] || y.m[i].dead) break;
			if (y.neg[i] && y.m[i].shape != y.m[j].shape) break;
			P_LOG(c, "leaf " << i << " = move(leaf " << j << ")");
			if (y.m[i].ph) *static_cast<Ph*>(y.n[i]) = std::move(*static_cast<Ph*>(y.n[j]));
			else *static_cast<Var*>(y.n[i]) = std::move(*static_cast<Var*>(y.n[j]));
			y.m[i] = M(y.m[j]); y.m[j].dead = true; copies++; c.label("move assignment");
			break;
		}
		default: // grow a dependent
			if (y.m[i].dead || y.neg[i]) break;
			P_LOG(c, "dependent of leaf " << i);
			y.neg[i] = (Vp(y.n[i]) + 1.0).get();
			break;
		}
		// an uninitialised value replacing an initialised one leaves dependents with their last value
		for (size_t k = 0; k < y.n.size(); ++k) if (y.neg[k] && !y.m[k].init) {}
		check(c, y);
	}
	c.nontrivial(copies > 0 && y.n.size() > 1);
	for (ivariable<double>* n : y.n) delete n;
}

// clones of operation nodes compute the same value, follow the same arguments and are not tied to the original
static void nodes (Ctx& c)
{
	Src& s = c.s;
	Dims d = gen::dims(s, 1, 3, 4, 24);
	size_t n = ref::prod(d);
	Vec av = gen::distinct(s, n), bv = gen::distinct(s, n);
	Var* a = make_var(d, av, "a"); Var* b = make_var(d, bv, "b");
	size_t kind = s.below(5);
	auto expect = [&](void) -> Vec
	{
		Vec r(n);
		for (size_t i = 0; i < n; ++i)
		{
			switch (kind)
			{
				case 0: r[i] = -av[i]; break;
				case 1: r[i] = av[i] + bv[i]; break;
				case 2: r[i] = av[i] - bv[i]; break;
				case 3: r[i] = av[i] * bv[i]; break;
				default: r[i] = av[i] * 3.0; break;
			}
		}
		return r;
	};
	Vp o;
	switch (kind)
	{
		case 0: o = (-Vp(a)).get(); break;
		case 1: o = (Vp(a) + Vp(b)).get(); break;
		case 2: o = (Vp(a) - Vp(b)).get(); break;
		case 3: o = (Vp(a) * Vp(b)).get(); break;
		default: o = (Vp(a) * 3.0).get(); break;
	}
	Node* orig = o.get();
	if (s.flip()) value_of(orig);
	else value_of(orig); // a clone is taken of an up-to-date node
	Node* copy = orig->clone();
	P_LOG(c, "op " << kind << " on " << show(d));
	P_CHECK(c, copy != orig && copy->get_label() == orig->get_label(), "clone label");
	P_CHECK(c, copy->get_arguments() == orig->get_arguments(), "a cloned node has other arguments");
	P_CHECK(c, copy->get_leaves() == orig->get_leaves(), "a cloned node has other leaves");
	P_CHECK(c, value_of(copy).v == expect() && (value_of(copy).d == d || n == 1), "clone value " << show(value_of(copy)) << ", expected " << show(expect()));
	bool killed = false;
	size_t rounds = s.sz(1, 6);
	for (size_t r = 0; r < rounds; ++r)
	{
		switch (s.below(4))
		{
			case 0: av = gen::distinct(s, n); P_LOG(c, "a := " << show(av)); set_var(a, av); break;
			case 1: bv = gen::distinct(s, n); P_LOG(c, "b := " << show(bv)); set_var(b, bv); break;
			case 2: if (!killed) { value_of(orig); P_LOG(c, "destroy original"); delete orig; killed = true; c.label("original destroyed"); } break;
			default:
				value_of(copy);
				P_LOG(c, "move the copy");
				{ Node* k = copy->move(); delete copy; copy = k; c.label("moved"); }
				break;
		}
		P_CHECK(c, value_of(copy).v == expect(), "clone value " << show(value_of(copy)) << ", expected " << show(expect()));
		if (!killed) P_CHECK(c, value_of(orig).v == expect(), "original value " << show(value_of(orig)) << ", expected " << show(expect()));
	}
	if (killed) P_CHECK(c, nullptr == o.get(), "a handle still points to a destroyed node");
	c.nontrivial(rounds > 1);
	delete a; delete b;
}

// moving leaves and operations, and destroying the originals of copies, shows in nothing that is computed or derived:
// two expressions are built alike and only one of them is moved
struct Half { std::vector<Var*> leaf; std::vector<Vp> node; };
static void twins (Ctx& c)
{
	Src& s = c.s; Half x, t; size_t k = s.sz(1, 3), nl = s.sz(1, 3), moves = 0, compared = 0; Dims d{k, k}; bool linear = s.flip(1, 3);
	for (size_t i = 0; i < nl; ++i) { Vec v(k * k); for (double& e : v) e = s.dyadic(2, 8); std::string name = "v" + std::to_string(i); x.leaf.push_back(make_var(d, v, name)); t.leaf.push_back(make_var(d, v, name)); P_LOG(c, name << " = " << show(v)); }
	struct Op { int kind; size_t a, b; }; std::vector<size_t> used; std::vector<bool> gone;
	auto arg = [&](Half& h, size_t i) { return i < nl ? Vp(h.leaf[i]) : h.node[i - nl]; };
	static const char* const NAMES[] = {"negative of", "sine of", "cosine of", "transpose of", "sum of", "difference of", "product of", "matrix product of", "columns added of"};
	auto make = [&](Half& h, const Op& o) -> Vp
	{
		Vp a = arg(h, o.a), b = arg(h, o.b);
		switch (o.kind)
		{
			case 0: return -a; case 1: return sin(a); case 2: return cos(a); case 3: return transpose(a); case 4: return a + b; case 5: return a - b; case 6: return a * b;
			case 7: return matmul(a, b); default: return add_axial_b(a, reduce_sum(b, (size_t) 0), (size_t) 0);
		}
	};
	auto alive = [&](void) { std::vector<size_t> r; for (size_t i = 0; i < nl + x.node.size(); ++i) if (i < nl || !gone[i - nl]) r.push_back(i); return s.pick(r); };
	auto meet = [&](size_t i, size_t j) { auto a = arg(t, i)->get_leaves(), b = arg(t, j)->get_leaves(); for (auto* l : a) if (b.count(l)) return true; return false; };
	auto name = [&](size_t i) { return (i < nl ? "v" : "n") + std::to_string(i < nl ? i : i - nl); };
	for (size_t step = s.sz(4, 24); step > 0; --step)
	{
		switch (s.weighted({8, 3, 2, 3, 3, 2, 2, 4}))
		{
			case 0:
			{
				if (x.node.size() > 8) break;
				Op o{(int) s.below(9), alive(), alive()}; if (linear && o.kind != 4 && o.kind != 8) o.kind = 7; if (o.kind == 8 && meet(o.a, o.b)) break; // the derivative by a leaf of both is refused
				 bool two = o.kind > 3; P_LOG(c, "n" << x.node.size() << " = " << NAMES[o.kind] << " " << name(o.a) << (two ? " and " + name(o.b) : ""));
				Vp p = make(x, o), q = make(t, o); P_CHECK(c, (bool) p.get() == (bool) q.get(), "only one of two equal expressions has a node");
				if (!p.get() || dynamic_cast<nnet::constant<double>*>(p.get())) break;
				for (size_t i : {o.a, two ? o.b : o.a}) if (i >= nl) used[i - nl]++;
				bool shared = false; for (size_t i = 0; i < x.node.size(); ++i) if (!gone[i] && x.node[i].get() == p.get()) shared = true; if (shared) break;
				for (size_t i = 0; i < nl; ++i) shared = shared || x.leaf[i] == p.get(); if (shared) break;
				x.node.push_back(p); t.node.push_back(q); used.push_back(0); gone.push_back(false); break;
			}
			case 1:
			{
				size_t i = s.below(nl); P_LOG(c, name(i) << " moves"); Var* was = x.leaf[i]; Var* now = was->move(); P_CHECK(c, was->no_audience(), "a moved variable keeps observers"); x.leaf[i] = now;
				if (s.flip()) delete was; else { static std::vector<std::unique_ptr<Var> > old; old.clear(); old.emplace_back(was); }
				moves++; c.label("variable moved"); break;
			}
			case 2:
			{
				size_t i = alive(); if (i < nl) break; P_LOG(c, name(i) << " moves"); Node* was = x.node[i - nl].get(); Node* now = was->move(); P_CHECK(c, x.node[i - nl].get() == now, "handles of a moved node do not follow"); delete was; moves++; c.label("operation moved"); break;
			}
			case 3:
			{
				size_t i = alive(); if (s.flip()) i = nl + x.node.size() - 1; if (i < nl || gone[i - nl] || x.node.size() > 8) break; P_LOG(c, "n" << x.node.size() << " = clone of " << name(i)); x.node.push_back(Vp(x.node[i - nl]->clone())); t.node.push_back(Vp(t.node[i - nl]->clone())); used.push_back(0); gone.push_back(false);
				if (!used[i - nl] && s.flip())
				{
					P_LOG(c, name(i) << " is destroyed"); Node* was = x.node[i - nl].get(); if (s.flip()) value_of(was); delete was; P_CHECK(c, !x.node[i - nl].get(), "a destroyed node keeps handles"); gone[i - nl] = true; moves++; c.label("original destroyed");
				}
				break;
			}
			case 4: { size_t i = s.below(nl); Vec v(k * k); for (double& e : v) e = s.dyadic(2, 8); P_LOG(c, name(i) << " := " << show(v)); set_var(x.leaf[i], v); set_var(t.leaf[i], v); break; }
			case 5: { size_t i = alive(); if (i < nl) break; Val v = value_of(x.node[i - nl].get()), w = value_of(t.node[i - nl].get()); P_CHECK(c, v.d == w.d && close_to(v.v, w.v, 1e-12, 1e-12), name(i) << " is " << show(v) << ", and " << show(w) << " where nothing moved"); compared++; break; }
			case 6:
			{
				size_t i = alive(); if (i < nl) break; std::set<Node*> l; for (nnet::ileaf<double>* e : x.node[i - nl]->get_leaves()) l.insert(e);
				size_t n = 0; for (nnet::ileaf<double>* e : t.node[i - nl]->get_leaves()) { size_t j = std::find(t.leaf.begin(), t.leaf.end(), e) - t.leaf.begin(); n += j < nl; P_CHECK(c, j == nl || l.count(x.leaf[j]), name(i) << " is not computed from the moved " << name(j)); }
				P_CHECK(c, l.size() == n, name(i) << " is computed from " << l.size() << " leaves, expected " << n); break;
			}
			default:
			{
				size_t i = alive(), j = s.below(nl); if (s.flip() && x.node.size()) i = nl + x.node.size() - 1; if (i < nl || gone[i - nl]) break; Vp h; Val w;
				try { h = t.node[i - nl]->derive(t.leaf[j]); if (h.get()) w = value_of(h.get()); } catch (std::exception&) { step = 1; c.label("refused derivative"); break; } // ends the history
				Vp g = x.node[i - nl]->derive(x.leaf[j]); P_CHECK(c, (bool) g.get() == (bool) h.get(), "only one of two equal expressions has a derivative");
				if (!g.get()) break; Val v = value_of(g.get());
				P_CHECK(c, v.d == w.d && close_to(v.v, w.v, 1e-12, 1e-12), "the derivative of " << name(i) << " by " << name(j) << " is " << show(v) << ", and " << show(w) << " where nothing moved"); compared++; break;
			}
		}
	}
	for (Half* h : {&x, &t}) for (Var* v : h->leaf) delete v;
	for (size_t i = 0; i < x.node.size(); ++i) P_CHECK(c, (bool) x.node[i].get() == (bool) t.node[i].get(), name(nl + i) << " outlives its leaves");
	c.nontrivial(moves > 0 && compared > 0 && x.node.size() > 1);
}

// operations nobody uses yet take over what others compute
static void assigned (Ctx& c)
{
	typedef immutable<double> Imm; typedef shape_dep<double> Sd;
	Src& s = c.s; std::vector<Var*> leaf; std::vector<Vec> val; Dims d = gen::dims(s, 1, 2, 4, 9); size_t n = ref::prod(d), nl = s.sz(2, 3), passed = 0; bool derived = false;
	for (size_t i = 0; i < nl; ++i) { val.push_back(gen::distinct(s, n)); leaf.push_back(make_var(d, val[i], "v" + std::to_string(i))); P_LOG(c, "v" << i << " = " << show(val[i])); }
	struct N { int kind; size_t a, b; Node* p; Vp h; bool used; }; std::vector<N> ns;
	static const char* const NAMES[] = {"negative of", "sine of", "cosine of", "sum of", "difference of", "product of", "quotient of", "number of elements of", "first dimension of"};
	auto make = [&](N q) -> Node*
	{
		Vp a(leaf[q.a]), b(leaf[q.b]);
		switch (q.kind)
		{
			case 0: return -a; case 1: return sin(a); case 2: return cos(a); case 3: return a + b; case 4: return a - b; case 5: return a * b; case 6: return a / b;
			case 7: return Sd::get({a.get()}, [](tensorshape& x) -> std::vector<size_t> { return {x.n_elems()}; }, std::vector<size_t>{1}, "count");
			default: return Sd::get({a.get()}, [](tensorshape& x) -> std::vector<size_t> { return {x.as_list()[0]}; }, std::vector<size_t>{1}, "first");
		}
	};
	auto at = [&](const N& q, size_t i, int by) -> double // value, or derivative by a leaf
	{
		double a = val[q.a][i], b = val[q.b][i], da = (int) q.a == by, db = (int) q.b == by;
		switch (q.kind)
		{
			case 0: return by < 0 ? -a : -da; case 1: return by < 0 ? std::sin(a) : std::cos(a) * da; case 2: return by < 0 ? std::cos(a) : -std::sin(a) * da;
			case 3: return by < 0 ? a + b : da + db; case 4: return by < 0 ? a - b : da - db; case 5: return by < 0 ? a * b : da * b + a * db; case 6: return by < 0 ? a / b : (da * b - a * db) / (b * b);
			case 7: return n; default: return d[0];
		}
	};
	auto text = [&](const N& q) { std::ostringstream o; o << NAMES[q.kind] << " v" << q.a; if (q.kind > 2 && q.kind < 7) o << " and v" << q.b; return o.str(); };
	auto fine = [&](const N& q) { if (q.kind == 6) for (double x : val[q.b]) if (std::fabs(x) < 0.05) return false; return true; };
	auto look = [&](size_t k)
	{
		const N& q = ns[k]; if (!fine(q)) return; Val v = value_of(q.p); Vec w; if (q.kind > 6) w = {at(q, 0, -1)}; else for (size_t i = 0; i < n; ++i) w.push_back(at(q, i, -1));
		P_CHECK(c, close_to(v.v, w), "o" << k << ", the " << text(q) << ", is " << show(v) << ", expected " << show(w));
	};
	for (size_t step = s.sz(3, 16); step > 0; --step)
	{
		switch (s.weighted({4, 4, 3, 3, 2, 2, 1}))
		{
			case 0:
			{
				if (ns.size() > 6) break; N q; q.kind = (int) s.below(9); q.a = s.below(nl); q.b = (q.a + 1 + s.below(nl - 1)) % nl; q.p = make(q);
				bool old = false; for (N& o : ns) old = old || o.p == q.p; if (old) break;
				q.h = q.p; q.used = derived; P_LOG(c, "o" << ns.size() << " = " << text(q)); ns.push_back(q); break;
			}
			case 1:
			{
				if (ns.empty()) break; size_t i = s.below(ns.size()), j = s.below(ns.size()); N &x = ns[i], &y = ns[j]; if (!x.p || !y.p || x.used || (x.kind > 6) != (y.kind > 6)) break; // derivatives may share nodes with it
				bool mv = i != j && s.flip(1, 3); if (s.flip()) { value_of(x.p); value_of(y.p); }
				P_LOG(c, "o" << i << (mv ? " takes over o" : " = o") << j);
				if (x.kind > 6) { if (mv) *(Sd*) x.p = std::move(*(Sd*) y.p); else *(Sd*) x.p = *(Sd*) y.p; }
				else { Imm *u = dynamic_cast<Imm*>(x.p), *w = dynamic_cast<Imm*>(y.p); P_CHECK(c, u && w, "not an operation"); if (mv) *u = std::move(*w); else *u = *w; }
				x.kind = y.kind; x.a = y.a; x.b = y.b; passed += i != j; look(i); c.label(mv ? "taken over" : "assigned");
				if (mv) { delete y.p; y.p = nullptr; }
				break;
			}
			case 2: { size_t i = s.below(nl); val[i] = gen::distinct(s, n); set_var(leaf[i], val[i]); P_LOG(c, "v" << i << " := " << show(val[i])); break; }
			case 3: { if (ns.empty()) break; size_t i = s.below(ns.size()); if (!ns[i].p) break; P_LOG(c, "reads o" << i); look(i); break; }
			case 4:
			{
				if (ns.empty()) break; size_t i = s.below(ns.size()), l = s.below(nl); const N& q = ns[i]; if (!q.p || q.kind > 6 || !fine(q)) break; P_LOG(c, "derives o" << i << " by v" << l); derived = true; for (N& o : ns) o.used = true;
				Val v = value_of(q.p->derive(leaf[l]).get()); Vec w; for (size_t e = 0; e < n; ++e) w.push_back(at(q, e, (int) l)); if (v.v.size() == 1) v.v.assign(n, v.v[0]);
				P_CHECK(c, close_to(v.v, w), "the derivative of o" << i << ", the " << text(q) << ", by v" << l << " is " << show(v) << ", expected " << show(w)); break;
			}
			case 5: { if (ns.empty()) break; size_t i = s.below(ns.size()); if (!ns[i].p) break; N q = ns[i]; if (s.flip()) { q.p = q.p->clone(); q.h = q.p; P_LOG(c, "o" << ns.size() << " = clone of o" << i); ns.push_back(q); } else { q.p = q.p->move(); delete ns[i].p; ns[i].p = q.p; ns[i].h = q.p; P_LOG(c, "o" << i << " moves"); } break; }
			default: { if (ns.empty()) break; size_t i = s.below(ns.size()); if (!ns[i].p) break; P_LOG(c, "destroys o" << i); delete ns[i].p; ns[i].p = nullptr; }
		}
	}
	for (size_t k = 0; k < ns.size(); ++k) if (ns[k].p) look(k);
	for (Var* v : leaf) delete v;
	c.nontrivial(passed > 0);
}

int main (int argc, char** argv)
{
	pbt::reset_hook() = graph_reset;
	pbt::Prop p;
	p.id = "C05";
	p.rule = "random histories of 2..14 constructions, data assignments, copy assignments, clones, moves of variables and placeholders (some with dependents), each leaf compared with a model after every step; and clones of operation nodes under updates of the arguments and destruction of the original; operations assigned or moved over others, then read, derived, cloned and destroyed; and pairs of expressions of up to 9 nodes, sharing among them, built alike, of which one is moved leaf by leaf and node by node and loses the originals of its clones: values, leaves and derivatives agree; non-trivial: at least one copy or move among two or more leaves, or at least two rounds";
	p.facets = {{"leaves", leaves, 2}, {"nodes", nodes, 1}, {"twins", twins, 3}, {"assigned", assigned, 2}};
	p.quick = 60000; p.thorough = 400000; p.batch = 150;
	return pbt::harness_main(argc, argv, {p});
}
