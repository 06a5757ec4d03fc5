// C17: destroying nodes takes exactly their dependents along
#include "dag.hpp"
using namespace dag;

#include "graph/connector/immutable/generator.hpp"
extern "C" size_t __sanitizer_get_current_allocated_bytes (void);

static std::set<size_t> mentions (const World& w, size_t i)
{
	const Expr& e = w.ex[i]; std::set<size_t> m{i};
	for (int a : {e.a, e.b, e.c}) if (e.op != LEAF && a >= 0) { std::set<size_t> o = mentions(w, a); m.insert(o.begin(), o.end()); }
	return m;
}
// the nodes a node is computed from
static void closure (Node* n, std::set<Node*>& out)
{
	if (!n || !out.insert(n).second) return;
	if (iconnector<double>* k = dynamic_cast<iconnector<double>*>(n)) for (Node* a : k->get_arguments()) closure(a, out);
}

static void history (Ctx& c)
{
	Src& s = c.s; World w(s); w.structural = s.flip(); w.gradable = !w.structural && s.flip(); w.fused = s.below(3);
	struct Copy { size_t of; Node* n; Vp p; }; std::vector<Copy> cp;
	Dims d{s.sz(1, 3)}; if (s.flip()) d.push_back(s.sz(1, 3));
	for (size_t k = s.sz(2, 4); k > 0; --k) w.add_leaf((int) s.weighted({4, 2, 1}), s.flip(1, 5) ? Dims{1} : d, s.flip(1, 6), s.flip(1, 4));
	std::set<size_t> gone; // leaves destroyed
	std::vector<std::set<Node*> > from; std::set<Node*> killed; std::vector<bool> dead;
	size_t n_gone = 0, n_der = 0;
	auto expected_dead = [&](size_t i) { for (size_t g : mentions(w, i)) if (gone.count(g)) return true; return false; };
	auto noted = [&] { for (size_t i = from.size(); i < w.ex.size(); ++i) { std::set<Node*> k; closure(w.ex[i].node.get(), k); from.push_back(k); dead.push_back(false); } };
	auto alive = [&] (size_t i) { return w.ex[i].node.get() != nullptr; };
	auto grow = [&]
	{
		if (w.ex.size() > 20) return;
		if (!w.grow()) return;
		std::vector<Ref> r = w.reference();
		if (r.back().ok && !World::sane(r.back(), w.limit)) { w.undo(); return; }
		P_LOG(c, w.describe(w.ex.size() - 1));
		noted();
	};
	auto check = [&](const char* when)
	{
		for (size_t i = 0; i < w.ex.size(); ++i)
		{
			if (dead[i]) P_CHECK(c, !alive(i), when << ": n" << i << " (" << w.describe(i) << ") outlives a node it is computed from");
			else if (expected_dead(i))
			{
				if (!w.ex[i].loose) P_CHECK(c, !alive(i), when << ": n" << i << " (" << w.describe(i) << ") outlives a node it is made of");
			}
			else P_CHECK(c, alive(i), when << ": n" << i << " (" << w.describe(i) << ") is gone though everything it is made of is there");
		}
	};
	noted();
	for (size_t i = 0; i < w.leaves.size(); ++i) P_LOG(c, w.describe(i));
	for (size_t k = s.sz(3, 9); k > 0; --k) grow();
	for (size_t k = s.sz(3, 14); k > 0; --k)
	{
		switch (s.weighted({3, 5, 2, 3, 1, 2, 2}))
		{
			case 0:
			{
				size_t i = s.below(w.leaves.size()); Leaf& l = w.leaves[i];
				if (l.o.kind == 2 || gone.count(i)) break;
				Vec old = l.o.v; bool was = l.good; Vec v = w.fresh(l);
				l.o.v = v; l.good = true; bool sane = w.sane(w.reference()); l.o.v = old; l.good = was;
				if (!sane) break;
				P_LOG(c, "L" << i << " := " << show(v)); w.set_leaf(i, v);
				break;
			}
			case 1:
			{
				size_t i = s.below(w.ex.size()); if (!alive(i)) break;
				P_LOG(c, "read n" << i); w.check(c, i, w.reference());
				break;
			}
			case 2: grow(); break;
			case 3: // a derivative
			{
				size_t i = s.below(w.ex.size()), l = s.below(w.leaves.size());
				if (!w.gradable || !alive(i) || !alive(l) || w.leaves[l].o.kind != 0 || w.leaves[l].o.d != w.ex[i].d) break;
				P_LOG(c, "derive n" << i << " by L" << l);
				Vp g = w.ex[i].node->derive(w.leaves[l].o.p.get());
				std::vector<Ref> r = w.reference(); if (!r[i].ok || w.kinked(r)) break;
				Vec want = w.tangent(r, l, Vec(w.leaves[l].o.v.size(), 1))[i]; bool calm = true; double mx = 1;
				for (double x : want) { calm = calm && std::isfinite(x) && std::fabs(x) < 1e6; mx = std::max(mx, std::fabs(x)); }
				if (!calm) break;
				Val v = value_of(g.get()); if (v.v.size() == 1) v.v.assign(want.size(), v.v[0]);
				P_CHECK(c, close_to(v.v, want, 1e-7, 1e-7 * mx), "the derivative is " << show(v) << ", expected " << show(want));
				n_der++;
				break;
			}
			case 4: // a copy
			{
				size_t i = s.below(w.ex.size()); if (!alive(i) || w.ex[i].op == LEAF || !dynamic_cast<immutable<double>*>(w.ex[i].node.get())) break;
				P_LOG(c, "copy n" << i);
				Copy k; k.of = i; k.n = w.ex[i].node->clone(); k.p = k.n; cp.push_back(k);
				break;
			}
			case 5: // a copy is read or destroyed
			{
				if (cp.empty()) break;
				Copy& k = cp[s.below(cp.size())]; if (!k.p.get()) break;
				if (s.flip()) { P_LOG(c, "read the copy of n" << k.of); w.check(c, k.of, w.reference(), k.n, "copy of "); }
				else { P_LOG(c, "destroy the copy of n" << k.of); for (size_t j = 0; j < w.ex.size(); ++j) if (alive(j) && from[j].count(k.n)) dead[j] = true; delete k.n; P_CHECK(c, !k.p.get(), "a handle keeps the destroyed copy"); check("after destroying a copy"); }
				break;
			}
			default:
			{
				size_t i = s.below(w.ex.size()); if (!alive(i)) break;
				Node* n = w.ex[i].node.get();
				if (w.is_const((int) i)) break; // constants belong to their audience
				// simplifications make several expressions one node
				std::vector<size_t> same; for (size_t j = 0; j < w.ex.size(); ++j) if (w.ex[j].node.get() == n) same.push_back(j);
				P_LOG(c, "destroy n" << i);
				auto& own = w.pool.owned; own.erase(std::remove(own.begin(), own.end(), n), own.end());
				for (size_t j = 0; j < w.ex.size(); ++j) if (alive(j) && from[j].count(n)) dead[j] = true;
				std::vector<bool> doomed; for (Copy& k : cp) { std::set<Node*> f; closure(k.p.get(), f); doomed.push_back(f.count(n) > 0); }
				delete n;
				for (size_t j = 0; j < cp.size(); ++j) P_CHECK(c, !doomed[j] || !cp[j].p.get(), "the copy of n" << cp[j].of << " outlives a node it is computed from");
				for (size_t j : same) if (w.ex[j].op == LEAF) gone.insert(j);
				n_gone++;
				check("after destroying a node");
			}
		}
	}
	std::vector<Ref> r = w.reference();
	check("at the end");
	for (size_t i = w.ex.size(); i-- > 0;) if (alive(i)) w.check(c, i, r);
	for (Copy& k : cp) if (k.p.get()) w.check(c, k.of, r, k.n, "copy of ");
	if (n_der && n_gone) c.label("derived and destroyed");
	c.nontrivial(n_gone > 0 && w.ex.size() > w.leaves.size() + 1);
}

static void leak (Ctx& c)
{
	Src& s = c.s; size_t before = 0, after = 0; std::vector<uint64_t> tape;
	uint64_t seed = s.below(1 << 30); bool der = s.flip();
	for (int round = 0; round < 3; ++round)
	{
		before = __sanitizer_get_current_allocated_bytes();
		{
			Src q(seed, nullptr); World w(q); w.structural = q.flip(); w.gradable = !w.structural || q.flip(); w.fused = q.below(3);
			Dims d{q.sz(1, 3)};
			for (size_t k = q.sz(2, 3); k > 0; --k) w.add_leaf((int) q.weighted({4, 2, 0}), d, false, q.flip(1, 4));
			for (size_t k = q.sz(2, 8); k > 0; --k) { if (!w.grow()) continue; std::vector<Ref> r = w.reference(); if (!World::sane(r.back(), w.limit)) w.undo(); }
			if (round == 0) for (size_t i = 0; i < w.ex.size(); ++i) P_LOG(c, w.describe(i));
			// nodes of constants only belong to nobody
			for (const Expr& e : w.ex) { bool any = e.op == LEAF || dynamic_cast<constant<double>*>(e.node.get()); for (ileaf<double>* l : e.node->get_leaves()) any = any || !dynamic_cast<constant<double>*>(l); if (!any) c.discard(); }
			for (size_t i = 0; i < w.ex.size(); ++i) value_of(w.ex[i].node.get());
			if (der && !w.structural) for (size_t i = 0; i < w.leaves.size(); ++i) if (w.leaves[i].o.kind == 0) w.ex.back().node->derive(w.leaves[i].o.p.get());
		}
		after = __sanitizer_get_current_allocated_bytes();
	}
	P_CHECK(c, after == before, "destroying all leaves leaves " << after - before << " bytes behind");
	c.nontrivial();
}

// the same over matrix products, reductions, rearrangements, samples, generators, copies and moves
static void wide (Ctx& c)
{
	Src& s = c.s; size_t before = 0, after = 0; uint64_t seed = s.below(1 << 30);
	for (int round = 0; round < 3; ++round)
	{
		before = __sanitizer_get_current_allocated_bytes();
		{
			Src q(seed, nullptr); std::ostringstream log; static rand_uniform<double> some(0.25, 0.75);
			size_t x = q.sz(1, 3), y = q.sz(1, 3); Vec v = gen::data(q, x * y), w = gen::data(q, x * y);
			Var* a = make_var({x, y}, v, "a"); Var* b = make_var({x, y}, w, "b"); Var* t = make_var({x}, gen::data(q, x), "t");
			std::vector<Vp> ns{a, b}; // nodes of shape [x, y] and others
			bool smooth = true; size_t axial = 0;
			for (size_t k = q.sz(1, 5); k > 0; --k)
			{
				size_t mi = q.below(ns.size()), oi = q.below(ns.size()); Vp m = ns[mi], o = ns[oi]; size_t op = q.below(20); log << " " << op << "(" << mi << "," << oi << ")"; axial += op == 2 || op == 3 || op == 7; smooth = smooth && (op == 2 || op == 3 || op == 4 || op == 5 || op == 7 || op == 14 || op == 17);
				switch (op)
				{
					case 0: ns.push_back(matmul<double>(matmul<double>(m, o, false, true), m)); break;
					case 1: ns.push_back(transpose<double>(sin<double>(transpose<double>(m)))); break;
					case 2: ns.push_back(add_axial_b<double>(m, t, 1)); break;
					case 3: ns.push_back(mul_axial_a<double>(t, m, 1)); break;
					case 4: ns.push_back(m * reduce_sum<double>(o)); break;
					case 5: ns.push_back(m - reduce_mean<double>(o)); break;
					case 6: ns.push_back(m + extend<double>(reduce_max<double>(o), 0, 1)); break;
					case 7: ns.push_back(sub_axial_b<double>(m, reduce_sum<double>(o, 1), 1)); break;
					case 8: ns.push_back(clip_norm<double>(m, 0.5)); break;
					case 9: ns.push_back(clip_val<double>(m, -0.5, 0.5)); break;
					case 10: ns.push_back(m + binomial_sample<double>(2.0, sigmoid<double>(o))); break;
					case 11: { generator<double>* g = generator<double>::get(m, some, "gen"); Vp h(g); if (q.flip()) { Vp k = g->clone(); ns.push_back(h * k); } else ns.push_back(h * o); break; }
					case 12: ns.push_back(fit<double>(m, o)); break;
					case 13: ns.push_back(flip<double>(m, {q.below(2)})); break;
					case 14: ns.push_back(sigmoid<double>(m) * tanh<double>(o)); break;
					case 15: ns.push_back(eq<double>(m, o)); break;
					case 16: ns.push_back(m * as_constant<double>(o)); break;
					case 17: { Vp h = m + o; if (h->get_leaves().empty() || !dynamic_cast<immutable<double>*>(h.get())) break; ns.push_back(h->clone()); break; }
					case 18: { if (y < 2 || x < 2) { log << "-"; break; } Vp h = conv2d<double>(m, o); ns.push_back(m + reduce_sum<double>(h)); break; }
					default: ns.push_back(m + arg_max<double>(o)); break;
				}
			}
			for (Vp& n : ns) { bool lives = false; if (n.get()) for (ileaf<double>* l : n->get_leaves()) lives = lives || !dynamic_cast<constant<double>*>(l); if (!lives) { if (n.get() != a && n.get() != b) c.discard(); } }
			for (Vp& n : ns) value_of(n.get());
			if (round == 0) P_LOG(c, "shape [" << x << " " << y << "]; operations" << log.str());
			Vp end = ns.back();
			if (q.flip(1, 4))
			{
				end = q.flip() ? matmul<double>(a, b, false, true) : matmul<double>(b, a, true, false); if (q.flip()) end = sigmoid<double>(end); if (q.flip()) end = q.flip() ? reduce_sum<double>(end) : reduce_mean<double>(end);
				smooth = true; ns.push_back(end); value_of(end.get()); if (round == 0) P_LOG(c, "a matrix product");
			}
			auto derive = [&](Var* by, const char* n) { try { Vp g = end->derive(by); if (round == 0) P_LOG(c, "derive by" << n); } catch (std::exception&) { c.discard(); } }; // some operations have none
			if (smooth && q.flip()) derive(a, " a"); if (smooth && axial < 2 && q.flip()) derive(t, " t");
			if (q.flip()) { Vec z(v.size()); for (double& e : z) e = q.dyadic(2, 4); try { set_var(a, z); value_of(end.get()); } catch (std::exception&) { if (!smooth) throw; c.discard(); } }
			switch (q.below(3)) { case 0: delete a; delete b; delete t; break; case 1: delete t; delete b; delete a; break; default: delete b; delete a; delete t; }
			for (Vp& n : ns) P_CHECK(c, !n.get(), "a node outlives its leaves");
		}
		after = __sanitizer_get_current_allocated_bytes();
	}
	P_CHECK(c, after == before, "destroying all leaves leaves " << (long) (after - before) << " bytes behind");
	c.nontrivial();
}

// ---- known finding
static void constant_gradient (Ctx& c)
{
	size_t before = 0, after = 0;
	for (int round = 0; round < 3; ++round)
	{
		before = __sanitizer_get_current_allocated_bytes();
		{ Var* a = make_var({2, 3}, Vec(6, 1), "a"); Var* t = make_var({2}, Vec(2, 1), "t"); { Vp y = flip<double>(add_axial_b<double>(a, t, 1), {0}); value_of(y.get()); Vp d = y->derive(a); } delete a; delete t; }
		after = __sanitizer_get_current_allocated_bytes();
	}
	P_CHECK(c, after == before, "destroying all leaves leaves " << after - before << " bytes behind");
}

// operations on handles that were emptied
static void empty (Ctx& c)
{
	typedef std::function<Vp(Vp,Vp)> F; static auto lt = [](double a, double b) { return a < b; };
	static const std::vector<std::pair<const char*, std::pair<int, F> > > OPS = {
#define U(n, e) {n, {1, [](Vp a, Vp) -> Vp { return e; }}},
#define B(n, e) {n, {2, [](Vp a, Vp b) -> Vp { return e; }}},
		U("identity", identity<double>(a)) U("as_constant", as_constant<double>(a)) U("abs", +a) U("neg", -a) U("sin", sin<double>(a)) U("cos", cos<double>(a)) U("tan", tan<double>(a))
		U("csc", csc<double>(a)) U("sec", sec<double>(a)) U("cot", cot<double>(a)) U("exp", exp<double>(a)) U("sqrt", sqrt<double>(a)) U("round", round<double>(a)) U("log", log<double>(a))
		U("pow", pow<double>(a, 2)) U("pow 0", pow<double>(a, 0)) U("pow 1", pow<double>(a, 1)) U("clip_val", clip_val<double>(a, -1, 1)) U("l2norm", l2norm<double>(a)) U("clip_norm", clip_norm<double>(a, 1)) U("sigmoid", sigmoid<double>(a)) U("tanh", tanh<double>(a))
		U("1 < a", conditional<double>(1.0, a, lt, "lt")) U("a < 1", conditional<double>(a, 1.0, lt, "lt")) U("binomial of n", binomial_sample<double>(3.0, a)) U("binomial of p", binomial_sample<double>(a, 0.5))
		U("1 + a", 1.0 + a) U("a + 1", a + 1.0) U("0 + a", 0.0 + a) U("a + 0", a + 0.0) U("1 - a", 1.0 - a) U("a - 1", a - 1.0) U("a - 0", a - 0.0) U("2 * a", 2.0 * a) U("a * 2", a * 2.0) U("0 * a", 0.0 * a) U("a * 0", a * 0.0) U("1 * a", 1.0 * a) U("1 / a", 1.0 / a) U("0 / a", 0.0 / a) U("a / 2", a / 2.0) U("a / 1", a / 1.0)
		U("transpose", transpose<double>(a)) U("extend", extend<double>(a, 0, 2)) U("reduce_sum", reduce_sum<double>(a)) U("reduce_sum 0", reduce_sum<double>(a, 0)) U("reduce_mean", reduce_mean<double>(a)) U("reduce_max", reduce_max<double>(a)) U("arg_max", arg_max<double>(a)) U("arg_max 0", arg_max<double>(a, 0)) U("flip", flip<double>(a, {0}))
		B("a < b", conditional<double>(a, b, lt, "lt")) B("eq", eq<double>(a, b)) B("neq", neq<double>(a, b)) B("binomial", binomial_sample<double>(a, b))
		B("a + b", a + b) B("a - b", a - b) B("a * b", a * b) B("a / b", a / b)
		B("add_axial_a", add_axial_a<double>(a, b, 0)) B("add_axial_b", add_axial_b<double>(a, b, 0)) B("sub_axial_a", sub_axial_a<double>(a, b, 0)) B("sub_axial_b", sub_axial_b<double>(a, b, 0)) B("mul_axial_a", mul_axial_a<double>(a, b, 0)) B("mul_axial_b", mul_axial_b<double>(a, b, 0)) B("div_axial_a", div_axial_a<double>(a, b, 0)) B("div_axial_b", div_axial_b<double>(a, b, 0))
		B("cross_corr2d", cross_corr2d<double>(a, b)) B("conv2d", conv2d<double>(a, b)) B("fit", fit<double>(a, b)) B("matmul", matmul<double>(a, b)) B("matmul turned", (matmul<double>(a, b, true, true)))
#undef U
#undef B
	};
	Src& s = c.s; Pool pool; Dims d{2, 2}; Vec v = gen::data(s, 4);
	std::unique_ptr<Var> gone(make_var(d, v, "gone")); Operand kept = pool.leaf(s, (int) s.below(2), d, v, "kept");
	Vp e(gone.get()); if (s.flip()) { e = e * 3.0 + 1.0; } 
	gone.reset(); P_CHECK(c, e.get() == nullptr, "the handle of a destroyed node is not empty");
	for (size_t k = s.sz(1, 4); k > 0; --k)
	{
		auto& op = OPS[s.below(OPS.size())]; int which = op.second.first == 1 ? 1 : (int) s.sz(1, 3);
		Vp none; Vp a = which & 1 ? (s.flip() ? e : none) : kept.p, b = which & 2 ? e : kept.p;
		P_LOG(c, op.first << " on " << (which & 1 ? "nothing" : "a leaf") << (op.second.first == 2 ? (which & 2 ? " and nothing" : " and a leaf") : ""));
		Vp out = op.second.second(a, b);
		P_CHECK(c, out.get() == nullptr, op.first << " on an empty handle gives a node");
		a = none; b = none;
		P_CHECK(c, value_of(kept.p.get()).v == v, "the other operand holds " << show(value_of(kept.p.get())));
		c.label(op.first);
	}
	c.nontrivial();
}

// handles cannot be made by new
template <typename A> static Vp* new_handle (A a) { return ::new Vp(a); }
static Vp* new_handle (const Vp& a) { return ::new Vp(a); }
static Vp* new_handle (void) { return ::new Vp(); }
static placeptr<double>* new_placeptr (Ph* a) { return ::new placeptr<double>(a); }
// handles: what they hold, and who observes the nodes they hold
static void handles (Ctx& c)
{
	Src& s = c.s; std::vector<Node*> node; std::vector<Vec> val; size_t losses = 0;
	std::vector<std::unique_ptr<Vp> > h; std::vector<int> to; // -1: empty
	std::vector<std::unique_ptr<placeptr<double> > > ph; std::vector<int> pto;
	auto grow = [&] { size_t n = s.sz(1, 3); Vec v = gen::data(s, n); bool var = s.flip(); Node* x = make_var({n}, v, "v"); if (!var) { delete x; Ph* q = new Ph(tensorshape(Dims{n}), "p"); *q = v; x = q; } P_LOG(c, "x" << node.size() << " = a " << (var ? "variable" : "placeholder") << " holding " << show(v)); node.push_back(x); val.push_back(v); };
	auto target = [&]() -> int { if (s.flip(1, 6)) return -1; size_t i = s.below(node.size()); return node[i] ? (int) i : -1; };
	auto at = [&](int i) -> Node* { return i < 0 ? nullptr : node[i]; }; auto nm = [&](int i) { return i < 0 ? std::string("nothing") : "x" + std::to_string(i); };
	grow(); grow();
	for (size_t step = s.sz(3, 20); step > 0; --step)
	{
		switch (s.below(10))
		{
			case 0: if (node.size() < 5) grow(); break;
			case 1: { int t = target(); P_LOG(c, "h" << h.size() << " = handle of " << nm(t)); if (t < 0 && s.flip()) h.emplace_back(new_handle()); else h.emplace_back(new_handle(at(t))); to.push_back(t); break; }
			case 2: { if (h.empty()) break; size_t i = s.below(h.size()); P_LOG(c, "h" << h.size() << " = copy of h" << i); h.emplace_back(new_handle(*h[i])); to.push_back(to[i]); break; }
			case 3: { if (h.empty()) break; size_t i = s.below(h.size()); int t = target(); P_LOG(c, "h" << i << " = " << nm(t)); *h[i] = at(t); to[i] = t; break; }
			case 4: { if (h.empty()) break; size_t i = s.below(h.size()), j = s.below(h.size()); P_LOG(c, "h" << i << " = h" << j); if (s.flip()) *h[i] = *h[j]; else *h[i] = h[j]->get(); to[i] = to[j]; break; }
			case 5: { if (h.empty()) break; size_t i = s.below(h.size()); P_LOG(c, "h" << i << " is cleared"); if (to[i] >= 0) h[i]->clear(); to[i] = -1; break; }
			case 6: { if (h.empty()) break; size_t i = s.below(h.size()); P_LOG(c, "h" << i << " ends"); h.erase(h.begin() + i); to.erase(to.begin() + i); break; }
			case 7: { if (h.empty()) break; size_t i = s.below(h.size()), j = s.below(h.size()); P_LOG(c, "h" << i << " = moved h" << j); if (i == j) break; *h[i] = std::move(*h[j]); to[i] = to[j]; if (!h[j]->get()) to[j] = -1; break; }
			case 8:
			{
				std::vector<size_t> k; for (size_t i = 0; i < node.size(); ++i) if (node[i] && dynamic_cast<Ph*>(node[i])) k.push_back(i); if (k.empty()) break; size_t i = s.pick(k);
				placeptr<double>* q = new_placeptr(static_cast<Ph*>(node[i])); Vec v = gen::data(s, val[i].size()); *q = v; val[i] = v; P_LOG(c, "x" << i << " := " << show(v) << " by its handle"); ph.emplace_back(q); pto.push_back((int) i); break;
			}
			default: { size_t i = s.below(node.size()); if (!node[i]) break; P_LOG(c, "x" << i << " is destroyed"); for (int& t : to) if (t == (int) i) { t = -1; losses++; } for (int& t : pto) if (t == (int) i) t = -1; delete node[i]; node[i] = nullptr; }
		}
		for (size_t i = 0; i < h.size(); ++i) P_CHECK(c, h[i]->get() == at(to[i]) && static_cast<Node*>(*h[i]) == at(to[i]), "h" << i << " does not hold " << nm(to[i]));
		for (size_t i = 0; i < ph.size(); ++i) P_CHECK(c, static_cast<Vp*>(ph[i].get())->get() == at(pto[i]), "a handle of a placeholder does not hold " << nm(pto[i]));
		for (size_t k = 0; k < node.size(); ++k) if (node[k])
		{
			size_t n = std::count(to.begin(), to.end(), (int) k) + std::count(pto.begin(), pto.end(), (int) k);
			P_CHECK(c, node[k]->n_audience() == n, "x" << k << " is observed by " << node[k]->n_audience() << ", held by " << n); P_CHECK(c, value_of(node[k]).v == val[k], "x" << k << " holds " << show(value_of(node[k])) << ", expected " << show(val[k]));
		}
	}
	c.nontrivial(losses > 0); for (Node* n : node) delete n;
}

int main (int argc, char** argv)
{
	pbt::reset_hook() = graph_reset;
	pbt::Prop p;
	p.id = "C17";
	p.rule = "histories of 3..14 steps (changing leaves, reading, building, deriving, copying, destroying leaves, operations and copies) over random graphs: handles of nodes computed from a destroyed node are empty, all others keep working and hold the right value; operations on emptied handles; histories of making, copying, assigning, clearing and ending handles; and graphs that are built, evaluated and derived, then destroyed by destroying their leaves, after which as much memory is allocated as before; under AddressSanitizer; non-trivial: something with dependents destroyed";
	p.assumptions = {"nodes computed from constants only have no owner (known finding constant-gradient): graphs and derivatives that may contain some are left out of the memory balance", "the arguments of a node are taken from its argument list, since equal nodes are shared"};
	p.facets = {{"history", history, 4}, {"leak", leak, 1}, {"wide", wide, 3}, {"empty", empty, 1}, {"handles", handles, 1}};
	p.known = {{"constant-gradient", constant_gradient, "the derivative of flip(a + axis-wise t) by a is made of constants only; destroying a and t does not return its memory"}};
	p.quick = 22000; p.thorough = 400000; p.batch = 150;
	return pbt::harness_main(argc, argv, {p});
}
