// C10: values stay consistent with the leaves through any history of changes and reads
#include "dag.hpp"
using namespace dag;

struct Copy { size_t of; Node* n; };

static void run (Ctx& c, bool copies)
{
	Src& s = c.s; World w(s); w.structural = s.flip(); w.fused = s.below(3);
	Dims d{s.sz(1, 3)}; if (s.flip()) d.push_back(s.sz(1, 3));
	for (size_t k = s.sz(2, 4); k > 0; --k) w.add_leaf((int) s.weighted({4, 2, 1}), s.flip(1, 5) ? Dims{1} : d, s.flip(1, 4), s.flip(1, 4));
	std::vector<Copy> cp;
	size_t steps = s.sz(4, 24), sets = 0, reads = 0, inits = 0;
	std::vector<std::string> log0;
	auto grow = [&]
	{
		if (w.ex.size() > 22 || !w.grow()) return;
		std::vector<Ref> r = w.reference();
		if (r.back().ok && !World::sane(r.back(), w.limit)) { w.undo(); return; }
		P_LOG(c, w.describe(w.ex.size() - 1));
	};
	for (size_t i = 0; i < w.leaves.size(); ++i) P_LOG(c, w.describe(i));
	for (size_t k = s.sz(2, 6); k > 0; --k) grow();
	for (size_t k = 0; k < steps; ++k)
	{
		switch (s.weighted({6, 8, 4, 1, copies ? 3u : 0u, 1, copies ? 1u : 0u}))
		{
			case 0: // a leaf changes
			{
				size_t i = s.below(w.leaves.size()); Leaf& l = w.leaves[i];
				if (l.o.kind == 2) break;
				Vec old = l.o.v; bool was = l.good;
				Vec v = w.fresh(l);
				l.o.v = v; l.good = true;
				bool sane = w.sane(w.reference());
				l.o.v = old; l.good = was;
				if (!sane) break;
				int how = s.flip(1, 4) ? 4 + (int) s.below(2) : was && l.o.kind == 0 ? (int) s.below(4) : 0;
				P_LOG(c, "L" << i << " := " << show(v) << (was ? "" : " (first data)"));
				if (how == 1 || how == 2)
				{
					// through an increment
					Vec dv(v.size()); for (size_t j = 0; j < v.size(); ++j) dv[j] = how == 1 ? v[j] - old[j] : old[j] - v[j];
					constant<double>* kk = constant<double>::get(dv, tensorshape({dv.size()}));
					Var* x = static_cast<Var*>(l.o.owned);
					variable_updater<double> up = how == 1 ? x->assign_add(kk) : x->assign_sub(kk);
					delete kk; up(true); l.o.v = v;
				}
				else if (how == 3)
				{
					// by assigning another variable with that content
					Var* o = make_var(l.o.d, v, "tmp"); *static_cast<Var*>(l.o.owned) = *o; delete o; l.o.v = v;
				}
				else if (how == 4)
				{
					// by restoring it
					Var* o = make_var(l.o.d, v, "tmp"); tenncor::tensor_proto proto; o->eval()->serialize(&proto); delete o;
					P_CHECK(c, l.o.p->read_proto(proto), "L" << i << " is not restored"); l.o.v = v; l.good = true; c.label("restored a leaf");
				}
				else if (how == 5 && l.o.kind == 0)
				{
					// by an initialiser
					Var* x = static_cast<Var*>(l.o.owned);
					std::fill(v.begin(), v.end(), v[0]); l.o.v = v; l.good = true;
					if (!w.sane(w.reference())) { l.o.v = old; l.good = was; break; }
					const_init<double> init(v[0]); x->set_initializer(init); x->initialize(); P_LOG(c, "  all " << v[0] << " by an initialiser");
				}
				else if (how == 5)
				{
					// by a tensor
					Var* o = make_var(l.o.d, v, "tmp"); tensor<double> data(*o->eval()); delete o;
					*static_cast<Ph*>(l.o.owned) = data; l.o.v = v; l.good = true;
				}
				else w.set_leaf(i, v);
				if (!was) inits++;
				sets++;
				break;
			}
			case 1: // a node is read
			{
				size_t i = s.below(w.ex.size()); P_LOG(c, "read n" << i);
				w.check(c, i, w.reference()); reads++;
				break;
			}
			case 2: grow(); break;
			case 3: // everything is read
			{
				P_LOG(c, "read everything");
				std::vector<Ref> r = w.reference();
				std::vector<size_t> order; for (size_t i = 0; i < w.ex.size(); ++i) order.push_back(i);
				s.shuffle(order);
				for (size_t i : order) w.check(c, i, r);
				for (Copy& x : cp) w.check(c, x.of, r, x.n, "copy of ");
				break;
			}
			case 4: // a copy of a node
			{
				size_t i = w.leaves.size() < w.ex.size() ? w.leaves.size() + s.below(w.ex.size() - w.leaves.size()) : 0;
				if (w.is_const((int) i) || w.ex[i].op == LEAF) break;
				if (!dynamic_cast<immutable<double>*>(w.ex[i].node.get())) break;
				P_LOG(c, "copy n" << i);
				cp.push_back({i, w.ex[i].node.get()->clone()}); c.label("copied a node");
				break;
			}
			case 5: // only its shape is asked for
			{
				size_t i = s.below(w.ex.size()); std::vector<Ref> r = w.reference();
				if (!r[i].ok || w.ex[i].simple) break;
				P_LOG(c, "shape of n" << i);
				Dims g = w.ex[i].node->get_shape().as_list();
				P_CHECK(c, notail(g) == notail(r[i].d) || ref::prod(r[i].d) == 1, "the shape of n" << i << " is " << show(g) << ", expected " << show(r[i].d));
				break;
			}
			default:
			{
				if (cp.empty()) break;
				size_t j = s.below(cp.size()); P_LOG(c, "read the copy of n" << cp[j].of);
				w.check(c, cp[j].of, w.reference(), cp[j].n, "copy of ");
			}
		}
	}
	std::vector<Ref> r = w.reference();
	for (size_t i = w.ex.size(); i-- > 0;) w.check(c, i, r);
	for (Copy& x : cp) w.check(c, x.of, r, x.n, "copy of ");
	if (inits) c.label("data arrived after the graph was built");
	c.nontrivial(sets > 0 && w.ex.size() > w.leaves.size());
}
static void history (Ctx& c) { run(c, false); }
static void copies (Ctx& c) { run(c, true); }

// an evaluation that fails does not spoil later ones
static void recover (Ctx& c)
{
	Src& s = c.s; Pool pool;
	size_t n = s.sz(2, 4), m = n + s.sz(1, 2);
	Operand a = pool.leaf(s, 0, Dims{n}, gen::data(s, n), "a");
	Ph* h = new Ph(tensorshape(std::vector<size_t>{0}), "h"); pool.owned.push_back(h);
	Vp sum = a.p + Vp(h); Vp other = a.p * Vp(a.p.get()); Vp top = sin<double>(sum) + a.p;
	P_LOG(c, "sum of a variable of " << n << " and a placeholder offered " << m << " elements, then " << n);
	bool threw = false;
	*h = gen::data(s, m);
	try { sum->eval(); } catch (std::exception&) { threw = true; }
	P_CHECK(c, threw, "tensors of " << n << " and " << m << " elements are added");
	for (size_t k = s.below(3); k > 0; --k) { try { (s.flip() ? sum : other)->eval(); } catch (std::exception&) {} }
	tensor<double> good(tensorshape({n})); Vec v = gen::data(s, n);
	{ Ph tmp(tensorshape({n}), "tmp"); tmp = v; *h = *const_cast<tensor<double>*>(tmp.eval()); }
	Vec ws, wt, wo; for (size_t i = 0; i < n; ++i) { ws.push_back(a.v[i] + v[i]); wt.push_back(std::sin(ws[i]) + a.v[i]); wo.push_back(a.v[i] * a.v[i]); }
	P_CHECK(c, value_of(h).v == v, "the placeholder holds " << show(value_of(h)));
	Val g;
	g = value_of(sum.get()); P_CHECK(c, close_to(g.v, ws), "after the placeholder got matching data the sum is " << show(g) << ", expected " << show(ws));
	g = value_of(top.get()); P_CHECK(c, close_to(g.v, wt), "after the placeholder got matching data a node over the sum is " << show(g) << ", expected " << show(wt));
	g = value_of(other.get()); P_CHECK(c, close_to(g.v, wo), "the other node is " << show(g));
	c.nontrivial();
}

int main (int argc, char** argv)
{
	pbt::reset_hook() = graph_reset;
	pbt::Prop p;
	p.id = "C10";
	p.rule = "histories of 4..24 steps (changing a leaf by assignment, increment, decrement, copy, initialiser or restoring; first data of a leaf; reading a node, its shape or everything; building another node; copying a node) over random graphs of 2..4 leaves, each read compared with an evaluation of the present leaves; and failed evaluations followed by valid data; non-trivial: at least one change and one operation";
	p.facets = {{"history", history, 8}, {"copies", copies, 4}, {"recover", recover, 1}};
	p.quick = 18000; p.thorough = 500000; p.batch = 150;
	p.assumptions = {"values up to 10000, compared with relative tolerance 1e-8", "the shape of a leaf's data does not change once its dependents have been evaluated"};
	return pbt::harness_main(argc, argv, {p});
}
