// C11: a frozen graph keeps its values, an unfrozen one catches up
#include "dag.hpp"
using namespace dag;

static iconnector<double>* con (World& w, size_t i) { return dynamic_cast<iconnector<double>*>(w.ex[i].node.get()); }

static void freeze (Ctx& c)
{
	Src& s = c.s; World w(s); w.structural = s.flip(); w.fused = s.below(3);
	Dims d{s.sz(1, 3)}; if (s.flip(1, 3)) d.push_back(s.sz(1, 3));
	for (size_t k = s.sz(2, 4); k > 0; --k) w.add_leaf((int) s.weighted({5, 2, 1}), s.flip(1, 5) ? Dims{1} : d, s.flip(1, 6), s.flip(1, 4));
	for (size_t i = 0; i < w.leaves.size(); ++i) P_LOG(c, w.describe(i));
	auto grow = [&]
	{
		if (w.ex.size() > 18 || !w.grow()) return;
		std::vector<Ref> r = w.reference();
		if (r.back().ok && !World::sane(r.back(), w.limit)) { w.undo(); return; }
		P_LOG(c, w.describe(w.ex.size() - 1));
	};
	for (size_t k = s.sz(3, 8); k > 0; --k) grow();
	std::vector<Ref> snap;        // values at the moment the graph of the node was frozen
	std::vector<int> frozen;      // per expression: 1 holds its value, 2 was built while its graph was frozen, or joined it then
	size_t joined = 0;
	auto resize = [&]
	{
		size_t had = frozen.size(); frozen.resize(w.ex.size(), 0); snap.resize(w.ex.size());
		for (size_t i = 0; i < w.ex.size(); ++i)
		{
			if (!con(w, i) || frozen[i]) continue;
			for (size_t j = 0; j < w.ex.size(); ++j) if (con(w, j) && frozen[j] == 1 && con(w, i)->is_same_graph(con(w, j)))
			{
				bool same = con(w, i) == con(w, j); frozen[i] = same ? 1 : 2; if (i < had) joined++;
				if (same) { snap[i] = snap[j]; break; }
			}
		}
	};
	auto expected = [&](void) { std::vector<Ref> r = w.reference(); for (size_t i = 0; i < w.ex.size(); ++i) if (frozen[i]) r[i] = snap[i]; return r; };
	size_t froze = 0, stale = 0, thaw = 0, sets = 0;
	for (size_t k = s.sz(5, 24); k > 0; --k)
	{
		resize();
		bool any = false; for (int f : frozen) any = any || f;
		switch (s.weighted({5, 6, 2, 3, 2, 1}))
		{
			case 0:
			{
				size_t i = s.below(w.leaves.size()); Leaf& l = w.leaves[i];
				if (l.o.kind == 2) break;
				Vec old = l.o.v; bool was = l.good; l.o.v = w.fresh(l); l.good = true; Vec v = l.o.v;
				bool sane = w.sane(w.reference()); l.o.v = old; l.good = was;
				if (!sane) break;
				P_LOG(c, "L" << i << " := " << show(v)); w.set_leaf(i, v); sets++;
				break;
			}
			case 1:
			{
				size_t i = s.below(w.ex.size()); P_LOG(c, "read n" << i << (frozen[i] ? " (frozen)" : ""));
				if (frozen[i] == 2) { value_of(w.ex[i].node.get()); break; }
				std::vector<Ref> r = expected(); w.check(c, i, r);
				if (frozen[i] && r[i].v != w.reference()[i].v) stale++;
				break;
			}
			case 2: if (!any) grow(); else { size_t n = w.ex.size(); joined = 0; grow(); resize(); if (w.ex.size() > n && frozen[n] == 2) c.label(joined ? "joined a frozen graph with another" : "built within a frozen graph"); } break;
			case 3:
			{
				size_t i = s.below(w.ex.size()); if (!con(w, i)) break;
				P_LOG(c, "freeze the graph of n" << i); con(w, i)->freeze_status(true); froze++;
				std::vector<Ref> r = w.reference();
				for (size_t j = 0; j < w.ex.size(); ++j) if (con(w, j) && con(w, i)->is_same_graph(con(w, j))) { frozen[j] = 1; snap[j] = r[j]; }
				break;
			}
			case 5:
			{
				size_t i = s.below(w.ex.size()); tensorshape sh = w.ex[i].node->get_shape(); std::vector<Ref> r = expected();
				P_LOG(c, "shape of n" << i << (frozen[i] ? " (frozen)" : ""));
				if (frozen[i] == 1 && r[i].ok && !w.ex[i].loose) P_CHECK(c, notail(sh.as_list()) == notail(r[i].d), "the shape of n" << i << " is " << show(sh.as_list()) << ", expected " << show(r[i].d));
				break;
			}
			default:
			{
				size_t i = s.below(w.ex.size()); if (!con(w, i)) break;
				P_LOG(c, "unfreeze the graph of n" << i); con(w, i)->freeze_status(false);
				if (frozen[i]) thaw++;
				for (size_t j = 0; j < w.ex.size(); ++j) if (con(w, j) && con(w, i)->is_same_graph(con(w, j))) frozen[j] = 0;
			}
		}
	}
	resize();
	std::vector<Ref> r = expected();
	for (size_t i = w.ex.size(); i-- > 0;) if (frozen[i] != 2) w.check(c, i, r);
	for (size_t i = 0; i < w.ex.size(); ++i) if (frozen[i]) { con(w, i)->freeze_status(false); frozen[i] = 0; }
	P_LOG(c, "unfreeze everything");
	r = w.reference();
	std::vector<size_t> order; for (size_t i = 0; i < w.ex.size(); ++i) order.push_back(i);
	s.shuffle(order);
	for (size_t i : order) w.check(c, i, r);
	if (stale) c.label("read an outdated value of a frozen node");
	if (thaw) c.label("unfroze");
	c.nontrivial(froze && sets);
}

int main (int argc, char** argv)
{
	pbt::reset_hook() = graph_reset;
	pbt::Prop p;
	p.id = "C11";
	p.rule = "histories of 5..24 steps (freezing and unfreezing a graph, changing leaves, giving first data, reading values and shapes, building further nodes, joining frozen graphs with others) over random graphs, against a model that keeps the values of the moment of freezing; non-trivial: a freeze and a change";
	p.facets = {{"freeze", freeze, 1}};
	p.quick = 20000; p.thorough = 400000; p.batch = 150;
	p.assumptions = {"nodes joined with a frozen graph are looked at when it is unfrozen", "values up to 10000, compared with relative tolerance 1e-8"};
	return pbt::harness_main(argc, argv, {p});
}
