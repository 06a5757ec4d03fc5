// C21: optimisers step along the gradient
#include "dag.hpp"
#include "utils/gd_utils.hpp"
using namespace dag;

static void run (Ctx& c)
{
	Src& s = c.s; World w(s); w.structural = false; w.gradable = true; w.limit = 1e3;
	Dims d{s.sz(1, 3)}; if (s.flip()) d.push_back(s.sz(1, 3));
	size_t n = ref::prod(d);
	size_t nv = s.sz(1, 3);
	for (size_t k = 0; k < nv; ++k) w.add_leaf(0, d, false, s.flip(1, 3));
	if (s.flip()) w.add_leaf(1, d, false, s.flip());
	if (s.flip(1, 3)) w.add_leaf(2, s.flip() ? d : Dims{1}, false, true);
	for (size_t k = s.sz(2, 8); k > 0; --k) { if (!w.grow()) continue; if (!w.sane(w.reference())) w.undo(); }
	size_t root = w.ex.size() - 1;
	// a sum of what there is, so that several variables take part
	if (s.flip() && w.ex[root].d == d)
	{
		size_t j = s.below(w.ex.size());
		if (w.ex[j].d == d) { Expr e; e.op = ADD; e.a = (int) root; e.b = (int) j; e.d = d; e.node = w.ex[root].node + w.ex[j].node; w.ex.push_back(e); root = w.ex.size() - 1; }
	}
	if (w.ex[root].d != d || w.is_const((int) root)) c.discard();
	for (size_t i = 0; i < w.ex.size(); ++i) P_LOG(c, w.describe(i));
	bool rms = s.flip(); double lr = s.sz(1, 8) / 16.0, disc = s.sz(1, 15) / 16.0; int proc = (int) s.below(3);
	vgb_updater plain(lr); rmspropupdater prop(lr, disc);
	gd_updater* u = rms ? (gd_updater*) &prop : (gd_updater*) &plain;
	std::unique_ptr<gd_updater> owned;
	std::set<size_t> ignored;
	std::ostringstream how; how << (rms ? "rmsprop" : "plain descent") << ", rate " << lr << (rms ? ", discount " : ""); if (rms) how << disc;
	if (s.flip(1, 3)) { lr = s.sz(1, 8) / 32.0; u->set_learning_rate(lr); how << ", rate changed to " << lr; }
	if (rms && s.flip(1, 3)) { disc = s.sz(1, 15) / 16.0; prop.set_discount_factor(disc); how << ", discount changed to " << disc; }
	auto used = [&](size_t i) { std::set<size_t> o; for (ileaf<double>* l : w.ex[i].node->get_leaves()) for (size_t k = 0; k < nv; ++k) if (w.leaves[k].o.owned == dynamic_cast<Node*>(l)) o.insert(k); return o; };
	if (s.flip(1, 3))
	{
		size_t i = s.below(w.ex.size()); u->ignore_subtree(w.ex[i].node.get()); ignored = used(i); how << ", ignoring n" << i;
		if (s.flip(1, 3)) { u->clear_ignore(); ignored.clear(); how << " no longer"; }
	}
	for (size_t k = s.flip(1, 2) ? s.sz(1, 3) : 0; k > 0; --k)
	{
		size_t form = s.below(4); std::unique_ptr<gd_updater> next;
		if (form == 0) { next.reset(u->clone()); how << ", cloned"; }
		else if (form == 1) { next.reset(u->move()); how << ", moved"; }
		else
		{
			// given to an optimiser that had settings of its own
			double l = s.sz(1, 8) / 4.0, q = s.sz(1, 15) / 16.0; size_t i = s.below(w.ex.size());
			if (rms) next.reset(new rmspropupdater(l, q)); else next.reset(new vgb_updater(l));
			if (s.flip()) next->ignore_subtree(w.ex[i].node.get());
			if (rms) { auto* a = static_cast<rmspropupdater*>(next.get()); auto* b = static_cast<rmspropupdater*>(u); if (form == 2) *a = *b; else *a = std::move(*b); }
			else { auto* a = static_cast<vgb_updater*>(next.get()); auto* b = static_cast<vgb_updater*>(u); if (form == 2) *a = *b; else *a = std::move(*b); }
			how << (form == 2 ? ", assigned" : ", move assigned");
		}
		c.label(form == 0 ? "cloned" : form == 1 ? "moved" : "assigned");
		owned = std::move(next); u = owned.get();
	}
	if (proc) how << (proc == 1 ? ", gradients doubled" : ", gradients clipped to 0.5..1");
	P_LOG(c, how.str()); c.label(rms ? "rmsprop" : "plain descent");
	updates_t ups; 
	if (proc == 0) ups = u->calculate(w.ex[root].node.get());
	else ups = u->calculate(w.ex[root].node.get(), [proc](Vp g, variable<double>*) -> Vp { return proc == 1 ? g * 2.0 : clip_val<double>(g, 0.5, 1.0); });
	std::vector<bool> in(nv, false); for (size_t k : used(root)) in[k] = true;
	size_t want_n = 0; for (size_t k = 0; k < nv; ++k) if (in[k] && !ignored.count(k)) want_n++;
	P_CHECK(c, ups.size() == want_n, "there are " << ups.size() << " updates for " << want_n << " variables");
	std::vector<Vec> mom(nv, Vec(n, 1)); std::vector<bool> spent(nv, false); std::vector<int> who(ups.size(), -1); size_t moved = 0;
	for (size_t step = s.sz(1, 6); step > 0; --step)
	{
		if (s.flip(1, 3)) for (size_t i = 0; i < w.leaves.size(); ++i) if (w.leaves[i].o.kind == 1 || (w.leaves[i].o.kind == 0 && s.flip(1, 4)))
		{
			Vec old = w.leaves[i].o.v, v = w.fresh(w.leaves[i]); w.leaves[i].o.v = v; if (!w.sane(w.reference())) { w.leaves[i].o.v = old; continue; }
			P_LOG(c, "L" << i << " gets " << show(v)); w.set_leaf(i, v);
		}
		size_t j = ups.empty() ? 0 : s.below(ups.size()); if (ups.empty()) break;
		std::vector<Ref> r = w.reference();
		if (!w.sane(r) || w.kinked(r)) break;
		// what each variable would become
		std::vector<Vec> cand(nv), m2(nv); bool calm = true; double mx = 1;
		for (size_t k = 0; k < nv; ++k)
		{
			Vec g = w.tangent(r, k, Vec(n, 1))[root]; cand[k] = w.leaves[k].o.v; m2[k] = mom[k];
			for (size_t i = 0; i < n; ++i)
			{
				double x = g[i]; calm = calm && std::isfinite(x) && std::fabs(x) < 1e4; mx = std::max(mx, std::fabs(x));
				if (proc == 2 && (std::fabs(x - 0.5) < 1e-5 || std::fabs(x - 1) < 1e-5)) {}
				if (proc == 1) x *= 2; if (proc == 2) x = std::min(std::max(x, 0.5), 1.0);
				if (!rms) cand[k][i] -= lr * x;
				else
				{
					double m = disc * mom[k][i] + (1 - disc) * x * x; m2[k][i] = m; cand[k][i] -= lr * x / (std::sqrt(m) + std::numeric_limits<double>::epsilon());
				}
			}
		}
		if (!calm) break;
		std::vector<Vec> before; for (size_t k = 0; k < nv; ++k) before.push_back(w.leaves[k].o.v);
		ups[j](true);
		// the update belongs to one variable, every time the same
		std::vector<Vec> after; std::vector<size_t> ch; for (size_t k = 0; k < nv; ++k) { after.push_back(value_of(w.leaves[k].o.owned).v); if (after[k] != before[k]) ch.push_back(k); }
		P_CHECK(c, ch.size() <= 1, "one update changed " << ch.size() << " variables");
		int k = ch.empty() ? who[j] : (int) ch[0];
		P_LOG(c, "update " << j << (k < 0 ? " changes nothing" : " of L") << (k < 0 ? "" : std::to_string(k)));
		if (k < 0)
		{
			// nothing moved: some variable has no slope there
			bool any = false; for (size_t q = 0; q < nv; ++q) any = any || (in[q] && !ignored.count(q) && close_to(cand[q], before[q], 1e-9, 1e-9));
			P_CHECK(c, any, "an update changes nothing though every variable has a slope"); if (rms) break;
			continue;
		}
		P_CHECK(c, in[k] && !ignored.count(k), "an update changed L" << k << (in[k] ? ", which is to be ignored" : ", which the objective does not contain"));
		P_CHECK(c, who[j] < 0 || who[j] == k, "an update changed L" << k << " after L" << who[j]);
		P_CHECK(c, who[j] == k || std::find(who.begin(), who.end(), k) == who.end(), "two updates change L" << k);
		who[j] = k;
		P_CHECK(c, close_to(after[k], cand[k], 1e-7, 1e-7 * mx), "L" << k << " steps from " << show(before[k]) << " to " << show(after[k]) << ", expected " << show(cand[k]));
		w.leaves[k].o.v = after[k]; mom[k] = m2[k]; moved++;
		std::vector<Ref> q = w.reference(); if (!w.sane(q)) break;
		if (s.flip(1, 3)) w.check(c, root, q);
	}
	c.nontrivial(moved > 0);
}

int main (int argc, char** argv)
{
	pbt::reset_hook() = graph_reset;
	pbt::Prop p;
	p.id = "C21";
	p.rule = "random differentiable objectives over 1..3 variables, plain descent and rmsprop with random rates, discounts, processed gradients, ignored subexpressions, clones, moves and assignments of the optimiser, 1..6 updates in random order with the leaves changing in between; every update compared with forward-mode differentiation at the present point and the running mean of squares; non-trivial: a variable was moved";
	p.assumptions = {"updates are made one at a time, each at the values of that moment", "points where an absolute value has no derivative and slopes above 10000 are left out"};
	p.facets = {{"step", run, 1}};
	p.quick = 12000; p.thorough = 300000; p.batch = 100;
	return pbt::harness_main(argc, argv, {p});
}
