// C31: what nodes report about the graph they are in, and expressions with an inner node replaced by one
#include "ops.hpp"
using namespace nnet;
typedef iconnector<double> Con;
typedef immutable<double> Imm;

// a node as it was built
struct Sh
{
	int kind; std::string label; std::vector<int> args; int fn; Vp p;
	std::set<int> leaves; size_t depth; int group;
	std::map<std::string, size_t> meta; Vec data; bool alive, late;
};
static double apply (int fn, const std::vector<double>& a)
{
	double r = fn == 1 ? 1 : fn == 2 ? a[0] : 0;
	switch (fn)
	{
		case 0: for (double x : a) r += x; return r;
		case 1: for (double x : a) r *= x; return r;
		case 2: for (size_t i = 1; i < a.size(); ++i) r -= a[i]; return r;
		case 5: return a[0];
		case 3: for (size_t i = 0; i < a.size(); ++i) r += (i + 1) * std::sin(a[i]); return r;
		default: for (size_t i = 0; i < a.size(); ++i) r = 0.5 * r + a[i] * a[i]; return r;
	}
}
static transfer_func<double>* forward (int fn)
{
	return new transfer_func<double>([fn](double* dest, std::vector<const double*> src, shape_io shape)
	{
		for (size_t i = 0, n = shape.outs_.n_elems(); i < n; ++i)
		{
			std::vector<double> a; for (size_t k = 0; k < src.size(); ++k) a.push_back(src[k][shape.ins_[k].n_elems() == 1 ? 0 : i]);
			dest[i] = apply(fn, a);
		}
	});
}
static tensorshape shaper (std::vector<tensorshape> in)
{
	for (tensorshape& s : in) if (s.n_elems() != 1) return s;
	return in[0];
}

struct World
{
	Ctx& c; Src& s; Dims d; size_t n; std::vector<Sh> m; std::vector<Node*> kept; size_t lost = 0;
	World (Ctx& c) : c(c), s(c.s) { d = gen::dims(s, 1, 3, 3, 12); n = ref::prod(d); }
	~World (void)
	{
		for (size_t i = 0; i < m.size(); ++i) if (m[i].kind < 2 && m[i].p.get()) { Node* k = m[i].p.get(); delete k; }
		for (Node* k : kept) delete k;
	}
	std::string label (void) { static const char* pool[] = {"a", "b", "ab", "mul", "x y", "a"}; return pool[s.below(6)]; }
	std::vector<int> alive (int least = 0) const { std::vector<int> r; for (size_t i = 0; i < m.size(); ++i) if (m[i].alive && m[i].kind >= least) r.push_back((int) i); return r; }
	Vec fresh (void) { Vec v(n); for (double& x : v) x = s.dyadic(); return v; }
	bool part (int a, int one) const
	{
		if (a == one) return true;
		if (m[a].fn == 5 && !m[one].leaves.empty()) return false;
		for (int x : m[a].args) if (part(x, one)) return true;
		return false;
	}
	bool above (int a, int b) const { if (a == b) return true; for (int x : m[a].args) if (above(x, b)) return true; return false; }
	bool used (int a) const { for (const Sh& x : m) if (x.alive) for (int y : x.args) if (y == a) return true; return false; }
	void join (int a, int b) { int ga = m[a].group, gb = m[b].group; if (ga != gb) for (Sh& x : m) if (x.group == gb) x.group = ga; }
	void leaf (int kind)
	{
		Sh x; x.kind = kind; x.label = label(); x.fn = 0; x.depth = 0; x.group = -1; x.alive = true; x.data = fresh(); x.late = kind < 2 && s.flip(1, 4);
		P_LOG(c, "n" << m.size() << " is a " << (kind == 0 ? "variable " : kind == 1 ? "placeholder " : "constant ") << x.label << show(d) << (x.late ? " without contents" : ""));
		if (kind == 0) { const_init<double> z(0); Var* v = new Var(tensorshape(d), z, x.label); x.p = v; if (!x.late) { v->initialize(); set_var(v, x.data); } }
		else if (kind == 1) { Ph* h = new Ph(tensorshape(d), x.label); x.p = h; if (!x.late) *h = x.data; }
		else { constant<double>* k = constant<double>::get(x.data, tensorshape(d)); k->be_managed(); k->set_label(x.label); kept.push_back(k); x.p = k; }
		x.leaves.insert((int) m.size());
		m.push_back(x);
	}
	void op (void)
	{
		std::vector<int> al = alive(); Sh x; x.kind = 3; x.label = label(); x.fn = (int) s.below(5); x.alive = true; x.late = false; x.depth = 0; x.group = (int) m.size();
		std::vector<Node*> args; std::ostringstream w;
		for (size_t k = s.weighted({4, 6, 3, 1}) + 1; k > 0; --k)
		{
			int a = !x.args.empty() && s.flip(1, 4) ? x.args[s.below(x.args.size())] : al[s.flip(1, 2) ? s.below(al.size()) : al.size() - 1 - s.below(std::min<size_t>(al.size(), 3))];
			x.args.push_back(a); args.push_back(m[a].p.get()); x.depth = std::max(x.depth, m[a].depth + 1); x.leaves.insert(m[a].leaves.begin(), m[a].leaves.end()); w << " n" << a;
		}
		bool view = x.args.size() == 1 && s.flip(1, 4);
		if (view) { x.fn = 5; x.leaves.clear(); x.label = "const_immutable"; c.label("constant view"); }
		P_LOG(c, "n" << m.size() << " is operation " << x.label << " f" << x.fn << " of" << w.str());
		if (view) x.p = const_immutable<double>::get(args[0]);
		else x.p = Imm::get(args, shaper, forward(x.fn), [](std::vector<std::pair<Node*, Node*> >) { return Vp(constant<double>::get_shared_zero()); }, x.label);
		int me = (int) m.size(); m.push_back(x);
		for (int a : x.args) if (m[a].kind == 3) join(me, a);
	}
	void dies (int a)
	{
		if (!m[a].alive) return; m[a].alive = false; lost++;
		for (size_t i = 0; i < m.size(); ++i) for (int y : m[i].args) if (y == a) dies((int) i);
	}
	void set (int a)
	{
		if (m[a].kind > 1) return;
		P_LOG(c, "contents of n" << a); m[a].data = fresh(); m[a].late = false;
		if (m[a].kind == 0) { Var* v = static_cast<Var*>(m[a].p.get()); if (!v->good_status()) v->initialize(); set_var(v, m[a].data); }
		else *static_cast<Ph*>(m[a].p.get()) = m[a].data;
	}
	bool known (int a) const { if (m[a].late) return false; for (int x : m[a].args) if (!known(x)) return false; return true; }
	// value at an element, with node one (if any) replaced by 1
	double at (int a, size_t i, int one) const
	{
		if (a == one) return 1;
		if (m[a].kind < 3) return m[a].data[i];
		if (one >= 0 && m[a].fn == 5 && !m[one].leaves.empty()) one = -1; // behind a constant view
		std::vector<double> v; for (int x : m[a].args) v.push_back(at(x, i, one));
		return apply(m[a].fn, v);
	}
	Vec value (int a, int one = -1) const { Vec v(n); for (size_t i = 0; i < n; ++i) v[i] = at(a, i, one); return v; }
	bool big (int a) const { size_t k = 0; std::function<void(int)> f = [&](int x) { if (++k > 3000) return; for (int y : m[x].args) f(y); }; f(a); return k > 3000; }
	std::string nm (int a) const { return "n" + std::to_string(a); }

	void check (void)
	{
		std::vector<int> al = alive(); std::map<Node*, int> who;
		for (size_t i = 0; i < m.size(); ++i)
		{
			P_CHECK(c, m[i].alive == (nullptr != m[i].p.get()), nm((int) i) << (m[i].alive ? " is gone" : " is still there"));
			if (m[i].alive) P_CHECK(c, who.insert({m[i].p.get(), (int) i}).second, "two nodes are one");
		}
		std::set<std::string> uids;
		for (int i : al)
		{
			Sh& x = m[i]; Node* k = x.p.get();
			P_CHECK(c, k->get_label() == x.label, nm(i) << " has label " << k->get_label() << ", expected " << x.label);
			P_CHECK(c, uids.insert(k->get_uid()).second, nm(i) << " shares its id");
			std::vector<Node*> args = k->get_arguments(); std::string names;
			P_CHECK(c, args.size() == x.args.size() && k->n_arguments() == x.args.size(), nm(i) << " has " << args.size() << " and " << k->n_arguments() << " arguments instead of " << x.args.size());
			for (size_t a = 0; a < args.size(); ++a)
			{
				P_CHECK(c, args[a] == m[x.args[a]].p.get(), "argument " << a << " of " << nm(i) << " is not " << nm(x.args[a]));
				names += (a ? "," : "") + m[x.args[a]].label;
			}
			std::string name = "<" + x.label + ":" + k->get_uid() + ">" + (x.kind == 3 ? "(" + names + ")" : "");
			P_CHECK(c, k->get_name() == name && k->get_summaryid() == name, nm(i) << " is named " << k->get_name() << ", expected " << name);
			P_CHECK(c, k->get_depth() == x.depth, nm(i) << " has depth " << k->get_depth() << ", expected " << x.depth);
			std::set<int> got; for (ileaf<double>* l : k->get_leaves()) { P_CHECK(c, who.count(l), nm(i) << " has an unknown leaf"); got.insert(who[l]); }
			P_CHECK(c, got == x.leaves, nm(i) << " has the wrong leaves: " << got.size() << " instead of " << x.leaves.size());
			static const char* keys[] = {"k", "grouping", "z"};
			for (const char* key : keys)
			{
				optional<size_t> v = k->get_metadata(key);
				P_CHECK(c, (bool) v == (bool) x.meta.count(key), nm(i) << ((bool) v ? " has" : " lacks") << " an entry " << key);
				if ((bool) v) P_CHECK(c, *v == x.meta[key], nm(i) << " has " << *v << " for " << key << ", expected " << x.meta[key]);
			}
			static const char* labels[] = {"a", "b", "ab", "mul", "x y", "", "c"};
			for (const char* l : labels)
			{
				std::unordered_set<Node*> aud; bool found = k->find_audience(l, aud); std::set<int> want, have;
				for (int j : al) if (m[j].label == l) for (int y : m[j].args) if (y == i) want.insert(j);
				for (Node* q : aud) { P_CHECK(c, who.count(q), "an unknown node is computed from " << nm(i)); have.insert(who[q]); }
				P_CHECK(c, have == want && found == !want.empty(), nm(i) << " knows " << have.size() << " nodes " << l << " computed from it, expected " << want.size());
			}
			if (x.kind == 3) for (int j : al) if (m[j].kind == 3)
			{
				Con* a = static_cast<Con*>(k), * b = static_cast<Con*>(m[j].p.get());
				bool sub = std::includes(x.leaves.begin(), x.leaves.end(), m[j].leaves.begin(), m[j].leaves.end());
				P_CHECK(c, a->potential_descendent(b) == sub, nm(i) << (sub ? " does not take " : " takes ") << nm(j) << " for a possible part of it");
				bool same = a->is_same_graph(b);
				P_CHECK(c, same || m[i].group != m[j].group || !joined(i, j), nm(i) << " and " << nm(j) << " are not in one graph");
				P_CHECK(c, !same || m[i].group == m[j].group, nm(i) << " and " << nm(j) << " are in one graph");
			}
		}
		// values are those of the expression
		for (int i : al) if (!big(i))
		{
			Val v = value_of(m[i].p.get());
			if (!known(i)) { P_CHECK(c, v.d.empty() || m[i].kind < 3, nm(i) << " has a value " << show(v)); continue; }
			Vec w = value(i); P_CHECK(c, v.d == d && close_to(v.v, w, 1e-9, 1e-9), nm(i) << " is " << show(v) << ", expected " << show(w));
			P_CHECK(c, m[i].p->good_status() && m[i].p->get_shape().as_list() == d, nm(i) << " is not well");
		}
	}
	// connected through operations that are alive
	bool joined (int a, int b) const
	{
		std::vector<int> g(m.size()); for (size_t i = 0; i < m.size(); ++i) g[i] = (int) i;
		std::function<int(int)> f = [&](int x) { return g[x] == x ? x : g[x] = f(g[x]); };
		for (size_t i = 0; i < m.size(); ++i) if (m[i].alive && m[i].kind == 3) for (int y : m[i].args) if (m[y].kind == 3) g[f((int) i)] = f(y);
		return f(a) == f(b);
	}
	void build (size_t ops)
	{
		size_t k = s.sz(1, 4); for (size_t i = 0; i < k; ++i) leaf(i == 0 ? 0 : (int) s.weighted({4, 3, 2}));
		for (; ops > 0; --ops) op();
	}
};

static void history (Ctx& c)
{
	World w(c); Src& s = c.s; w.build(s.sz(1, 5)); w.check(); size_t turns = 0;
	for (size_t step = s.sz(1, 14); step > 0; --step)
	{
		std::vector<int> al = w.alive(), ops = w.alive(3); if (al.empty()) break;
		int a = al[s.below(al.size())]; bool any = !ops.empty(); int o = any ? ops[s.below(ops.size())] : -1;
		switch ((int) s.weighted({4, 2, 2, 2, 2, 2, 2, 1, 2, 1, 1}))
		{
			case 0: w.op(); break;
			case 1: // clone
			{
				Sh x = w.m[a]; if (x.kind == 2) break;
				P_LOG(c, "n" << w.m.size() << " = copy of n" << a); turns++;
				Node* k = x.p->clone(); P_CHECK(c, k && k != x.p.get(), "the copy is no node of its own"); x.p = k; x.meta.clear(); if (x.kind < 3) { x.leaves.clear(); x.leaves.insert((int) w.m.size()); }
				w.m.push_back(x); break;
			}
			case 2: // move
			{
				if (w.m[a].kind == 2) break;
				P_LOG(c, "move n" << a); turns++; Node* from = w.m[a].p.get(); Node* to = from->move(); w.m[a].meta.clear();
				P_CHECK(c, w.m[a].p.get() == to, "the handle did not follow");
				if (w.m[a].kind == 3)
				{
					P_CHECK(c, from->n_arguments() == 0 && from->get_arguments().empty(), "the source of a move has " << from->n_arguments() << " arguments");
					P_CHECK(c, from->get_name().find("()") != std::string::npos, "the source of a move is named " << from->get_name());
				}
				delete from; break;
			}
			case 3: // assign
			{
				if (!any) break; int b = ops[s.below(ops.size())];
				if (o == b || w.used(o) || w.above(b, o)) break;
				P_LOG(c, "n" << o << " := n" << b); turns++; Sh& A = w.m[o]; const Sh& B = w.m[b];
				*static_cast<Imm*>(A.p.get()) = *static_cast<Imm*>(B.p.get());
				A.args = B.args; A.fn = B.fn; A.depth = B.depth; A.leaves = B.leaves; A.label = B.label; A.group = B.group; c.label("assigned"); break;
			}
			case 4: w.set(a); break;
			case 5: // destroy
			{
				if (w.m[a].kind == 2 || al.size() < 3) break;
				P_LOG(c, "destroy n" << a); turns++; w.dies(a); Node* k = w.m[a].p.get(); delete k; break;
			}
			case 6: { std::string l = s.flip(1, 4) ? "" : w.label(); P_LOG(c, "n" << a << " gets label " << l); w.m[a].label = l; w.m[a].p->set_label(l); break; }
			case 7: w.leaf((int) s.below(3)); break;
			case 8:
			{
				static const char* keys[] = {"k", "grouping", "z"}; std::string key = keys[s.below(3)]; size_t v = s.below(4);
				P_LOG(c, "entry " << key << " of n" << a << " is " << v); w.m[a].meta[key] = v; w.m[a].p->set_metadata(key, v); break;
			}
			case 9:
			{
				int b = al[s.below(al.size())]; P_LOG(c, "n" << a << " takes the entries of n" << b);
				w.m[a].p->extract_metadata(w.m[b].p.get()); std::map<std::string, size_t> t = w.m[b].meta; w.m[a].meta.insert(t.begin(), t.end()); c.label("entries taken"); break;
			}
			default: // evaluate one
			{
				P_LOG(c, "evaluate n" << a); if (w.known(a)) { Val v = value_of(w.m[a].p.get()); P_CHECK(c, v.d == w.d, "n" << a << " has shape " << show(v.d)); }
			}
		}
		w.check();
	}
	if (turns) c.nontrivial();
	if (w.lost) c.label("nodes lost");
}

static void within (Ctx& c)
{
	World w(c); Src& s = c.s; w.build(s.sz(2, 7)); w.check();
	std::vector<int> ops = w.alive(3); size_t kept = 0;
	struct Made { int root, one; Vp p; };
	std::vector<Made> made;
	for (size_t turn = s.sz(1, 4); turn > 0; --turn)
	{
		int r = ops[s.flip() ? ops.size() - 1 : s.below(ops.size())], t = ops[s.below(ops.size())];
		if (w.big(r) || !w.known(r)) { for (size_t l = 0; l < w.m.size(); ++l) if (w.m[l].late) w.set((int) l); if (w.big(r)) continue; }
		if (w.m[r].fn == 5) continue; // what a constant view is by its parts is left open
		bool part = w.part(r, t), same = static_cast<Con*>(w.m[r].p.get())->is_same_graph(static_cast<Con*>(w.m[t].p.get()));
		P_LOG(c, "n" << r << " by n" << t);
		Vp got; bool direct = part && r != t && s.flip();
		if (direct) { Node* out = nullptr; static_cast<Con*>(w.m[r].p.get())->temporary_eval(static_cast<Con*>(w.m[t].p.get()), out); got = out; }
		else got = w.m[r].p->derive(w.m[t].p.get());
		P_CHECK(c, got.get(), "there is no node for n" << r << " by n" << t);
		Vec want = !part ? Vec(w.n, 0) : w.value(r, t);
		expect_elem(c, value_of(got.get()), w.d, want, "n" + std::to_string(r) + " by n" + std::to_string(t), 1e-9, 1e-9);
		c.label(r == t ? "by itself" : part ? "by a part" : same ? "by another node of the graph" : "by a node of another graph");
		if (part && r != t) { made.push_back(Made{r, t, got}); c.nontrivial(); }
		if (s.flip(1, 3)) { std::vector<int> al = w.alive(); int a = al[s.below(al.size())]; w.set(a); }
		for (Made& k : made) if (k.p.get()) { expect_elem(c, value_of(k.p.get()), w.d, w.value(k.root, k.one), "n" + std::to_string(k.root) + " by n" + std::to_string(k.one) + " later", 1e-9, 1e-9); kept++; }
		for (int i : w.alive()) if (!w.big(i) && w.known(i)) { Val v = value_of(w.m[i].p.get()); Vec want = w.value(i); P_CHECK(c, v.d == w.d && close_to(v.v, want, 1e-9, 1e-9), "n" << i << " became " << show(v) << ", expected " << show(want)); }
	}
	// what was made for this goes with its handle, or with the leaves
	if (!made.empty() && s.flip())
	{
		Made k = made[s.below(made.size())]; P_LOG(c, "destroy n" << k.root << " by n" << k.one);
		for (Made& o : made) if (o.p.get() == k.p.get()) o.p = (Node*) nullptr;
		Node* q = k.p.get(); delete q; P_CHECK(c, !k.p.get(), "the handle remains");
		for (int i : w.alive()) if (!w.big(i) && w.known(i)) { Val v = value_of(w.m[i].p.get()); Vec want = w.value(i); P_CHECK(c, v.d == w.d && close_to(v.v, want, 1e-9, 1e-9), "n" << i << " became " << show(v) << ", expected " << show(want)); }
	}
}

int main (int argc, char** argv)
{
	pbt::reset_hook() = graph_reset;
	pbt::Prop p;
	p.id = "C31";
	p.rule = "history: some node was copied, moved, assigned or destroyed; within: an expression is evaluated with a proper part of it replaced by one";
	p.facets = {{"history", history, 2}, {"within", within, 1}};
	p.quick = 24000; p.thorough = 300000; p.batch = 150;
	return pbt::harness_main(argc, argv, {p});
}
