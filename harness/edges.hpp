// histories of building, changing, copying, moving, assigning and destroying nodes, with the edges they leave
#pragma once
#include "ops.hpp"
using namespace nnet;
typedef iconnector<double> Con;

struct Entry { Vp p; Dims d; bool leaf, constant; };
struct Graph
{
	Ctx& c; Src& s;
	Graph (Ctx& c) : c(c), s(c.s) { relabel = false; }
	~Graph (void) { for (Node* h : husks) delete h; }
	std::vector<Node*> husks; // what nodes left behind when they moved
	void leave (Node* from) { if (linger && s.flip(1, 3)) { P_LOG(c, "  what it left stays"); husks.push_back(from); } else delete from; if (!husks.empty() && s.flip(1, 3)) { P_LOG(c, "  an empty node ends"); delete husks[0]; husks.erase(husks.begin()); } }
	bool relabel, linger = false; Dims d; size_t n = 1, changes = 0;
	std::set<std::string> uids; // of all nodes that ever were
	std::function<void(Node*)> changed = [](Node*) {}; // contents of a leaf were set
	Pool pool; std::vector<Entry> nodes; size_t labels = 0;
	std::map<Node*, size_t> group; size_t groups = 0; // connectors that were ever joined

	static void closure (Node* n, std::set<Node*>& out)
	{
		if (!n || !out.insert(n).second) return;
		if (Con* k = dynamic_cast<Con*>(n)) for (Node* a : k->get_arguments()) closure(a, out);
	}
	std::set<Node*> live (void) const { std::set<Node*> out; for (const Entry& e : nodes) closure(e.p.get(), out); return out; }
	bool above (Node* n, Node* arg) const { std::set<Node*> out; closure(n, out); return out.count(arg); }
	bool used (Node* arg) const
	{
		for (Node* n : live()) if (Con* k = dynamic_cast<Con*>(n)) for (Node* a : k->get_arguments()) if (a == arg) return true;
		return false;
	}
	void merge (size_t a, size_t b) { if (a != b) for (auto& g : group) if (g.second == b) g.second = a; }
	// what this and the nodes above it are made of may have no other place in the list
	void keep (Node* n)
	{
		std::set<Node*> all = live(), lost;
		for (Node* k : all) if (above(k, n)) closure(k, lost);
		for (Node* q : lost) if (dynamic_cast<Con*>(q)) nodes.push_back(Entry{Vp(q), Dims(), false, true});
	}
	// new nodes get labels of their own, and the graph of their arguments
	void adopt (void)
	{
		std::set<Node*> all = live(); for (Node* n : all) uids.insert(n->get_uid());
		for (auto it = group.begin(); it != group.end();) if (all.count(it->first)) ++it; else it = group.erase(it);
		for (Node* n : all) if (Con* k = dynamic_cast<Con*>(n)) if (!group.count(k)) group[k] = ++groups;
		for (Node* n : all)
		{
			Con* k = dynamic_cast<Con*>(n);
			if (k) for (Node* a : k->get_arguments()) if (dynamic_cast<Con*>(a)) merge(group[k], group[a]);
			if (relabel && (n->get_label().size() < 2 || n->get_label()[0] != '#')) n->set_label("#" + std::to_string(labels++));
		}
	}
	std::vector<size_t> alive (bool connectors) const
	{
		std::vector<size_t> r; for (size_t i = 0; i < nodes.size(); ++i) if (nodes[i].p.get() && !nodes[i].d.empty() && (!connectors || dynamic_cast<immutable<double>*>(nodes[i].p.get()))) r.push_back(i); return r;
	}
	Vec fresh (void) { Vec v(n); for (double& x : v) x = s.dyadic_nz(); return v; }
	void put (Vp p, Dims dims, bool leaf, bool konst) { if (konst) dims = p->get_shape().as_list(); nodes.push_back(Entry{p, dims, leaf, konst}); adopt(); }
	void leaves (void)
	{
		d = s.flip() ? Dims{2, 2} : Dims{s.sz(1, 3)}; n = ref::prod(d);
		for (size_t k = s.sz(1, 3); k > 0; --k)
		{
			int kind = k == 1 ? 0 : (int) s.weighted({3, 2, 1}); bool late = kind != 2 && s.flip(1, 3);
			Operand o = pool.leaf(s, kind, d, fresh(), "L" + std::to_string(k), late);
			P_LOG(c, kind_name(kind) << " n" << nodes.size() << show(d) << (late ? " without contents" : "")); put(o.p, d, true, kind == 2);
		}
	}
	void change (size_t i)
	{
		Entry& e = nodes[i]; if (!e.leaf || e.constant) return;
		P_LOG(c, "contents of n" << i);
		if (Var* v = dynamic_cast<Var*>(e.p.get())) { if (!v->good_status()) v->initialize(); set_var(v, fresh()); }
		else if (Ph* h = dynamic_cast<Ph*>(e.p.get())) *h = fresh();
		changed(e.p.get());
	}
	// one step, false when no node is left
	bool step (std::initializer_list<unsigned> weights)
	{
		std::vector<size_t> al = alive(false), cn = alive(true);
		if (al.empty()) return false;
		size_t i = al[s.below(al.size())]; Entry& e = nodes[i]; std::string an = "n" + std::to_string(i);
		switch ((int) s.weighted(weights))
		{
			case 0: // a function of one node
			{
				size_t f = s.below(9); Vp q; Dims dims = e.d;
				if (f == 8 && (e.d != d || d.size() != 2 || d[0] != d[1])) break;
				switch (f)
				{
					case 0: q = sin<double>(e.p); break; case 1: q = -e.p; break; case 2: q = sigmoid<double>(e.p); break; case 3: q = e.p * 2.5; break;
					case 4: q = 3.0 - e.p; break; case 5: q = reduce_sum<double>(e.p, optional<size_t>()); dims = Dims{1}; break;
					case 6: q = reduce_mean<double>(e.p, optional<size_t>()); dims = Dims{1}; break; case 7: q = identity<double>(e.p); break;
					default: q = transpose<double>(e.p);
				}
				P_LOG(c, "n" << nodes.size() << " = function " << f << " of " << an);
				put(q, dims, false, dynamic_cast<constant<double>*>(q.get())); break;
			}
			case 1: // an operation
			{
				size_t j = al[s.below(al.size())], f = s.below(5); Entry& o = nodes[j]; Vp q;
				if (e.d != o.d && ref::prod(e.d) != 1 && ref::prod(o.d) != 1) break;
				if (f == 3 && (o.constant || i == j)) break;
				if (f == 4 && (e.d.size() != 2 || o.d != e.d)) break;
				q = f == 0 ? e.p + o.p : f == 1 ? e.p - o.p : f == 2 ? e.p * o.p : f == 3 ? e.p / o.p : matmul<double>(e.p, o.p);
				P_LOG(c, "n" << nodes.size() << " = op" << f << " of " << an << " and n" << j);
				put(q, ref::prod(e.d) == 1 ? o.d : e.d, false, dynamic_cast<constant<double>*>(q.get())); break;
			}
			case 2: change(i); break;
			case 3: // destroy
			{
				if (e.constant || al.size() < 3) break;
				Node* k = e.p.get(); P_LOG(c, "destroy " << an); changes++; Vp handle = e.p; keep(k);
				auto& own = pool.owned; own.erase(std::remove(own.begin(), own.end(), k), own.end());
				delete k; P_CHECK(c, !handle.get() && !nodes[i].p.get(), "a handle keeps a destroyed node"); adopt(); break;
			}
			case 4: // copy
			{
				if (cn.empty()) break;
				size_t j = cn[s.below(cn.size())]; P_LOG(c, "n" << nodes.size() << " = copy of n" << j); changes++;
				Con* from = static_cast<Con*>(nodes[j].p.get()); Con* k = from->clone(); size_t gr = group[from];
				nodes.push_back(Entry{Vp(k), nodes[j].d, false, false}); group[k] = gr; if (relabel) k->set_label("#" + std::to_string(labels++)); adopt(); break;
			}
			case 5: // move
			{
				if (cn.empty()) break;
				size_t j = cn[s.below(cn.size())]; P_LOG(c, "move n" << j); changes++;
				Con* from = static_cast<Con*>(nodes[j].p.get()); size_t gr = group[from]; Con* k = from->move();
				group[k] = gr; leave(from);
				P_CHECK(c, nodes[j].p.get() == k, "a handle did not follow the move"); adopt(); break;
			}
			case 6: // assign one operation another
			{
				if (cn.size() < 2) break;
				size_t a = cn[s.below(cn.size())], b = cn[s.below(cn.size())];
				immutable<double>* A = dynamic_cast<immutable<double>*>(nodes[a].p.get()), * B = dynamic_cast<immutable<double>*>(nodes[b].p.get());
				if (!A || !B || A == B || nodes[a].d != nodes[b].d || used(A)) break; // nothing computed from it, as the source requires
				c.label("assigned");
				P_LOG(c, "n" << a << " := n" << b); changes++;
				keep(A);
				*A = *B; group[A] = group[B];
				if (relabel) A->set_label("#" + std::to_string(labels++));
				adopt(); break;
			}
			case 7: // move a leaf
			{
				if (!e.leaf || e.constant) break;
				P_LOG(c, "move leaf " << an); changes++;
				Node* from = e.p.get(); Node* to = from->move();
				auto& own = pool.owned; std::replace(own.begin(), own.end(), from, to); leave(from);
				P_CHECK(c, e.p.get() == to, "a handle did not follow the move of a leaf"); adopt(); break;
			}
		}
		return true;
	}
};
