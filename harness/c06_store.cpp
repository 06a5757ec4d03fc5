// C06: saving and restoring tensors and node groups
#include "graph.hpp"
#include "memory/tensor_io.hpp"
#include <sys/stat.h>
using namespace nnet;

static double any_double (Src& s)
{
	switch (s.weighted({4, 2, 1}))
	{
		case 0: return s.dyadic(8, 16);
		case 1: { uint64_t b = s.below(~0ull); double d; memcpy(&d, &b, 8); return d; }
		default: { static const double sp[] = {0.0, -0.0, INFINITY, -INFINITY, NAN, 4.9e-324, 1.7976931348623157e308, 2.2250738585072014e-308}; return sp[s.below(8)]; }
	}
}
static bool same_bits (const Vec& a, const Vec& b)
{
	return a.size() == b.size() && (a.empty() || 0 == memcmp(a.data(), b.data(), a.size() * sizeof(double)));
}

template <typename T>
static void proto_t (Ctx& c, T (*any)(Src&))
{
	Src& s = c.s;
	// a tensor whose allocated shape is compatible with, and possibly more definite than, its allowed shape
	Dims allowed = s.flip() ? gen::dims(s, 1, 4, 4, 100) : gen::partial(s, 4, 4);
	Dims alloc = allowed;
	if (alloc.empty()) { alloc = gen::dims(s, 1, 4, 4, 100); c.label("undefined allowed shape"); }
	for (size_t& x : alloc) if (x == 0) { x = s.sz(1, 4); c.label("partial allowed shape"); }
	if (s.flip(1, 6)) { alloc.insert(alloc.begin(), 1); c.label("other rank"); }
	tensor<T> t((tensorshape(allowed)));
	t.allocate(tensorshape(alloc));
	alloc = t.get_shape().as_list();
	P_LOG(c, "allowed " << show(allowed) << " allocated " << show(alloc));
	if (!t.is_alloc())
	{
		tenncor::tensor_proto p; t.serialize(&p);
		tensor<T> u; P_CHECK(c, !u.from_proto(p), "reading back a tensor that was never allocated succeeds");
		return;
	}
	std::vector<T> v(t.n_elems()); for (T& x : v) x = any(s);
	assign_func<T> as; as(t, v);
	tenncor::tensor_proto p;
	t.serialize(&p);
	std::string wire; p.SerializeToString(&wire);
	tenncor::tensor_proto q; P_CHECK(c, q.ParseFromString(wire), "message does not parse");
	P_CHECK(c, t.is_alloc() && t.get_shape().as_list() == alloc, "serializing changed the tensor");
	// onto a tensor in any prior state
	Dims prior = gen::partial(s, 3, 4);
	tensor<T> u((tensorshape(prior)));
	if (u.is_alloc() && s.flip()) u.deallocate();
	P_LOG(c, "onto " << show(prior) << (u.is_alloc() ? " allocated" : ""));
	P_CHECK(c, u.from_proto(q), "a serialized tensor is not read back");
	P_CHECK(c, u.is_alloc() && u.get_shape().as_list() == alloc, "shape read back is " << show(u.get_shape().as_list()));
	std::vector<T> w = u.expose();
	P_CHECK(c, w.size() == v.size() && 0 == memcmp(w.data(), v.data(), v.size() * sizeof(T)), "data read back is " << show(w) << ", expected " << show(v));
	u.deallocate();
	P_CHECK(c, u.get_shape().as_list() == allowed, "allowed shape read back is " << show(u.get_shape().as_list()));
	c.nontrivial(v.size() > 1);
}
static int any_int (Src& s) { return s.flip(1, 3) ? (int) s.below(1ull << 32) : (int) s.zigzag(50); }
static float any_float (Src& s) { return (float) s.dyadic(8, 16); }
static void proto (Ctx& c)
{
	switch (c.s.weighted({3, 1, 1})) { case 0: proto_t<double>(c, any_double); break; case 1: proto_t<int>(c, any_int); break; default: proto_t<float>(c, any_float); }
}

struct Rec { Dims d; Vec v; };

static void files (Ctx& c)
{
	Src& s = c.s;
	const char* base = getenv("VERIF_SCRATCH");
	std::string dir = std::string(base ? base : "/tmp") + "/s" + std::to_string(getpid());
	mkdir(dir.c_str(), 0700);
	std::map<std::string, std::map<std::string, Rec>> disk;   // file -> key -> content
	static const char* names[] = {"a.pbx", "b.pbx"};
	static const char* labels[] = {"net", "net:1", "", "layer 2", "n"};
	size_t steps = s.sz(2, 9), reads = 0;
	for (size_t st = 0; st < steps; ++st)
	{
		std::string f = names[s.weighted({3, 1})], label = labels[s.below(5)];
		std::string path = dir + "/" + f;
		size_t k = s.sz(0, 4);
		std::vector<Node*> nodes; std::vector<Node*> own; std::vector<Node*> neg;
		if (s.flip())
		{
			P_LOG(c, "write " << f << " label '" << label << "' " << k << " nodes");
			for (size_t i = 0; i < k; ++i)
			{
				Dims d = gen::dims(s, 1, 3, 4, 20);
				std::string key = label + ":" + std::to_string(i);
				if (s.flip(1, 6)) { Node* n = s.flip() ? (Node*) new Var(tensorshape(d), "u") : (Node*) new Ph(tensorshape(d), "u"); nodes.push_back(n); own.push_back(n); P_LOG(c, "  " << i << ": uninitialised"); continue; }
				Vec v(ref::prod(d)); for (double& x : v) x = any_double(s);
				switch (s.below(3))
				{
					case 0: { Var* n = make_var(d, v, "v"); nodes.push_back(n); own.push_back(n); break; }
					case 1: { Ph* n = new Ph(tensorshape(d), "p"); *n = v; nodes.push_back(n); own.push_back(n); break; }
					default: // an operation node: its value is saved
					{
						for (double& x : v) x = s.dyadic();
						Var* a = make_var(d, v, "v"); own.push_back(a);
						Node* n = (Vp(a) - 2.5).get(); nodes.push_back(n);
						for (double& x : v) x = x - 2.5;
						d = value_of(n).d;
					}
				}
				P_LOG(c, "  " << i << ": " << show(d) << show(v));
				disk[f][key] = Rec{d, v};
			}
			bool ok = write_inorder<double>(nodes, label, path);
			P_CHECK(c, ok, "saving reports failure");
			if (disk.find(f) == disk.end()) disk[f];
		}
		else
		{
			k = s.sz(0, 6);
			P_LOG(c, "read " << f << " label '" << label << "' " << k << " nodes");
			std::vector<Vec> before;
			std::vector<Node*> negs;
			for (size_t i = 0; i < k; ++i)
			{
				bool init = s.flip(1, 3);
				Dims d = gen::dims(s, 1, 3, 4, 20);
				std::string key = label + ":" + std::to_string(i);
				bool have = disk.count(f) && disk[f].count(key);
				if (have && s.flip(2, 3)) d = disk[f][key].d;
				Node* n;
				if (s.flip()) n = init ? make_var(d, gen::distinct(s, ref::prod(d)), "v") : new Var(tensorshape(d), "v");
				else { Ph* p = new Ph(tensorshape(d), "p"); if (init) *p = gen::distinct(s, ref::prod(d)); n = p; }
				own.push_back(n); nodes.push_back(n); before.push_back(value_of(n).v);
				// a dependent built when shapes agree
				negs.push_back(have && d == disk[f][key].d && s.flip() ? (-Vp(n)).get() : nullptr);
			}
			std::vector<Node*> left = nodes;
			bool ok = read_inorder<double>(left, label, path);
			bool exists = disk.count(f);
			P_CHECK(c, ok == exists, "reading a file that " << (exists ? "was saved" : "does not exist") << " returns " << ok);
			std::vector<Node*> expect_left;
			for (size_t i = 0; i < k; ++i)
			{
				std::string key = label + ":" + std::to_string(i);
				bool have = exists && disk[f].count(key);
				Val v = value_of(nodes[i]);
				if (have)
				{
					Rec& r = disk[f][key];
					P_CHECK(c, v.d == r.d && same_bits(v.v, r.v), "node " << i << " restored as " << show(v) << ", saved " << show(r.d) << show(r.v));
					P_CHECK(c, nodes[i]->good_status(), "a restored node counts as uninitialised");
					if (negs[i])
					{
						Vec w = r.v; for (double& x : w) x = -x;
						Val nv = value_of(negs[i]);
						P_CHECK(c, close_to(nv.v, w, 0, 0), "a dependent of restored node " << i << " has value " << show(nv) << ", expected " << show(w));
						c.label("dependent follows a restored node");
					}
					reads++; c.label("restored");
				}
				else
				{
					expect_left.push_back(nodes[i]);
					P_CHECK(c, same_bits(v.v, before[i]), "node " << i << " is not in the file but changed from " << show(before[i]) << " to " << show(v));
					c.label("not in file");
				}
			}
			if (exists) P_CHECK(c, left == expect_left, "nodes reported as not found: " << left.size() << ", expected " << expect_left.size());
			else P_CHECK(c, left == nodes, "a failed read changed the list of nodes");
		}
		for (Node* n : own) delete n;
	}
	c.nontrivial(reads > 0);
	for (const char* n : names) unlink((dir + "/" + n).c_str());
	rmdir(dir.c_str());
}

int main (int argc, char** argv)
{
	pbt::reset_hook() = graph_reset;
	pbt::Prop p;
	p.id = "C06";
	p.rule = "tensors of several element types with arbitrary bit patterns, allowed and allocated shapes, serialized and read back onto tensors in arbitrary states; and histories of 2..9 saves and restores of groups of 0..6 nodes under several labels in two files, against a model of what each file holds; non-trivial: more than one element, or at least one node restored";
	p.facets = {{"proto", proto, 1}, {"files", files, 1}};
	p.quick = 20000; p.thorough = 300000; p.batch = 150;
	return pbt::harness_main(argc, argv, {p});
}
