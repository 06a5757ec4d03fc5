// C07: stored data that is damaged or does not fit is refused and leaves its targets alone
#include "graph.hpp"
#include "memory/tensor_io.hpp"
#include <sys/stat.h>
using namespace nnet;

// what a stored tensor must look like to be accepted as double data
static bool acceptable (const tenncor::tensor_proto& p)
{
	Dims alloc(p.alloc_shape().begin(), p.alloc_shape().end()), allow(p.allow_shape().begin(), p.allow_shape().end());
	if (!ref::full(alloc)) return false;
	unsigned __int128 n = 8; for (size_t x : alloc) { n *= x; if (n >> 60) return false; }
	if ((uint64_t) n != p.data().size()) return false;
	return tensorshape(alloc).is_compatible_with(tensorshape(allow));
}
static void mangle (Ctx& c, tenncor::tensor_proto& p)
{
	Src& s = c.s;
	size_t n = s.sz(1, 2);
	while (n--)
	{
		switch (s.below(9))
		{
			case 0: { std::string d = p.data(); size_t k = s.sz(1, 24); d.resize(d.size() > k ? d.size() - k : 0); p.set_data(d); P_LOG(c, "data cut to " << d.size() << " bytes"); break; }
			case 1: { std::string d = p.data(); d.append(s.sz(1, 2000), 'x'); p.set_data(d); P_LOG(c, "data grown to " << d.size() << " bytes"); break; }
			case 2: if (p.alloc_shape_size()) { size_t i = s.below(p.alloc_shape_size()); uint64_t v = s.flip(1, 4) ? (1ull << s.sz(20, 40)) : s.sz(0, 6); p.set_alloc_shape(i, v); P_LOG(c, "allocated dimension " << i << " set to " << v); } break;
			case 3: if (p.allow_shape_size()) { size_t i = s.below(p.allow_shape_size()); uint64_t v = s.sz(0, 6); p.set_allow_shape(i, v); P_LOG(c, "allowed dimension " << i << " set to " << v); } break;
			case 4: { uint64_t v = s.sz(0, 4); p.add_alloc_shape(v); P_LOG(c, "allocated dimension " << v << " added"); break; }
			case 5: if (p.alloc_shape_size()) { p.mutable_alloc_shape()->RemoveLast(); P_LOG(c, "allocated dimension removed"); } break;
			case 6: p.clear_alloc_shape(); P_LOG(c, "allocated shape removed"); break;
			case 7: if (s.flip())
			{	// a shape whose number of elements does not fit 64 bits: it wraps around to the size of the data
				std::vector<uint64_t> f;
				uint64_t words = 0;
				switch (s.below(3))
				{
					case 0: { size_t e = s.sz(30, 63); f.push_back(1ull << e); while (e < 61) { size_t g = s.sz(1, 61 - e); f.push_back(1ull << g); e += g; } break; }
					case 1: words = s.sz(0, 6); f.push_back((1ull << 61) + words); break;
					default: { words = s.sz(1, 6); uint64_t odd = 2 * s.below(1ull << 20) + 3, inv = odd; for (int i = 0; i < 6; ++i) inv *= 2 - odd * inv; f.push_back(odd); f.push_back(inv * words); break; }
				}
				s.shuffle(f);
				p.clear_alloc_shape(); for (uint64_t x : f) p.add_alloc_shape(x);
				if (s.flip(3, 4)) *p.mutable_allow_shape() = p.alloc_shape(); else p.clear_allow_shape();
				p.set_data(std::string(8 * words, 'y'));
				P_LOG(c, "shape with " << f.size() << " huge dimensions, first " << f[0] << ", over " << words << " elements"); c.label("count overflows");
			}
			break;
			default: if (p.allow_shape_size()) { p.mutable_allow_shape()->RemoveLast(); P_LOG(c, "allowed dimension removed"); } break;
		}
	}
}
static tenncor::tensor_proto sample (Src& s, Dims& d, Vec& v)
{
	d = gen::dims(s, 1, 4, 4, 60);
	v = gen::distinct(s, ref::prod(d));
	tensor<double> t((tensorshape(d)));
	assign_func<double> as; as(t, v);
	tenncor::tensor_proto p; t.serialize(&p);
	return p;
}

static void message (Ctx& c)
{
	Src& s = c.s;
	Dims d; Vec v;
	tenncor::tensor_proto p = sample(s, d, v);
	P_LOG(c, "stored " << show(d));
	mangle(c, p);
	bool want = acceptable(p);
	Dims od = gen::partial(s, 3, 4); Vec ov;
	tensor<double> t((tensorshape(od)));
	if (t.is_alloc()) { ov = gen::distinct(s, ref::prod(od)); assign_func<double> as; as(t, ov); }
	P_LOG(c, "onto " << show(od) << " " << show(ov));
	bool was = t.is_alloc();
	bool ok = t.from_proto(p);
	P_CHECK(c, ok == want, "damaged data is " << (ok ? "accepted" : "refused") << ", expected " << (want ? "accepted" : "refused"));
	if (!ok)
	{
		P_CHECK(c, t.is_alloc() == was && t.get_shape().as_list() == od, "refused data changed the shape to " << show(t.get_shape().as_list()));
		if (was) P_CHECK(c, t.expose() == ov, "refused data changed the contents to " << show(t.expose()));
		if (was) { t.deallocate(); P_CHECK(c, t.get_shape().as_list() == od, "refused data changed the allowed shape to " << show(t.get_shape().as_list())); }
		c.label("refused"); c.nontrivial();
	}
	else
	{
		Dims alloc(p.alloc_shape().begin(), p.alloc_shape().end());
		P_CHECK(c, t.get_shape().as_list() == alloc, "accepted shape " << show(t.get_shape().as_list()));
		Vec e = t.expose();
		P_CHECK(c, e.size() * 8 == p.data().size() && 0 == memcmp(e.data(), p.data().data(), p.data().size()), "accepted data differs");
		c.label("accepted");
	}
}

static std::string slurp (const std::string& p)
{
	std::ifstream f(p, std::ios::binary); std::stringstream b; b << f.rdbuf(); return b.str();
}

static void file (Ctx& c)
{
	Src& s = c.s;
	const char* base = getenv("VERIF_SCRATCH");
	std::string dir = std::string(base ? base : "/tmp") + "/k" + std::to_string(getpid());
	mkdir(dir.c_str(), 0700);
	std::string path = dir + "/f.pbx";
	tenncor::repository repo;
	size_t k = s.sz(1, 3);
	for (size_t i = 0; i < k; ++i)
	{
		Dims d; Vec v;
		tenncor::tensor_proto p = sample(s, d, v);
		if (s.flip()) mangle(c, p);
		(*repo.mutable_node_map())["w:" + std::to_string(i)] = p;
	}
	std::string wire; repo.SerializeToString(&wire);
	switch (s.below(4))
	{
		case 0: break;
		case 1: { size_t n = s.below(wire.size()); wire.resize(n); P_LOG(c, "file cut to " << n << " bytes"); c.label("truncated"); break; }
		case 2: { for (size_t n = s.sz(1, 3); n && !wire.empty(); --n) { size_t i = s.below(wire.size()); wire[i] ^= (char) s.sz(1, 255); P_LOG(c, "byte " << i << " changed"); } c.label("bytes changed"); break; }
		default: { wire.clear(); for (size_t n = s.sz(0, 40); n; --n) wire.push_back((char) s.below(256)); P_LOG(c, "file replaced by " << wire.size() << " random bytes"); c.label("random file"); break; }
	}
	{ std::ofstream f(path, std::ios::binary); f << wire; }
	tenncor::repository model;
	bool parses = model.ParseFromString(wire);
	std::vector<Node*> nodes, left; std::vector<Vec> before;
	size_t m = s.sz(1, 4);
	for (size_t i = 0; i < m; ++i)
	{
		Dims d = gen::dims(s, 1, 3, 3, 20);
		Node* n;
		if (s.flip()) n = make_var(d, gen::distinct(s, ref::prod(d)), "v"); else n = new Ph(tensorshape(d), "p");
		nodes.push_back(n); before.push_back(value_of(n).v);
	}
	left = nodes;
	bool ok = read_inorder<double>(left, "w", path);
	P_CHECK(c, ok == parses, "a " << (parses ? "readable" : "broken") << " file is " << (ok ? "accepted" : "refused"));
	P_CHECK(c, slurp(path) == wire, "reading changed the file");
	std::vector<Node*> want_left;
	for (size_t i = 0; i < m; ++i)
	{
		auto it = model.node_map().find("w:" + std::to_string(i));
		bool good = parses && it != model.node_map().end() && acceptable(it->second);
		Val v = value_of(nodes[i]);
		if (good)
		{
			Dims alloc(it->second.alloc_shape().begin(), it->second.alloc_shape().end());
			P_CHECK(c, v.d == alloc && 0 == memcmp(v.v.data(), it->second.data().data(), it->second.data().size()), "node " << i << " restored as " << show(v));
			c.label("restored");
		}
		else
		{
			want_left.push_back(nodes[i]);
			P_CHECK(c, v.v == before[i], "node " << i << " changed to " << show(v) << " though nothing fitting is stored for it");
			P_CHECK(c, nodes[i]->good_status() == !before[i].empty(), "node " << i << " changed its status");
			c.label(parses ? "entry refused or missing" : "file refused");
		}
	}
	if (parses) P_CHECK(c, left == want_left, left.size() << " nodes reported as not found, expected " << want_left.size());
	// saving over a file that is not a repository must not destroy it
	std::vector<Node*> w;
	Var* a = make_var({2}, {1, 2}, "a"); w.push_back(a);
	bool wrote = write_inorder<double>(w, "w", path);
	P_CHECK(c, wrote == parses, "saving over a " << (parses ? "readable" : "broken") << " file returns " << wrote);
	if (!parses) P_CHECK(c, slurp(path) == wire, "a refused save changed the file");
	else
	{
		tenncor::repository after; P_CHECK(c, after.ParseFromString(slurp(path)), "file unreadable after a save");
		P_CHECK(c, acceptable(after.node_map().at("w:0")), "saved entry unreadable");
		for (auto& e : model.node_map()) if (e.first != "w:0")
			P_CHECK(c, after.node_map().count(e.first) && after.node_map().at(e.first).SerializeAsString() == e.second.SerializeAsString(), "saving changed the unrelated entry " << e.first);
	}
	// a place that cannot be written
	P_CHECK(c, !write_inorder<double>(w, "w", dir + "/missing/f.pbx"), "saving into a directory that does not exist reports success");
	delete a;
	for (Node* n : nodes) delete n;
	unlink(path.c_str()); rmdir(dir.c_str());
	c.nontrivial();
}

int main (int argc, char** argv)
{
	pbt::reset_hook() = graph_reset;
	pbt::Prop p;
	p.id = "C07";
	p.rule = "valid messages and files damaged by cutting, growing, flipping or replacing data, dimensions and bytes, read onto tensors and nodes in arbitrary states; whether they must be accepted is computed from the message alone; non-trivial: the message is refused, or any file case";
	p.facets = {{"message", message, 1}, {"file", file, 1}};
	p.quick = 48000; p.thorough = 300000; p.batch = 150;
	return pbt::harness_main(argc, argv, {p});
}
