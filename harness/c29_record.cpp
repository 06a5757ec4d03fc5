// C29: the recorded edges of a graph (built with EDGE_RCD and CSV_RCD)
#include "edges.hpp"
#include "edgeinfo/csv_record.hpp"
#include <fstream>
#include <unistd.h>
#include <sys/stat.h>
static std::string id_of (Node* n) { return "<" + n->get_label() + ":" + n->get_uid() + ">"; }
static std::string name_of (Node* n)
{
	std::string r = id_of(n);
	if (Con* k = dynamic_cast<Con*>(n)) { r += "("; bool first = true; for (Node* a : k->get_arguments()) { r += (first ? "" : ",") + a->get_label(); first = false; } r += ")"; }
	return r;
}
static std::string shape_of (Node* n)
{
	std::ostringstream o; Dims d = n->get_shape().as_list();
	o << "("; if (d.empty()) o << "undefined "; for (size_t x : d) o << x << " "; o << ")"; return o.str();
}
static std::vector<std::string> lines_of (const std::string& path)
{
	std::vector<std::string> r; std::ifstream f(path); std::string l; while (std::getline(f, l)) r.push_back(l); std::sort(r.begin(), r.end()); return r;
}

static void record (Ctx& c)
{
	Src& s = c.s;
	std::string path = std::string(getenv("VERIF_SCRATCH") ? getenv("VERIF_SCRATCH") : "/tmp") + "/edges-" + std::to_string(getpid()) + ".csv";
	rocnnet_record::record_status::rec.reset(new rocnnet_record::csv_record(path));
	rocnnet_record::record_status::rec_good = true;
	rocnnet_record::csv_record* rec = static_cast<rocnnet_record::csv_record*>(rocnnet_record::record_status::rec.get());
	bool verbose = false, shapes = true; // as constructed
	Graph g(c); g.linger = s.flip(); bool relabel = g.relabel = s.flip(); size_t& changes = g.changes;
	g.leaves();
	size_t compared = 0;
	for (size_t step = s.sz(2, 16); step > 0 || compared == 0; step -= step > 0)
	{
		if (step > 0 && s.flip(16, 19)) { if (!g.step({5, 6, 1, 1, 1, 1, 1, 1})) break; continue; }
		std::vector<size_t> cn = g.alive(true);
		if (s.flip(1, 3)) { verbose = s.flip(); rec->setVerbose(verbose); }
		if (s.flip(1, 3)) { shapes = s.flip(); rec->setDisplayShape(shapes); }
		if (!verbose && !relabel) { verbose = true; rec->setVerbose(true); } // numbers alone do not tell nodes apart
		Con* of = nullptr; if (!cn.empty() && s.flip(1, 3)) of = static_cast<Con*>(g.nodes[cn[s.below(cn.size())]].p.get());
		P_LOG(c, "record" << (verbose ? " verbosely" : "") << (shapes ? " with shapes" : "") << (of ? " the graph of one node" : ""));
		std::set<Node*> all = g.live(); std::vector<std::string> want;
		for (Node* k : all)
		{
			Con* con = dynamic_cast<Con*>(k); if (!con || (of && g.group[con] != g.group[of])) continue;
			std::vector<Node*> args = con->get_arguments();
			for (size_t a = 0; a < args.size(); ++a)
			{
				std::ostringstream l;
				l << (verbose ? name_of(con) : con->get_label()) << (shapes ? shape_of(con) : "") << "," << (verbose ? name_of(args[a]) : args[a]->get_label()) << (shapes ? shape_of(args[a]) : "") << "," << a;
				want.push_back(l.str());
			}
		}
		std::sort(want.begin(), want.end());
		rec->to_csv<double>(of);
		std::vector<std::string> got = lines_of(path);
		if (!verbose)
		{
			// numbers stand for nodes, one each
			std::map<std::string, std::string> num; std::set<std::string> used;
			for (std::string& l : got)
			{
				std::ostringstream o; std::istringstream is(l); std::string part; size_t k = 0;
				while (std::getline(is, part, ','))
				{
					if (k++) o << ",";
					size_t b = part.find(']');
					if (k > 2) { o << part; continue; }
					P_CHECK(c, !part.empty() && part[0] == '[' && b != std::string::npos, "a node is written as " << part);
					std::string nr = part.substr(1, b - 1), rest = part.substr(b + 1), lab = rest.substr(0, rest.find('('));
					if (num.count(lab)) P_CHECK(c, num[lab] == nr, "the node " << lab << " has the numbers " << num[lab] << " and " << nr);
					else { P_CHECK(c, used.insert(nr).second, "two nodes have the number " << nr); num[lab] = nr; }
					o << rest;
				}
				l = o.str();
			}
			for (const std::string& u : used) P_CHECK(c, std::stoul(u) < used.size(), "the numbers of " << used.size() << " nodes include " << u);
			std::sort(got.begin(), got.end());
		}
		if (got != want)
		{
			std::ostringstream o; std::vector<std::string> miss, extra;
			std::set_difference(want.begin(), want.end(), got.begin(), got.end(), std::back_inserter(miss)); std::set_difference(got.begin(), got.end(), want.begin(), want.end(), std::back_inserter(extra));
			for (const std::string& l : miss) o << "\n  missing " << l; for (const std::string& l : extra) o << "\n  unexpected " << l;
			P_CHECK(c, false, "the record lists " << got.size() << " edges instead of " << want.size() << o.str());
		}
		compared++;
		if (changes && !want.empty()) c.nontrivial();
		c.label(of ? "one graph" : "all graphs"); c.label(verbose ? "verbose" : "numbered");
	}
	std::remove(path.c_str());
}

int main (int argc, char** argv)
{
	pbt::reset_hook() = graph_reset;
	pbt::Prop p;
	p.id = "C29";
	p.rule = "a record with at least one edge after some node was copied, moved, assigned or destroyed";
	p.facets = {{"record", record, 1}};
	p.quick = 12000; p.thorough = 200000; p.batch = 150;
	return pbt::harness_main(argc, argv, {p});
}
