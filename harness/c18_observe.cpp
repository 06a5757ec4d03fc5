// C18: subjects and observers know each other exactly
#include "common.hpp"
#include "graph/react/subject.hpp"
#include "graph/react/iobserver.hpp"
#include <memory>
using namespace nnet;

struct Subj : public subject
{
	Subj (void) {}
	virtual std::string get_label (void) const { return "s"; } virtual std::string get_name (void) const { return "s"; }
	Subj (const Subj& o) : identifiable(), subject(o) {}
	Subj (Subj&& o) : identifiable(), subject(std::move(o)) {}
	Subj& operator = (const Subj& o) { subject::operator = (o); return *this; }
	Subj& operator = (Subj&& o) { subject::operator = (std::move(o)); return *this; }
	virtual void death_on_noparent (void) { lonely++; }
	std::map<iobserver*, std::set<size_t> > seen (void) const
	{
		std::map<iobserver*, std::set<size_t> > r;
		for (auto& a : audience_) r[a.first] = std::set<size_t>(a.second.begin(), a.second.end());
		return r;
	}
	void tie (iobserver* o) { attach_killer(o); }
	void untie (iobserver* o) { detach_killer(o); }
	size_t lonely = 0; bool* dead = nullptr;
	virtual ~Subj (void) { if (dead) *dead = true; }
};
struct Obs : public iobserver
{
	Obs (void) {}
	virtual std::string get_label (void) const { return "o"; } virtual std::string get_name (void) const { return "o"; }
	Obs (std::vector<subject*> d) : iobserver(d) {}
	Obs (const Obs& o) : identifiable(), iobserver(o) {}
	Obs (Obs&& o) : identifiable(), iobserver(std::move(o)) {}
	Obs& operator = (const Obs& o) { iobserver::operator = (o); return *this; }
	Obs& operator = (Obs&& o) { iobserver::operator = (std::move(o)); return *this; }
	virtual void update (std::unordered_set<size_t> a) { told.push_back(std::set<size_t>(a.begin(), a.end())); }
	virtual void death_on_broken (void) { broken++; }
	using iobserver::add_dependency; using iobserver::remove_dependency; using iobserver::replace_dependency;
	using iobserver::add_ondeath_dependent; using iobserver::remove_ondeath_dependent;
	const std::vector<subject*>& deps (void) const { return dependencies_; }
	std::vector<std::set<size_t> > told; size_t broken = 0;
};

// the model: what every observer observes, by position; -1 is nothing
struct M { std::vector<int> deps; std::set<int> tied; std::vector<std::set<size_t> > told; size_t broken = 0; };

static void run (Ctx& c)
{
	Src& s = c.s;
	std::vector<Subj*> S; std::vector<Obs*> O; std::vector<M> m; std::vector<bool*> dead;
	struct Clean { std::vector<Subj*>& S; std::vector<Obs*>& O; std::vector<bool*>& d; ~Clean () { for (Obs* o : O) delete o; for (size_t i = 0; i < S.size(); ++i) if (S[i] && !*d[i]) delete S[i]; for (bool* b : d) delete b; } } clean{S, O, dead};
	auto new_s = [&](Subj* x) { S.push_back(x); dead.push_back(new bool(false)); x->dead = dead.back(); return S.size() - 1; };
	auto new_o = [&](Obs* x) { O.push_back(x); m.push_back(M()); return O.size() - 1; };
	auto live_s = [&]() -> int { std::vector<int> v; for (size_t i = 0; i < S.size(); ++i) if (S[i]) v.push_back((int) i); return v.empty() ? -1 : v[s.below(v.size())]; };
	auto live_o = [&]() -> int { std::vector<int> v; for (size_t i = 0; i < O.size(); ++i) if (O[i]) v.push_back((int) i); return v.empty() ? -1 : v[s.below(v.size())]; };
	auto shrink = [](std::vector<int>& d) { while (!d.empty() && d.back() < 0) d.pop_back(); };
	auto bury = [&](int si)
	{
		// every observer lets go of the subject and hears of it once
		for (size_t k = 0; k < O.size(); ++k) if (O[k])
		{
			bool had = false;
			for (size_t i = 0; i < m[k].deps.size(); ++i) if (m[k].deps[i] == si) { m[k].deps[i] = -1; had = true; }
			if (had) { shrink(m[k].deps); m[k].broken++; }
			m[k].tied.erase(si);
		}
		S[si] = nullptr;
	};
	auto check = [&](const std::string& what)
	{
		for (size_t k = 0; k < O.size(); ++k) if (O[k])
		{
			std::vector<int> got; for (subject* x : O[k]->deps()) { int w = -1; for (size_t i = 0; i < S.size(); ++i) if (x && S[i] == x) w = (int) i; if (x && w < 0) w = 99; got.push_back(w); }
			P_CHECK(c, got == m[k].deps, what << ": observer " << k << " observes " << show(got) << ", expected " << show(m[k].deps));
			for (size_t i = 0; i < S.size(); ++i) if (S[i])
				P_CHECK(c, O[k]->has_subject(S[i]) == (std::find(m[k].deps.begin(), m[k].deps.end(), (int) i) != m[k].deps.end()), what << ": observer " << k << " is wrong about having subject " << i);
			P_CHECK(c, O[k]->told == m[k].told, what << ": observer " << k << " was told " << O[k]->told.size() << " updates, expected " << m[k].told.size() << " (or other positions)");
			P_CHECK(c, O[k]->broken == m[k].broken, what << ": observer " << k << " was told " << O[k]->broken << " losses, expected " << m[k].broken);
		}
		for (size_t i = 0; i < S.size(); ++i) if (S[i])
		{
			std::map<iobserver*, std::set<size_t> > want;
			for (size_t k = 0; k < O.size(); ++k) if (O[k]) for (size_t j = 0; j < m[k].deps.size(); ++j) if (m[k].deps[j] == (int) i) want[O[k]].insert(j);
			P_CHECK(c, S[i]->seen() == want, what << ": subject " << i << " has " << S[i]->n_audience() << " observers, expected " << want.size() << " (or other positions)");
			P_CHECK(c, S[i]->n_audience() == want.size() && S[i]->no_audience() == want.empty(), what << ": subject " << i << " counts its observers wrongly");
		}
		for (size_t i = 0; i < S.size(); ++i) P_CHECK(c, (S[i] == nullptr) == *dead[i], what << ": subject " << i << (S[i] ? " died" : " was not destroyed"));
	};
	for (size_t k = s.sz(1, 4); k > 0; --k) new_s(new Subj);
	size_t notes = 0, deaths = 0;
	auto gaps = [&](int k) { for (int x : m[k].deps) if (x < 0) return true; return false; };
	for (size_t k = s.sz(1, 3); k > 0; --k)
	{
		std::vector<subject*> d; std::vector<int> md;
		for (size_t j = s.sz(1, 3); j > 0; --j) { int x = live_s(); d.push_back(S[x]); md.push_back(x); }
		size_t o = new_o(new Obs(d)); m[o].deps = md; P_LOG(c, "observer " << o << " of " << show(md));
	}
	for (size_t step = s.sz(3, 25); step > 0; --step)
	{
		int a = live_s(), b = live_s(), o = live_o(), q = live_o();
		std::ostringstream w;
		switch (s.weighted({4, 3, 3, 5, 3, 2, 2, 2, 2, 2, 2, 1, 1, 2, 1, 1}))
		{
			case 0: // an observer of some subjects
			{
				std::vector<subject*> d; std::vector<int> md;
				for (size_t k = s.below(4); k > 0; --k) { int x = live_s(); if (x < 0) break; d.push_back(S[x]); md.push_back(x); }
				size_t k = new_o(new Obs(d)); m[k].deps = md; w << "observer " << k << " of " << show(md);
				break;
			}
			case 1: if (o < 0 || a < 0) continue; w << "observer " << o << " adds subject " << a; O[o]->add_dependency(S[a]); m[o].deps.push_back(a); break;
			case 2:
			{
				if (o < 0) continue; size_t i = s.below(m[o].deps.size() + 1); w << "observer " << o << " removes position " << i;
				bool threw = false; size_t len = m[o].deps.size();
				try { O[o]->remove_dependency(i); } catch (std::logic_error&) { threw = true; }
				P_CHECK(c, threw == (i >= len), w.str() << " of " << len << (threw ? " and is refused" : " and is not refused"));
				if (i < len && m[o].deps[i] >= 0) { m[o].deps[i] = -1; shrink(m[o].deps); }
				break;
			}
			case 3:
			{
				if (a < 0) continue; w << "subject " << a << " notifies";
				for (size_t k = 0; k < O.size(); ++k) if (O[k]) { std::set<size_t> at; for (size_t i = 0; i < m[k].deps.size(); ++i) if (m[k].deps[i] == a) at.insert(i); if (!at.empty()) { m[k].told.push_back(at); notes++; } }
				S[a]->notify(UPDATE);
				break;
			}
			case 4:
			{
				if (o < 0 || a < 0) continue; size_t i = s.below(m[o].deps.size() + 2); w << "observer " << o << " puts subject " << a << " at position " << i;
				if (i >= m[o].deps.size()) m[o].deps.resize(i + 1, -1);
				O[o]->replace_dependency(S[a], i); m[o].deps[i] = a;
				break;
			}
			case 5: if (a < 0) continue; w << "subject " << a << " is destroyed"; { bool aud = !S[a]->no_audience(); Subj* x = S[a]; bury(a); delete x; if (aud) deaths++; } break;
			case 6:
			{
				if (o < 0) continue; w << "observer " << o << " is destroyed";
				// what it owns dies with it
				std::set<int> t = m[o].tied; for (int x : t) bury(x);
				Obs* x = O[o]; O[o] = nullptr; delete x;
				break;
			}
			case 7: if (o < 0 || gaps(o)) continue; { size_t k = new_o(new Obs(*O[o])); w << "observer " << k << " is a copy of " << o; for (int x : m[o].deps) if (x >= 0) m[k].deps.push_back(x); } break;
			case 8: if (o < 0 || !m[o].tied.empty()) continue; { size_t k = new_o(new Obs(std::move(*O[o]))); w << "observer " << k << " is moved from " << o; m[k].deps = m[o].deps; m[o].deps.clear(); } break;
			case 9: if (o < 0 || q < 0 || gaps(o)) continue; w << "observer " << q << " = observer " << o; if (o != q) { std::vector<int> d; for (int x : m[o].deps) if (x >= 0) d.push_back(x); m[q].deps = d; } *O[q] = *O[o]; break;
			case 10: if (o < 0 || q < 0 || !m[o].tied.empty()) continue; w << "observer " << q << " takes over observer " << o; if (o != q) { m[q].deps = m[o].deps; m[o].deps.clear(); } *O[q] = std::move(*O[o]); break;
			case 11: if (a < 0) continue; { size_t k = new_s(new Subj(*S[a])); w << "subject " << k << " is a copy of " << a; } break;
			case 12: if (a < 0) continue; { size_t k = new_s(new Subj(std::move(*S[a]))); w << "subject " << k << " is moved from " << a; for (M& x : m) for (int& d : x.deps) if (d == a) d = (int) k; } break;
			case 13:
			{
				if (a < 0 || b < 0 || a == b) continue;
				int how = (int) s.below(3); w << "subject " << b << (how == 0 ? " takes over subject " : how == 1 ? " steals the observers of " : " is assigned subject ") << a;
				if (how == 0) *S[b] = std::move(*S[a]); else if (how == 1) S[b]->steal_observers(S[a]); else *S[b] = *S[a];
				if (how < 2) for (M& x : m) for (int& d : x.deps) if (d == a) d = b;
				break;
			}
			case 14:
			{
				if (a < 0 || o < 0 || m[o].tied.count(a)) continue;
				bool other = false; for (M& x : m) other = other || x.tied.count(a); if (other) continue;
				w << "subject " << a << " dies with observer " << o; if (s.flip()) S[a]->tie(O[o]); else O[o]->add_ondeath_dependent(S[a]); m[o].tied.insert(a); c.label("subject tied to an observer");
				break;
			}
			default:
			{
				if (o < 0 || m[o].tied.empty()) continue; int x = *m[o].tied.begin();
				w << "subject " << x << " no longer dies with observer " << o; if (s.flip()) S[x]->untie(O[o]); else O[o]->remove_ondeath_dependent(S[x]); m[o].tied.erase(x);
			}
		}
		P_LOG(c, w.str());
		check(w.str());
	}
	if (notes) c.label("notified"); if (deaths) c.label("observed subject destroyed");
	c.nontrivial(notes > 0);
}

int main (int argc, char** argv)
{
	pbt::Prop p;
	p.id = "C18";
	p.rule = "histories of 3..25 steps (observers over several, repeated or no subjects; adding, removing, replacing positions; notifying; copying, moving, assigning and destroying subjects and observers; stealing observers; subjects owned by observers) checked after every step against a model of who observes whom at which position, every notification and every loss; non-trivial: a subject with observers notifies";
	p.facets = {{"protocol", run, 1}};
	p.quick = 60000; p.thorough = 1000000; p.batch = 300;
	return pbt::harness_main(argc, argv, {p});
}
