// Small property-based-testing engine.
//
// Every random decision of a case is drawn from a choice source (Src).  A case is therefore
// identified by its sequence of choices: it can be replayed exactly, and it is shrunk by deleting,
// zeroing and lowering choices (generators are written so that smaller choices mean simpler cases).
// Cases run in forked children, so that a crash, a sanitizer report, a failed assertion or a hang in
// the code under test is one more observable outcome of a case rather than the end of the run.
#pragma once
#include <atomic>
#include <cerrno>
#include <chrono>
#include <cmath>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <fstream>
#include <functional>
#include <iostream>
#include <map>
#include <set>
#include <sstream>
#include <stdexcept>
#include <string>
#include <unordered_set>
#include <vector>
#include <fcntl.h>
#include <signal.h>
#include <sys/mman.h>
#include <sys/personality.h>
#include <sys/prctl.h>
#include <sys/resource.h>
#include <sys/types.h>
#include <sys/wait.h>
#include <unistd.h>

namespace pbt {

struct Discard {};
struct Failure { std::string msg; };

inline uint64_t splitmix (uint64_t& x)
{
	uint64_t z = (x += 0x9e3779b97f4a7c15ull);
	z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull;
	z = (z ^ (z >> 27)) * 0x94d049bb133111ebull;
	return z ^ (z >> 31);
}
inline uint64_t fnv (const void* p, size_t n, uint64_t h = 1469598103934665603ull)
{
	const unsigned char* c = (const unsigned char*) p;
	for (size_t i = 0; i < n; ++i) { h ^= c[i]; h *= 1099511628211ull; }
	return h;
}

static const size_t MAX_CHOICES = 1 << 16;
struct ChoiceTape { uint64_t n; uint64_t v[MAX_CHOICES]; };

// choice source: fresh (seeded) or replaying a recorded sequence; always records what it handed out
class Src
{
public:
	Src (uint64_t seed, ChoiceTape* rec) : rng_(seed), rec_(rec) { if (rec_) rec_->n = 0; }
	Src (const std::vector<uint64_t>& tape, ChoiceTape* rec) :
		replay_(true), tape_(tape), rec_(rec) { if (rec_) rec_->n = 0; }

	uint64_t below (uint64_t n)
	{
		if (n <= 1) return 0;
		uint64_t v;
		if (replay_) { v = pos_ < tape_.size() ? tape_[pos_] : 0; pos_++; if (v >= n) v %= n; }
		else
		{
			uint64_t r = splitmix(rng_);
			v = r % n;
		}
		if (count_++ >= MAX_CHOICES) throw Discard();
		if (rec_) { rec_->v[rec_->n] = v; rec_->n = rec_->n + 1; }
		return v;
	}
	// integers lo..hi inclusive; shrinks towards lo
	int64_t range (int64_t lo, int64_t hi) { return lo + (int64_t) below((uint64_t) (hi - lo) + 1); }
	size_t sz (size_t lo, size_t hi) { return (size_t) range((int64_t) lo, (int64_t) hi); }
	// true with probability num/den; shrinks towards false
	bool flip (uint64_t num = 1, uint64_t den = 2) { return below(den) >= den - num; }
	// integers with sign around 0; shrinks towards 0
	int64_t zigzag (int64_t mag)
	{
		uint64_t v = below((uint64_t) mag * 2 + 1);
		return (v & 1) ? (int64_t) (v / 2 + 1) : -(int64_t) (v / 2);
	}
	// multiples of 1/den with magnitude up to mag: exact in floating point
	double dyadic (int mag = 4, int den = 8) { return (double) zigzag((int64_t) mag * den) / den; }
	// never zero
	double dyadic_nz (int mag = 4, int den = 8)
	{
		uint64_t v = below((uint64_t) mag * den * 2);
		double d = (double) (v / 2 + 1) / den;
		return (v & 1) ? -d : d;
	}
	double real (double lo, double hi, uint64_t steps = 4096)
	{
		return lo + (hi - lo) * ((double) below(steps + 1) / (double) steps);
	}
	template <typename V>
	auto pick (const V& v) -> decltype(v[0]) { return v[below(v.size())]; }
	// weighted index
	size_t weighted (std::initializer_list<unsigned> w)
	{
		uint64_t tot = 0; for (unsigned x : w) tot += x;
		uint64_t r = below(tot); size_t i = 0;
		for (unsigned x : w) { if (r < x) return i; r -= x; i++; }
		return i - 1;
	}
	template <typename V> void shuffle (V& v)
	{
		for (size_t i = 0; i + 1 < v.size(); ++i) { size_t j = i + below(v.size() - i); std::swap(v[i], v[j]); }
	}
private:
	bool replay_ = false;
	uint64_t rng_ = 0;
	std::vector<uint64_t> tape_;
	size_t pos_ = 0, count_ = 0;
	ChoiceTape* rec_ = nullptr;
};

struct Ctx
{
	Src& s;
	std::ostringstream trace;
	std::set<std::string> labels;
	bool nontriv = false;
	char* live = nullptr; size_t livecap = 0, livepos = 0;
	explicit Ctx (Src& src) : s(src) {}
	// the trace is copied out as it grows, so that it survives a crash
	void log (const std::string& l)
	{
		trace << l << "\n";
		if (!live) return;
		size_t n = std::min(l.size(), livecap > livepos + 2 ? livecap - livepos - 2 : 0);
		if (n < l.size()) return;
		memcpy(live + livepos, l.data(), n); livepos += n;
		live[livepos++] = '\n'; live[livepos] = 0;
	}
	void label (const std::string& l) { labels.insert(l); }
	void nontrivial (bool b = true) { if (b) nontriv = true; }
	void fail (const std::string& m) { throw Failure{m}; }
	void discard (void) { throw Discard(); }
};

#define P_LOG(c, expr) do { std::ostringstream ol__; ol__.precision(17); ol__ << expr; (c).log(ol__.str()); } while (0)
#define P_FAIL(c, expr) do { std::ostringstream os__; os__.precision(17); os__ << expr; (c).fail(os__.str()); } while (0)
#define P_CHECK(c, cond, expr) do { if (!(cond)) { std::ostringstream os__; os__.precision(17); os__ << expr << "  [" #cond "]"; (c).fail(os__.str()); } } while (0)

template <typename T>
std::string show (const std::vector<T>& v)
{
	std::ostringstream o; o.precision(17); o << "[";
	for (size_t i = 0; i < v.size(); ++i) { if (i) o << ","; if (i > 24) { o << "..(" << v.size() << ")"; break; } o << v[i]; }
	o << "]"; return o.str();
}

struct Facet { const char* name; void (*fn)(Ctx&); unsigned weight; };
struct Known { const char* key; void (*fn)(Ctx&); const char* what; };
struct Prop
{
	std::string id;
	std::string rule;
	std::vector<Facet> facets;
	size_t quick, thorough;   // number of cases
	size_t batch = 60;
	double timeout = 40;      // seconds one case may take
	std::vector<Known> known;
	std::vector<std::string> assumptions;
	size_t min_nontrivial = 10;
};

// ---------------------------------------------------------------- shared state with the children
static const size_t NLABEL = 96, NSAMPLE = 2, TRACE = 6000, MSG = 3000, MAXBATCH = 2048;
struct Slot
{
	volatile uint64_t cur;          // case being run
	volatile double started;        // when that case began
	volatile uint64_t done, discarded;
	volatile uint64_t nhash;
	uint64_t hash[MAXBATCH];
	struct { char name[64]; uint64_t n; } lab[NLABEL];
	char sample[NSAMPLE][TRACE];
	volatile int nsample;
	char msg[MSG];
	char trace[TRACE];
	volatile int failed;            // failure reported by the harness itself
	volatile int nontriv;
	ChoiceTape tape;
};

inline double now (void)
{
	return std::chrono::duration<double>(std::chrono::steady_clock::now().time_since_epoch()).count();
}
inline void put (char* dst, size_t cap, const std::string& s)
{
	size_t n = std::min(cap - 1, s.size()); memcpy(dst, s.data(), n); dst[n] = 0;
}
template <typename X> X* share (void)
{
	void* p = mmap(nullptr, sizeof(X), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
	if (p == MAP_FAILED) { perror("mmap"); exit(2); }
	return (X*) p;
}

// called at the start of every case; harnesses point it at the library's seeding function
inline std::function<void(void)>& reset_hook (void) { static std::function<void(void)> f; return f; }

enum Outcome { OK, DISC, FAILED, CRASH, HANG };

class Engine
{
public:
	Engine (const Prop& p, uint64_t seed, bool thorough, size_t jobs) :
		p_(p), seed_(seed), thorough_(thorough), jobs_(jobs)
	{
		for (const Facet& f : p.facets) for (unsigned i = 0; i < f.weight; ++i) order_.push_back(&f);
		iso_ = share<Slot>();
		for (size_t i = 0; i < jobs_; ++i) slots_.push_back(share<Slot>());
	}
	const Facet* facet_of (uint64_t idx) const { return order_[idx % order_.size()]; }
	const Facet* facet_named (const std::string& n) const
	{
		for (const Facet& f : p_.facets) if (n == f.name) return &f;
		return nullptr;
	}
	uint64_t case_seed (uint64_t idx) const
	{
		uint64_t h = fnv(p_.id.data(), p_.id.size());
		h ^= seed_ * 0x9e3779b97f4a7c15ull; h ^= (idx + 1) * 0xd1342543de82ef95ull;
		splitmix(h); return h;
	}
	// run one case in this process
	static int run_one (void (*fn)(Ctx&), Src& src, Slot* sl)
	{
		Ctx c(src);
		c.live = sl->trace; c.livecap = TRACE; sl->trace[0] = 0;
		int rc = 0;
		if (reset_hook()) reset_hook()();
		try { fn(c); }
		catch (Discard&) { rc = 1; }
		catch (Failure& f) { put(sl->msg, MSG, f.msg); rc = 2; }
		catch (std::exception& e) { put(sl->msg, MSG, std::string("unexpected exception: ") + e.what()); rc = 2; }
		sl->nontriv = c.nontriv;
		for (const std::string& l : c.labels)
		{
			for (size_t i = 0; i < NLABEL; ++i)
			{
				if (0 == sl->lab[i].name[0]) { put(sl->lab[i].name, 64, l); sl->lab[i].n = 1; break; }
				if (0 == strncmp(sl->lab[i].name, l.c_str(), 63)) { sl->lab[i].n++; break; }
			}
		}
		return rc;
	}
	static void quiet (const char* errfile)
	{
		int dn = open("/dev/null", O_WRONLY);
		dup2(dn, 1);
		int er = errfile ? open(errfile, O_WRONLY | O_CREAT | O_TRUNC, 0600) : dn;
		dup2(er, 2);
		prctl(PR_SET_PDEATHSIG, SIGKILL);
		struct rlimit rl = {0, 0};
		setrlimit(RLIMIT_CORE, &rl);
	}
	void batch_child (Slot* sl, uint64_t lo, uint64_t hi)
	{
		quiet(nullptr);
		for (uint64_t i = lo; i < hi; ++i)
		{
			sl->started = now(); sl->cur = i; sl->failed = 0;
			Src src(case_seed(i), &sl->tape);
			int rc = run_one(facet_of(i)->fn, src, sl);
			sl->done = sl->done + 1;
			if (rc == 1) sl->discarded = sl->discarded + 1;
			else if (rc == 2) { sl->failed = 1; _exit(10); }
			else if (sl->nontriv)
			{
				const char* fname = facet_of(i)->name;
				uint64_t h = fnv(sl->tape.v, sl->tape.n * 8, fnv(fname, strlen(fname)));
				if (sl->nhash < MAXBATCH) { sl->hash[sl->nhash] = h; sl->nhash = sl->nhash + 1; }
				if (sl->nsample < (int) NSAMPLE)
				{
					put(sl->sample[sl->nsample], TRACE, std::string(fname) + ": " + sl->trace);
					sl->nsample = sl->nsample + 1;
				}
			}
		}
		_exit(0);
	}
	// isolated execution of a choice sequence, or of a batch prefix
	Outcome isolated (std::function<int(Slot*)> body, const std::string& errfile, double limit)
	{
		fflush(stdout); fflush(stderr);
		iso_->msg[0] = 0; iso_->trace[0] = 0; iso_->failed = 0; iso_->tape.n = 0;
		memset(iso_->lab, 0, sizeof(iso_->lab));
		double t0 = now();
		pid_t pid = fork();
		if (pid == 0)
		{
			quiet(errfile.empty() ? nullptr : errfile.c_str());
			int rc = body(iso_);
			_exit(rc == 0 ? 0 : (rc == 1 ? 11 : 10));
		}
		int st = 0;
		while (true)
		{
			pid_t r = waitpid(pid, &st, WNOHANG);
			if (r == pid) break;
			if (now() - t0 > limit)
			{
				kill(pid, SIGKILL); waitpid(pid, &st, 0);
				put(iso_->msg, MSG, "no answer within the per-case time limit (hang)");
				return HANG;
			}
			usleep(now() - t0 < 0.05 ? 200 : 3000);
		}
		if (WIFEXITED(st) && WEXITSTATUS(st) == 0) return OK;
		if (WIFEXITED(st) && WEXITSTATUS(st) == 11) return DISC;
		if (WIFEXITED(st) && WEXITSTATUS(st) == 10) return FAILED;
		std::ostringstream m;
		if (WIFSIGNALED(st)) m << "killed by signal " << WTERMSIG(st);
		else m << "process ended with status " << WEXITSTATUS(st);
		if (!errfile.empty())
		{
			std::ifstream f(errfile); std::string line; int n = 0;
			while (std::getline(f, line) && n < 14)
			{
				if (line.find("ERROR") != std::string::npos || line.find("Assertion") != std::string::npos ||
					line.find("terminate") != std::string::npos || line.find("what()") != std::string::npos ||
					line.find("runtime error") != std::string::npos || (line.find("    #") == 0 && line.find("/repo/") != std::string::npos))
				{ m << " | " << line.substr(0, 240); n++; }
			}
		}
		put(iso_->msg, MSG, m.str());
		return CRASH;
	}
	Outcome run_tape (const Facet* f, const std::vector<uint64_t>& tape, bool err = false)
	{
		return isolated([&](Slot* sl) { Src s(tape, &sl->tape); return run_one(f->fn, s, sl); }, err ? errf_ : "", p_.timeout);
	}
	static bool bad (Outcome o) { return o == FAILED || o == CRASH || o == HANG; }
	std::vector<uint64_t> tape_now (void) const
	{
		size_t n = std::min((size_t) iso_->tape.n, MAX_CHOICES);
		return std::vector<uint64_t>(iso_->tape.v, iso_->tape.v + n);
	}
	std::vector<uint64_t> shrink (const Facet* f, std::vector<uint64_t> cur, size_t& used)
	{
		double t0 = now(); used = 0;
		auto attempt = [&](const std::vector<uint64_t>& cand) -> bool
		{
			if (used >= 3000 || now() - t0 > 60) return false;
			used++;
			Outcome o = run_tape(f, cand);
			if (o == FAILED || o == CRASH)
			{
				std::vector<uint64_t> real = tape_now();
				if (real.size() < cur.size() || (real.size() == cur.size() && real < cur)) { cur = real; return true; }
				if (o == CRASH && cand.size() < cur.size()) { cur = cand; return true; }
			}
			return false;
		};
		bool again = true;
		while (again && used < 3000 && now() - t0 < 60)
		{
			again = false;
			for (size_t w : {64, 32, 16, 8, 4, 3, 2, 1})
			{
				for (size_t i = 0; i < cur.size();)
				{
					if (w > 1 && w > cur.size()) break;
					std::vector<uint64_t> c = cur;
					size_t e = std::min(i + w, c.size());
					c.erase(c.begin() + i, c.begin() + e);
					if (attempt(c)) again = true; else i += std::max<size_t>(1, w / 2);
				}
			}
			for (size_t i = 0; i < cur.size(); ++i)
			{
				if (cur[i] == 0) continue;
				std::vector<uint64_t> c = cur; c[i] = 0;
				if (attempt(c)) { again = true; continue; }
				uint64_t lo = 0, hi = cur[i];
				while (i < cur.size() && hi - lo > 1)
				{
					uint64_t mid = lo + (hi - lo) / 2;
					c = cur; c[i] = mid;
					if (attempt(c)) { again = true; hi = std::min(mid, i < cur.size() ? cur[i] : 0); if (hi <= lo) break; }
					else lo = mid;
				}
			}
		}
		return cur;
	}

	// ------------------------------------------------------------ the whole run
	struct Result
	{
		uint64_t evaluations = 0, discarded = 0, nontrivial_total = 0;
		std::unordered_set<uint64_t> distinct;
		std::map<std::string,uint64_t> labels;
		std::vector<std::string> samples;
		bool violated = false;
		std::string facet, message, trace, kind;
		std::vector<uint64_t> tape;
		uint64_t first = 0, last = 0;
		uint64_t shrink_runs = 0;
		uint64_t unreproduced = 0;
		std::string unreproduced_msg;
	};
	void absorb (Result& r, Slot* sl)
	{
		r.evaluations += sl->done; r.discarded += sl->discarded;
		for (size_t i = 0; i < sl->nhash; ++i) r.distinct.insert(sl->hash[i]);
		r.nontrivial_total += sl->nhash;
		for (size_t i = 0; i < NLABEL && sl->lab[i].name[0]; ++i) r.labels[sl->lab[i].name] += sl->lab[i].n;
		for (int i = 0; i < sl->nsample && r.samples.size() < 6; ++i)
		{
			std::string sm = sl->sample[i];
			std::string fn = sm.substr(0, sm.find(':'));
			int have = 0; for (auto& x : r.samples) if (x.substr(0, x.find(':')) == fn) have++;
			if (have == 0 || (have == 1 && r.samples.size() < 3)) r.samples.push_back(sm);
		}
	}
	Result run (const std::string& tmpdir)
	{
		errf_ = tmpdir + "/stderr.txt";
		Result r;
		uint64_t total = thorough_ ? p_.thorough : p_.quick;
		uint64_t next = 0;
		struct W { pid_t pid; uint64_t lo, hi; };
		std::vector<W> w(jobs_, W{0, 0, 0});
		size_t batch = std::min(p_.batch, MAXBATCH);
		batch = std::max<size_t>(1, std::min<size_t>(batch, (total + jobs_ - 1) / jobs_));
		size_t unrep = 0;
		while (true)
		{
			bool busy = false; bool progress = false;
			for (size_t i = 0; i < jobs_; ++i)
			{
				if (w[i].pid == 0)
				{
					if (next >= total || r.violated) continue;
					Slot* sl = slots_[i];
					memset(sl, 0, offsetof(Slot, tape));
					sl->tape.n = 0;
					w[i].lo = next; w[i].hi = std::min(total, next + batch); next = w[i].hi;
					sl->cur = w[i].lo; sl->started = now();
					fflush(stdout); fflush(stderr);
					w[i].pid = fork();
					if (w[i].pid < 0) { w[i].pid = 0; next = w[i].lo; usleep(10000); busy = true; continue; }
					if (w[i].pid == 0) { batch_child(sl, w[i].lo, w[i].hi); }
					busy = true; progress = true;
					continue;
				}
				busy = true;
				int st = 0;
				pid_t d = waitpid(w[i].pid, &st, WNOHANG);
				Slot* sl = slots_[i];
				bool hang = false;
				if (d == 0)
				{
					if (now() - sl->started <= p_.timeout) continue;
					hang = true; kill(w[i].pid, SIGKILL); waitpid(w[i].pid, &st, 0);
				}
				progress = true;
				w[i].pid = 0;
				absorb(r, sl);
				if (!hang && WIFEXITED(st) && WEXITSTATUS(st) == 0) continue;
				// a candidate failure: case sl->cur
				uint64_t idx = sl->cur, lo = w[i].lo, hi = w[i].hi;
				if (!sl->failed) r.evaluations += 1;
				if (!r.violated && confirm(r, idx, lo, hang)) { next = total; }
				else if (!r.violated)
				{
					r.unreproduced++;
					if (r.unreproduced_msg.empty()) r.unreproduced_msg = std::string(sl->failed ? sl->msg : (hang ? "hang" : "crash"));
					if (++unrep > 20) next = total;
					// carry on after the case that failed
					if (idx + 1 < hi) extra_.push_back({idx + 1, hi});
				}
			}
			if (!extra_.empty() && !r.violated)
			{
				// rerun the remainders one after another on the first free worker
				for (size_t i = 0; i < jobs_ && !extra_.empty(); ++i) if (w[i].pid == 0)
				{
					Slot* sl = slots_[i];
					memset(sl, 0, offsetof(Slot, tape)); sl->tape.n = 0;
					w[i].lo = extra_.back().first; w[i].hi = extra_.back().second; extra_.pop_back();
					sl->cur = w[i].lo; sl->started = now();
					w[i].pid = fork();
					if (w[i].pid == 0) batch_child(sl, w[i].lo, w[i].hi);
					busy = true;
				}
			}
			if (!busy) break;
			if (r.violated) { for (auto& x : w) if (x.pid > 0) { kill(x.pid, SIGKILL); int st; waitpid(x.pid, &st, 0); x.pid = 0; } break; }
			if (!progress) usleep(1500);
		}
		return r;
	}
	bool confirm (Result& r, uint64_t idx, uint64_t lo, bool hang)
	{
		const Facet* f = facet_of(idx);
		// alone, from the seed
		Outcome o = isolated([&](Slot* sl) { Src s(case_seed(idx), &sl->tape); return run_one(f->fn, s, sl); }, errf_, p_.timeout);
		if (bad(o))
		{
			std::vector<uint64_t> tape = tape_now();
			int again = 0;
			for (int k = 0; k < 3; ++k) if (bad(run_tape(f, tape))) again++;
			if (again < 3) return false;
			if (o != HANG) { size_t used = 0; tape = shrink(f, tape, used); r.shrink_runs = used; }
			o = run_tape(f, tape, true);
			r.violated = true; r.kind = "case"; r.facet = f->name; r.tape = tape;
			r.message = iso_->msg; r.trace = iso_->trace;
			return true;
		}
		if (hang) return false;
		// only after the cases before it in the same process
		auto prefix = [&](uint64_t from) -> Outcome
		{
			return isolated([&](Slot* sl)
			{
				for (uint64_t i = from; i <= idx; ++i)
				{
					Src s(case_seed(i), &sl->tape);
					if (2 == run_one(facet_of(i)->fn, s, sl)) return 2;
				}
				return 0;
			}, errf_, p_.timeout * 3);
		};
		for (int k = 0; k < 3; ++k) if (!bad(prefix(lo))) return false;
		uint64_t from = lo;
		for (uint64_t c = idx; c > lo && c + 24 > idx; --c) if (bad(prefix(c))) { from = c; break; }
		prefix(from);
		r.violated = true; r.kind = "sequence"; r.facet = f->name; r.first = from; r.last = idx;
		r.message = iso_->msg; r.trace = iso_->trace;
		return true;
	}
	Outcome replay_sequence (uint64_t from, uint64_t to, const std::string& errfile)
	{
		return isolated([&](Slot* sl)
		{
			for (uint64_t i = from; i <= to; ++i)
			{
				Src s(case_seed(i), &sl->tape);
				if (2 == run_one(facet_of(i)->fn, s, sl)) return 2;
			}
			return 0;
		}, errfile, p_.timeout * 3);
	}
	Outcome run_known (const Known& k, const std::string& tmpdir)
	{
		return isolated([&](Slot* sl) { std::vector<uint64_t> none; Src s(none, &sl->tape); return run_one(k.fn, s, sl); }, tmpdir + "/known.txt", p_.timeout);
	}
	Slot* iso_;
	std::string errf_;
private:
	const Prop& p_;
	uint64_t seed_;
	bool thorough_;
	size_t jobs_;
	std::vector<const Facet*> order_;
	std::vector<Slot*> slots_;
	std::vector<std::pair<uint64_t,uint64_t>> extra_;
};

inline std::string js (const std::string& s)
{
	std::ostringstream o; o << '"';
	for (unsigned char c : s)
	{
		if (c == '"' || c == '\\') o << '\\' << c;
		else if (c == '\n') o << "\\n";
		else if (c == '\t') o << "\\t";
		else if (c < 32 || c > 126) { char b[8]; snprintf(b, 8, "\\u%04x", c); o << b; }
		else o << c;
	}
	o << '"'; return o.str();
}

// harness entry: --out FILE --replaydir DIR --tmp DIR --seed N --tier quick|thorough [--jobs N] [--cases N]
//                --replay FILE
inline int harness_main (int argc, char** argv, std::vector<Prop> props)
{
	if (!getenv("PBT_NOREEXEC"))
	{
		setenv("PBT_NOREEXEC", "1", 1);
		int per = personality(0xffffffff);
		if (per != -1 && !(per & ADDR_NO_RANDOMIZE) && personality(per | ADDR_NO_RANDOMIZE) != -1)
			execv("/proc/self/exe", argv);
	}
	std::map<std::string,std::string> a;
	for (int i = 1; i + 1 < argc; i += 2) a[argv[i]] = argv[i + 1];
	uint64_t seed = a.count("--seed") ? strtoull(a["--seed"].c_str(), 0, 10) : 1;
	bool thorough = a["--tier"] == "thorough";
	size_t jobs = a.count("--jobs") ? atoi(a["--jobs"].c_str()) : 8;
	Prop* p = &props[0];
	for (Prop& x : props) if (x.id == a["--prop"]) p = &x;
	if (a.count("--cases")) p->quick = p->thorough = strtoull(a["--cases"].c_str(), 0, 10);
	std::string tmp = a.count("--tmp") ? a["--tmp"] : "/tmp";
	if (a.count("--only"))
	{
		std::vector<Facet> keep;
		for (const Facet& f : p->facets) if (a["--only"] == f.name) keep.push_back(f);
		p->facets = keep;
	}

	if (a.count("--replay"))
	{
		std::ifstream in(a["--replay"]); std::string line, facet, kind = "case"; std::vector<uint64_t> tape;
		uint64_t first = 0, last = 0;
		while (std::getline(in, line) && line != "---")
		{
			std::istringstream ls(line); std::string k; ls >> k;
			if (k == "facet") ls >> facet;
			else if (k == "kind") ls >> kind;
			else if (k == "seed") ls >> seed;
			else if (k == "first") ls >> first;
			else if (k == "last") ls >> last;
			else if (k == "choices") { uint64_t v; while (ls >> v) tape.push_back(v); }
		}
		Engine e(*p, seed, thorough, 1);
		e.errf_ = tmp + "/stderr.txt";
		Outcome o;
		if (kind == "sequence") o = e.replay_sequence(first, last, e.errf_);
		else
		{
			const Facet* f = e.facet_named(facet);
			if (!f) { fprintf(stderr, "no facet %s\n", facet.c_str()); return 2; }
			o = e.run_tape(f, tape, true);
		}
		printf("outcome: %s\nmessage: %s\ntrace:\n%s\n", Engine::bad(o) ? "FAILS" : (o == DISC ? "discarded" : "holds"), e.iso_->msg, e.iso_->trace);
		return Engine::bad(o) ? 1 : 0;
	}

	double t0 = now();
	Engine e(*p, seed, thorough, jobs);
	e.errf_ = tmp + "/stderr.txt";
	// recorded findings first
	std::ostringstream kn;
	for (size_t i = 0; i < p->known.size(); ++i)
	{
		Outcome o = e.run_known(p->known[i], tmp);
		kn << (i ? "," : "") << "{\"key\":" << js(p->known[i].key) << ",\"fails\":" << (Engine::bad(o) ? "true" : "false")
			<< ",\"what\":" << js(p->known[i].what) << ",\"message\":" << js(e.iso_->msg) << "}";
	}
	Engine::Result r = e.run(tmp);
	std::string rp;
	if (r.violated)
	{
		std::ostringstream name; name << a["--replaydir"] << "/" << p->id << "-" << (thorough ? "thorough" : "quick") << "-" << seed << ".replay";
		rp = name.str();
		std::ofstream f(rp);
		f << "property " << p->id << "\nfacet " << r.facet << "\nkind " << r.kind << "\nseed " << seed << "\n";
		if (r.kind == "sequence") f << "first " << r.first << "\nlast " << r.last << "\n";
		f << "choices"; for (uint64_t v : r.tape) f << " " << v; f << "\n---\n";
		f << "message: " << r.message << "\n\ntrace:\n" << r.trace << "\n";
	}
	std::ofstream o(a["--out"]);
	o << "{\"property\":" << js(p->id) << ",\"evaluations\":" << r.evaluations << ",\"discarded\":" << r.discarded
		<< ",\"distinct_nontrivial\":" << r.distinct.size() << ",\"nontrivial_total\":" << r.nontrivial_total << ",\"rule\":" << js(p->rule);
	o << ",\"labels\":{"; bool first = true;
	for (auto& l : r.labels) { o << (first ? "" : ",") << js(l.first) << ":" << l.second; first = false; }
	o << "},\"samples\":["; first = true;
	for (auto& s : r.samples) { o << (first ? "" : ",") << js(s.substr(0, 1500)); first = false; }
	o << "],\"assumptions\":["; first = true;
	for (auto& s : p->assumptions) { o << (first ? "" : ",") << js(s); first = false; }
	o << "],\"facets\":["; first = true;
	for (auto& s : p->facets) { o << (first ? "" : ",") << js(s.name); first = false; }
	o << "],\"known\":[" << kn.str() << "]";
	o << ",\"violated\":" << (r.violated ? "true" : "false") << ",\"replay\":" << js(rp) << ",\"message\":" << js(r.message)
		<< ",\"trace\":" << js(r.trace) << ",\"facet\":" << js(r.facet) << ",\"shrink_runs\":" << r.shrink_runs
		<< ",\"unreproduced\":" << r.unreproduced << ",\"unreproduced_msg\":" << js(r.unreproduced_msg)
		<< ",\"min_nontrivial\":" << p->min_nontrivial << ",\"wall_s\":" << (now() - t0) << "}\n";
	return r.violated ? 1 : 0;
}

} // namespace pbt

extern "C" const char* __asan_default_options (void)
{
	return "detect_leaks=0:exitcode=77:abort_on_error=0:allocator_may_return_null=1:detect_odr_violation=0:handle_abort=0:malloc_context_size=12:max_allocation_size_mb=2048:symbolize=0";
}
