#include "mc.h"
#include <fcntl.h>
#include <sys/mman.h>
#include <sys/stat.h>
#include <unistd.h>
#include <time.h>
#include <unordered_map>
#include <unordered_set>

namespace {
	struct Scen {
		std::string prop, name;
		int tier;
		void (*fn)();
	};
	std::vector<Scen>& scens()
	{
		static std::vector<Scen> s;
		return s;
	}
	struct C {
		int v, n;
	};
	// Status shared with the runner through a mapped file.
	struct Status {
		uint64_t progress;
		uint64_t scenario;
		uint64_t phase;
		uint64_t len;
		int32_t choices[4096];
	};
	Status dummy;
	Status* st = &dummy;

	std::vector<C> stack;
	size_t pos = 0;
	long changed = -1; // index of the deepest choice changed by the last backtrack
	bool replaying = false;
	bool isThorough = false;
	int shard = 0, shards = 1;
	uint64_t splitCounter = 0;
	bool hasSplit = false;
	uint64_t nExec = 0, nPruned = 0, nTrans = 0, nChoices = 0, nStates = 0;
	std::unordered_set<uint64_t> states, outcomes;
	std::unordered_map<uint64_t, int> depthOf;
	const size_t kStateCap = 12000000;
	bool stateCapHit = false;
	std::string notes;
	bool wantNotes = false;
	std::function<uint64_t()> rng;
	uint64_t lcg = 88172645463325252ull;

	double now()
	{
		timespec t;
		clock_gettime(CLOCK_MONOTONIC, &t);
		return t.tv_sec + t.tv_nsec * 1e-9;
	}
	std::string jesc(const std::string& s)
	{
		std::string r;
		for (unsigned char c : s) {
			if (c == '"' || c == '\\') {
				r += '\\';
				r += c;
			} else if (c == '\n')
				r += "\\n";
			else if (c < 32 || c > 126) {
				char b[8];
				snprintf(b, 8, "\\u%04x", c);
				r += b;
			} else
				r += c;
		}
		return r;
	}
	std::string choicesStr()
	{
		std::string s;
		for (auto& c : stack)
			s += (s.empty() ? "" : ",") + std::to_string(c.v);
		return s;
	}
}

extern "C" uint64_t verif_rng_draw()
{
	if (rng)
		return rng();
	lcg ^= lcg << 13;
	lcg ^= lcg >> 7;
	lcg ^= lcg << 17;
	return lcg;
}

namespace mc {
	Reg::Reg(const char* prop, const char* name, int tier, void (*fn)()) { scens().push_back({ prop, name, tier, fn }); }

	int choose(int n)
	{
		if (n <= 0) {
			fprintf(stderr, "choose(%d)\n", n);
			_exit(3);
		}
		if (n == 1)
			return 0;
		nChoices++;
		if (pos < stack.size()) {
			if (replaying) {
				stack[pos].n = n;
				if (stack[pos].v >= n) {
					fprintf(stderr, "replay: choice %d out of range %d at %zu\n", stack[pos].v, n, pos);
					_exit(3);
				}
			} else if (stack[pos].n != n) {
				fprintf(stderr, "nondeterministic execution: choice %zu had %d options, now %d\n", pos, stack[pos].n, n);
				_exit(3);
			}
		} else {
			stack.push_back({ 0, n });
			if (pos < 4096) {
				st->choices[pos] = 0;
				st->len = pos + 1;
			}
		}
		return stack[pos++].v;
	}
	void split()
	{
		if (replaying)
			return;
		hasSplit = true;
		if (changed < (long)pos) { // the prefix is new
			if ((int)(splitCounter++ % shards) != shard)
				throw Prune();
		}
	}
	void prune() { throw Prune(); }
	bool state(uint64_t h)
	{
		if (states.size() >= kStateCap) {
			stateCapHit = true;
			nStates++;
			return true;
		}
		bool fresh = states.insert(h).second;
		if (fresh)
			nStates++;
		return fresh;
	}
	bool visit(uint64_t h, int remaining)
	{
		// While re-executing an already explored prefix nothing is pruned:
		// the visit that registered the state is the one being extended.
		if (replaying || changed >= (long)pos)
			return true;
		auto it = depthOf.find(h);
		if (it == depthOf.end()) {
			if (depthOf.size() < kStateCap) {
				depthOf.emplace(h, remaining);
			} else
				stateCapHit = true;
			nStates++;
			return true;
		}
		if (it->second >= remaining)
			return false;
		it->second = remaining;
		return true;
	}
	void outcome(uint64_t h)
	{
		if (outcomes.size() < 1000000)
			outcomes.insert(h);
	}
	void transition(uint64_t n)
	{
		nTrans += n;
		st->progress++;
	}
	void note(const std::string& s)
	{
		if (wantNotes && notes.size() < 4000)
			notes += s + "; ";
	}
	bool noting() { return wantNotes; }
	void fail(const std::string& msg) { throw Violation { msg }; }
	bool thorough() { return isThorough; }
	void setRandomSource(std::function<uint64_t()> src)
	{
		rng = std::move(src);
		lcg = 88172645463325252ull;
	}
}

int main(int argc, char** argv)
{
	std::string prop, only, replay, statusFile;
	bool list = false, haveReplay = false;
	double deadline = 1e18;
	for (int i = 1; i < argc; i++) {
		std::string a = argv[i];
		auto next = [&] { return std::string(argv[++i]); };
		if (a == "--prop")
			prop = next();
		else if (a == "--scenario")
			only = next();
		else if (a == "--thorough")
			isThorough = true;
		else if (a == "--shard") {
			auto s = next();
			sscanf(s.c_str(), "%d/%d", &shard, &shards);
		} else if (a == "--replay") {
			replay = next();
			haveReplay = true;
		} else if (a == "--status")
			statusFile = next();
		else if (a == "--deadline")
			deadline = now() + atof(next().c_str());
		else if (a == "--list")
			list = true;
	}
	if (!statusFile.empty()) {
		int fd = open(statusFile.c_str(), O_RDWR | O_CREAT, 0600);
		if (fd < 0 || ftruncate(fd, sizeof(Status)))
			return 3;
		st = (Status*)mmap(nullptr, sizeof(Status), PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0);
	}
	int idx = -1;
	for (auto& s : scens()) {
		idx++;
		if ((!prop.empty() && s.prop != prop) || (!only.empty() && s.name != only))
			continue;
		if (s.tier > 0 && !isThorough)
			continue;
		if (list) {
			printf("%s\n", s.name.c_str());
			continue;
		}
		stack.clear();
		changed = -1;
		splitCounter = 0;
		hasSplit = false;
		nExec = nPruned = nTrans = nChoices = nStates = 0;
		states.clear();
		depthOf.clear();
		outcomes.clear();
		stateCapHit = false;
		st->scenario = idx;
		st->len = 0;
		st->phase = 1;
		replaying = haveReplay;
		double t0 = now();
		std::vector<std::string> samples;
		bool complete = true, violated = false;
		std::string msg;
		if (replaying) {
			std::stringstream ss(replay);
			std::string tok;
			while (std::getline(ss, tok, ','))
				if (!tok.empty())
					stack.push_back({ atoi(tok.c_str()), 1 << 30 });
		}
		while (true) {
			pos = 0;
			notes.clear();
			wantNotes = replaying || samples.size() < 2 || (nExec == 97 || nExec == 997) ;
			st->len = std::min<size_t>(stack.size(), 4096);
			for (size_t i = 0; i < st->len; i++)
				st->choices[i] = stack[i].v;
			st->progress++;
			bool pruned = false;
			try {
				s.fn();
			} catch (mc::Prune&) {
				pruned = true;
				nPruned++;
			} catch (mc::Violation& v) {
				violated = true;
				msg = v.msg;
			} catch (std::exception& e) {
				violated = true;
				msg = std::string("unexpected exception: ") + e.what();
			}
			rng = nullptr;
			if (!hasSplit && shard != 0 && !replaying) {
				// Scenario without shard boundary: only worker 0 runs it.
				nExec = nPruned = nTrans = nChoices = nStates = 0;
				states.clear();
				depthOf.clear();
				outcomes.clear();
				violated = false;
				break;
			}
			if (violated) {
				stack.resize(std::min(stack.size(), std::max(pos, (size_t)0)));
				break;
			}
			if (!pruned) {
				nExec++;
				if (wantNotes && !notes.empty())
					samples.push_back(notes);
			}
			if (replaying)
				break;
			while (!stack.empty() && stack.back().v + 1 >= stack.back().n)
				stack.pop_back();
			if (stack.empty())
				break;
			stack.back().v++;
			changed = (long)stack.size() - 1;
			if ((nExec & 15) == 0 && now() > deadline) {
				complete = false;
				break;
			}
		}
		printf("{\"scenario\":\"%s\",\"executions\":%llu,\"pruned\":%llu,\"transitions\":%llu,\"choices\":%llu,\"states\":%llu,\"outcomes\":%zu,\"complete\":%s,\"cap\":%s,\"wall\":%.3f,\"violated\":%s",
			s.name.c_str(), (unsigned long long)nExec, (unsigned long long)nPruned, (unsigned long long)nTrans,
			(unsigned long long)nChoices, (unsigned long long)nStates, outcomes.size(), complete ? "true" : "false",
			stateCapHit ? "true" : "false", now() - t0, violated ? "true" : "false");
		if (violated)
			printf(",\"msg\":\"%s\",\"choices_seq\":\"%s\",\"notes\":\"%s\"", jesc(msg).c_str(), choicesStr().c_str(), jesc(notes).c_str());
		printf(",\"samples\":[");
		for (size_t i = 0; i < samples.size() && i < 4; i++)
			printf("%s\"%s\"", i ? "," : "", jesc(samples[i].substr(0, 1500)).c_str());
		printf("]}\n");
		fflush(stdout);
		if (violated)
			break;
	}
	st->phase = 2;
	fflush(stdout);
	_exit(0);
}
