// C22: profiling sessions, in every interleaving of the threads that are profiled.
#include "mc.h"
#include "interleave.h"
#include "json.h"
#include "core/base.h"
#include "debug/profiler.h"
#include <fstream>
#include <map>
#include <memory>
#include <set>
#include <sys/stat.h>
#include <unistd.h>
using namespace Planner;

// Virtual clock: every reading is unique and logged for the thread that takes it.
namespace {
	long long ticks = 1000, advance = 7;
	std::vector<long long> readings[8];
	long long tick()
	{
		sched::Quiet q;
		ticks += advance;
		readings[sched::self() + 1].push_back(ticks);
		return ticks;
	}
}
namespace std {
	namespace chrono {
		inline namespace _V2 {
			__attribute__((no_sanitize("thread"))) system_clock::time_point system_clock::now() noexcept { return system_clock::time_point(std::chrono::duration_cast<system_clock::duration>(std::chrono::microseconds(tick()))); }
			__attribute__((no_sanitize("thread"))) steady_clock::time_point steady_clock::now() noexcept { return steady_clock::time_point(std::chrono::duration_cast<steady_clock::duration>(std::chrono::microseconds(tick()))); }
		}
	}
}

namespace {
	struct Record {
		std::string name;
		long long start, dur;
		std::string tid;
		bool operator==(const Record& r) const { return name == r.name && start == r.start && dur == r.dur && tid == r.tid; }
	};
	std::ostream& operator<<(std::ostream& o, const Record& r) { return o << "{" << r.name << " at " << r.start << " for " << r.dur << " in " << r.tid << "}"; }
	void enter()
	{
		static bool once = [] {
			std::string d = "profiler-" + std::to_string(getpid());
			mkdir(d.c_str(), 0700);
			if (chdir(d.c_str())) {
				fprintf(stderr, "no scratch directory\n");
				_exit(3);
			}
			return true;
		}();
		(void)once;
		Profiler::Release();
		unlink("profiling.json");
		advance = 7;
		for (auto& r : readings)
			r.clear();
	}
	std::string file()
	{
		std::ifstream f("profiling.json", std::ios::binary);
		std::stringstream s;
		s << f.rdbuf();
		return s.str();
	}
	std::string tid()
	{
		sched::Quiet q;
		std::stringstream s;
		s << std::this_thread::get_id();
		return s.str();
	}
	/// Records of the trace, which must be a well formed JSON document.
	/// @param open the session has not ended, the end of the document may be missing
	std::vector<Record> parse(const std::string& text, bool open)
	{
		json::Value v;
		bool ok = json::parse(text, v);
		if (!ok && open)
			ok = json::parse(text + "]}", v);
		MC_CHECK(ok, "the trace is not a valid JSON document: " << text);
		const json::Value* ev = v.get("traceEvents");
		MC_CHECK(ev && ev->kind == json::Value::Array, "the trace has no list of events: " << text);
		std::vector<Record> out;
		for (auto& e : ev->items) {
			MC_CHECK(e.kind == json::Value::Object, "an event of the trace is not an object: " << text);
			if (e.members.empty())
				continue;
			auto str = [&](const char* k) {
				auto m = e.get(k);
				MC_CHECK(m, "an event of the trace has no " << k << ": " << text);
				return m->text;
			};
			MC_CHECK(str("ph") == "X", "an event of the trace is not a complete event: " << text);
			str("cat");
			str("pid");
			MC_CHECK(e.get("name")->kind == json::Value::String && e.get("ts")->kind == json::Value::Number && e.get("dur")->kind == json::Value::Number, "ill-typed event in " << text);
			out.push_back({ str("name"), atoll(str("ts").c_str()), atoll(str("dur").c_str()), str("tid") });
		}
		return out;
	}
	void expect(const std::string& when, const std::vector<Record>& want, bool open)
	{
		auto got = parse(file(), open);
		MC_CHECK(got.size() == want.size(), when << ": the trace has " << got.size() << " events instead of " << want.size());
		for (size_t i = 0; i < want.size(); i++)
			MC_CHECK(got[i] == want[i], when << ": the event " << i << " is " << got[i] << " instead of " << want[i]);
		mc::transition();
	}
	/// What thread t runs. Logs the records in the order in which they end.
	void program(int prog, int t, std::vector<Record>& log)
	{
		auto& r = readings[sched::self() + 1];
		const std::string id = tid();
		auto start = [&] {
			sched::Quiet q;
			return r.back();
		};
		auto done = [&](Record x) {
			sched::Quiet q;
			log.push_back(std::move(x));
		};
		if (prog == 0) {
			long long s;
			{
				ProfilingTimer a(t ? "one" : "zero");
				s = start();
			}
			done({ t ? "one" : "zero", s, start() - s, id });
		} else if (prog == 1) {
			// nested
			long long s, s2;
			{
				ProfilingTimer a("outer");
				s = start();
				{
					ProfilingTimer b("inner");
					s2 = start();
				}
				done({ "inner", s2, start() - s2, id });
			}
			done({ "outer", s, start() - s, id });
		} else if (prog == 2) {
			// long name: the text of the record exceeds every buffer
			std::string n(700 + t, (char)('a' + t));
			Profiler::Get().WriteProfile({ n, 5 + t, 9 + 3 * t, std::this_thread::get_id() });
			done({ n, 5 + t, 4 + 2 * t, id });
			Profiler::Get().WriteProfile({ "short", 50, 60, std::this_thread::get_id() });
			done({ "short", 50, 10, id });
		}
	}
}

// Every interleaving of threads that are profiled.
MC_SCENARIO(C22, threads, 0)
{
	int n = mc::thorough() ? 2 + mc::choose(2) : 2;
	std::vector<int> prog;
	std::string s;
	for (int i = 0; i < n; i++) {
		prog.push_back(mc::choose(3));
		s += (char)('0' + prog.back());
	}
	mc::split();
	enter();
	Profiler::Init();
	std::vector<std::vector<Record>> logs(n);
	std::vector<std::function<void()>> fns;
	for (int i = 0; i < n; i++)
		fns.push_back([&, i] { program(prog[i], i, logs[i]); });
	auto race = sched::run(fns, n == 3 ? 1 : mc::thorough() ? 3 : 2);
	mc::note(mc::Str() << "programs " << s << ", " << sched::points << " scheduling points, " << sched::switches << " switches");
	MC_CHECK(race.empty(), "programs " << s << ": data race: " << race);
	for (int ended = 0; ended < 2; ended++) {
		if (ended)
			Profiler::Release();
		auto got = parse(file(), !ended);
		size_t want = 0;
		for (auto& l : logs)
			want += l.size();
		MC_CHECK(got.size() == want, "programs " << s << ": the trace has " << got.size() << " events instead of " << want);
		// The events of each thread, in order
		std::vector<size_t> pos(n);
		std::string order;
		for (auto& g : got) {
			bool found = false;
			for (int i = 0; i < n && !found; i++)
				if (pos[i] < logs[i].size() && logs[i][pos[i]] == g) {
					pos[i]++;
					found = true;
					order += (char)('0' + i);
				}
			MC_CHECK(found, "programs " << s << ": the event " << g << " is not the next one of any thread");
		}
		mc::outcome(mc::hashBytes((s + order).data(), s.size() + order.size()));
		mc::state(mc::hashBytes((s + order).data(), s.size() + order.size()));
		mc::transition(sched::points);
	}
}
// Nested timers in every order, one of them stopped early: at each step (a crash there) the trace holds every ended scope.
MC_SCENARIO(C22, nesting, 0)
{
	enter();
	Profiler::Init();
	struct T {
		std::unique_ptr<ProfilingTimer> timer;
		std::string name;
		long long start;
		bool stopped = false;
	};
	std::vector<T> open;
	std::vector<Record> want;
	const int n = mc::thorough() ? 10 : 7;
	advance = mc::pick({ 7, 0 }); // scopes too short for the clock are recorded too
	static const char* names[] = { "a", "b c", "void f(int, std::vector<Pose2<T> >) [with T = double]" };
	std::string s;
	auto& r = readings[0];
	for (int i = 0; i < n; i++) {
		int op = mc::choose(open.empty() ? 2 : 5);
		if (i == 2)
			mc::split();
		s += (char)('0' + op);
		mc::note(mc::Str() << "operations " << s);
		if (op < 2) {
			T t;
			t.name = names[op + (i % 2)];
			t.timer.reset(new ProfilingTimer(names[op + (i % 2)]));
			t.start = r.back();
			open.push_back(std::move(t));
		} else if (op == 2 || op == 3) {
			// ends the last one (in any order for op 3)
			size_t k = op == 2 ? open.size() - 1 : 0;
			size_t reads = r.size();
			open[k].timer.reset();
			if (!open[k].stopped)
				want.push_back({ open[k].name, open[k].start, r.back() - open[k].start, tid() });
			else
				MC_CHECK(r.size() == reads, "a stopped timer is stopped again");
			open.erase(open.begin() + k);
		} else {
			T& t = open.back();
			if (t.stopped)
				continue;
			t.timer->Stop();
			t.stopped = true;
			want.push_back({ t.name, t.start, r.back() - t.start, tid() });
		}
		expect("after " + s, want, true);
	}
	while (!open.empty()) {
		T t = std::move(open.back());
		open.pop_back();
		t.timer.reset();
		if (!t.stopped)
			want.push_back({ t.name, t.start, r.back() - t.start, tid() });
	}
	Profiler::Release();
	expect("at the end of " + s, want, false);
	mc::state(mc::hashBytes(s.data(), s.size()));
}
// Sessions begun and ended in every order.
MC_SCENARIO(C22, sessions, 0)
{
	enter();
	const int n = mc::thorough() ? 9 : 7;
	bool on = false, ever = false;
	std::vector<Record> want;
	std::string s;
	for (int i = 0; i < n; i++) {
		int op = mc::choose(3);
		if (i == 2)
			mc::split();
		s += "IRW"[op];
		mc::note(mc::Str() << "operations " << s);
		if (op == 0) {
			if (!on)
				want.clear();
			Profiler::Init();
			on = ever = true;
		} else if (op == 1) {
			Profiler::Release();
			on = false;
		} else {
			if (!on)
				want.clear();
			on = ever = true;
			long long st;
			{
				ProfilingTimer t("work");
				st = readings[0].back();
			}
			want.push_back({ "work", st, readings[0].back() - st, tid() });
		}
		if (ever)
			expect("after " + s, want, on);
	}
	mc::state(mc::hashBytes(s.data(), s.size()));
}
namespace {
	template <size_t N, size_t K>
	void names(const char (&remove)[K])
	{
		char a[N] = {};
		for (size_t i = 0; i + 1 < N; i++)
			a[i] = "ab\"c"[mc::choose(4)];
		auto got = ProfilerUtilities::CleanupOutputString(a, remove);
		std::string in = a, rem = remove, want;
		for (size_t i = 0; i < in.size();) {
			if (!rem.empty() && in.compare(i, rem.size(), rem) == 0) {
				i += rem.size();
				continue;
			}
			want += in[i] == '"' ? '\'' : in[i];
			i++;
		}
		MC_CHECK(std::string(got.Data) == want, "removing <" << rem << "> from <" << in << "> gives <" << got.Data << "> instead of <" << want << ">");
		// A scope of this name
		static int count = 0;
		if (count++ % 61 == 0) {
			Profiler::Init();
			{
				ProfilingTimer t(got.Data);
			}
			auto rec = parse(file(), true);
			MC_CHECK(!rec.empty() && rec.back().name == want, "the name <" << want << "> is not in the trace");
			Profiler::Release();
			parse(file(), false);
		}
		mc::state(mc::hashBytes(got.Data, N));
		mc::transition();
	}
	template <size_t K>
	void namesOf(const char (&remove)[K])
	{
		int n = mc::choose(mc::thorough() ? 9 : 7);
		mc::split();
		switch (n) {
		case 0: names<1>(remove); break;
		case 1: names<2>(remove); break;
		case 2: names<3>(remove); break;
		case 3: names<4>(remove); break;
		case 4: names<5>(remove); break;
		case 5: names<6>(remove); break;
		case 6: names<7>(remove); break;
		case 7: names<8>(remove); break;
		case 8: names<9>(remove); break;
		}
	}
}
// Names: quotes and calling conventions removed.
MC_SCENARIO(C22, names, 0)
{
	enter();
	switch (mc::choose(4)) {
	case 0: namesOf("a"); break;
	case 1: namesOf("ab"); break;
	case 2: namesOf("aab"); break;
	case 3: namesOf(""); break;
	}
}
namespace {
	int depth(int n)
	{
		PP_PROFILE_FUNCTION();
		if (n == 0)
			return 0;
		PP_PROFILE_SCOPE("say \"n\"");
		return 1 + depth(n - 1);
	}
	template <typename T>
	T generic(T t)
	{
		PP_PROFILE_FUNCTION();
		return t;
	}
}
// The macros record one event per scope, under the name of the function or scope.
MC_SCENARIO(C22, macros, 0)
{
	enter();
	PP_INIT_PROFILER;
	int n = mc::choose(6);
	depth(n);
	auto got = parse(file(), true);
	MC_CHECK((int)got.size() == 2 * n + 1, got.size() << " events instead of " << 2 * n + 1);
	// depth: the scopes end innermost first
	for (size_t i = 0; i < got.size(); i++)
		if (i % 2)
			MC_CHECK(got[i].name == "say 'n'", "name " << got[i].name);
		else
			MC_CHECK(got[i].name.find("depth") != std::string::npos, "name " << got[i].name);
	for (size_t i = 1; i < got.size(); i++)
		MC_CHECK(got[i].start < got[i - 1].start && got[i].start + got[i].dur > got[i - 1].start + got[i - 1].dur, "the events are not nested");
	generic(1);
	generic(2.0);
	got = parse(file(), true);
	MC_CHECK((int)got.size() == 2 * n + 3, "a function is not recorded");
	MC_CHECK(got[2 * n + 1].name.find("int") != std::string::npos && got[2 * n + 2].name.find("double") != std::string::npos, "names " << got[2 * n + 1].name << ", " << got[2 * n + 2].name);
	Profiler::Release();
	MC_CHECK(parse(file(), false).size() == got.size(), "events are lost at the end of the session");
	mc::transition();
}
// Long sessions, of many records with all sorts of durations, one session after the other.
MC_SCENARIO(C22, many, 0)
{
	enter();
	const long long base[] = { 0, 5, 2147483600LL, 4294967290LL, 1700000000000000LL };
	const int sizes[] = { 0, 1, 2, 63, 64, 65, 130, 1100 };
	long long b = base[mc::choose(5)];
	int first = sizes[mc::choose(8)];
	mc::split();
	int second = sizes[2 * mc::choose(4) + 1];
	bool scopes = mc::choose(2);
	mc::note(mc::Str() << first << " then " << second << (scopes ? " scopes" : " records") << " from the time " << b);
	long long was = ticks;
	for (int n : { first, second }) {
		Profiler::Init();
		std::vector<Record> want;
		ticks = b + 1;
		for (int i = 0; i < n; i++) {
			if (scopes) {
				long long st;
				{
					ProfilingTimer t("a scope");
					st = readings[0].back();
					if (i % 7 == 3)
						ticks += 3000000000LL;
				}
				want.push_back({ "a scope", st, readings[0].back() - st, tid() });
			} else {
				std::string name = "record " + std::to_string(i);
				long long st = b + i, d = i % 3 == 0 ? 0 : i % 3 == 1 ? i : 5000000000LL;
				Profiler::Get().WriteProfile({ name, st, st + d, std::this_thread::get_id() });
				want.push_back({ name, st, d, tid() });
			}
			if (i < 3 || (i & (i + 1)) == 0)
				expect("record " + std::to_string(i), want, true);
		}
		expect("before the end", want, true);
		Profiler::Release();
		expect("at the end", want, false);
		mc::state(mc::mix(mc::mix(mc::mix(b, first), n), scopes));
	}
	ticks = was;
}
