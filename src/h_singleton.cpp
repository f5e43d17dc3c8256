// C23: singletons. Every interleaving of the threads that get a thread safe
// singleton, and every sequence of operations on each kind of singleton.
#include "mc.h"
#include "interleave.h"
#include <algorithm>
#include <memory>
#include <set>
#include <stdexcept>
#include "core/base.h"
#include "utils/singleton.h"
using namespace Planner;

namespace {
	int constructed, destroyed, alive, most, failing;
	const int MAGIC = 0x5eed;
	struct Tracked {
		Tracked()
		{
			sched::Quiet q;
			if (failing > 0) {
				failing--;
				throw std::runtime_error("constructor");
			}
			constructed++;
			alive++;
			most = std::max(most, alive);
		}
		~Tracked()
		{
			sched::Quiet q;
			destroyed++;
			alive--;
		}
	};
	void reset() { constructed = destroyed = alive = most = failing = 0; }

	class Safe : public SingletonThreadSafe<Safe> {
		friend class SingletonThreadSafe<Safe>;
		Safe() { a = MAGIC; }
		Tracked t;

	public:
		~Safe() { a = -1; }
		int a, b = 7;
		std::vector<int> v = { 1, 2, 3 };
		bool complete() const { return a == MAGIC && b == 7 && v.size() == 3 && v[2] == 3; }
	};
	class Other : public SingletonThreadSafe<Other> {
		friend class SingletonThreadSafe<Other>;
		Other() { }

	public:
		int a = 11;
	};
	class Plain : public Singleton<Plain> {
		friend class Singleton<Plain>;
		Plain() { }
		Tracked t;

	public:
		int value = MAGIC;
	};
	class Args : public SingletonInit<Args> {
		friend class SingletonInit<Args>;
		Args(int a, const std::string& b) :
			a(a), b(b) { }
		Tracked t;

	public:
		int a;
		std::string b;
	};
}

// Threads that get the instance: one complete instance, whichever thread creates it.
MC_SCENARIO(C23, threads, 0)
{
	int n = 2 + mc::choose(2);
	// What happened before: nothing, the instance exists, it has been released, or its first creation throws
	int before = mc::choose(4);
	std::vector<int> gets;
	for (int i = 0; i < n; i++)
		gets.push_back(1 + mc::choose(2));
	mc::split();
	Safe::Release();
	reset();
	if (before == 1 || before == 2)
		Safe::Get();
	if (before == 2)
		Safe::Release();
	int c0 = constructed, d0 = destroyed;
	if (before == 3)
		failing = 1;
	std::vector<std::vector<Safe*>> seen(n);
	std::vector<std::vector<bool>> ok(n);
	std::vector<int> thrown(n);
	std::vector<std::function<void()>> fns;
	for (int i = 0; i < n; i++)
		fns.push_back([&, i] {
			int count;
			{
				sched::Quiet q;
				count = gets[i];
			}
			for (int g = 0; g < count; g++) {
				Safe* p = nullptr;
				try {
					p = &Safe::Get();
				} catch (std::runtime_error&) {
				}
				bool c = p && p->complete();
				sched::Quiet q;
				if (p) {
					seen[i].push_back(p);
					ok[i].push_back(c);
				} else
					thrown[i]++;
			}
		});
	auto race = sched::run(fns, n == 3 ? 2 : (mc::thorough() ? 5 : 3));
	auto what = [&] { return (std::string)(mc::Str() << n << " threads, " << (before == 0 ? "no instance" : before == 1 ? "an instance" : before == 2 ? "a released instance" : "a constructor that throws once")); };
	mc::note(mc::Str() << what() << ", " << sched::points << " scheduling points");
	MC_CHECK(race.empty(), what() << ": data race: " << race);
	int totalThrown = 0, total = 0;
	std::set<Safe*> all;
	for (int i = 0; i < n; i++) {
		totalThrown += thrown[i];
		for (size_t k = 0; k < seen[i].size(); k++) {
			all.insert(seen[i][k]);
			MC_CHECK(ok[i][k], what() << ": thread " << i << " is given an instance that is not constructed");
			total++;
		}
		total += thrown[i];
		MC_CHECK((int)seen[i].size() + thrown[i] == gets[i], what() << ": a call did not return");
	}
	MC_CHECK(totalThrown == (before == 3 ? 1 : 0), what() << ": " << totalThrown << " calls threw");
	int want = before == 1 ? 0 : (total > totalThrown ? 1 : 0);
	MC_CHECK(constructed - c0 == want, what() << ": " << constructed - c0 << " instances are created");
	MC_CHECK(destroyed == d0, what() << ": an instance in use is destroyed");
	MC_CHECK(all.size() <= 1 && most <= 1, what() << ": there are several instances");
	if (!all.empty())
		MC_CHECK(&Safe::Get() == *all.begin(), what() << ": the instance changed");
	uint64_t h = mc::mix(mc::mix(n, before), total);
	for (int i = 0; i < n; i++)
		h = mc::mix(h, gets[i] * 8 + thrown[i]);
	h = mc::mix(h, sched::switches);
	mc::state(h);
	mc::outcome(h);
	mc::transition(sched::points);
	Safe::Release();
	MC_CHECK(alive == 0 && constructed == destroyed, what() << ": the instance is not destroyed exactly once");
}
// Different singletons are independent; threads that release the instance at the same time.
MC_SCENARIO(C23, release, 0)
{
	int n = 2 + mc::choose(2);
	bool exists = mc::choose(2);
	std::vector<int> op;
	for (int i = 0; i < n; i++)
		op.push_back(mc::choose(2));
	mc::split();
	Safe::Release();
	Other::Release();
	reset();
	if (exists)
		Safe::Get();
	std::vector<std::function<void()>> fns;
	std::vector<int> got(n);
	for (int i = 0; i < n; i++)
		fns.push_back([&, i] {
			bool release;
			{
				sched::Quiet q;
				release = op[i] == 0;
			}
			if (release)
				Safe::Release();
			else {
				int a = Other::Get().a;
				sched::Quiet q;
				got[i] = a;
			}
		});
	auto race = sched::run(fns, n == 3 ? 2 : (mc::thorough() ? 5 : 3));
	MC_CHECK(race.empty(), n << " threads that release, or get another singleton: data race: " << race);
	bool released = false;
	for (int i = 0; i < n; i++) {
		released |= op[i] == 0;
		MC_CHECK(op[i] == 0 || got[i] == 11, "the other singleton is not constructed");
	}
	int want = exists && !released ? 1 : 0;
	MC_CHECK(constructed == (exists ? 1 : 0) && alive == want && destroyed == constructed - want, "after " << n << " threads: " << constructed << " instances created, " << destroyed << " destroyed");
	mc::state(mc::mix(mc::mix(n, exists), sched::switches));
	mc::outcome(mc::mix(n, want));
	mc::transition(sched::points);
	Safe::Release();
	Other::Release();
}
// Every sequence of operations, against the obvious state machine.
MC_SCENARIO(C23, sequences, 0)
{
	Safe::Release();
	Plain::Release();
	Args::Release();
	reset();
	int kind = mc::choose(3);
	int len = mc::thorough() ? 9 : 7;
	mc::split();
	bool live = false;
	int made = 0, arg = 0;
	void* last = nullptr;
	std::string h;
	for (int k = 0; k < len; k++) {
		int o = mc::choose(kind == 2 && !live ? 3 : 4);
		// 0 release, 1 init, 2 get, 3 get and write
		if (kind == 2) {
			if (o == 0) {
				Args::Release();
				live = false;
			} else if (!live) {
				// The other operations need an instance
				arg = o == 1 ? 3 : 100 + k;
				std::string s(o == 1 ? 2 : 60, (char)('a' + k));
				Args::Init(arg, s);
				live = true;
				made++;
				MC_CHECK(Args::Get().a == arg && Args::Get().b == s, h << k << ": the instance does not have its arguments");
				last = &Args::Get();
			} else {
				MC_CHECK(&Args::Get() == last && Args::Get().a == arg, "sequence " << h << ": the instance changed");
				if (o == 3)
					Args::Get().a = arg = k;
			}
		} else {
			auto run = [&](auto* tag, auto member) {
				using T = std::remove_pointer_t<decltype(tag)>;
				if (o == 0) {
					T::Release();
					live = false;
					return;
				}
				if (!live) {
					made++;
					arg = MAGIC;
				}
				bool was = live;
				live = true;
				if constexpr (std::is_same_v<T, Plain>) {
					if (o == 1)
						T::Init();
				} else if (o == 1)
					T::Get();
				if (o == 1) {
					MC_CHECK(alive == 1, "sequence " << h << ": no instance after its initialization");
				}
				T& x = T::Get();
				MC_CHECK(!was || &x == last, "sequence " << h << ": the instance changed");
				MC_CHECK(x.*member == arg, "sequence " << h << ": the instance has the value " << x.*member << " instead of " << arg);
				last = &x;
				if (o == 3)
					x.*member = arg = k;
			};
			if (kind == 0)
				run((Plain*)nullptr, &Plain::value);
			else
				run((Safe*)nullptr, &Safe::a);
		}
		h += (char)('0' + o);
		MC_CHECK(alive == (live ? 1 : 0) && constructed == made && destroyed == made - alive, "sequence " << h << ": " << constructed << " instances created and " << destroyed << " destroyed instead of " << made << " and " << made - (live ? 1 : 0));
		mc::transition();
	}
	mc::state(mc::hashBytes(h.data(), h.size(), kind));
	mc::outcome(mc::mix(made, live));
}
