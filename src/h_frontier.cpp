// C01: the frontier behaves as a priority-ordered set.
#include "mc.h"
#include "utils/frontier.h"
#include <map>
#include <set>
#include <limits>
#include <cmath>

using namespace Planner;

namespace {
	struct E {
		int id;
		double key;
	};
	struct EqualId {
		bool operator()(const E& a, const E& b) const { return a.id == b.id; }
	};
	struct HashGood {
		size_t operator()(const E& a) const { return std::hash<int>()(a.id); }
	};
	struct HashBad { // everything collides
		size_t operator()(const E&) const { return 7; }
	};
	struct Less {
		bool operator()(const E& a, const E& b) const { return a.key < b.key; }
	};
	struct Greater {
		bool operator()(const E& a, const E& b) const { return a.key > b.key; }
	};
	// Function objects with a state, given to the constructor: elements are the same modulo a number,
	// the priority is ascending or descending. As built by default they are wrong.
	struct CmpState {
		int sign = 0;
		bool operator()(const E& a, const E& b) const
		{
			MC_CHECK(sign != 0, "elements are compared with another comparison than the one given");
			return sign * a.key < sign * b.key;
		}
	};
	struct EqState {
		int modulo = 1; // by default everything is the same
		bool operator()(const E& a, const E& b) const { return a.id % modulo == b.id % modulo; }
	};
	struct HashState {
		int modulo = 1000;
		size_t operator()(const E& a) const { return a.id % modulo; }
	};
	using Model = std::map<int, double>;

	template <typename F, typename Cmp>
	uint64_t compare(F& f, const Model& m, int maxId)
	{
		Cmp cmp;
		MC_CHECK(f.Size() == m.size(), "Size() is " << f.Size() << " but " << m.size() << " distinct elements are present");
		MC_CHECK(f.Empty() == m.empty(), "Empty() is wrong");
		uint64_t h = 17;
		size_t n = 0;
		Model seen;
		const E* prev = nullptr;
		for (auto it = f.begin(); it != f.end(); ++it) {
			const E& e = *it;
			auto mi = m.find(e.id);
			MC_CHECK(mi != m.end(), "iteration yields element " << e.id << " which is not present");
			MC_CHECK(mi->second == e.key, "iteration yields element " << e.id << " with key " << e.key << " instead of " << mi->second);
			MC_CHECK(seen.insert({ e.id, e.key }).second, "element " << e.id << " is present twice");
			if (prev)
				MC_CHECK(!cmp(e, *prev), "elements are not in priority order: " << prev->key << " before " << e.key);
			prev = &e;
			n++;
			h = mc::mixd(mc::mix(h, e.id), e.key);
		}
		MC_CHECK(n == m.size(), "iteration yields " << n << " elements instead of " << m.size());
		for (int id = 0; id < maxId; id++) {
			const E* p = f.Find(E { id, -77 });
			auto mi = m.find(id);
			MC_CHECK((p != nullptr) == (mi != m.end()), "Find(" << id << ") is wrong");
			if (p)
				MC_CHECK(p->id == id && p->key == mi->second, "Find(" << id << ") returns a wrong element");
		}
		if (!m.empty()) {
			const E& t = f.Top();
			auto mi = m.find(t.id);
			MC_CHECK(mi != m.end() && mi->second == t.key, "Top() is not a present element");
			for (auto& [id, key] : m)
				MC_CHECK(!cmp(t, E { id, key }), "Top() has key " << t.key << " but key " << key << " is present");
		}
		mc::transition();
		return h;
	}

	template <typename F>
	void doPush(F& f, Model& m, E e)
	{
		bool expect = m.count(e.id) == 0;
		auto [p, ok] = f.Push(e);
		MC_CHECK(ok == expect, "Push(" << e.id << "," << e.key << ") reported " << ok);
		if (expect)
			m[e.id] = e.key;
		MC_CHECK(p && p->id == e.id && p->key == m[e.id], "Push returned a pointer to another element");
	}
	template <typename F>
	void doRemove(F& f, Model& m, E e)
	{
		size_t expect = m.count(e.id);
		size_t n = f.Remove(e);
		MC_CHECK(n == expect, "Remove(" << e.id << ") returned " << n << " instead of " << expect);
		m.erase(e.id);
	}
	template <typename F, typename Cmp>
	void doPop(F& f, Model& m)
	{
		Cmp cmp;
		E top = f.Top();
		E e = f.Pop();
		MC_CHECK(e.id == top.id && e.key == top.key, "Pop() returned another element than Top()");
		auto mi = m.find(e.id);
		MC_CHECK(mi != m.end() && mi->second == e.key, "Pop() returned an element that is not present");
		for (auto& [id, key] : m)
			MC_CHECK(!cmp(e, E { id, key }), "Pop() returned key " << e.key << " but key " << key << " is present");
		m.erase(mi);
	}

	template <typename Cmp, typename Hash>
	void sequences(int ids, int keys, int depth, bool ctor)
	{
		using F = Frontier<E, Cmp, Hash, EqualId>;
		const double small[] = { 0.0, 1.0, std::numeric_limits<double>::infinity(), 2.5 };
		// Keys that differ by as little as possible, or by as much, negative ones included
		const double wide[] = { 1.0, std::nextafter(1.0, 2.0), -1e300, 1e300, -0.5, std::numeric_limits<double>::denorm_min(), 0.0 };
		const double* keyval = keys > 4 ? wide : small;
		F f = ctor ? F(Cmp(), 1, Hash(), EqualId()) : F();
		Model m;
		compare<F, Cmp>(f, m, ids);
		int last = -1, last2 = -1;
		for (int d = 0; d < depth; d++) {
			if (d == 2)
				mc::split();
			int nops = ids * keys + ids + 2;
			int op = mc::choose(nops);
			if (op < ids * keys) {
				E e { op / keys, keyval[op % keys] };
				mc::note(mc::Str() << "Push(" << e.id << "," << e.key << ")");
				doPush(f, m, e);
			} else if (op < ids * keys + ids) {
				E e { op - ids * keys, 0.5 };
				mc::note(mc::Str() << "Remove(" << e.id << ")");
				doRemove(f, m, e);
			} else if (op == nops - 2) {
				if (m.empty())
					mc::prune();
				mc::note("Pop");
				doPop<F, Cmp>(f, m);
			} else {
				mc::note("Clear");
				f.Clear();
				m.clear();
			}
			uint64_t h = compare<F, Cmp>(f, m, ids);
			mc::outcome(h);
			last2 = last;
			last = op;
			// The last two operations are part of the state, so that hidden
			// residues of an operation are not merged away at once.
			if (!mc::visit(mc::mix(mc::mix(h, last), last2), depth - d - 1))
				mc::prune();
		}
	}

	// All insertion orders of n elements over a small key alphabet, then every
	// single removal, then drain.
	template <typename Cmp>
	void fill(int n, int keys)
	{
		using F = Frontier<E, Cmp, HashGood, EqualId>;
		F f;
		Model m;
		for (int i = 0; i < n; i++) {
			if (i == 2)
				mc::split();
			doPush(f, m, E { i, (double)mc::choose(keys) });
		}
		uint64_t h = compare<F, Cmp>(f, m, n);
		mc::state(h);
		int rm = mc::choose(n + 1);
		if (rm < n) {
			doRemove(f, m, E { rm, 0 });
			compare<F, Cmp>(f, m, n);
			doPush(f, m, E { rm, (double)mc::choose(keys) });
			compare<F, Cmp>(f, m, n);
		}
		while (!m.empty()) {
			doPop<F, Cmp>(f, m);
			compare<F, Cmp>(f, m, n);
		}
	}

	// Frontiers of hundreds of elements, through Clear and a second filling.
	void huge(int n)
	{
		using F = Frontier<E, Greater, HashGood, EqualId>;
		int shape = mc::choose(5);
		const int runs[] = { 1, 3, 33, 150 };
		int run = runs[mc::choose(4)];
		int again = mc::choose(3);
		mc::note(mc::Str() << "shape " << shape << " run " << run << " again " << again);
		mc::split();
		F f;
		Model m;
		auto keyOf = [&](int i) {
			int g = i / run;
			return (double)(shape == 0 ? g : shape == 1 ? n - g : shape == 2 ? (g % 2 ? n - g : g) : shape == 3 ? (g * 37) % 101 : 1);
		};
		int every = n / 6;
		auto fill = [&] {
			for (int i = 0; i < n; i++) {
				doPush(f, m, E { i, keyOf(i) });
				if (i % every == 0)
					compare<F, Greater>(f, m, n);
			}
			mc::state(compare<F, Greater>(f, m, n));
		};
		fill();
		if (again == 1) {
			f.Clear();
			m.clear();
			compare<F, Greater>(f, m, n);
			fill();
		} else if (again == 2) {
			for (int i = 0; i < n; i++) // every key changes, one element at a time
				if (i % 2) {
					doRemove(f, m, E { i, 0 });
					doPush(f, m, E { i, keyOf(n - 1 - i) + 0.5 });
					if (i % (2 * (every / 2)) == 1)
						compare<F, Greater>(f, m, n);
				}
			mc::state(compare<F, Greater>(f, m, n));
		}
		for (int i = 0; !m.empty(); i++) {
			if (i % 3 == 2)
				doRemove(f, m, E { std::next(m.begin(), m.size() / 2)->first, 0 });
			else
				doPop<F, Greater>(f, m);
			if (i % every == 0)
				compare<F, Greater>(f, m, n);
		}
		compare<F, Greater>(f, m, n);
	}

	// Large frontiers: keys arranged as runs of equal keys, ascending,
	// descending or zig-zag; removal of one element, re-insertion with every key.
	void large(int n)
	{
		using F = Frontier<E, Greater, HashGood, EqualId>;
		int shape = mc::choose(5);
		int run = 1 + mc::choose(4);
		mc::split();
		F f;
		Model m;
		for (int i = 0; i < n; i++) {
			int g = i / run;
			double k = shape == 0 ? g : shape == 1 ? n - g : shape == 2 ? (g % 2 ? n - g : g) : shape == 3 ? (g * 7) % 11 : 1;
			doPush(f, m, E { i, k });
			if (i % 8 == 0)
				compare<F, Greater>(f, m, n);
		}
		mc::state(compare<F, Greater>(f, m, n));
		int a = mc::choose(n), b = mc::choose(5);
		doRemove(f, m, E { a, 0 });
		compare<F, Greater>(f, m, n);
		doPush(f, m, E { a, b * n / 4 + 0.0 });
		mc::state(compare<F, Greater>(f, m, n));
		int i = 0;
		while (!m.empty()) {
			if (++i % 3 == 0)
				doRemove(f, m, E { m.begin()->first, 0 });
			else
				doPop<F, Greater>(f, m);
			compare<F, Greater>(f, m, n);
		}
	}
}

// Comparison, hash and equality with a state: elements equal to one another are not identical.
MC_SCENARIO(C01, stateful, 0)
{
	const int classes = 3, depth = mc::thorough() ? 6 : 4;
	int sign = mc::choose(2) ? 1 : -1, buckets = 1 + 7 * mc::choose(2), last = -1, last2 = -1;
	Frontier<E, CmpState, HashState, EqState> f(CmpState { sign }, buckets, HashState { classes }, EqState { classes });
	std::map<int, E> m; // by class
	for (int d = 0; d < depth; d++) {
		if (d == 1)
			mc::split();
		int op = mc::choose(classes * 2 * 2 + classes * 2 + 2);
		if (op < classes * 4) {
			E e { op / 4 + classes * (op % 2), (double)(op / 2 % 2) };
			mc::note(mc::Str() << "Push(" << e.id << "," << e.key << ")");
			bool isNew = m.insert({ e.id % classes, e }).second;
			auto [p, ok] = f.Push(e);
			MC_CHECK(ok == isNew, "Push(" << e.id << ") reported " << ok);
			MC_CHECK(p && p->id == m[e.id % classes].id, "Push returned a pointer to another element");
		} else if (op < classes * 6) {
			E e { op - classes * 4, 0.5 };
			mc::note(mc::Str() << "Remove(" << e.id << ")");
			size_t had = m.erase(e.id % classes);
			MC_CHECK(f.Remove(e) == had, "Remove(" << e.id << ") did not return " << had);
		} else if (op == classes * 6) {
			mc::note("Clear");
			f.Clear();
			m.clear();
		} else {
			if (m.empty())
				mc::prune();
			mc::note("Pop");
			E top = f.Top(), e = f.Pop();
			MC_CHECK(top.id == e.id, "Pop() returned another element than Top()");
			auto it = m.find(e.id % classes);
			MC_CHECK(it != m.end() && it->second.id == e.id, "Pop() returned an element that is not present");
			for (auto& [c, o] : m)
				MC_CHECK(sign * e.key >= sign * o.key, "Pop() returned key " << e.key << " but key " << o.key << " is present");
			m.erase(it);
		}
		MC_CHECK(f.Size() == m.size(), "Size() is " << f.Size() << " but " << m.size() << " elements are present");
		std::set<int> seen;
		const E* prev = nullptr;
		uint64_t h = sign + 5;
		for (auto& e : f) {
			auto it = m.find(e.id % classes);
			MC_CHECK(it != m.end() && it->second.id == e.id && it->second.key == e.key && seen.insert(e.id).second, "iteration yields element " << e.id << " wrongly");
			MC_CHECK(!prev || sign * prev->key <= sign * e.key, "elements are not in priority order");
			prev = &e;
			h = mc::mixd(mc::mix(h, e.id), e.key);
		}
		MC_CHECK(seen.size() == m.size(), "iteration misses elements");
		for (int id = 0; id < 2 * classes; id++) {
			auto it = m.find(id % classes);
			const E* p = f.Find(E { id, 9 });
			MC_CHECK((p != nullptr) == (it != m.end()) && (!p || p->id == it->second.id), "Find(" << id << ") is wrong");
		}
		mc::transition();
		// The last two operations are part of the state
		last2 = last;
		last = op;
		if (!mc::visit(mc::mix(mc::mix(h, last), last2 + 100 * buckets), depth - d - 1))
			mc::prune();
	}
}

// The same with many elements, emptied in every way and filled again: the functions given stay in use.
MC_SCENARIO(C01, stateful_large, 0)
{
	int classes = mc::pick({ 1, 2, 3, 4, 5, 8, 9, 16, 20, 33, 65, 100, 130 });
	int how = mc::choose(4), sign = mc::choose(2) ? 1 : -1;
	int buckets = mc::pick({ 1, 100 });
	mc::split();
	Frontier<E, CmpState, HashState, EqState> f(CmpState { sign }, buckets, HashState { classes }, EqState { classes });
	for (int round = 0; round < 3; round++) {
		std::map<int, E> m;
		for (int i = 0; i < classes; i++) {
			E e { i + classes * ((i + round) % 3), (double)(i * 7 % 11) };
			auto [p, ok] = f.Push(e);
			MC_CHECK(ok && p && p->id == e.id, "Push(" << e.id << ") was refused in round " << round);
			m[i] = e;
			for (int k = 0; k < 3; k++) {
				auto [q, again] = f.Push(E { i + classes * k, 3.5 });
				MC_CHECK(!again && q && q->id == e.id, "an element equal to a stored one was accepted in round " << round);
				const E* r = f.Find(E { i + classes * k, 0 });
				MC_CHECK(r && r->id == e.id && r->key == e.key, "an element equal to a stored one is not found in round " << round);
			}
			MC_CHECK(f.Size() == m.size(), "Size() is " << f.Size() << " but " << m.size() << " elements are present");
			mc::transition();
		}
		const E* prev = nullptr;
		size_t n = 0;
		for (auto& e : f) {
			MC_CHECK(m.count(e.id % classes) && m[e.id % classes].id == e.id && m[e.id % classes].key == e.key, "iteration yields a wrong element");
			MC_CHECK(!prev || sign * prev->key <= sign * e.key, "elements are not in priority order");
			prev = &e;
			n++;
		}
		MC_CHECK(n == m.size(), "iteration yields " << n << " elements instead of " << m.size());
		mc::state(mc::mix(mc::mix(classes, how), round * 2 + sign));
		if (how == 0)
			f.Clear();
		else if (how == 1)
			for (int i = 0; i < classes; i++)
				MC_CHECK(f.Remove(E { i + classes, 0 }) == 1, "an element equal to a stored one is not removed");
		else
			for (int i = 0; !m.empty(); i++) {
				if (how == 3 && i > classes / 2) {
					f.Clear();
					break;
				}
				E top = f.Top(), e = f.Pop();
				auto it = m.find(e.id % classes);
				MC_CHECK(top.id == e.id && it != m.end() && it->second.id == e.id, "Pop() returned a wrong element");
				for (auto& [c, o] : m)
					MC_CHECK(sign * e.key >= sign * o.key, "Pop() returned key " << e.key << " but key " << o.key << " is present");
				m.erase(it);
			}
		MC_CHECK(f.Empty() && f.Size() == 0 && !f.Find(E { 0, 0 }), "the emptied frontier is not empty");
		mc::transition();
	}
}

MC_SCENARIO(C01, sequences_max, 0) { sequences<Less, HashGood>(3, 3, mc::thorough() ? 8 : 6, false); }
MC_SCENARIO(C01, sequences_min_collide, 0) { sequences<Greater, HashBad>(4, 2, mc::thorough() ? 8 : 6, true); }
MC_SCENARIO(C01, fill_min, 0) { fill<Greater>(mc::thorough() ? 7 : 6, 3); }
MC_SCENARIO(C01, fill_max, 0) { fill<Less>(5, 4); }
MC_SCENARIO(C01, large, 0) { large(mc::thorough() ? 41 : 21); }
MC_SCENARIO(C01, sequences_wide, 0) { sequences<Greater, HashGood>(3, 7, mc::thorough() ? 5 : 4, false); }
MC_SCENARIO(C01, huge, 0) { huge(mc::thorough() ? 2100 : 530); }
