// C05: nodes and trees (structure, nearest neighbours).
#include "mc.h"
#include "core/base.h"
#include "geometry/2dplane.h"
#include "utils/node.h"
#include "utils/tree.h"
#include <map>
#include <set>
using namespace Planner;

namespace {
	/// Forest of integers: parent and ordered children.
	struct Forest {
		std::vector<int> parent;
		std::vector<std::vector<int>> kids;
		explicit Forest(int n) :
			parent(n, -1), kids(n) { }
		void detach(int i)
		{
			if (parent[i] < 0)
				return;
			auto& k = kids[parent[i]];
			k.erase(std::find(k.begin(), k.end(), i));
			parent[i] = -1;
		}
		void attach(int i, int p)
		{
			parent[i] = p;
			kids[p].push_back(i);
		}
		bool descendant(int i, int a) const
		{
			for (i = parent[i]; i >= 0; i = parent[i])
				if (i == a)
					return true;
			return false;
		}
		int depth(int i) const
		{
			int d = 0;
			for (i = parent[i]; i >= 0; i = parent[i])
				d++;
			return d;
		}
		void pre(int i, std::vector<int>& o) const
		{
			o.push_back(i);
			for (int k : kids[i])
				pre(k, o);
		}
		void post(int i, std::vector<int>& o) const
		{
			for (int k : kids[i])
				post(k, o);
			o.push_back(i);
		}
		uint64_t hash() const
		{
			uint64_t h = parent.size();
			for (auto& k : kids) {
				h = mc::mix(h, 99);
				for (int i : k)
					h = mc::mix(h, i);
			}
			return h;
		}
	};
	using N = Node<int>;
	/// The order of the siblings is that of their insertion.
	void compare(const Forest& f, const std::vector<N*>& node)
	{
		int n = (int)node.size();
		for (int i = 0; i < n; i++) {
			const N* x = node[i];
			MC_CHECK(**x == i, "the data of node " << i << " changed");
			MC_CHECK(x->GetParent() == (f.parent[i] < 0 ? nullptr : node[f.parent[i]]), "the parent of node " << i << " is not " << f.parent[i]);
			MC_CHECK(node[i]->GetParent() == (f.parent[i] < 0 ? nullptr : node[f.parent[i]]), "the parent of node " << i << " is not " << f.parent[i]);
			auto& k = x->GetChildren();
			MC_CHECK(k.size() == f.kids[i].size(), "node " << i << " has " << k.size() << " children instead of " << f.kids[i].size());
			for (size_t c = 0; c < k.size(); c++)
				MC_CHECK(k[c].get() == node[f.kids[i][c]], "child " << c << " of node " << i << " is not " << f.kids[i][c]);
			MC_CHECK(x->GetFirst() == (k.empty() ? nullptr : k[0].get()), "the first child of node " << i << " is wrong");
			for (size_t c = 0; c < k.size(); c++) {
				MC_CHECK(k[c]->GetPrevious() == (c ? k[c - 1].get() : nullptr), "the previous sibling of a child of node " << i << " is wrong");
				MC_CHECK(k[c]->GetNext() == (c + 1 < k.size() ? k[c + 1].get() : nullptr), "the next sibling of a child of node " << i << " is wrong");
			}
			if (f.parent[i] < 0)
				MC_CHECK(x->GetPrevious() == nullptr && x->GetNext() == nullptr, "a root has siblings");
			MC_CHECK((int)x->GetDepth() == f.depth(i), "the depth of node " << i << " is " << x->GetDepth() << " instead of " << f.depth(i));
			for (int j = 0; j < n; j++) {
				MC_CHECK(x->IsDescendantOf(node[j]) == f.descendant(i, j), "node " << i << " descendant of node " << j << " is " << x->IsDescendantOf(node[j]));
				MC_CHECK(x->IsAncestorOf(node[j]) == f.descendant(j, i), "node " << i << " ancestor of node " << j << " is " << x->IsAncestorOf(node[j]));
			}
			std::vector<int> pre, post, rp, rq;
			x->PreOrderTraversal([&](const N& y) { pre.push_back(*y); });
			x->PostOrderTraversal([&](const N& y) { post.push_back(*y); });
			f.pre(i, rp);
			f.post(i, rq);
			MC_CHECK(pre == rp, "the pre-order traversal from node " << i << " is wrong");
			MC_CHECK(post == rq, "the post-order traversal from node " << i << " is wrong");
		}
		mc::transition();
	}
}

// Every sequence of additions, removals, replacements and changes of parent over a few nodes.
MC_SCENARIO(C05, nodes, 0)
{
	const int n = 4, depth = mc::thorough() ? 6 : 4;
	Forest f(n);
	std::vector<Scope<N>> owned(n); // roots
	std::vector<N*> node(n);
	for (int i = 0; i < n; i++) {
		owned[i] = makeScope<N>(i);
		node[i] = owned[i].get();
	}
	auto rootOf = [&](int i) {
		while (f.parent[i] >= 0)
			i = f.parent[i];
		return i;
	};
	for (int d = 0; d < depth; d++) {
		int op = mc::choose(4), a = mc::choose(n), b = mc::choose(n);
		if (d == 1)
			mc::split();
		if (a == b)
			mc::prune();
		if (op == 0) { // a becomes a child of b
			if (f.parent[a] >= 0 || rootOf(b) == a)
				mc::prune();
			mc::note(mc::Str() << "add " << a << " to " << b);
			N* r = node[b]->AddChild(std::move(owned[a]));
			MC_CHECK(r == node[a], "AddChild does not return the child");
			f.attach(a, b);
		} else if (op == 1) { // a is removed from its parent (b is unused)
			if (f.parent[a] < 0 || b != (a + 1) % n)
				mc::prune();
			mc::note(mc::Str() << "remove " << a);
			owned[a] = node[f.parent[a]]->RemoveChild(node[a]);
			MC_CHECK(owned[a].get() == node[a], "RemoveChild does not return the child");
			f.detach(a);
		} else if (op == 2) { // a is replaced by the root b
			int p = f.parent[a];
			if (p < 0 || f.parent[b] >= 0 || rootOf(a) == b)
				mc::prune();
			bool adopt = mc::choose(2);
			mc::note(mc::Str() << "replace " << a << " by " << b << (adopt ? ", adopting" : ""));
			owned[a] = node[p]->ReplaceChild(node[a], std::move(owned[b]), adopt);
			MC_CHECK(owned[a].get() == node[a], "ReplaceChild does not return the node replaced");
			auto& k = f.kids[p];
			*std::find(k.begin(), k.end(), a) = b;
			f.parent[b] = p;
			f.parent[a] = -1;
			if (adopt) {
				auto old = f.kids[a];
				for (int c : old) {
					f.detach(c);
					f.attach(c, b);
				}
			}
		} else { // the parent of a becomes b
			int r = rootOf(a);
			if (rootOf(b) != r)
				mc::prune();
			mc::note(mc::Str() << "reparent " << a << " to " << b);
			int old = f.parent[a];
			N::Reparent(node[a], node[b], owned[r]);
			bool desc = f.descendant(b, a);
			f.detach(a);
			if (desc) {
				f.detach(b);
				if (old >= 0)
					f.attach(b, old);
			}
			f.attach(a, b);
			int nr = rootOf(a);
			if (nr != r)
				owned[nr] = std::move(owned[r]);
			MC_CHECK(owned[nr].get() == node[nr], "the root of the tree is wrong after a change of parent");
			// The place of the moved nodes among their new siblings is not specified; the others keep their order
			for (int i : { a, b }) {
				int p = f.parent[i];
				if (p < 0)
					continue;
				auto& k = f.kids[p];
				k.erase(std::find(k.begin(), k.end(), i));
				auto& real = node[p]->GetChildren();
				size_t at = 0;
				while (at < real.size() && real[at].get() != node[i])
					at++;
				k.insert(k.begin() + std::min(at, k.size()), i);
			}
		}
		for (int i = 0; i < n; i++)
			MC_CHECK((f.parent[i] < 0) == (owned[i] != nullptr), "the ownership of node " << i << " is wrong");
		compare(f, node);
		mc::state(f.hash());
		mc::visit(f.hash(), depth - d);
	}
	mc::outcome(f.hash());
}

// Wide families: removal and replacement at every place among many siblings, adoption of many children.
MC_SCENARIO(C05, wide, 0)
{
	const int kids = mc::pick({ 1, 2, 3, 7, 8, 9, 16, 17, 33, mc::thorough() ? 70 : 40 }), own = mc::choose(4);
	const int grand = mc::pick({ 0, 1, 2, 5, 9, 17, 34 });
	mc::split();
	const int at = mc::choose(kids), op = mc::choose(3);
	const int n = 3 + kids + own + grand; // root 0, its children, the newcomer, its children, the children of child `at`
	Forest f(n);
	std::vector<N*> node(n);
	auto root = makeScope<N>(0);
	node[0] = root.get();
	auto add = [&](N* to, int toId, int i) {
		auto s = makeScope<N>(i);
		node[i] = s.get();
		MC_CHECK(to->AddChild(std::move(s)) == node[i], "AddChild does not return the child");
		f.attach(i, toId);
	};
	for (int i = 1; i <= kids; i++)
		add(node[0], 0, i);
	const int fresh = kids + 1, spare = kids + 2, child = at + 1;
	auto newcomer = makeScope<N>(fresh);
	node[fresh] = newcomer.get();
	auto stray = makeScope<N>(spare);
	node[spare] = stray.get();
	for (int i = 0; i < own; i++)
		add(node[fresh], fresh, spare + 1 + i);
	for (int i = 0; i < grand; i++)
		add(node[child], child, spare + 1 + own + i);
	compare(f, node);
	Scope<N> out;
	mc::note(mc::Str() << "child " << at << " of " << kids << " operation " << op << ", " << own << " and " << grand << " children");
	if (op == 0) {
		out = node[0]->RemoveChild(node[child]);
		f.detach(child);
	} else {
		out = node[0]->ReplaceChild(node[child], std::move(newcomer), op == 1);
		f.kids[0][at] = fresh;
		f.parent[fresh] = 0;
		f.parent[child] = -1;
		if (op == 1)
			while (!f.kids[child].empty()) {
				int c = f.kids[child][0];
				f.detach(c);
				f.attach(c, fresh);
			}
	}
	MC_CHECK(out.get() == node[child], "the child removed is not returned");
	compare(f, node);
	// Put back at the end, and the stray node in the middle of the family
	node[0]->AddChild(std::move(out));
	f.attach(child, 0);
	compare(f, node);
	mc::state(f.hash());
}
// Deep chains: depth and ancestry beyond the range of small integers.
MC_SCENARIO(C05, deep, 0)
{
	const int n = mc::pick({ 130, 260, 1030, 33000, mc::thorough() ? 200000 : 66000 });
	mc::split();
	std::vector<N*> node;
	auto root = makeScope<N>(0);
	node.push_back(root.get());
	for (int i = 1; i < n; i++)
		node.push_back(node.back()->AddChild(makeScope<N>(i)));
	for (int i = n - 1, k = 0; i > 0; i = k < 300 ? i - 1 : i * 2 / 3, k++)
		MC_CHECK((int)node[i]->GetDepth() == i, "the depth of node " << i << " of a chain is " << node[i]->GetDepth());
	for (int i : { 0, 1, 127, n / 2, n - 2, n - 1 })
		for (int j : { 0, 1, 126, 128, n / 2 + 1, n - 1 }) {
			MC_CHECK(node[i]->IsDescendantOf(node[j]) == (i > j), "ancestry in a chain is wrong");
			MC_CHECK(node[i]->IsAncestorOf(node[j]) == (i < j), "ancestry in a chain is wrong");
		}
	// From the bottom: destroying a chain is recursive
	for (int i = n - 1; i > 0; i--) {
		auto x = node[i - 1]->RemoveChild(node[i]);
		MC_CHECK(x.get() == node[i] && node[i - 1]->GetChildren().empty(), "the last node of a chain is not removed");
	}
	mc::state(n);
	mc::transition(n);
}

namespace {
	using T = Tree<Point2d, 2>;
	using TN = T::Node;
	struct World {
		T tree;
		std::vector<Point2d> pt; // position of the nodes, by insertion
		std::vector<TN*> node;
		Forest f { 0 };
		void root(const Point2d& p)
		{
			pt.clear();
			node.clear();
			f = Forest(0);
			TN* r = tree.CreateRootNode(p);
			MC_CHECK(r && (*r)->state == p, "the root is not at its state");
			push(r, p, -1);
		}
		void push(TN* x, const Point2d& p, int parent)
		{
			pt.push_back(p);
			node.push_back(x);
			f.parent.push_back(-1);
			f.kids.push_back({});
			if (parent >= 0)
				f.attach((int)pt.size() - 1, parent);
		}
		int find(const Point2d& p) const
		{
			for (size_t i = 0; i < pt.size(); i++)
				if (pt[i] == p)
					return (int)i;
			return -1;
		}
		double nearest(const Point2d& q) const
		{
			double d = 1e18;
			for (auto& p : pt)
				d = std::min(d, (p - q).norm());
			return d;
		}
		int indexOf(const TN* x) const
		{
			for (size_t i = 0; i < node.size(); i++)
				if (node[i] == x)
					return (int)i;
			MC_CHECK(false, "a node that does not belong to the tree is returned");
			return -1;
		}
		void extend(const Point2d& p, int src)
		{
			int known = find(p);
			TN* r = tree.Extend(p, src < 0 ? nullptr : node[src]);
			if (pt.empty()) {
				MC_CHECK(r == nullptr, "an empty tree is extended");
				return;
			}
			MC_CHECK(r, "the tree is not extended");
			if (known >= 0) {
				MC_CHECK(r == node[known], "extending to a state of the tree does not return its node");
				return;
			}
			MC_CHECK((*r)->state == p, "the new node is not at its state");
			int par = indexOf(r->GetParent());
			if (src >= 0)
				MC_CHECK(par == src, "the parent of the new node is not the one given");
			else
				MC_CHECK((pt[par] - p).norm() <= nearest(p) * (1 + 1e-12), "the parent of the new node is at " << (pt[par] - p).norm() << ", a node is at " << nearest(p));
			push(r, p, par);
		}
		void check(const std::vector<Point2d>& queries)
		{
			MC_CHECK(tree.Size() == pt.size(), "the tree has " << tree.Size() << " nodes instead of " << pt.size());
			for (size_t i = 0; i < pt.size(); i++) {
				MC_CHECK((*node[i])->state == pt[i], "the state of node " << i << " changed");
				MC_CHECK(tree.BelongToTree(node[i]), "node " << i << " does not belong to the tree");
				MC_CHECK(node[i]->GetParent() == (f.parent[i] < 0 ? nullptr : node[f.parent[i]]), "the parent of node " << i << " is wrong");
				MC_CHECK(node[i]->GetChildren().size() == f.kids[i].size(), "node " << i << " has " << node[i]->GetChildren().size() << " children instead of " << f.kids[i].size());
				for (auto& c : node[i]->GetChildren())
					MC_CHECK(f.parent[indexOf(c.get())] == (int)i, "a child of node " << i << " is wrong");
			}
			TN other(Point2d(0.5, 0.5));
			MC_CHECK(!tree.BelongToTree(&other), "a stray node belongs to the tree");
			for (auto& q : queries) {
				TN* r = tree.GetNearestNode(q);
				if (pt.empty()) {
					MC_CHECK(r == nullptr, "an empty tree has a nearest node");
					MC_CHECK(tree.GetNearestNodes(q, 2).empty(), "an empty tree has nearest nodes");
					continue;
				}
				MC_CHECK(r, "no nearest node");
				double d = (pt[indexOf(r)] - q).norm(), best = nearest(q);
				MC_CHECK(d <= best * (1 + 1e-12), "the nearest node to (" << q.x() << "," << q.y() << ") is at " << d << ", another node is at " << best);
				std::vector<double> dists;
				for (auto& p : pt)
					dists.push_back((p - q).norm());
				std::sort(dists.begin(), dists.end());
				for (unsigned nn : { 0u, 1u, 2u, 100u, 400u }) {
					auto v = tree.GetNearestNodes(q, nn);
					MC_CHECK(v.size() == std::min<size_t>(nn, pt.size()), v.size() << " nearest nodes returned out of " << nn << " asked among " << pt.size());
					std::set<TN*> uniq(v.begin(), v.end());
					MC_CHECK(uniq.size() == v.size(), "the nearest nodes are not distinct");
					std::vector<double> got;
					for (auto x : v)
						got.push_back((pt[indexOf(x)] - q).norm());
					std::sort(got.begin(), got.end());
					for (size_t i = 0; i < got.size(); i++)
						MC_CHECK(std::abs(got[i] - dists[i]) <= 1e-12 * (1 + dists[i]), "the " << i << "-th nearest node to (" << q.x() << "," << q.y() << ") is at " << got[i] << " instead of " << dists[i]);
				}
			}
			mc::transition();
		}
		uint64_t hash() const
		{
			uint64_t h = f.hash();
			for (auto& p : pt)
				h = mc::mixd(mc::mixd(h, p.x()), p.y());
			return h;
		}
	};
	const std::vector<Point2d> lattice = { { 0, 0 }, { 1, 0 }, { -2.5, 0.5 }, { 1e-9, 0 }, { 0, 1 }, { 1, 1 } };
	const std::vector<Point2d> few = { { 0.4, 0.1 }, { 0.5, 0.5 } };
	const std::vector<Point2d> queries = { { 0, 0 }, { 0.4, 0.1 }, { 0.5, 0.5 }, { -1.2, 0.3 }, { 1, 1.01 }, { -100, 40 }, { 5e-10, 0 }, { -0.0, -0.0 } };
}

// Every sequence of operations on a tree.
MC_SCENARIO(C05, trees, 0)
{
	World w;
	int depth = mc::thorough() ? 5 : 4;
	if (mc::choose(2))
		w.root(lattice[0]);
	for (int d = 0; d < depth; d++) {
		int op = mc::choose(4);
		if (d == 1)
			mc::split();
		int n = (int)w.pt.size();
		if (op == 0) { // extend, from the nearest node or from a given one
			int p = mc::choose(mc::thorough() ? 6 : 4);
			int src = mc::choose(n + 1) - 1;
			mc::note(mc::Str() << "extend to " << p << " from " << src);
			w.extend(lattice[p], src);
		} else if (op == 1) {
			if (n < 2)
				mc::prune();
			int a = mc::choose(n), b = mc::choose(n);
			if (a == b)
				mc::prune();
			mc::note(mc::Str() << "reparent " << a << " to " << b);
			w.tree.Reparent(w.node[a], w.node[b]);
			int old = w.f.parent[a];
			bool desc = w.f.descendant(b, a);
			w.f.detach(a);
			if (desc) {
				w.f.detach(b);
				if (old >= 0)
					w.f.attach(b, old);
			}
			w.f.attach(a, b);
		} else if (op == 2) {
			mc::note("clear");
			w.tree.Clear();
			w.pt.clear();
			w.node.clear();
			w.f = Forest(0);
		} else {
			int p = mc::choose(2);
			mc::note(mc::Str() << "root " << p);
			w.root(lattice[p]);
		}
		w.check(d + 1 < depth ? few : queries);
		mc::state(w.hash());
	}
	mc::outcome(w.hash());
}
// Larger trees: every insertion order class, every query of a fine lattice.
MC_SCENARIO(C05, large, 0)
{
	int stride = 1 + mc::choose(mc::thorough() ? 60 : 12), shape = mc::choose(4), n = mc::pick({ 12, 60, 150 });
	mc::split();
	int off = mc::choose(3);
	World w;
	const int M = 61 * 61;
	auto at = [&](int i) {
		long k = (long)i * stride * 37 + off;
		k %= M;
		double x = k / 61 - 30, y = k % 61 - 30;
		if (shape == 1)
			y *= 1e-6;
		if (shape == 2)
			x = 0;
		if (shape == 3)
			x *= x * x;
		return Point2d(x, y);
	};
	mc::note(mc::Str() << "stride " << stride << " shape " << shape << " nodes " << n);
	w.root(at(0));
	for (int i = 1; i < n; i++)
		w.extend(at(i), i % 3 ? -1 : i % (int)w.pt.size());
	std::vector<Point2d> q;
	for (int i = 0; i < 25; i++)
		q.push_back(Point2d(-33.3 + 2.77 * i, (31.1 - 2.5 * i) * (shape == 1 ? 1e-6 : 1)));
	w.check(q);
	mc::state(w.hash());
}
// Chains: every node under the last one, although others are nearer; queries for more nodes than there are.
MC_SCENARIO(C05, chains, 0)
{
	int n = mc::pick({ 70, 140, 320 }), step = mc::pick({ 1, 7, 13 }), back = mc::choose(3);
	mc::split();
	World w;
	mc::note(mc::Str() << "chain of " << n << " step " << step << " back " << back);
	auto at = [&](int i) { return Point2d(i * step % 331 * 0.25, i % 3); };
	w.root(at(0));
	for (int i = 1; i < n; i++)
		w.extend(at(i), back && i % 10 == 0 ? std::max(0, i - 1 - 5 * back) : i - 1);
	w.check({ Point2d(3.3, 1.2), Point2d(-5, 0), Point2d(80.1, 2.2) });
	mc::state(w.hash());
}
