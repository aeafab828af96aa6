// P05: tree, P06: tag_tree, P07: both when memory runs out.
// The model is a plain tree of nodes owning vectors of children.
#include "../sim/sim.hpp"

#include <wordring/tree/tree.hpp>
#include <wordring/tree/tree_iterator.hpp>
#include <wordring/tag_tree/tag_tree.hpp>
#include <wordring/html/simple_html.hpp>

#include <algorithm>
#include <list>
#include <new>
#include <set>
#include <stdexcept>

namespace
{
	using namespace sim;

	struct MNode
	{
		int id = 0;
		bool leaf_only = false; // text, comment
		std::string value;
		MNode* parent = nullptr;
		std::vector<std::unique_ptr<MNode>> kids;
	};

	struct Model
	{
		MNode root; // the imaginary parent of all roots
		int next_id = 1;

		static void collect(MNode* n, std::vector<MNode*>& out) { for (auto& k : n->kids) { out.push_back(k.get()); collect(k.get(), out); } }
		std::vector<MNode*> all() { std::vector<MNode*> v; collect(&root, v); return v; }
		static std::size_t index(MNode* n) { auto& v = n->parent->kids; for (std::size_t i = 0; i < v.size(); ++i) if (v[i].get() == n) return i; std::abort(); }
		static bool inside(MNode* n, MNode* anc) { for (; n; n = n->parent) if (n == anc) return true; return false; }
		MNode* add(MNode* parent, std::size_t at, std::string v, bool leaf)
		{
			auto n = std::make_unique<MNode>();
			n->id = next_id++; n->value = std::move(v); n->leaf_only = leaf; n->parent = parent;
			auto* r = n.get();
			parent->kids.insert(parent->kids.begin() + at, std::move(n));
			return r;
		}
		std::unique_ptr<MNode> take(MNode* n)
		{
			auto i = index(n);
			auto u = std::move(n->parent->kids[i]);
			n->parent->kids.erase(n->parent->kids.begin() + i);
			return u;
		}
		MNode* copy(MNode* parent, std::size_t at, MNode const* src)
		{
			MNode* n = add(parent, at, src->value, src->leaf_only);
			for (auto& k : src->kids) copy(n, n->kids.size(), k.get());
			return n;
		}
		static std::uint64_t digest(MNode const* n, std::uint64_t h = 1)
		{
			for (auto& k : n->kids) { h = mix(h, hash_str(k->value)); h = mix(h, 7); h = digest(k.get(), h); h = mix(h, 9); }
			return h;
		}
	};

	std::size_t count_nodes(MNode const* n) { std::size_t c = 0; for (auto& k : n->kids) c += 1 + count_nodes(k.get()); return c; }

	// ---------------------------------------------------------------- adapters
	struct PlainTree // wordring::tree<std::string>
	{
		using Tree = wordring::tree<std::string>;
		using It = Tree::iterator;
		using CIt = Tree::const_iterator;
		static constexpr bool tag = false;
		static constexpr bool handles_survive_move = false; // documented: the iterator passed to move() becomes invalid
		static std::string make(std::string const& v, bool) { return v; }
		template <typename I> static std::string read(I it) { return *it; }
	};

	struct TagTree // wordring::tag_tree<simple_node<u8string>>
	{
		using Tree = wordring::html::u8simple_tree;
		using Node = wordring::html::u8simple_node;
		using It = Tree::iterator;
		using CIt = Tree::const_iterator;
		static constexpr bool tag = true;
		static constexpr bool handles_survive_move = true;
		static Node make(std::string const& v, bool leaf)
		{
			std::u8string s(v.begin(), v.end());
			if (leaf) return Node(wordring::html::simple_text<std::u8string>(s));
			return Node(wordring::html::simple_element<std::u8string>(wordring::html::ns_name::HTML, std::u8string(), s));
		}
		template <typename I> static std::string read(I it)
		{
			if (it->is_text()) { auto& d = it->data(); return "t:" + std::string(d.begin(), d.end()); }
			auto n = it->local_name(); return "e:" + std::string(n.begin(), n.end());
		}
	};

	template <typename A, bool Faulty>
	struct TreeWorld : World
	{
		using Tree = typename A::Tree;
		using It = typename A::It;
		using CIt = typename A::CIt;

		std::unique_ptr<Tree> t;
		Model m;
		std::map<MNode*, It> handle; // position handed out for each node, kept across every later edit
		int bias = 0, value_len = 8;

		int length(Rng& r) override { static int const n[] = { 6, 20, 60, 120 }; return n[r.below(4)] + r.below(10); }
		int fault_percent(Rng& r) override { if (!Faulty) return r.chance(2, 3) ? 0 : 10; static int const p[] = { 20, 50, 80 }; return p[r.below(3)]; }
		void start(Rng& cfg) override { t = std::make_unique<Tree>(); bias = cfg.below(3); value_len = cfg.chance(1, 2) ? 6 : 40; }
		bool leak_check() const override { return true; }

		std::string expect(MNode const* n) { return A::tag ? (n->leaf_only ? "t:" : "e:") + n->value : n->value; }

		std::string new_value(Rng& r, bool leaf)
		{
			if (leaf && r.chance(1, 8)) return std::string(); // an empty text
			std::string s(1 + r.below(value_len), 'a');
			for (auto& c : s) c = 'a' + r.below(26);
			return s;
		}

		// the library's position for "before child `at` of parent", built from kept positions
		It position(MNode* parent, std::size_t at)
		{
			if (at < parent->kids.size()) return handle.at(parent->kids[at].get());
			return parent->parent ? handle.at(parent).end() : t->end();
		}
		CIt cposition(MNode* parent, std::size_t at) { return position(parent, at); }

		void bind(MNode* n, It it) // (re)learn positions of a whole subtree by walking it
		{
			handle[n] = it;
			auto c = it.begin();
			for (auto& k : n->kids)
			{
				SIM_REQUIRE(c != it.end(), "shape", "a copied node lost children");
				bind(k.get(), c);
				++c;
			}
		}
		void forget(MNode* n) { handle.erase(n); for (auto& k : n->kids) forget(k.get()); }

		// ---- comparison of the whole real tree with the model
		template <typename I>
		void check_level(MNode const* n, I first, I last, I parent, bool is_root, char const* where)
		{
			I it = first;
			for (auto& k : n->kids)
			{
				SIM_REQUIRE(it != last, "shape", "%s: node %d (%s) is missing, its siblings end early", where, k->id, show(k->value).c_str());
				SIM_REQUIRE(A::read(it) == expect(k.get()), "value", "%s: node %d holds %s, not %s", where, k->id, show(A::read(it)).c_str(), show(expect(k.get())).c_str());
				if (!is_root) SIM_REQUIRE(it.parent() == parent, "parent", "%s: node %d has another parent", where, k->id);
				else SIM_REQUIRE(it.parent() == I(), "parent", "%s: root %d has a parent", where, k->id);
				if (!(A::tag && k->leaf_only)) check_level<I>(k.get(), it.begin(), it.end(), it, false, where);
				else SIM_REQUIRE(it.begin() == it.end(), "shape", "%s: text %d has children", where, k->id);
				++it;
			}
			SIM_REQUIRE(it == last, "shape", "%s: node %d has more children than were put there", where, n->id);
			// and backwards
			for (std::size_t i = n->kids.size(); i-- > 0;)
			{
				--it;
				SIM_REQUIRE(A::read(it) == expect(n->kids[i].get()), "backwards", "%s: walking back from the end meets %s instead of node %d", where, show(A::read(it)).c_str(), n->kids[i]->id);
			}
			SIM_REQUIRE(it == first, "backwards", "%s: walking back does not come to the first child", where);
		}

		void check(char const* where)
		{
			Tree const& c = *t;
			auto all = m.all();
			SIM_REQUIRE(c.size() == all.size(), "size", "%s: size() is %zu, %zu nodes are stored", where, static_cast<std::size_t>(c.size()), all.size());
			SIM_REQUIRE(c.empty() == all.empty(), "empty", "%s: empty() is %d with %zu nodes", where, int(c.empty()), all.size());
			check_level<CIt>(&m.root, c.begin(), c.end(), CIt(), true, where);
			check_level<It>(&m.root, t->begin(), t->end(), It(), true, where);
			for (auto& [n, it] : handle)
			{
				SIM_REQUIRE(A::read(it) == expect(n), "handle", "%s: a kept position of node %d now gives %s, not %s", where, n->id, show(A::read(it)).c_str(), show(expect(n)).c_str());
				if (n->parent->parent) SIM_REQUIRE(it.parent() == handle.at(n->parent), "handle", "%s: parent of a kept position of node %d is another node", where, n->id);
			}
			if constexpr (!A::tag)
			{
				for (auto& [n, it] : handle)
					SIM_REQUIRE(t->size(it) == 1 + count_nodes(n), "size", "%s: the subtree of node %d counts %zu nodes, not %zu", where, n->id, static_cast<std::size_t>(t->size(it)), 1 + count_nodes(n));
				if (!all.empty()) SIM_REQUIRE(t->front() == m.root.kids[0]->value, "value", "%s: front() is not the first root", where);
			}
			check_orders(all, where);
			cover(Model::digest(&m.root));
		}

		void check_orders(std::vector<MNode*> const& all, char const* where)
		{
			for (auto& rk : m.root.kids)
			{
				std::vector<MNode*> pre; pre.push_back(rk.get()); Model::collect(rk.get(), pre);
				if (A::tag && rk->leaf_only) continue;
				auto it = wordring::tree_iterator<It>(handle.at(rk.get()));
				auto end = wordring::tree_iterator<It>();
				for (auto* n : pre)
				{
					SIM_REQUIRE(it != end, "pre-order", "%s: pre-order walk ends before node %d", where, n->id);
					SIM_REQUIRE(it.base() == handle.at(n), "pre-order", "%s: pre-order walk meets another node instead of %d", where, n->id);
					++it;
				}
				SIM_REQUIRE(it == end, "pre-order", "%s: pre-order walk does not end", where);
				std::vector<MNode*> lev{ rk.get() };
				for (std::size_t i = 0; i < lev.size(); ++i) for (auto& k : lev[i]->kids) lev.push_back(k.get());
				auto l = wordring::level_order_tree_iterator<It>(handle.at(rk.get()));
				auto lend = wordring::level_order_tree_iterator<It>();
				for (auto* n : lev)
				{
					SIM_REQUIRE(l != lend, "level-order", "%s: level-order walk ends before node %d", where, n->id);
					SIM_REQUIRE(l.base() == handle.at(n), "level-order", "%s: level-order walk meets another node instead of %d", where, n->id);
					++l;
				}
				SIM_REQUIRE(l == lend, "level-order", "%s: level-order walk does not end", where);
			}
			if constexpr (A::tag)
			{
				// serial walk: start tag, contents, end tag
				std::vector<std::string> want;
				std::u8string text;
				serial(&m.root, want, text);
				std::vector<std::string> got;
				auto s = t->sbegin();
				for (; s != t->send() && got.size() <= want.size(); ++s) got.push_back(s.is_end_tag() ? "/" : A::read(static_cast<It>(s)));
				SIM_REQUIRE(got == want, "serial", "%s: the serial walk differs from document order at step %zu", where, mismatch(got, want));
				std::vector<std::string> back;
				for (std::size_t i = 0; i < want.size(); ++i) { --s; back.push_back(s.is_end_tag() ? "/" : A::read(static_cast<It>(s))); }
				std::reverse(back.begin(), back.end());
				SIM_REQUIRE(back == want, "serial", "%s: the serial walk backwards differs from document order", where);
				for (auto* n : all)
				{
					typename Tree::serial_iterator x(handle.at(n));
					if (n->leaf_only) { SIM_REQUIRE(!x.is_start_tag() && !x.is_end_tag() && x.start_tag() == t->send() && x.end_tag() == t->send(), "serial", "%s: text %d has a tag", where, n->id); }
					else SIM_REQUIRE(x.is_start_tag() && x.start_tag() == x && x.end_tag().is_end_tag() && x.end_tag().start_tag() == x, "serial", "%s: start and end tag of node %d do not belong together", where, n->id);
				}
				// characters of all texts
				std::u8string chars;
				if (!all.empty())
				{
					typename Tree::character_iterator c(t->begin()), e = c.end();
					for (; c != e && chars.size() <= text.size(); ++c) chars.push_back(*c);
					SIM_REQUIRE(chars == text, "characters", "%s: the character walk gives %s, the texts hold %s", where,
					            show(std::string(chars.begin(), chars.end())).c_str(), show(std::string(text.begin(), text.end())).c_str());
					std::u8string rev;
					for (std::size_t i = 0; i < text.size(); ++i) { --c; rev.push_back(*c); }
					std::reverse(rev.begin(), rev.end());
					SIM_REQUIRE(rev == text, "characters", "%s: the character walk backwards differs", where);
				}
			}
		}

		static std::size_t mismatch(std::vector<std::string> const& a, std::vector<std::string> const& b)
		{
			std::size_t i = 0;
			while (i < a.size() && i < b.size() && a[i] == b[i]) ++i;
			return i;
		}

		void serial(MNode const* n, std::vector<std::string>& out, std::u8string& text)
		{
			for (auto& k : n->kids)
			{
				out.push_back(expect(k.get()));
				if (k->leaf_only) text.append(k->value.begin(), k->value.end());
				else { serial(k.get(), out, text); out.push_back("/"); }
			}
		}

		MNode* pick_parent(Rng& r)
		{
			auto all = m.all();
			std::vector<MNode*> v{ &m.root };
			for (auto* n : all) if (!(A::tag && n->leaf_only)) v.push_back(n);
			if (bias == 1 && r.chance(2, 3)) return v.back();      // deep
			if (bias == 2 && v.size() > 1 && r.chance(2, 3)) return v[1]; // wide
			return v[r.below(v.size())];
		}

		// runs f under an allocation failure; returns true when f completed
		template <typename F> bool attempt(Rng& r, bool faults, char const* what, F f)
		{
			std::int64_t n = -1;
			if (faults) n = r.chance(2, 3) ? static_cast<std::int64_t>(r.below(4)) : static_cast<std::int64_t>(r.below(30));
			bool fired;
			{
				AllocFault af(n);
				try { f(); af.disarm(); }
				catch (std::bad_alloc const&)
				{
					af.disarm();
					SIM_REQUIRE(af.fired(), "bad-alloc", "%s: bad_alloc without a failed allocation", what);
					count("fault:alloc");
					log("%s: out of memory", what);
					return false;
				}
				fired = af.fired();
			}
			if (fired) { count("fault:alloc-survived"); log("%s completed although an allocation failed", what); }
			return true;
		}

		void step(Rng& r, bool faults) override
		{
			tick(1000);
			auto all = m.all();
			unsigned op = r.below(100);
			if (all.empty() && op >= 40 && op < 90) op = 0;
			if (all.size() > 60 && op < 50) op = 60;
			if (op < 40) // insert a value
			{
				MNode* p = pick_parent(r);
				std::size_t at = r.chance(1, 2) ? p->kids.size() : r.below(p->kids.size() + 1);
				bool leaf = A::tag && r.chance(1, 2);
				std::string v = new_value(r, leaf);
				bool rv = r.chance(1, 2);
				auto val = A::make(v, leaf);
				log("insert %s below %d at %zu", show(v).c_str(), p->id, at);
				It it;
				auto pos = cposition(p, at);
				bool done = attempt(r, faults, "insert", [&] { it = rv ? t->insert(pos, std::move(val)) : t->insert(pos, static_cast<decltype(val) const&>(val)); });
				if (done) { MNode* n = m.add(p, at, v, leaf); handle[n] = it; count("insert"); }
			}
			else if (op < 50) // insert a copy of a subtree
			{
				if constexpr (!A::tag)
				{
					MNode* s = all[r.below(all.size())];
					MNode* p = pick_parent(r);
					if (Model::inside(p, s)) return; // a copy inside itself is not offered
					std::size_t at = r.below(p->kids.size() + 1);
					if (count_nodes(s) + all.size() > 100) return;
					log("copy subtree %d below %d at %zu", s->id, p->id, at);
					It it;
					auto pos = cposition(p, at);
					CIt sub = handle.at(s);
					bool done = attempt(r, faults, "copy", [&] { it = t->insert(pos, sub); });
					if (done) { MNode* n = m.copy(p, at, s); bind(n, it); count("copy"); }
				}
				else // insert a value taken from the tree itself
				{
					MNode* s = all[r.below(all.size())];
					MNode* p = pick_parent(r);
					std::size_t at = r.below(p->kids.size() + 1);
					log("insert the value of %d below %d at %zu", s->id, p->id, at);
					It it;
					auto pos = cposition(p, at);
					auto src = handle.at(s);
					bool done = attempt(r, faults, "insert", [&] { it = t->insert(pos, static_cast<typename Tree::value_type const&>(*src)); });
					if (done) { MNode* n = m.add(p, at, s->value, s->leaf_only); handle[n] = it; }
				}
			}
			else if (op < 72) // move
			{
				MNode* s = all[r.below(all.size())];
				MNode* p = pick_parent(r);
				if (r.chance(1, 3)) p = s->parent; // among its siblings
				std::size_t at = r.below(p->kids.size() + 1);
				auto pos = cposition(p, at);
				bool cyc = Model::inside(p, s);
				bool self = at < p->kids.size() && p->kids[at].get() == s;
				log("move %d below %d at %zu%s", s->id, p->id, at, cyc ? " (its own descendant)" : self ? " (before itself)" : "");
				It it;
				bool refused = false;
				bool done = attempt(r, faults, "move", [&] { try { it = t->move(pos, handle.at(s)); } catch (std::invalid_argument const&) { refused = true; } });
				if (!done) return check("after a failed move");
				if (cyc) { SIM_REQUIRE(refused, "cycle", "moving node %d below its own descendant %d was not refused", s->id, p->id); count("move-refused"); return check("after a refused move"); }
				if (self) { count("move-self"); return check("after moving a node before itself"); }
				SIM_REQUIRE(!refused, "move", "a legal move of node %d below %d was refused", s->id, p->id);
				std::size_t from = Model::index(s);
				if (s->parent == p && from < at) --at;
				auto u = m.take(s);
				u->parent = p;
				p->kids.insert(p->kids.begin() + at, std::move(u));
				SIM_REQUIRE(A::read(it) == expect(s), "move", "move returns a position of %s instead of node %d", show(A::read(it)).c_str(), s->id);
				if (!A::handles_survive_move) handle[s] = it;
				else SIM_REQUIRE(it == handle.at(s), "move", "move returns another position than that of node %d", s->id);
				count("move");
			}
			else if (op < 88) // erase
			{
				MNode* s = all[r.below(all.size())];
				if (r.chance(1, 2)) for (int i = 0; i < 2; ++i) { MNode* o = all[r.below(all.size())]; if (count_nodes(o) < count_nodes(s)) s = o; }
				MNode* p = s->parent;
				std::size_t i = Model::index(s);
				log("erase %d with %zu nodes below", s->id, count_nodes(s));
				It after;
				bool done = attempt(r, faults, "erase", [&] { after = t->erase(handle.at(s)); });
				if (done)
				{
					forget(s);
					m.take(s);
					SIM_REQUIRE(after == position(p, i), "erase", "erase does not return the position behind the erased node");
					count("erase");
				}
			}
			else if (op < 92) // a copy: must be equal, and independent
			{
				log("copy the tree");
				std::unique_ptr<Tree> c;
				bool done = attempt(r, faults, "copy", [&] { c = std::make_unique<Tree>(*t); });
				if (done)
				{
					std::unique_ptr<Tree> old = std::move(t);
					t = std::move(c);
					rebind_all();
					// harm the original: the copy must not notice
					while (old->begin() != old->end()) old->erase(old->begin());
					count("tree-copy");
				}
			}
			else if (op < 94)
			{
				log("assign the tree");
				auto c = std::make_unique<Tree>();
				c->insert(c->end(), A::make("old", false));
				bool done = attempt(r, faults, "assign", [&] { *c = *t; });
				if (done) { t = std::move(c); rebind_all(); }
				else SIM_REQUIRE(c->size() == 1 && A::read(c->begin()) == (A::tag ? "e:old" : "old"), "assign", "a failed assignment changed the target");
			}
			else if (op < 96)
			{
				log("move the tree and swap");
				Tree c(std::move(*t));
				*t = Tree();
				t->insert(t->end(), A::make("x", false));
				t->swap(c);
				rebind_all();
				SIM_REQUIRE(c.size() == 1, "swap", "swap did not exchange the contents");
			}
			else if (op < 98)
			{
				if (!r.chance(1, 4)) { if (r.chance(1, 3)) { churn(r); check("after inserting and erasing many times"); } return; }
				log("clear");
				t->clear();
				m.root.kids.clear(); handle.clear();
			}
			else // write through a position
			{
				if (all.empty()) return;
				MNode* s = all[r.below(all.size())];
				std::string v = new_value(r, s->leaf_only);
				log("set node %d to %s", s->id, show(v).c_str());
				*handle.at(s) = A::make(v, s->leaf_only);
				s->value = v;
			}
			check("after the step");
		}

		// the space of erased nodes is used again: inserting and erasing for ever does not grow the tree
		void churn(Rng& r)
		{
			MNode* p = pick_parent(r);
			std::size_t at = r.below(p->kids.size() + 1);
			int nodes = r.range(1, 3), rounds = r.range(100, 400);
			bool down = r.chance(1, 2);
			log("insert and erase %d nodes below %d at %zu, %d times", nodes, p->id, at, rounds);
			std::int64_t before = 0;
			for (int i = 0; i < rounds; ++i)
			{
				It top = t->insert(cposition(p, at), A::make("z", false));
				for (int k = 1; k < nodes; ++k)
				{
					if (down) t->insert(top.end(), A::make("y", false));
					else SIM_REQUIRE(t->erase(t->insert(top, A::make("y", false))) == top, "erase", "erase does not return the position behind the erased node");
				}
				It after = t->erase(top);
				SIM_REQUIRE(after == position(p, at), "erase", "erase does not return the position behind the erased node");
				if (i == 0) before = live_bytes();
			}
			SIM_REQUIRE(live_bytes() <= before, "space", "inserting and erasing %d nodes %d times takes %lld bytes more", nodes, rounds, (long long)(live_bytes() - before));
			count("churn");
		}

		void rebind_all()
		{
			handle.clear();
			auto it = t->begin();
			for (auto& k : m.root.kids)
			{
				SIM_REQUIRE(it != t->end(), "shape", "a root is missing");
				bind(k.get(), it);
				++it;
			}
		}

		void finish() override
		{
			check("at the end");
			history(Model::digest(&m.root));
			t.reset();
		}
	};

	using P05 = TreeWorld<PlainTree, false>;
	using P06 = TreeWorld<TagTree, false>;
	using P07a = TreeWorld<PlainTree, true>;
	using P07b = TreeWorld<TagTree, true>;
	SIM_WORLD("P05", P05);
	SIM_WORLD("P06", P06);
	SIM_WORLD("P07", P07a);
	SIM_WORLD("P07", P07b);
}
