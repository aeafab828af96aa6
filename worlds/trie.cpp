// P01: any history of operations, some of them failing, leaves a trie equal to an ordered map.
// P03: the same history with failing allocations.
#include "trie_common.hpp"

#include <new>

namespace
{
	using namespace tw;

	template <typename Trie, typename Label, bool Faults>
	struct TrieWorld : World
	{
		KeyGen<Label> gen;
		Trie t[2];
		Model<Label> m[2];
		std::uint64_t ops = 0;

		int length(Rng& r) override { static int const n[] = { 4, 10, 25, 60 }; return n[r.below(4)] + r.below(8); }
		int fault_percent(Rng& r) override { if (!Faults) return r.chance(2, 3) ? 0 : 10; static int const p[] = { 15, 30, 60 }; return p[r.below(3)]; }
		bool leak_check() const override { return true; }

		void start(Rng& cfg) override { gen.configure(cfg); }

		Key<Label> key(Rng& r, int i) { return gen(r, keys_of<Label>(m[i])); }

		// runs f with the n-th allocation failing; returns true when it completed
		template <typename F> bool attempt(Rng& r, bool faults, F f)
		{
			std::int64_t n = -1;
			if (faults) n = r.chance(2, 3) ? r.below(2) : r.below(12);
			AllocFault fault(n);
			try { f(); return true; }
			catch (std::bad_alloc const&) { fault.disarm(); return false; }
		}

		// a trie of its own, far larger than the others or with nodes that have every child there is
		void large(Rng& r, bool faults)
		{
			Trie z;
			Model<Label> y;
			bool fan = r.chance(2, 3);
			Key<Label> base = fan ? key(r, 0) : Key<Label>();
			int n = fan ? 256 : 500 + r.below(r.chance(1, 4) ? 8000 : 1500);
			std::vector<Key<Label>> list;
			for (int c = 0; c < n; ++c)
			{
				Key<Label> k = base;
				if (fan) { k.push_back(static_cast<Label>(c)); if (r.chance(1, 8)) k.push_back(gen.label(r)); }
				else for (int l = 1 + r.below(5); l; --l) k.push_back(r.chance(1, 2) ? gen.label(r) : static_cast<Label>(r.below(256)));
				list.push_back(k);
			}
			if (fan && r.chance(1, 2)) list.push_back(base);
			bool assign = r.chance(1, 2);
			log("large trie: %s %zu keys%s", assign ? "assign" : "insert", list.size(), fan ? " with a common parent" : "");
			if (assign)
			{
				if (r.chance(1, 2)) { std::sort(list.begin(), list.end()); list.erase(std::unique(list.begin(), list.end()), list.end()); }
				z.assign(list.begin(), list.end());
				for (auto const& k : list) if (!k.empty()) y.emplace(k, 0);
			}
			else
			{
				for (std::size_t j = list.size(); j > 1; --j) std::swap(list[j - 1], list[r.below(static_cast<std::uint32_t>(j))]);
				for (auto const& k : list)
				{
					std::uint32_t v = value(r);
					bool done = attempt(r, faults && r.chance(1, 30), [&] { z.insert(k, v); });
					if (done && !k.empty()) y.emplace(k, v);
				}
			}
			audit<Trie, Label>(z, y, "large");
			for (int j = 0; j < 40; ++j)
			{
				Key<Label> k = gen(r, list);
				if (r.chance(1, 2)) { z.erase(k); y.erase(k); }
				else
				{
					std::uint32_t v = value(r);
					bool done = attempt(r, faults, [&] { z.insert(k, v); });
					if (done && !k.empty()) y.emplace(k, v);
				}
			}
			audit<Trie, Label>(z, y, "large after edits");
			for (int j = 0; j < 10; ++j) probe<Trie, Label>(z, y, gen(r, list));
			if (r.chance(1, 2))
			{
				Trie c(z);
				audit<Trie, Label>(c, y, "copy of the large");
			}
			for (auto const& k : list)
			{
				if (r.chance(1, 3)) continue;
				z.erase(k);
				y.erase(k);
			}
			audit<Trie, Label>(z, y, "large after erasing");
			count(fan ? "probe:full_fan_out" : "probe:thousands_of_keys");
			history(hash_str(std::to_string(y.size())));
		}

		void step(Rng& r, bool faults) override
		{
			int i = r.below(8) == 0 ? 1 : 0;
			Trie& x = t[i];
			Model<Label>& y = m[i];
			int op = r.below(100);
			if (op < 45) // insert
			{
				Key<Label> k = key(r, i);
				std::uint32_t v = value(r);
				log("trie%d insert %s = %u", i, show_key<Label>(k).c_str(), v);
				typename Trie::const_iterator it;
				bool done = attempt(r, faults, [&] { it = x.insert(k, v); });
				if (done)
				{
					if (k.empty()) SIM_REQUIRE(it == x.cend(), "insert", "inserting the empty key returns a node");
					else
					{
						y.emplace(k, v); // an existing key keeps its value
						Key<Label> s;
						it.string(s);
						SIM_REQUIRE(it && s == k, "insert", "insert returns an iterator at %s instead of %s", show_key<Label>(s).c_str(), show_key<Label>(k).c_str());
						std::uint32_t got = static_cast<std::uint32_t>(static_cast<std::int32_t>(x.at(it)));
						SIM_REQUIRE(got == y.at(k), "value", "value at the inserted node is %u, expected %u", got, y.at(k));
					}
				}
				else { log("  -> bad_alloc"); SIM_REQUIRE(!k.empty(), "insert", "inserting nothing failed"); }
			}
			else if (op < 62) // erase
			{
				Key<Label> k = key(r, i);
				log("trie%d erase %s", i, show_key<Label>(k).c_str());
				bool by_iterator = r.chance(1, 3);
				bool done = attempt(r, faults, [&] {
					if (by_iterator) x.erase(x.search(k)); // a node that ends no key: nothing happens
					else x.erase(k); });
				SIM_REQUIRE(done, "erase", "erase needed memory and failed");
				y.erase(k);
			}
			else if (op == 62 && r.chance(1, 12)) large(r, faults);
			else if (op < 70) // write through operator[] or at()
			{
				Key<Label> k = key(r, i);
				if (k.empty()) return;
				std::uint32_t v = value(r);
				bool at = y.count(k) && r.chance(1, 2);
				log("trie%d set %s = %u", i, show_key<Label>(k).c_str(), v);
				bool done = attempt(r, faults, [&] { if (at) x.at(k) = static_cast<std::int32_t>(v); else x[k] = static_cast<std::int32_t>(v); });
				if (done) y[k] = v;
				else log("  -> bad_alloc");
			}
			else if (op < 76) // assign a list
			{
				std::vector<Key<Label>> list;
				for (int n = r.below(r.chance(1, 5) ? 60 : 8); n; --n) list.push_back(key(r, i));
				if (r.chance(1, 2))
				{
					std::sort(list.begin(), list.end());
					list.erase(std::unique(list.begin(), list.end()), list.end());
				}
				log("trie%d assign %zu keys", i, list.size());
				bool done = attempt(r, faults, [&] { x.assign(list.begin(), list.end()); });
				y.clear();
				if (done) { for (auto const& k : list) if (!k.empty()) y.emplace(k, 0); }
				else { log("  -> bad_alloc"); x.clear(); } // unspecified contents, but it can be cleared and used again
			}
			else if (op < 80) // copy
			{
				log("copy trie%d", i);
				bool assign = r.chance(1, 2);
				Trie& other = t[1 - i];
				bool done = attempt(r, faults, [&] { if (assign) other = x; else { Trie z(x); other.swap(z); } });
				if (done) m[1 - i] = y;
				else { log("  -> bad_alloc"); if (assign) { other.clear(); m[1 - i].clear(); } }
			}
			else if (op < 83) { log("swap"); t[0].swap(t[1]); m[0].swap(m[1]); }
			else if (op < 84) { log("trie%d clear", i); x.clear(); y.clear(); }
			else if (op < 88) // the same key goes in and out: storage is reused
			{
				Key<Label> k = key(r, i);
				if (k.empty() || y.count(k)) return;
				log("trie%d cycle %s", i, show_key<Label>(k).c_str());
				auto length = [&] { std::size_t n = 0; for (auto p = x.ibegin(); p != x.iend(); ++p) ++n; return n; };
				for (int c = 0; c < 6; ++c) { x.insert(k, 7); x.erase(k); }
				std::size_t before = length();
				for (int c = 0; c < 40; ++c) { x.insert(k, 7); x.erase(k); }
				std::size_t after = length();
				SIM_REQUIRE(after < before + 40, "storage-leak", "inserting and erasing the same key 40 times grows the storage from %zu to %zu integers", before, after);
			}
			else
			{
				for (int n = 0; n < 4; ++n) probe<Trie, Label>(x, y, key(r, i));
			}
			audit<Trie, Label>(t[0], m[0], "trie0");
			if (i == 1 || op >= 76) audit<Trie, Label>(t[1], m[1], "trie1");
			std::uint64_t d = digest<Label>(y);
			history(d);
			cover(d);
			count(m[0].size() > 30 ? "probe:large_trie" : "probe:small_trie");
		}

		void finish() override
		{
			// faults have stopped: everything stored can be erased again, one key after the other
			for (int i = 0; i < 2; ++i)
			{
				while (!m[i].empty())
				{
					auto k = m[i].begin()->first;
					if (m[i].size() % 2) k = m[i].rbegin()->first;
					t[i].erase(k);
					m[i].erase(k);
					if (m[i].size() < 12 || m[i].size() % 8 == 0) audit<Trie, Label>(t[i], m[i], "teardown");
				}
				audit<Trie, Label>(t[i], m[i], "end");
				Key<Label> k(2, static_cast<Label>(0x61));
				t[i].insert(k, 5);
				m[i].emplace(k, 5);
				audit<Trie, Label>(t[i], m[i], "reuse");
			}
		}
	};

	using T1 = TrieWorld<wordring::trie<char>, char, false>;
	using T2 = TrieWorld<wordring::trie<char16_t>, char16_t, false>;
	using T3 = TrieWorld<wordring::trie<char32_t>, char32_t, false>;
	using T4 = TrieWorld<wordring::stable_trie<char>, char, false>;
	using T5 = TrieWorld<wordring::stable_trie<char32_t>, char32_t, false>;
	using T6 = TrieWorld<wordring::trie<std::uint64_t>, std::uint64_t, false>;
	SIM_WORLD("P01", T1);
	SIM_WORLD("P01", T2);
	SIM_WORLD("P01", T3);
	SIM_WORLD("P01", T4);
	SIM_WORLD("P01", T5);
	SIM_WORLD("P01", T6);

	using F1 = TrieWorld<wordring::trie<char>, char, true>;
	using F2 = TrieWorld<wordring::trie<char16_t>, char16_t, true>;
	using F3 = TrieWorld<wordring::stable_trie<char>, char, true>;
	using F4 = TrieWorld<wordring::stable_trie<char32_t>, char32_t, true>;
	SIM_WORLD("P03", F1);
	SIM_WORLD("P03", F2);
	SIM_WORLD("P03", F3);
	SIM_WORLD("P03", F4);
}
