// P04: atom ids and strings stay in one-to-one correspondence over any history, restart included.
#include "trie_common.hpp"
#include "../sim/disk.hpp"

#include <new>

namespace
{
	using namespace tw;

	template <typename String>
	struct AtomWorld : World
	{
		using Label = typename String::value_type;
		using Set = wordring::basic_atom_set<String>;
		using View = std::basic_string_view<Label>;
		KeyGen<Label> gen;
		std::unique_ptr<Set> set;
		std::map<String, std::uint32_t, KeyLess<Label>> m;
		std::set<std::uint32_t> retired;

		int length(Rng& r) override { static int const n[] = { 5, 15, 40 }; return n[r.below(3)] + r.below(8); }
		int fault_percent(Rng& r) override { static int const p[] = { 0, 20, 50 }; return p[r.below(3)]; }
		void start(Rng& cfg) override { gen.configure(cfg); set = std::make_unique<Set>(); }

		static bool proper_prefix(String const& a, String const& b) { return a.size() < b.size() && b.compare(0, a.size(), a) == 0; }

		// inserted: the key an insertion was attempted for, if any
		void check(String const* inserted, char const* where)
		{
			Set const& s = *set;
			SIM_REQUIRE(s.size() == m.size(), "size", "%s: size() is %zu, %zu strings are stored", where, static_cast<std::size_t>(s.size()), m.size());
			std::set<std::uint32_t> ids;
			for (auto& [k, id] : m)
			{
				auto a = s.at(View(k));
				SIM_REQUIRE(static_cast<bool>(a), "lookup", "%s: no atom for stored string %s", where, show_key<Label>(k).c_str());
				std::uint32_t now_id = static_cast<std::uint32_t>(a);
				SIM_REQUIRE(now_id != 0, "id", "%s: atom of %s has id 0", where, show_key<Label>(k).c_str());
				if (now_id != id)
				{
					// known finding atom-id-prefix: adding a label below a stored string may move that string's leaf
					SIM_REQUIRE(inserted && proper_prefix(k, *inserted) && known("atom-id-prefix"), "id-changed", "%s: id of %s changed from %u to %u", where, show_key<Label>(k).c_str(), id, now_id);
					id = now_id;
				}
				SIM_REQUIRE(ids.insert(id).second, "id-shared", "%s: two strings share id %u", where, id);
				auto b = s.at(id);
				SIM_REQUIRE(static_cast<bool>(b) && static_cast<String>(b) == k, "id-string", "%s: id %u gives %s, not %s", where, id,
				            show_key<Label>(static_cast<String>(b)).c_str(), show_key<Label>(k).c_str());
				SIM_REQUIRE(a == b, "id-string", "%s: the atom found by string and the one found by id differ", where);
				String out;
				a.string(out);
				SIM_REQUIRE(out == k, "id-string", "%s: string() of the atom of %s is %s", where, show_key<Label>(k).c_str(), show_key<Label>(out).c_str());
			}
			for (std::uint32_t id : retired) if (!ids.count(id))
			{
				auto b = s.at(id);
				SIM_REQUIRE(!static_cast<bool>(b), "id-stale", "%s: id %u belongs to no stored string but gives %s", where, id, show_key<Label>(static_cast<String>(b)).c_str());
			}
		}

		String key(Rng& r)
		{
			std::vector<String> known;
			for (auto const& e : m) known.push_back(e.first);
			return gen(r, known);
		}

		void step(Rng& r, bool faults) override
		{
			int op = r.below(100);
			if (op < 50)
			{
				String k = key(r);
				bool bracket = r.chance(1, 3);
				log("insert %s", show_key<Label>(k).c_str());
				std::uint32_t id = 0;
				bool done = true;
				{
					AllocFault af(faults ? static_cast<std::int64_t>(r.below(4)) : -1);
					try { auto a = bracket && !k.empty() ? (*set)[View(k)] : set->insert(View(k)); af.disarm(); if (a) id = static_cast<std::uint32_t>(a); }
					catch (std::bad_alloc const&) { done = false; }
				}
				if (!done) { log("  -> bad_alloc"); }
				else if (!k.empty())
				{
					SIM_REQUIRE(id != 0, "insert", "insert(%s) returns no atom", show_key<Label>(k).c_str());
					m.emplace(k, id);
					SIM_REQUIRE(set->at(View(k)) == set->at(id), "insert", "insert(%s) returned the id of another string", show_key<Label>(k).c_str());
				}
				check(&k, "insert");
			}
			else if (op < 68)
			{
				String k = key(r);
				auto it = m.find(k);
				log("erase %s", show_key<Label>(k).c_str());
				if (it != m.end())
				{
					retired.insert(it->second);
					if (r.chance(1, 2)) set->erase(it->second); else set->erase(View(k));
					m.erase(it);
				}
				else set->erase(View(k));
				check(nullptr, "erase");
			}
			else if (op < 78)
			{
				String k = key(r);
				bool stored = m.count(k) != 0;
				log("look up %s", show_key<Label>(k).c_str());
				SIM_REQUIRE(set->contains(View(k)) == stored, "lookup", "contains(%s) is wrong", show_key<Label>(k).c_str());
				auto a = set->at(View(k));
				SIM_REQUIRE(static_cast<bool>(a) == stored, "lookup", "at(%s) is wrong", show_key<Label>(k).c_str());
				if (!stored) SIM_REQUIRE(static_cast<String>(set->at(0u)).empty(), "lookup", "id 0 has a string");
				std::uint32_t id = r.chance(1, 2) ? r.below(800) : static_cast<std::uint32_t>(r.next());
				bool used = false;
				for (auto const& e : m) used = used || e.second == id;
				auto b = set->at(id);
				SIM_REQUIRE(static_cast<bool>(b) == used, "id-stale", "id %u, which no stored string has, gives an atom", id);
				if (!used) set->erase(id);
				check(nullptr, "look up");
			}
			else if (op < 84)
			{
				log("copy");
				auto copy = std::make_unique<Set>(*set);
				if (r.chance(1, 2)) set.swap(copy);
				check(nullptr, "copy");
			}
			else if (op < 97)
			{
				// restart: ids are kept in files elsewhere, the set comes back from its own file
				File f;
				int how = r.below(3);
				log("restart, way %d", how);
				if (how == 0)
				{
					OutBuf ob(f, 1 + r.below(100), WriteFault::none, 0);
					std::ostream os(&ob);
					os << *set;
					os.flush();
					auto fresh = std::make_unique<Set>();
					if (r.chance(1, 2)) fresh->insert(View(key(r)));
					if (faults)
					{
						// the first attempt meets a fault
						InBuf bad(f, r.next(), 40, r.chance(1, 2) ? ReadFault::eof : ReadFault::throws, r.below(static_cast<std::uint32_t>(f.data.size())));
						std::istream is(&bad);
						is >> *fresh;
						SIM_REQUIRE(is.fail(), "load-report", "loading part of a set reports success");
					}
					InBuf ib(f, r.next(), 1 + r.below(60), ReadFault::none, 0);
					std::istream is(&ib);
					is >> *fresh;
					SIM_REQUIRE(!is.fail(), "load-report", "loading a saved set fails");
					set = std::move(fresh);
				}
				else if (how == 1) { std::vector<std::uint32_t> v(set->ibegin(), set->iend()); set = std::make_unique<Set>(v.begin(), v.end()); }
				else { auto a = wordring::serialize_iterator(set->ibegin()), b = wordring::serialize_iterator(set->iend()); std::vector<char> v(a, b); auto fresh = std::make_unique<Set>(); fresh->assign(v.begin(), v.end()); set = std::move(fresh); }
				check(nullptr, "restart");
			}
			else
			{
				std::vector<String> list;
				for (int n = r.below(12); n; --n) { auto k = key(r); if (!k.empty()) list.push_back(k); }
				log("assign %zu strings", list.size());
				set->assign(list.begin(), list.end());
				m.clear();
				retired.clear();
				for (auto const& k : list) m[k] = static_cast<std::uint32_t>(set->at(View(k)));
				check(nullptr, "assign");
			}
			std::uint64_t h = m.size();
			for (auto const& [k, v] : m) h = mix(h, hash_bytes(k.data(), k.size() * sizeof(Label), v));
			history(h);
			cover(h);
		}

		void finish() override { check(nullptr, "end"); set.reset(); }
	};

	using A1 = AtomWorld<std::string>;
	using A2 = AtomWorld<std::u32string>;
	using A3 = AtomWorld<std::u16string>;
	SIM_WORLD("P04", A1);
	SIM_WORLD("P04", A2);
	SIM_WORLD("P04", A3);
}
