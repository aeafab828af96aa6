// Shared by the trie worlds: key generation, reference model (an ordered map), whole-container audit.
#pragma once
#include "../sim/sim.hpp"

#include <wordring/serialize/serialize_iterator.hpp>
#include <wordring/string/atom.hpp>
#include <wordring/tree/tree_iterator.hpp>
#include <wordring/trie/trie.hpp>

#include <algorithm>
#include <map>
#include <set>
#include <stdexcept>
#include <string>
#include <vector>

namespace tw
{
	using namespace sim;

	template <typename Label> using Key = std::basic_string<Label>;

	template <typename Label> struct KeyLess
	{
		using U = std::make_unsigned_t<std::conditional_t<std::is_same_v<Label, char16_t>, std::uint16_t,
		          std::conditional_t<std::is_same_v<Label, char32_t>, std::uint32_t, Label>>>;
		bool operator()(Key<Label> const& a, Key<Label> const& b) const
		{
			return std::lexicographical_compare(a.begin(), a.end(), b.begin(), b.end(), [](Label x, Label y) { return static_cast<U>(x) < static_cast<U>(y); });
		}
	};

	template <typename Label> std::string show_key(Key<Label> const& k)
	{
		std::string s = "[";
		for (Label c : k)
		{
			char b[32];
			std::snprintf(b, sizeof b, "%s%llx", s.size() > 1 ? " " : "", static_cast<unsigned long long>(static_cast<typename KeyLess<Label>::U>(c)));
			s += b;
			if (s.size() > 200) { s += " ..."; break; }
		}
		return s + "]";
	}

	template <typename Label> struct KeyGen
	{
		std::vector<Label> alphabet;
		int max_len = 4;
		bool wide = false;
		void configure(Rng& r)
		{
			using U = typename KeyLess<Label>::U;
			int n = 0;
			switch (r.below(4)) { case 0: n = 1 + r.below(3); break; case 1: n = 3 + r.below(6); break; case 2: n = 16 + r.below(40); break; default: n = 2 + r.below(20); }
			alphabet.clear();
			static unsigned long long const special[] = { 0, 1, 0x7F, 0x80, 0xFF, 'a', 'b', 'c' };
			for (int i = 0; i < n; ++i)
			{
				unsigned long long v;
				switch (r.below(4))
				{
				case 0: v = special[r.below(8)]; break;
				case 1: v = 'a' + r.below(6); break;
				case 2: v = r.below(256); break;
				default: v = r.next();
				}
				if (sizeof(Label) > 1 && r.chance(1, 2)) v = (v & 0xFF) << (8 * r.below(sizeof(Label))) | (r.chance(1, 2) ? 0x61 : 0);
				alphabet.push_back(static_cast<Label>(static_cast<U>(v)));
			}
			max_len = 1 + r.below(r.chance(1, 6) ? 40 : 6);
			wide = r.chance(1, 8);
		}
		Key<Label> operator()(Rng& r, std::vector<Key<Label>> const& known) const
		{
			Key<Label> k;
			// mostly keys related to the ones stored: equal, prefix, extension, sibling
			if (!known.empty() && r.chance(3, 5))
			{
				k = r.pick(known);
				switch (r.below(5))
				{
				case 0: return k;
				case 1: k.resize(r.below(static_cast<std::uint32_t>(k.size()) + 1)); return k;
				case 2: if (!k.empty()) k.back() = label(r); return k;
				case 3: if (!k.empty()) k[r.below(static_cast<std::uint32_t>(k.size()))] = label(r); return k;
				default: for (int n = 1 + r.below(2); n; --n) k.push_back(label(r)); return k;
				}
			}
			if (r.chance(1, 40)) return k;
			for (int n = 1 + r.below(max_len); n; --n) k.push_back(label(r));
			return k;
		}
		Label label(Rng& r) const
		{
			if (wide && r.chance(1, 2)) return static_cast<Label>(r.below(256));
			return r.pick(alphabet);
		}
	};

	template <typename Label> using Model = std::map<Key<Label>, std::uint32_t, KeyLess<Label>>;

	template <typename Label> std::vector<Key<Label>> keys_of(Model<Label> const& m)
	{
		std::vector<Key<Label>> v;
		for (auto const& e : m) v.push_back(e.first);
		return v;
	}

	inline std::uint32_t value(Rng& r)
	{
		switch (r.below(6)) { case 0: return 0; case 1: return 1; case 2: return 0x7FFFFFFF; case 3: return 0x7FFFFF00u + r.below(256); default: return r.below(0x7FFFFFFF); }
	}

	// Every observation of the trie agrees with the model.
	template <typename Trie, typename Label>
	void audit(Trie const& t, Model<Label> const& m, char const* where)
	{
		SIM_REQUIRE(t.size() == m.size(), "size", "%s: size() is %zu, the model holds %zu keys", where, static_cast<std::size_t>(t.size()), m.size());
		SIM_REQUIRE(t.empty() == m.empty(), "size", "%s: empty() disagrees with size", where);
		// traversal with the container's own iterators: pre-order = lexicographic order
		auto expect = m.begin();
		std::size_t visited = 0, bound = 0;
		for (auto const& e : m) bound += e.first.size();
		struct Frame { typename Trie::const_iterator it; };
		std::vector<Frame> stack;
		Key<Label> path;
		auto root = t.begin();
		SIM_REQUIRE(!root, "traverse", "%s: the root claims to end a key", where);
		stack.push_back({ root.begin() });
		while (!stack.empty())
		{
			auto& top = stack.back();
			if (top.it == t.end())
			{
				stack.pop_back();
				if (!path.empty() && !stack.empty()) { path.pop_back(); ++stack.back().it; }
				continue;
			}
			SIM_REQUIRE(++visited <= bound, "traverse", "%s: traversal visits more nodes than the stored keys have labels", where);
			path.push_back(static_cast<Label>(*top.it));
			if (top.it)
			{
				SIM_REQUIRE(expect != m.end() && expect->first == path, "traverse", "%s: traversal reaches key %s, expected %s", where,
				            show_key<Label>(path).c_str(), expect == m.end() ? "the end" : show_key<Label>(expect->first).c_str());
				std::uint32_t v = static_cast<std::uint32_t>(static_cast<std::int32_t>(t.at(top.it)));
				SIM_REQUIRE(v == expect->second, "value", "%s: value of %s is %u, expected %u", where, show_key<Label>(path).c_str(), v, expect->second);
				Key<Label> s;
				top.it.string(s);
				SIM_REQUIRE(s == path, "traverse", "%s: string() of the iterator at %s gives %s", where, show_key<Label>(path).c_str(), show_key<Label>(s).c_str());
				++expect;
			}
			auto child = top.it.begin();
			stack.push_back({ child });
		}
		SIM_REQUIRE(expect == m.end(), "traverse", "%s: traversal never reaches key %s", where, show_key<Label>(expect->first).c_str());
		// point queries
		for (auto const& [k, v] : m)
		{
			SIM_REQUIRE(t.contains(k), "lookup", "%s: stored key %s is not found", where, show_key<Label>(k).c_str());
			auto it = t.find(k);
			SIM_REQUIRE(it != t.end() && it, "lookup", "%s: find(%s) fails", where, show_key<Label>(k).c_str());
			std::uint32_t got = static_cast<std::uint32_t>(static_cast<std::int32_t>(t.at(k)));
			SIM_REQUIRE(got == v, "value", "%s: at(%s) is %u, expected %u", where, show_key<Label>(k).c_str(), got, v);
		}
	}

	// One key, stored or not.
	template <typename Trie, typename Label>
	void probe(Trie const& t, Model<Label> const& m, Key<Label> const& k)
	{
		bool stored = m.count(k) != 0;
		SIM_REQUIRE(t.contains(k) == stored, "lookup", "contains(%s) is %d", show_key<Label>(k).c_str(), !stored);
		SIM_REQUIRE((t.find(k) != t.cend()) == stored, "lookup", "find(%s) %s", show_key<Label>(k).c_str(), stored ? "fails" : "finds a key never stored");
		bool threw = false;
		try { (void)static_cast<std::int32_t>(t.at(k)); } catch (std::out_of_range const&) { threw = true; }
		SIM_REQUIRE(threw == !stored, "lookup", "at(%s) %s", show_key<Label>(k).c_str(), threw ? "throws for a stored key" : "does not throw for an absent key");
		// longest stored path
		std::size_t longest = 0;
		auto lb = m.lower_bound(k);
		auto common = [&](Key<Label> const& x) { std::size_t i = 0; while (i < x.size() && i < k.size() && x[i] == k[i]) ++i; return i; };
		if (lb != m.end()) longest = std::max(longest, common(lb->first));
		if (lb != m.begin()) longest = std::max(longest, common(std::prev(lb)->first));
		auto pair = t.lookup(k.begin(), k.end());
		std::size_t got = static_cast<std::size_t>(pair.second - k.begin());
		SIM_REQUIRE(got == longest, "lookup", "lookup(%s) matched %zu labels, expected %zu", show_key<Label>(k).c_str(), got, longest);
		Key<Label> s;
		pair.first.string(s);
		SIM_REQUIRE(s == Key<Label>(k.begin(), k.begin() + longest), "lookup", "lookup(%s) stopped at the wrong node %s", show_key<Label>(k).c_str(), show_key<Label>(s).c_str());
		auto it = t.search(k);
		SIM_REQUIRE((it != t.cend()) == (longest == k.size()), "lookup", "search(%s) is wrong about the prefix", show_key<Label>(k).c_str());
		// step by step through operator[]
		auto node = t.begin();
		std::size_t i = 0;
		while (i < k.size())
		{
			auto next = node[k[i]];
			if (next == t.end()) break;
			SIM_REQUIRE(next.parent() == node, "traverse", "parent() of a child is not its parent");
			node = next;
			++i;
		}
		SIM_REQUIRE(i == longest, "lookup", "operator[] walk of %s stops after %zu labels, expected %zu", show_key<Label>(k).c_str(), i, longest);
	}

	template <typename Label> std::uint64_t digest(Model<Label> const& m)
	{
		std::uint64_t h = m.size();
		for (auto const& [k, v] : m) h = mix(h, hash_bytes(k.data(), k.size() * sizeof(Label), v));
		return h;
	}
}
