// P15: the markup of a document after any history of edits.
#include "doc_model.hpp"

namespace
{
	using namespace doc;

	struct SinkFull {};
	// an output which takes a given number of units and then fails
	template <class S> struct Sink
	{
		using value_type = typename S::value_type;
		using const_reference = value_type const&;
		S* s; std::size_t room;
		void push_back(value_type c) { if (s->size() >= room) throw SinkFull(); s->push_back(c); }
	};

	template <class Tree> struct DocWorld : World
	{
		Editor<Tree> d;
		using It = typename Editor<Tree>::It;
		using CIt = typename Editor<Tree>::CIt;
		using N = typename Editor<Tree>::N;
		using A = typename Editor<Tree>::A;
		std::size_t limit = 20;

		int length(Rng& r) override { static int const n[] = { 4, 12, 30, 60 }; return n[r.below(4)] + r.below(8); }
		void start(Rng& cfg) override { static std::size_t const n[] = { 6, 20, 40 }; limit = n[cfg.below(3)]; }

		template <class S, class I> void write(I it, Node const& n, Rng& r, bool faults, char const* how)
		{
			S want = narrow<S>(markup(n));
			S got;
			if (!faults)
			{
				wh::to_string(it, std::back_inserter(got));
			}
			else if (r.chance(1, 2)) // the output fails
			{
				std::size_t room = r.below(want.size() + 1);
				got.reserve(want.size());
				bool full = false;
				Sink<S> sink{ &got, room };
				try { wh::to_string(it, std::back_inserter(sink)); } catch (SinkFull) { full = true; count("fault:output-full"); }
				SIM_REQUIRE(full == (room < want.size()), "markup", "markup of node %d (%s): %zu units were written of %zu", n.id, how, got.size(), want.size());
				SIM_REQUIRE(got == want.substr(0, room), "markup", "markup of node %d (%s) up to the failure of the output is %s, not %s", n.id, how, text(got).c_str(), text(want.substr(0, room)).c_str());
				return;
			}
			else
			{
				AllocFault af(r.chance(1, 2) ? r.below(8) : r.below(60));
				try { wh::to_string(it, std::back_inserter(got)); af.disarm(); }
				catch (std::bad_alloc const&)
				{
					af.disarm();
					SIM_REQUIRE(af.fired(), "bad-alloc", "bad_alloc without a failed allocation");
					count("fault:alloc");
					SIM_REQUIRE(got == want.substr(0, got.size()), "markup", "markup of node %d (%s) before memory ran out is %s, not a beginning of %s", n.id, how, text(got).c_str(), text(want).c_str());
					return;
				}
			}
			SIM_REQUIRE(got == want, "markup", "markup of node %d (%s) is %s, not %s", n.id, how, text(got).c_str(), text(want).c_str());
			count("markup");
			history(hash_str(got));
		}
		static std::string text(std::u8string const& s) { return show(std::string(s.begin(), s.end())); }
		static std::string text(std::u16string const& s) { return show(s); }
		static std::string text(std::u32string const& s) { return show(s); }

		void write_any(Node* n, Rng& r, bool faults)
		{
			It it = d.handle.at(n);
			CIt c = it;
			switch (r.below(6))
			{
			case 0: return write<std::u8string>(it, *n, r, faults, "UTF-8");
			case 1: return write<std::u16string>(it, *n, r, faults, "UTF-16");
			case 2: return write<std::u32string>(it, *n, r, faults, "UTF-32");
			case 3: return write<std::u8string>(c, *n, r, faults, "UTF-8, const");
			case 4: return write<std::u16string>(c, *n, r, faults, "UTF-16, const");
			default: return write<std::u32string>(c, *n, r, faults, "UTF-32, const");
			}
		}

		void look_up(Node* n, Rng& r)
		{
			if (n->kind != Kind::Element) return;
			Attr a = !n->attrs.empty() && r.chance(1, 2) ? n->attrs[r.below(n->attrs.size())] : d.any_attr(r);
			N const& x = *d.handle.at(n);
			wh::attribute_name e = static_cast<wh::attribute_name>(0);
			for (auto& q : ref::all_attributes) if (a.name == q.s) e = q.e;
			auto where = [&](Attr const& b) { std::size_t i = 0; while (i < n->attrs.size() && !n->attrs[i].same_name(b)) ++i; return i; };
			Attr plain = a; plain.ns = NsNone; plain.prefix.clear();
			auto need = [&](auto it, Attr const& b, char const* how) {
				std::size_t got = static_cast<std::size_t>(it - x.begin());
				SIM_REQUIRE(got == where(b), "find", "attribute %s of node %d (%s) is found at %zu, not %zu", show(qualified(b.prefix, b.name)).c_str(), n->id, how, got, where(b));
			};
			need(x.find(d.str(plain.name)), plain, "by string");
			if (e != static_cast<wh::attribute_name>(0)) need(x.find(e), plain, "by name");
			if (a.ns != NsOther)
			{
				need(x.find(static_cast<wh::ns_name>(a.ns), d.str(a.prefix), d.str(a.name)), a, "in a namespace");
				bool c = d.handle.at(n)->contains(static_cast<wh::ns_name>(a.ns), d.str(a.prefix), d.str(a.name));
				SIM_REQUIRE(c == (where(a) < n->attrs.size()), "find", "contains() of attribute %s of node %d is %d", show(qualified(a.prefix, a.name)).c_str(), n->id, int(c));
			}
			A probe = d.make_attr(a, r);
			std::size_t i = 0;
			for (auto const& q : x) { SIM_REQUIRE((q == probe) == n->attrs[i].same_name(a) && (q != probe) != n->attrs[i].same_name(a), "find", "comparison of attribute %zu of node %d with %s is wrong", i, n->id, show(qualified(a.prefix, a.name)).c_str()); ++i; }
			count("look-up");
		}

		void step(Rng& r, bool faults) override
		{
			tick(1000);
			bool did = d.edit(r, faults, limit);
			if (faults || r.chance(1, 4)) d.check_contents("after the step");
			(void)did;
			auto v = d.all();
			if (v.empty()) return;
			write_any(v[r.below(v.size())], r, false);
			for (auto& k : d.root.kids) write_any(k.get(), r, false);
			if (faults) { write_any(v[r.below(v.size())], r, true); d.check_contents("after writing markup"); }
			look_up(v[r.below(v.size())], r);
			std::uint64_t h = 1;
			for (auto& k : d.root.kids) h = mix(h, hash_str(markup(*k)));
			cover(h);
		}
		void finish() override
		{
			d.check_contents("at the end");
			Rng r(7);
			for (auto* n : d.all()) write_any(n, r, false);
		}
	};

	using P15a = DocWorld<wh::u8simple_tree>;
	using P15b = DocWorld<wh::u16simple_tree>;
	using P15c = DocWorld<wh::u32simple_tree>;
	using P15d = DocWorld<wh::plain_tree<std::u16string>>;
	SIM_WORLD("P15", P15a);
	SIM_WORLD("P15", P15b);
	SIM_WORLD("P15", P15c);
	SIM_WORLD("P15", P15d);
}
