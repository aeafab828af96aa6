// P18: static_vector, P19: string_matcher.
#include "../sim/sim.hpp"

#include <wordring/static_vector/static_vector.hpp>
#include <wordring/string/matcher.hpp>

#include <algorithm>
#include <new>
#include <stdexcept>
#include <string>
#include <vector>

namespace
{
	using namespace sim;

	// ------------------------------------------------------------------------------------- P18
	template <typename T> T value(Rng& r);
	template <> std::uint32_t value(Rng& r) { return r.below(50); }
	template <> std::string value(Rng& r) { return std::string(r.chance(2, 3) ? 20 + r.below(30) : r.below(4), char('a' + r.below(26))); }
	std::string text(std::uint32_t x) { return std::to_string(x); }
	std::string text(std::string const& x) { return x.size() < 8 ? x : x.substr(0, 1) + "*" + std::to_string(x.size()); }
	std::uint64_t digest(std::uint32_t x) { return x; }
	std::uint64_t digest(std::string const& x) { return hash_str(x); }

	struct Vec : World
	{
		struct Body { virtual ~Body() = default; virtual void step(Rng&, bool) = 0; virtual void check() = 0; };

		template <typename T, std::size_t N> struct B : Body
		{
			using V = wordring::static_vector<T, N>;
			using M = std::vector<T>;
			std::vector<V> real;
			std::vector<M> model;

			B() { real.resize(2); model.resize(2); }

			void compare(V& v, M const& m, char const* when)
			{
				SIM_REQUIRE(v.size() == m.size() && v.empty() == m.empty() && v.max_size() == N && v.capacity() == N, "size", "%s: %zu elements, expected %zu", when, v.size(), m.size());
				V const& c = v;
				for (std::size_t i = 0; i < m.size(); ++i)
					SIM_REQUIRE(v[i] == m[i] && c[i] == m[i] && v.at(i) == m[i] && c.at(i) == m[i] && *(v.data() + i) == m[i] && *(v.begin() + i) == m[i] && c.begin()[int(i)] == m[i] && *std::next(c.cbegin(), i) == m[i],
						"element", "%s: element %zu is %s, expected %s", when, i, text(v[i]).c_str(), text(m[i]).c_str());
				SIM_REQUIRE(M(v.begin(), v.end()) == m && M(c.begin(), c.end()) == m && M(c.cbegin(), c.cend()) == m, "walk", "%s: a walk gives other elements", when);
				M rev(m.rbegin(), m.rend());
				SIM_REQUIRE(M(v.rbegin(), v.rend()) == rev && M(c.rbegin(), c.rend()) == rev && M(c.crbegin(), c.crend()) == rev, "walk", "%s: a walk backwards gives other elements", when);
				if (!m.empty()) SIM_REQUIRE(v.front() == m.front() && v.back() == m.back() && c.front() == m.front() && c.back() == m.back(), "ends", "%s: front or back is another element", when);
				SIM_REQUIRE(std::size_t(v.end() - v.begin()) == m.size() && std::next(v.begin(), m.size()) == v.end() && std::prev(v.end(), m.size()) == v.begin(), "distance", "%s: end is not size() after begin", when);
				for (int k = 0; k < 2; ++k)
				{
					bool thrown = false;
					try { (void)(k ? c.at(m.size()) : v.at(m.size())); } catch (std::out_of_range const&) { thrown = true; }
					SIM_REQUIRE(thrown, "at", "%s: at(%zu) of %zu elements is not out of range", when, m.size(), m.size());
				}
				std::uint64_t h = N;
				for (auto& x : m) h = mix(h, digest(x));
				cover(h);
			}
			void check() override { for (std::size_t i = 0; i < real.size(); ++i) compare(real[i], model[i], "at the end"); }

			void step(Rng& r, bool faults) override
			{
				std::size_t k = r.below(std::uint32_t(real.size()));
				V& v = real[k];
				M& m = model[k];
				M w = m;                                    // the model after the operation
				std::size_t size = m.size(), room = N - size, pos = r.below(std::uint32_t(size + 1));
				T x = value<T>(r);
				bool own = size && r.chance(1, 3);          // an element of the vector itself as argument
				std::size_t from = own ? r.below(std::uint32_t(size)) : 0;
				std::size_t n = r.below(std::uint32_t(room + 1));
				M list;
				for (std::size_t i = 0; i < n; ++i) list.push_back(value<T>(r));
				bool strong = false;
				std::size_t at = 0;                          // position returned
				bool returns = false;
				int op = r.below(18);
				V const* other = &real[1 - k];
				auto run = [&](auto&& f) // calls the library with or without a failing allocation
				{
					bool fault = faults && r.chance(1, 2);
					std::int64_t which = r.below(6);
					AllocFault a(fault ? which : -1);
					try { f(); bool fired = a.fired(); a.disarm(); SIM_REQUIRE(!fired, "swallowed", "a failing allocation was not reported"); return true; }
					catch (std::bad_alloc const&)
					{
						bool fired = a.fired();
						a.disarm();
						SIM_REQUIRE(fired, "bad-alloc", "bad_alloc without a failing allocation");
						count("fault:allocation");
						return false;
					}
				};
				bool done = true;
				auto res = [&](auto it) { at = std::size_t(it - v.begin()); returns = true; };
				switch (op)
				{
				case 0: case 1:
					if (!room) return;
					log("push_back%s", own ? " own" : "");
					w.push_back(own ? T(m[from]) : x);
					strong = true;
					done = run([&] { v.push_back(own ? v[from] : x); });
					break;
				case 2:
					if (!room) return;
					log("push_back moved");
					w.push_back(x);
					strong = true;
					done = run([&] { v.push_back(std::move(x)); });
					break;
				case 3: case 4:
					if (!room) return;
					log("insert at %zu of %zu%s", pos, size, own ? " own" : "");
					w.insert(w.begin() + pos, own ? T(m[from]) : x);
					done = run([&] { res(v.insert(v.cbegin() + pos, own ? v[from] : x)); });
					break;
				case 5:
					if (!room) return;
					log("insert at %zu of %zu moved", pos, size);
					w.insert(w.begin() + pos, x);
					done = run([&] { res(v.insert(v.cbegin() + pos, std::move(x))); });
					break;
				case 6:
					log("insert %zu at %zu of %zu%s", n, pos, size, own ? " own" : "");
					w.insert(w.begin() + pos, n, own ? T(m[from]) : x);
					done = run([&] { res(v.insert(v.cbegin() + pos, n, own ? v[from] : x)); });
					break;
				case 7:
					log("insert range %zu at %zu of %zu", n, pos, size);
					w.insert(w.begin() + pos, list.begin(), list.end());
					done = run([&] { res(v.insert(v.cbegin() + pos, list.begin(), list.end())); });
					break;
				case 8:
				{
					if (room < 2) return;
					log("insert list at %zu of %zu", pos, size);
					T y = value<T>(r);
					w.insert(w.begin() + pos, { x, y });
					std::initializer_list<T> il{ x, y };
					done = run([&] { res(v.insert(v.cbegin() + pos, il)); });
					break;
				}
				case 9:
					if (pos == size) return;
					log("erase %zu of %zu", pos, size);
					w.erase(w.begin() + pos);
					done = run([&] { res(v.erase(v.cbegin() + pos)); });
					break;
				case 10:
				{
					if (pos == size) return;
					std::size_t e = pos + r.below(std::uint32_t(size - pos + 1));
					log("erase %zu to %zu of %zu", pos, e, size);
					w.erase(w.begin() + pos, w.begin() + e);
					done = run([&] { res(v.erase(v.cbegin() + pos, v.cbegin() + e)); });
					break;
				}
				case 11:
					if (!size) return;
					log("pop_back");
					w.pop_back();
					strong = true;
					done = run([&] { v.pop_back(); });
					break;
				case 12:
				{
					std::size_t c = r.below(N + 1);
					bool dflt = r.chance(1, 2);
					log("resize %zu from %zu", c, size);
					if (dflt) w.resize(c); else w.resize(c, own ? T(m[from]) : x);
					done = run([&] { if (dflt) v.resize(c); else v.resize(c, own ? v[from] : x); });
					break;
				}
				case 13:
				{
					std::size_t c = r.below(N + 1);
					log("assign %zu", c);
					w.assign(c, x);
					done = run([&] { v.assign(c, x); });
					break;
				}
				case 14:
					log("assign range %zu", n);
					w.assign(list.begin(), list.end());
					done = run([&] { v.assign(list.begin(), list.end()); });
					break;
				case 15:
				{
					log("swap");
					if (!run([&] { real[0].swap(real[1]); })) violate("swap", "swap allocates");
					std::swap(model[0], model[1]);
					compare(real[0], model[0], "swap");
					compare(real[1], model[1], "swap");
					return;
				}
				case 16:
				{
					int how = r.below(4);
					log("copy %d", how);
					if (how < 2)
					{
						w = model[1 - k];
						if (how == 0) done = run([&] { v = *other; });
						else done = run([&] { V c(*other); v = std::move(c); });
					}
					else if (how == 2)
					{
						w = list;
						done = run([&] { V c(list.begin(), list.end()); v = std::move(c); });
						strong = true;
					}
					else
					{
						std::size_t c = r.below(N + 1);
						w.assign(c, x);
						done = run([&] { V d(c, x); v = std::move(d); });
						strong = true;
					}
					break;
				}
				default:
					if (!r.chance(1, 4)) return;
					log("clear");
					w.clear();
					done = run([&] { v.clear(); });
					break;
				}
				if (!done)
				{
					if (strong) compare(v, m, "after a failed allocation");
					else
					{
						// the vector stays a vector: what it holds can be read, copied and replaced
						SIM_REQUIRE(v.size() <= N, "size", "%zu elements after a failed allocation", v.size());
						m.assign(v.begin(), v.end());
						compare(v, m, "after a failed allocation");
					}
					compare(real[1 - k], model[1 - k], "the other vector");
					return;
				}
				if (returns) SIM_REQUIRE(at == pos, "position", "the position returned is %zu, expected %zu", at, pos);
				m = w;
				compare(v, m, "after the operation");
				compare(real[1 - k], model[1 - k], "the other vector");
				auto& a = real[0];
				auto& b = real[1];
				auto& ma = model[0];
				auto& mb = model[1];
				SIM_REQUIRE((a == b) == (ma == mb) && (a != b) == (ma != mb) && (a < b) == (ma < mb) && (a <= b) == (ma <= mb) && (a > b) == (ma > mb) && (a >= b) == (ma >= mb), "compare", "a comparison of the two vectors is wrong");
				if (size)
				{
					std::size_t i = r.below(std::uint32_t(m.size() + 1)), j = r.below(std::uint32_t(m.size() + 1));
					auto p = v.begin() + i;
					auto q = v.cbegin() + j;
					SIM_REQUIRE((p == q) == (i == j) && (p != q) == (i != j) && (p < q) == (i < j) && (p <= q) == (i <= j) && (p > q) == (i > j) && (p >= q) == (i >= j) && (p - q) == std::ptrdiff_t(i) - std::ptrdiff_t(j),
						"iterators", "positions %zu and %zu compare wrong", i, j);
				}
			}
		};

		std::unique_ptr<Body> body;
		int length(Rng& c) override { return 4 + c.below(c.chance(1, 4) ? 80 : 25); }
		bool leak_check() const override { return true; }
		void start(Rng& c) override
		{
			switch (c.below(6))
			{
			case 0: body = std::make_unique<B<std::uint32_t, 1>>(); break;
			case 1: body = std::make_unique<B<std::uint32_t, 7>>(); break;
			case 2: body = std::make_unique<B<std::string, 2>>(); break;
			default: body = std::make_unique<B<std::string, 9>>(); break;
			}
		}
		void step(Rng& r, bool faults) override { tick(1); body->step(r, faults); }
		void finish() override { body->check(); }
	};
	SIM_WORLD("P18", Vec);

	// ------------------------------------------------------------------------------------- P19
	struct Match : World
	{
		struct Body { virtual ~Body() = default; virtual void step(Rng&, bool) = 0; };
		template <typename S> struct B : Body
		{
			using X = wordring::string_matcher<S>;
			using R = typename X::match_result;
			using C = typename S::value_type;
			struct Session { std::unique_ptr<X> x; S data; bool over = false; };
			std::vector<S> words;
			std::vector<Session> sessions;
			C letters[3];

			S word(Rng& r)
			{
				S s;
				for (int n = r.below(r.chance(1, 6) ? 40 : 5); n; --n) s.push_back(letters[r.below(3)]);
				return s;
			}
			explicit B(Rng& r)
			{
				for (auto& l : letters) l = C(r.chance(1, 8) ? 0 : r.chance(1, 4) ? 0xE3 : 'a' + r.below(3));
				for (int n = r.below(7); n; --n) words.push_back(r.chance(1, 3) && !words.empty() ? r.pick(words) + word(r) : word(r));
				words.resize(6);
				for (int n = 1 + r.below(3); n; --n) sessions.push_back({ std::make_unique<X>(std::initializer_list<S>{ words[0], words[1], words[2], words[3], words[4], words[5] }), {}, false });
			}
			void step(Rng& r, bool faults) override
			{
				Session& s = sessions[r.below(std::uint32_t(sessions.size()))];
				if (s.over || r.chance(1, 12))
				{
					if (r.chance(1, 6))
					{
						log("copy");
						Session c{ std::make_unique<X>(*s.x), s.data, s.over };
						s = std::move(c);
					}
					log("clear");
					s.x->clear();
					s.data.clear();
					s.over = false;
				}
				else
				{
					// mostly along one of the words
					C c = letters[r.below(3)];
					S const& w = r.pick(words);
					if (r.chance(3, 4) && w.size() > s.data.size() && w.compare(0, s.data.size(), s.data) == 0) c = w[s.data.size()];
					S next = s.data;
					next.push_back(c);
					bool hit = false, maybe = false;
					for (auto& x : words) { if (x == next) hit = true; else if (x.size() > next.size() && x.compare(0, next.size(), next) == 0) maybe = true; }
					R want = hit ? R::succeed : maybe ? R::partial : R::failed, got{};
					AllocFault f(faults && r.chance(1, 2) ? 0 : -1);
					try
					{
						got = s.x->push_back(c);
						f.disarm();
						log("push %d: %d", int(c), int(got));
						SIM_REQUIRE(got == want, "result", "result %d after %zu characters, expected %d", int(got), next.size(), int(want));
						s.data = next;
						s.over = got != R::partial;
					}
					catch (std::bad_alloc const&) { f.disarm(); count("fault:allocation"); }
				}
				SIM_REQUIRE(s.x->data() == s.data && s.x->size() == s.data.size(), "data", "the matcher holds %zu characters, expected %zu", std::size_t(s.x->size()), s.data.size());
				cover(mix(hash_str(s.data), s.over));
			}
		};
		std::unique_ptr<Body> body;
		int length(Rng& c) override { return 4 + c.below(60); }
		bool leak_check() const override { return true; }
		void start(Rng& c) override
		{
			switch (c.below(3))
			{
			case 0: body = std::make_unique<B<std::string>>(c); break;
			case 1: body = std::make_unique<B<std::u16string>>(c); break;
			default: body = std::make_unique<B<std::u32string>>(c); break;
			}
		}
		void step(Rng& r, bool faults) override { tick(1); body->step(r, faults); }
		void finish() override { body.reset(); }
	};
	SIM_WORLD("P19", Match);
}
