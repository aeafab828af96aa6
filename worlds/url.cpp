// P17: URL objects under any history of edits, resolutions and failures.
#include "../sim/sim.hpp"
#include "../ref/url.hpp"

#include <wordring/whatwg/url/api.hpp>

#include <memory>
#include <new>
#include <system_error>

namespace
{
	using namespace sim;
	using namespace url_ref;
	namespace wh = wordring::whatwg;

	// ------------------------------------------------------------------------------------- strings of the caller
	template <typename S> S to(Text const& t)
	{
		S s;
		for (char32_t c : t)
		{
			if constexpr (sizeof(s[0]) == 4) s.push_back(c);
			else if constexpr (sizeof(s[0]) == 2) { if (c < 0x10000) s.push_back(char16_t(c)); else { s.push_back(char16_t(0xD800 + ((c - 0x10000) >> 10))); s.push_back(char16_t(0xDC00 + ((c - 0x10000) & 0x3FF))); } }
			else for (unsigned char b : utf8(Text(1, c))) s.push_back(static_cast<typename S::value_type>(b));
		}
		return s;
	}
	template <typename S> Text from(S const& s)
	{
		if constexpr (sizeof(s[0]) == 4) return Text(s.begin(), s.end());
		else if constexpr (sizeof(s[0]) == 2)
		{
			Text t;
			for (std::size_t i = 0; i < s.size(); ++i)
				if (s[i] >= 0xD800 && s[i] < 0xDC00 && i + 1 < s.size()) { t += char32_t(0x10000 + ((s[i] - 0xD800) << 10) + (s[i + 1] - 0xDC00)); ++i; } else t += char32_t(s[i]);
			return t;
		}
		else return ref::decode_all(E::UTF_8, std::string(s.begin(), s.end()));
	}

	enum Part { Href, Protocol, Username, Password, Host, Hostname, Port, Pathname, Search, Hash, Parts };
	char const* const part_name[] = { "href", "protocol", "username", "password", "host", "hostname", "port", "pathname", "search", "hash" };

	struct Any
	{
		virtual ~Any() = default;
		virtual Text get(int) const = 0;
		virtual Text whole(bool no_fragment) const = 0;
		virtual void set(int, Text const&) = 0; // the value is prepared before the fault is armed
		virtual std::unique_ptr<Any> copy() const = 0;
		virtual void prepare(Text const&) = 0;
	};

	template <typename S> struct Url8 : Any
	{
		using U = wh::basic_url<S>;
		U u;
		S value;
		Url8() = default;
		explicit Url8(U const& x) : u(x) {}
		explicit Url8(U&& x) : u(std::move(x)) {}
		Text get(int p) const override
		{
			switch (p)
			{
			case Href: return from(u.href());
			case Protocol: return from(u.protocol());
			case Username: return from(u.username());
			case Password: return from(u.password());
			case Host: return from(u.host());
			case Hostname: return from(u.hostname());
			case Port: return from(u.port());
			case Pathname: return from(u.pathname());
			case Search: return from(u.search());
			default: return from(u.hash());
			}
		}
		Text whole(bool no_fragment) const override { return from(no_fragment ? to_string(u, true) : to_string(u)); }
		void prepare(Text const& t) override { value = to<S>(t); }
		void set(int p, Text const&) override
		{
			switch (p)
			{
			case Href: u.href(value); return;
			case Protocol: u.protocol(value); return;
			case Username: u.username(value); return;
			case Password: u.password(value); return;
			case Host: u.host(value); return;
			case Hostname: u.hostname(value); return;
			case Port: u.port(value); return;
			case Pathname: u.pathname(value); return;
			case Search: u.search(value); return;
			default: u.hash(value); return;
			}
		}
		std::unique_ptr<Any> copy() const override
		{
			U c(u);
			return std::make_unique<Url8>(std::move(c));
		}
	};

	template <typename S> std::unique_ptr<Any> construct(Text const& t, Text const* base, std::int64_t fault, bool& fired)
	{
		S a = to<S>(t), b = base ? to<S>(*base) : S();
		using U = wh::basic_url<S>;
		std::unique_ptr<U> u;
		{
			AllocFault f(fault);
			try { u = base ? std::make_unique<U>(a, b) : std::make_unique<U>(a); }
			catch (...) { fired = f.fired(); throw; }
			fired = f.fired();
		}
		return std::make_unique<Url8<S>>(std::move(*u));
	}

	Text want(Url const& u, int p)
	{
		switch (p)
		{
		case Href: return href(u);
		case Protocol: return u.scheme + U":";
		case Username: return u.username;
		case Password: return u.password;
		case Host: return !u.host ? Text() : *u.host + (u.port ? U":" + number(*u.port) : Text());
		case Hostname: return u.host ? *u.host : Text();
		case Port: return u.port ? number(*u.port) : Text();
		case Pathname: return pathname(u);
		case Search: return u.query && !u.query->empty() ? U"?" + *u.query : Text();
		default: return u.fragment && !u.fragment->empty() ? U"#" + *u.fragment : Text();
		}
	}

	// ------------------------------------------------------------------------------------- texts
	struct Gen
	{
		Rng& r;
		bool wild; // damaged texts
		Text one(std::initializer_list<char32_t const*> l) { return *(l.begin() + r.below(std::uint32_t(l.size()))); }

		Text scheme() { return r.chance(2, 3) ? one({ U"http", U"https", U"ftp", U"file", U"file", U"ws", U"wss", U"HTTP", U"FiLe" }) : one({ U"web", U"a", U"data", U"mailto", U"x+y-z.1", U"blob", U"javascript", U"WEB" }); }
		Text odd() { return one({ U" ", U"\"", U"#", U"%", U"%2", U"%zz", U"%41", U"&", U"'", U"/", U":", U";", U"<", U"=", U">", U"?", U"@", U"[", U"\\", U"]", U"^", U"`", U"{", U"|", U"}", U"~", U"\t", U"\n", U"\r", U"é", U"あ", U"𠮷", U"\x7F", U"\x01", U"$", U"!", U"(", U"*", U"+", U",", U"-", U".", U"_", U"\u0080", U"\u00A0" }); }
		Text word(int n)
		{
			Text s;
			for (int i = r.below(n + 1); i; --i) s += r.chance(1, 4) ? odd() : one({ U"a", U"b", U"C", U"d0", U"9", U"xyz", U"Q" });
			return s;
		}
		Text label() { return one({ U"a", U"example", U"WWW", U"x-1", U"b_c", U"localhost", U"-a", U"1a", U"a-", U"c3--d" }); }
		Text v4()
		{
			Text s;
			for (int n = 1 + r.below(r.chance(1, 6) ? 6 : 4), i = 0; i < n; ++i)
			{
				if (i) s += U".";
				s += one({ U"0", U"1", U"127", U"255", U"256", U"01", U"0377", U"08", U"0x", U"0xfF", U"0X10", U"65535", U"65536", U"16777215", U"16777216", U"4294967295", U"4294967296", U"99999999999999999999", U"0x100000000", U"1a", U"0xg", U"" });
			}
			if (r.chance(1, 8)) s += U".";
			return s;
		}
		Text v6()
		{
			Text s = U"[";
			if (r.chance(3, 4))
			{
				// a well-formed address, zeros in runs
				int n = r.chance(2, 3) ? 8 : r.below(10), gap = n == 8 ? -1 : int(r.below(n + 1));
				bool dotted = r.chance(1, 4);
				for (int i = 0; i < n; ++i)
				{
					if (i == gap) s += i == 0 ? U"::" : U":";
					if (dotted && (i == n - 2 || (n == 1 && i == 0))) { s += number(r.below(256)) + U"." + number(r.below(r.chance(1, 4) ? 300 : 256)) + U"." + number(r.below(20)) + U"." + number(r.below(256)); break; }
					s += r.chance(1, 2) ? Text(U"0") : r.chance(1, 30) ? one({ U"10000", U"g", U"" }) : one({ U"1", U"ab", U"CDEF", U"0db8", U"ffff", U"00" });
					if (i + 1 < n || (gap == n && r.chance(1, 2))) s += U":";
				}
				if (gap == n) s += n ? U":" : U"::";
			}
			else for (int n = r.below(12); n; --n) s += one({ U"0", U"1", U"f", U":", U":", U"::", U".", U"12", U"1.2.3.4" });
			s += r.chance(1, 15) ? U"" : U"]";
			return s;
		}
		Text host()
		{
			switch (r.below(12))
			{
			case 0: return U"";
			case 1: case 2: return v4();
			case 3: case 4: return v6();
			case 5: { auto i = names().begin(); std::advance(i, r.below(std::uint32_t(names().size()))); return i->first; }
			case 6: return one({ U"%65xample", U"a%2eb", U"%41", U"ex%61mple.com", U"%31.2", U"a%20b", U"%00", U"%", U"a%zz", U"%30%78%31", U"%e3%81%82%e3%81%84%e3%81%86%e3%81%88%e3%81%8a.net" });
			default:
			{
				Text s = label();
				for (int n = r.below(3); n; --n) s += U"." + label();
				if (r.chance(1, 8)) s += r.chance(1, 2) ? U"." : U"..";
				if (r.chance(1, 20)) s = Text(70, U'a') + U"." + s;
				if (r.chance(1, 20)) s = U"." + s;
				return s;
			}
			}
		}
		Text port() { return one({ U"", U"0", U"1", U"80", U"443", U"21", U"8080", U"65535", U"65536", U"65534", U"99999", U"100000", U"00080", U"0000000443", U"080", U"4294967376", U"8a", U"a8", U"-1", U"8 0", U"0", U"80", U"443" }); }
		Text authority()
		{
			Text s;
			if (r.chance(1, 4)) { s += word(3); if (r.chance(1, 2)) s += U":" + word(3); s += U"@"; if (r.chance(1, 6)) s += word(2) + U"@"; }
			s += host();
			if (r.chance(1, 3)) s += U":" + port();
			return s;
		}
		Text segment() { return r.chance(1, 2) ? one({ U".", U"..", U"%2e", U"%2E", U".%2e", U"%2E.", U"%2e%2E", U"C:", U"c|", U"D|", U"", U"...", U"C:x", U"%2f" }) : word(3); }
		Text path()
		{
			Text s;
			for (int n = r.below(5); n; --n) s += (r.chance(1, 6) ? U"\\" : U"/") + segment();
			if (r.chance(1, 6)) s += U"/";
			return s;
		}
		Text tail()
		{
			Text s;
			if (r.chance(1, 3)) s += U"?" + word(4);
			if (r.chance(1, 3)) s += U"#" + word(4);
			return s;
		}
		Text damage(Text s)
		{
			if (!wild) return s;
			for (int n = r.below(4); n; --n)
			{
				std::size_t i = r.below(std::uint32_t(s.size() + 1));
				if (r.chance(1, 2) || s.empty()) s.insert(i, odd());
				else s.erase(i % s.size(), 1 + r.below(2));
			}
			return s;
		}
		Text absolute()
		{
			Text s = scheme() + U":";
			switch (r.below(10))
			{
			case 0: s += word(5); break;
			case 1: s += path(); break;
			case 2: s += U"/" + segment() + path(); break;
			case 3: s += one({ U"\\\\", U"/\\", U"///", U"////", U"\\/" }) + authority() + path(); break;
			default: s += U"//" + authority() + path(); break;
			}
			s += tail();
			if (r.chance(1, 12)) s = one({ U" ", U"\t", U"\x01" }) + s + one({ U" ", U"\n ", U"\x1F" });
			return damage(s);
		}
		Text relative()
		{
			Text s;
			switch (r.below(8))
			{
			case 0: s = U""; break;
			case 1: s = U"//" + authority() + path(); break;
			case 2: s = one({ U"\\\\", U"/\\", U"///" }) + authority() + path(); break;
			case 3: s = scheme() + U":" + segment() + path(); break;
			case 4: return absolute();
			case 5: s = segment() + path(); break;
			default: s = path(); break;
			}
			return damage(s + tail());
		}
		Text value(int p)
		{
			switch (p)
			{
			case Href: return absolute();
			case Protocol: return damage(scheme() + (r.chance(1, 4) ? Text(U":") + word(2) : Text()));
			case Username: case Password: return word(5);
			case Host: { Text s = host(); if (r.chance(1, 3)) s += U":" + port(); if (r.chance(1, 6)) s += one({ U"/", U"?", U"#", U"\\" }) + word(2); return damage(s); }
			case Hostname: { Text s = host(); if (r.chance(1, 8)) s += U":" + port(); if (r.chance(1, 6)) s += one({ U"/", U"?", U"#", U"\\" }) + word(2); return damage(s); }
			case Port: return damage(port());
			case Pathname: return damage(r.chance(1, 2) ? path() : segment() + path());
			case Search: return (r.chance(1, 2) ? U"?" : U"") + word(6);
			default: return (r.chance(1, 2) ? U"#" : U"") + word(6);
			}
		}
	};

	// ------------------------------------------------------------------------------------- the world
	struct W : World
	{
		struct Slot { std::unique_ptr<Any> real; Url model; };
		std::vector<Slot> slots;
		int kind = 0;
		bool wild = false;

		int length(Rng& c) override { return 3 + c.below(c.chance(1, 4) ? 60 : 20); }
		int fault_percent(Rng& c) override { static int const t[] = { 0, 0, 10, 40 }; return t[c.below(4)]; }
		bool leak_check() const override { return true; }
		void warm() override;
		void start(Rng& c) override
		{
			kind = c.below(3);
			wild = c.chance(1, 2);
		}
		std::unique_ptr<Any> make(Text const& t, Text const* base, std::int64_t fault, bool& fired)
		{
			return kind == 0 ? construct<std::u8string>(t, base, fault, fired) : kind == 1 ? construct<std::u16string>(t, base, fault, fired) : construct<std::u32string>(t, base, fault, fired);
		}
		void compare(Slot const& s, char const* when)
		{
			for (int p = 0; p < Parts; ++p)
			{
				Text g = s.real->get(p), w = want(s.model, p);
				SIM_REQUIRE(g == w, part_name[p], "%s: %s is \"%s\", expected \"%s\"", when, part_name[p], show(g).c_str(), show(w).c_str());
			}
			SIM_REQUIRE(s.real->whole(false) == href(s.model) && s.real->whole(true) == href(s.model, false), "to-string", "%s: to_string disagrees with href", when);
			cover(hash_str(href(s.model)));
		}
		void reparse(Slot const& s)
		{
			// what is written reads back as the same URL; the standard has exceptions (trailing spaces of an opaque path,
			// "D|" and "localhost" in a URL that became a file URL)
			Text h = href(s.model);
			Url back;
			if (parse(h, nullptr, back) != Maybe::Ok || href(back) != h) { count("no-round-trip"); return; }
			bool fired = false;
			std::unique_ptr<Any> again;
			try { again = make(h, nullptr, -1, fired); }
			catch (std::error_code const&) { violate("reparse", "\"%s\" was written by href but is refused by the parser", show(h).c_str()); }
			SIM_REQUIRE(again->get(Href) == h, "reparse", "\"%s\" was written by href and reads back as \"%s\"", show(h).c_str(), show(again->get(Href)).c_str());
		}
		void add(std::unique_ptr<Any> real, Url const& m)
		{
			if (slots.size() > 3) slots.erase(slots.begin());
			slots.push_back({ std::move(real), m });
			compare(slots.back(), "new URL");
			reparse(slots.back());
		}

		void create(Rng& r, bool faults)
		{
			Gen g{ r, wild };
			bool based = !slots.empty() && r.chance(1, 2);
			Text t = based ? g.relative() : g.absolute(), b;
			Url base, m;
			Maybe e = Maybe::Ok;
			if (based)
			{
				b = r.chance(1, 3) ? g.absolute() : href(r.pick(slots).model);
				e = parse(b, nullptr, base);
			}
			if (e == Maybe::Ok) e = parse(t, based ? &base : nullptr, m);
			if (e == Maybe::Unjudged) { count("unjudged"); return; }
			log("new \"%s\"%s%s", show(t).c_str(), based ? " in " : "", based ? show(b).c_str() : "");
			for (int attempt = faults && r.chance(1, 2) ? 0 : 1; attempt < 2; ++attempt)
			{
				bool fired = false;
				try
				{
					auto real = make(t, based ? &b : nullptr, attempt == 0 ? std::int64_t(r.below(40)) : -1, fired);
					SIM_REQUIRE(!fired, "swallowed", "an allocation failed while a URL was read and nothing was reported");
					SIM_REQUIRE(e == Maybe::Ok, "accepted", "\"%s\" is accepted as \"%s\", expected a failure", show(t).c_str(), show(real->get(Href)).c_str());
					add(std::move(real), m);
					return;
				}
				catch (std::bad_alloc const&) { SIM_REQUIRE(fired, "bad-alloc", "bad_alloc without a failing allocation"); count("fault:allocation"); }
				catch (std::error_code const& ec)
				{
					SIM_REQUIRE(!fired, "disguised", "a failing allocation is reported as a bad URL");
					SIM_REQUIRE(e == Maybe::Fail, "refused", "\"%s\" is refused, expected \"%s\"", show(t).c_str(), show(href(m)).c_str());
					SIM_REQUIRE(bool(ec), "no-error", "\"%s\" is refused with an error code that says success", show(t).c_str());
					count("refused");
					return;
				}
			}
		}
		void edit(Rng& r, bool faults)
		{
			Slot& s = slots[r.below(std::uint32_t(slots.size()))];
			int p = r.chance(1, 12) ? int(Href) : r.range(Protocol, Hash);
			Gen g{ r, wild };
			Text v = g.value(p);
			Url m = s.model;
			Maybe e = Maybe::Ok;
			switch (p)
			{
			case Href: e = parse(v, nullptr, m); break;
			case Protocol: e = set_protocol(m, v); break;
			case Username: e = set_user(m, v, false); break;
			case Password: e = set_user(m, v, true); break;
			case Host: e = set_host(m, v, false); break;
			case Hostname: e = set_host(m, v, true); break;
			case Port: e = set_port(m, v); break;
			case Pathname: e = set_pathname(m, v); break;
			case Search: e = set_search(m, v); break;
			default: e = set_hash(m, v); break;
			}
			if (e == Maybe::Unjudged) { count("unjudged"); return; }
			log("%s = \"%s\" on \"%s\"", part_name[p], show(v).c_str(), show(href(s.model)).c_str());
			if (e == Maybe::Fail) count("refused");
			s.real->prepare(v);
			for (int attempt = faults && r.chance(1, 2) ? 0 : 1; attempt < 2; ++attempt)
			{
				AllocFault f(attempt == 0 ? std::int64_t(r.below(30)) : -1);
				try
				{
					s.real->set(p, v);
					bool fired = f.fired();
					f.disarm();
					SIM_REQUIRE(!fired, "swallowed", "an allocation failed in %s and nothing was reported", part_name[p]);
					SIM_REQUIRE(p != Href || e == Maybe::Ok, "accepted", "href = \"%s\" is accepted, expected a failure", show(v).c_str());
					break;
				}
				catch (std::bad_alloc const&)
				{
					bool fired = f.fired();
					f.disarm();
					SIM_REQUIRE(fired, "bad-alloc", "bad_alloc without a failing allocation");
					count("fault:allocation");
					// the other parts are as before
					for (int q = 0; q < Parts; ++q)
					{
						Text got = s.real->get(q); // callable at any time
						bool mine = q == Href ? p != Href && p != Protocol && p != Username && p != Password && p != Port : q == p || (p == Host && (q == Hostname || q == Port)) || (p == Hostname && q == Host) || (p == Port && q == Host);
						if (p == Href) mine = false;
						if (!mine) SIM_REQUIRE(got == want(s.model, q), "oom", "memory ran out in %s: %s is \"%s\", was \"%s\"", part_name[p], part_name[q], show(got).c_str(), show(want(s.model, q)).c_str());
					}
				}
				catch (std::error_code const& ec)
				{
					bool fired = f.fired();
					f.disarm();
					SIM_REQUIRE(!fired, "disguised", "a failing allocation is reported as a bad URL");
					SIM_REQUIRE(p == Href && e == Maybe::Fail, "refused", "%s = \"%s\" throws an error code", part_name[p], show(v).c_str());
					SIM_REQUIRE(bool(ec), "no-error", "\"%s\" is refused with an error code that says success", show(v).c_str());
					break;
				}
			}
			if (e == Maybe::Ok) s.model = m;
			compare(s, part_name[p]);
			reparse(s);
		}
		void record(Rng& r)
		{
			// records: a document's base URL and encoding
			Gen g{ r, wild };
			Text t = g.relative(), b = r.chance(1, 3) || slots.empty() ? g.absolute() : href(r.pick(slots).model);
			E name = r.pick(ref::all_encodings());
			Url base, m;
			Maybe e = parse(b, nullptr, base);
			if (e != Maybe::Ok) return;
			bool with = r.chance(3, 4);
			e = parse(t, with ? &base : nullptr, m, name);
			if (e == Maybe::Unjudged) { count("unjudged"); return; }
			log("resolve \"%s\" in \"%s\" as %s", show(t).c_str(), with ? show(b).c_str() : "", ref::name(name));
			auto rb = wh::pase_url(b);
			SIM_REQUIRE(rb && wh::serialize_url(*rb) == href(base), "base", "\"%s\" is read as \"%s\", expected \"%s\"", show(b).c_str(), rb ? show(wh::serialize_url(*rb)).c_str() : "failure", show(href(base)).c_str());
			auto rr = wh::pase_url(t, with ? &*rb : nullptr, name);
			SIM_REQUIRE(bool(rr) == (e == Maybe::Ok), "resolve", "\"%s\" in \"%s\" is %s, expected %s", show(t).c_str(), with ? show(b).c_str() : "", rr ? "accepted" : "refused", e == Maybe::Ok ? show(href(m)).c_str() : "a failure");
			if (!rr) return;
			SIM_REQUIRE(wh::serialize_url(*rr) == href(m), "resolve", "\"%s\" in \"%s\" as %s is \"%s\", expected \"%s\"", show(t).c_str(), with ? show(b).c_str() : "", ref::name(name), show(wh::serialize_url(*rr)).c_str(), show(href(m)).c_str());
			SIM_REQUIRE(wh::serialize_url(*rb) == href(base), "base-changed", "resolving \"%s\" changed its base", show(t).c_str());
			SIM_REQUIRE(wh::equals(*rr, *rb) == (href(m) == href(base)) && wh::equals(*rr, *rb, true) == (href(m, false) == href(base, false)), "equals", "equals disagrees for \"%s\" and \"%s\"", show(href(m)).c_str(), show(href(base)).c_str());
			cover(hash_str(href(m)));
		}

		void step(Rng& r, bool faults) override
		{
			tick(1 + r.below(100));
			int k = r.below(20);
			if (slots.empty() || k < 4) create(r, faults);
			else if (k < 16) edit(r, faults);
			else if (k < 19) record(r);
			else
			{
				// a copy is independent of its origin
				Slot& s = slots[r.below(std::uint32_t(slots.size()))];
				log("copy \"%s\"", show(href(s.model)).c_str());
				Url m = s.model;
				auto c = s.real->copy();
				add(std::move(c), m);
			}
			for (auto& s : slots) SIM_REQUIRE(s.real->get(Href) == href(s.model), "other", "a URL that was not touched became \"%s\", was \"%s\"", show(s.real->get(Href)).c_str(), show(href(s.model)).c_str());
		}
		void finish() override { for (auto& s : slots) compare(s, "at the end"); slots.clear(); }
	};

	// tables that live as long as the process are filled before the first run
	void W::warm()
	{
		static bool const done = [] {
		for (E e : ref::all_encodings()) if (e != E::UTF_16BE && e != E::UTF_16LE && e != E::replacement) { encode(U"aあ\u20AC", Set::Query, e); wh::percent_encode_after_encoding(e, U"aあ\u20AC", wh::is_query_percent_encode_set); }
		default_port(U"http");
		names();
		std::error_code ec;
		wh::domain_to_ascii(U"あ.example", ec);
		return true; }();
		(void)done;
	}

	SIM_WORLD("P17", W);
}
