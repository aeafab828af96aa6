// P20: CSS text to tokens, P21: CSS text, tokens or values to structure.
#include "../sim/sim.hpp"
#include "../ref/css.hpp"

#include <wordring/wwwc/css_syntax/parsing.hpp>

#include <cmath>
#include <list>
#include <new>

namespace
{
	using namespace sim;
	using namespace ref::css;
	namespace real = wordring::wwwc::css;
	using N = real::syntax_primitive_name;
	using Prim = real::syntax_primitive;

	// ------------------------------------------------------------------------------------- texts
	Text space_text(Rng& r) { static std::u32string_view const t[] = { U" ", U" ", U"\n", U"\t", U"  ", U"\r\n", U"\r", U"\f", U" \n" }; return Text(r.pick(t)); }
	Text name_text(Rng& r)
	{
		static std::u32string_view const t[] = { U"a", U"b", U"A", U"url", U"URL", U"uRl", U"important", U"IMPORTANT", U"u", U"e", U"e1", U"E-1", U"-a", U"--", U"--x", U"-", U"_x", U"\xE9", U"\x3042x",
			U"\\31 ", U"\\", U"\\41 b", U"\\110000 ", U"\\10ffff ", U"\\d800 x", U"\\dfff", U"\\0 ", U"\\\n", U"\\g", U"\\000041", U"\\0000412", U"\\41\r\n", U"a\\", U"ur\\6c ", U"-\\31 x", U"-1", U"\xFFFD", U"a-b9" };
		return Text(r.pick(t));
	}
	Text digits(Rng& r) { Text s; int n = r.chance(1, 12) ? r.range(9, 40) : r.range(1, 3); while (n--) s += U'0' + r.below(10); return s; }
	Text number_text(Rng& r)
	{
		Text s;
		if (r.chance(1, 3)) s += r.pick(U"+-+-");
		if (s.size() && s[0] == 0) s.clear();
		if (r.chance(3, 4)) s += digits(r);
		if (r.chance(1, 2)) { s += U'.'; if (r.chance(5, 6)) s += digits(r); }
		if (r.chance(1, 4))
		{
			s += r.chance(1, 2) ? U'e' : U'E';
			if (r.chance(1, 2)) s += r.chance(1, 2) ? U'+' : U'-';
			if (r.chance(7, 8)) s += r.chance(1, 20) ? Text(U"99999999999") : r.chance(1, 20) ? Text(U"5000") : Text(1, U'0' + r.below(10)) + (r.chance(1, 3) ? Text(1, U'0' + r.below(10)) : Text());
		}
		if (r.chance(1, 4)) s += r.chance(1, 2) ? Text(U"%") : name_text(r);
		return s;
	}
	Text inner(Rng& r)
	{
		static std::u32string_view const t[] = { U"a", U"b c", U"\\41 ", U"\\", U"\\\n", U"\\\r\n", U"\n", U"'", U"\"", U"(", U")", U" ", U"/", U"*/", U"\x3042", U"\x01", U"\x7F", U"\\)", U"\\\"", U"\t", U"\x0B", U"{", U"}" };
		Text s;
		for (int n = r.range(0, 4); n; --n) s += r.chance(1, 2) ? Text(1, U'a' + r.below(26)) : Text(r.pick(t));
		return s;
	}
	Text string_text(Rng& r) { Text q(1, r.chance(1, 2) ? U'"' : U'\''); return q + inner(r) + (r.chance(7, 8) ? q : Text()); }
	Text url_text(Rng& r)
	{
		static std::u32string_view const t[] = { U"url(", U"URL(", U"ur\\6c(", U"url (" };
		Text s = r.chance(3, 4) ? Text(U"url(") : Text(r.pick(t));
		for (int n = r.below(3); n; --n) s += space_text(r);
		s += r.chance(1, 3) ? string_text(r) : inner(r);
		if (r.chance(1, 3)) s += space_text(r);
		if (r.chance(7, 8)) s += U')';
		return s;
	}
	Text comment_text(Rng& r) { static std::u32string_view const t[] = { U"/**/", U"/* a */", U"/***/", U"/*/", U"/*", U"/* * / */", U"/*\n*/", U"/**" }; return r.chance(1, 8) ? Text(r.pick(t)) : Text(t[r.below(3)]); }
	Text punct_text(Rng& r)
	{
		static std::u32string_view const t[] = { U"+", U"-", U".", U",", U":", U";", U"<", U"!", U">", U"@", U"#", U"/", U"*", U"%", U"&", U"|", U"~", U"=", U"<!--", U"-->", U"--", U"->", U"<!-", U"<!",
			U"..", U"++", U"+.", U".+", U"#-", U"#1", U"@-", U"@--", U"@1", U"#\\", U"@\\31 ", U"\\\n", U"\\", U"?", U"$", U"^", U"`" };
		return Text(r.pick(t));
	}
	Text odd_text(Rng& r)
	{
		static char32_t const t[] = { 0, 1, 8, 0xB, 0xE, 0x1F, 0x7F, 0x80, 0xA0, 0xD800, 0xDFFF, 0xFFFD, 0xFFFF, 0x10000, 0x10FFFF };
		return Text(1, r.pick(t));
	}
	Text value_text(Rng& r, int depth);
	Text values_text(Rng& r, int depth, int most) { Text s; for (int n = r.range(0, most); n; --n) { s += value_text(r, depth); if (r.chance(1, 3)) s += space_text(r); } return s; }
	Text value_text(Rng& r, int depth)
	{
		switch (r.below(depth > 0 ? 16 : 12))
		{
		case 0: case 1: case 2: return name_text(r);
		case 3: case 4: return number_text(r);
		case 5: return string_text(r);
		case 6: return r.chance(1, 2) ? url_text(r) : punct_text(r);
		case 7: case 8: return punct_text(r);
		case 9: return r.chance(1, 2) ? comment_text(r) : space_text(r);
		case 10: return U"#" + name_text(r);
		case 11: return r.chance(1, 6) ? odd_text(r) : U"!important";
		case 12: { Text s = name_text(r) + U"(" + values_text(r, depth - 1, 3); return r.chance(9, 10) ? s + U")" : s; }
		default:
		{
			static char32_t const o[] = { U'{', U'[', U'(' }, c[] = { U'}', U']', U')' };
			unsigned k = r.below(3);
			Text s = Text(1, o[k]) + values_text(r, depth - 1, 4);
			if (r.chance(1, 8)) s += c[r.below(3)] + values_text(r, depth - 1, 2);
			return r.chance(9, 10) ? s + c[k] : s;
		}
		}
	}
	Text declaration_text(Rng& r)
	{
		Text s = r.chance(9, 10) ? Text(1, U'a' + r.below(4)) + (r.chance(1, 3) ? name_text(r) : Text()) : value_text(r, 1);
		if (r.chance(1, 3)) s += space_text(r);
		if (r.chance(11, 12)) s += U':';
		if (r.chance(1, 2)) s += space_text(r);
		s += values_text(r, 2, 3);
		if (r.chance(1, 4)) { s += U'!'; if (r.chance(1, 3)) s += space_text(r); s += r.chance(4, 5) ? U"important" : U"IMPORTANt"; if (r.chance(1, 3)) s += space_text(r); if (r.chance(1, 8)) s += value_text(r, 0); }
		return s;
	}
	Text declarations_text(Rng& r)
	{
		Text s;
		for (int n = r.range(0, 3); n; --n)
		{
			if (r.chance(1, 3)) s += space_text(r);
			s += r.chance(1, 8) ? U"@" + name_text(r) + U" " + values_text(r, 1, 2) : declaration_text(r);
			if (r.chance(5, 6)) s += U';';
		}
		return s;
	}
	Text rules_text(Rng& r, int most)
	{
		Text s;
		for (int n = r.range(0, most); n; --n)
		{
			if (r.chance(1, 3)) s += space_text(r);
			if (r.chance(1, 8)) s += r.chance(1, 2) ? U"<!--" : U"-->";
			if (r.chance(1, 3))
			{
				s += U"@" + Text(1, U'a' + r.below(3)) + (r.chance(1, 2) ? U" " : U"") + values_text(r, 2, 2);
				s += r.chance(1, 2) ? U";" : r.chance(1, 6) ? U"" : U"{" + declarations_text(r) + U"}";
			}
			else
			{
				s += values_text(r, 1, 3) + U"{" + (r.chance(1, 4) ? rules_text(r, 2) : declarations_text(r));
				if (r.chance(9, 10)) s += U'}';
			}
		}
		return s;
	}
	Text any_text(Rng& r)
	{
		switch (r.below(6))
		{
		case 0:
		{
			// characters that tokens share, side by side
			static std::u32string_view const sets[] = { U"+-.0e1%", U"#-\\a1 ", U"<!-->-", U"url('\") \\", U"/* '*/", U"\\1aF \n", U"@-_a\\", U"{}[]();:,", U"a:!important; ", U"\"'\\\n)" };
			std::u32string_view a = r.pick(sets);
			std::u32string_view b = r.pick(sets);
			Text s;
			for (int n = r.range(1, 12); n; --n) s += r.chance(3, 4) ? a[r.below(a.size())] : b[r.below(b.size())];
			return s;
		}
		case 1: return rules_text(r, 3);
		case 2: return declarations_text(r);
		default: return values_text(r, 2, 7);
		}
	}

	// ------------------------------------------------------------------------------------- real to model
	Item item(real::component_value const& c);
	template <class T> Item leaf(K k, T const& t)
	{
		Item i; i.kind = k;
		if constexpr (std::is_same_v<T, real::hash_token>) { i.text = t.m_value; i.flag = t.m_type_flag == real::hash_token::type_flag_name::id; }
		else if constexpr (std::is_same_v<T, real::delim_token>) i.flag = t.m_value;
		else if constexpr (std::is_same_v<T, real::number_token>) { i.number = t.m_value; i.flag = t.m_type_flag == real::number_type_flag_name::integer; }
		else if constexpr (std::is_same_v<T, real::percentage_token>) i.number = t.m_value;
		else if constexpr (std::is_same_v<T, real::dimension_token>) { i.number = t.m_value; i.text = t.m_unit; i.flag = t.m_type_flag == real::number_type_flag_name::integer; }
		else if constexpr (requires { t.m_value; }) i.text = t.m_value;
		return i;
	}
	Item item(real::function const& f) { Item i; i.kind = K::FunctionValue; i.text = f.m_name; for (auto& c : f.m_value) i.kids.push_back(item(c)); return i; }
	Item item(real::simple_block const& b) { Item i; i.kind = K::Block; i.flag = b.m_associated_token; for (auto& c : b.m_value) i.kids.push_back(item(c)); return i; }
	Item item(real::declaration const& d) { Item i; i.kind = K::Declaration; i.text = d.m_name; i.flag = d.m_important_flag; for (auto& c : d.m_value) i.kids.push_back(item(c)); return i; }
	template <class C> Item common(C const& c)
	{
		switch (c.type())
		{
#define L(n, k, t) case N::n: return leaf(K::k, c.template get<real::t>());
			L(IdentToken, Ident, ident_token) L(AtKeywordToken, AtKeyword, at_keyword_token) L(HashToken, Hash, hash_token) L(StringToken, String, string_token)
			L(BadStringToken, BadString, bad_string_token) L(UrlToken, Url, url_token) L(BadUrlToken, BadUrl, bad_url_token) L(DelimToken, Delim, delim_token)
			L(NumberToken, Number, number_token) L(PercentageToken, Percentage, percentage_token) L(DimensionToken, Dimension, dimension_token) L(WhitespaceToken, Space, whitespace_token)
			L(CdoToken, Cdo, CDO_token) L(CdcToken, Cdc, CDC_token) L(ColonToken, Colon, colon_token) L(SemicolonToken, Semicolon, semicolon_token) L(CommaToken, Comma, comma_token)
			L(CloseSquareToken, CloseSquare, close_square_token) L(CloseParenToken, CloseParen, close_paren_token) L(CloseCurlyToken, CloseCurly, close_curly_token) L(EofToken, Eof, eof_token)
		case N::Function: return item(c.template get<real::function>());
		case N::SimpleBlock: return item(c.template get<real::simple_block>());
		default: break;
		}
		Item i; i.kind = K::Failure; return i;
	}
	Item item(real::component_value const& c) { return common(c); }
	Item item(Prim const& c)
	{
		switch (c.type())
		{
			L(FunctionToken, Function, function_token) L(OpenSquareToken, OpenSquare, open_square_token) L(OpenParenToken, OpenParen, open_paren_token) L(OpenCurlyToken, OpenCurly, open_curly_token)
#undef L
		case N::AtRule:
		{
			auto& a = c.get<real::at_rule>();
			Item i; i.kind = K::AtRule; i.text = a.m_name;
			for (auto& x : a.m_prelude) i.kids.push_back(item(x));
			if (a.m_block) { i.flag = 1; i.block.push_back(item(*a.m_block)); }
			return i;
		}
		case N::QualifiedRule:
		{
			auto& q = c.get<real::qualified_rule>();
			Item i; i.kind = K::QualifiedRule;
			for (auto& x : q.m_prelude) i.kids.push_back(item(x));
			i.block.push_back(item(q.m_block));
			return i;
		}
		case N::Declaration: return item(c.get<real::declaration>());
		default: return common(c);
		}
	}

	char const* const kind_names[] = { "ident", "function", "at-keyword", "hash", "string", "bad-string", "url", "bad-url", "delim", "number", "percentage", "dimension", "whitespace", "CDO", "CDC",
		"colon", "semicolon", "comma", "[", "]", "(", ")", "{", "}", "EOF", "function value", "block", "at-rule", "qualified rule", "declaration", "nothing", "list" };
	std::string dump(Item const& i)
	{
		std::string s = kind_names[int(i.kind)];
		if (!i.text.empty()) s += ":" + show(i.text);
		if (i.number != 0) s += ":" + std::to_string(i.number);
		if (i.flag) s += "/" + std::to_string(unsigned(i.flag));
		auto list = [&](std::vector<Item> const& v, char const* a) { if (v.empty()) return; s += a; for (auto& k : v) s += dump(k) + " "; s += ")"; };
		list(i.kids, " (");
		list(i.block, " {(");
		return s;
	}
	std::string dump(std::vector<Item> const& v) { std::string s; for (auto& i : v) s += dump(i) + " "; return s.size() > 300 ? s.substr(0, 300) + "..." : s; }
	bool near(double a, double b) { return a == b || std::fabs(a - b) <= 1e-9 * std::max(std::fabs(a), std::fabs(b)) || (std::fabs(a) < 1e-250 && std::fabs(b) < 1e-250); }
	bool same(std::vector<Item> const& a, std::vector<Item> const& b);
	bool same(Item const& a, Item const& b) { return a.kind == b.kind && a.text == b.text && a.flag == b.flag && near(a.number, b.number) && same(a.kids, b.kids) && same(a.block, b.block); }
	bool same(std::vector<Item> const& a, std::vector<Item> const& b)
	{
		if (a.size() != b.size()) return false;
		for (std::size_t i = 0; i < a.size(); ++i) if (!same(a[i], b[i])) return false;
		return true;
	}
	std::uint64_t digest(std::vector<Item> const& v)
	{
		std::uint64_t h = v.size();
		for (auto& i : v) { h = mix(h, std::uint64_t(i.kind) * 64 + i.flag); h = mix(h, hash_str(i.text)); h = mix(h, digest(i.kids)); h = mix(h, digest(i.block)); }
		return h;
	}
	std::uint64_t shape(std::vector<Item> const& v)
	{
		std::uint64_t h = v.size();
		for (auto& i : v) { h = mix(h, std::uint64_t(i.kind)); h = mix(h, shape(i.kids)); h = mix(h, shape(i.block)); }
		return h;
	}
	template <class C> std::vector<Item> items(C const& c) { std::vector<Item> v; for (auto& x : c) v.push_back(item(x)); return v; }

	std::int64_t fail_at(Rng& r, bool faults) { return faults ? static_cast<std::int64_t>(r.chance(1, 2) ? r.below(12) : r.below(150)) : -1; }

	// ------------------------------------------------------------------------------------- P20
	struct Tok : World
	{
		std::vector<Prim> kept;
		std::vector<Item> kept_model;
		bool leak_check() const override { return true; }
		int length(Rng& r) override { return r.range(4, 40); }
		void start(Rng&) override {}

		void check(std::vector<Prim> const& got, std::vector<Item> const& want, Text const& in, char const* how)
		{
			auto v = items(got);
			SIM_REQUIRE(same(v, want), "tokens", "%s, %s: tokens %s, expected %s", show(in).c_str(), how, dump(v).c_str(), dump(want).c_str());
		}

		void step(Rng& r, bool faults) override
		{
			Text in = any_text(r);
			Text filtered = preprocess(in);
			std::vector<Item> want = tokenize(filtered);
			std::vector<Prim> got;
			int how = r.below(4);
			static char const* const names[] = { "text", "text with error handler", "list", "one by one" };
			log("%s: %s", names[how], show(in).c_str());
			AllocFault af(fail_at(r, faults));
			try
			{
				if (how == 0) got = real::normalize_into_token_stream(Text(in));
				else
				{
					Text t = in;
					t.erase(wordring::wwwc::filter_code_points(t.begin(), t.end()), t.end());
					if (how == 1)
					{
						bool inside = true;
						std::size_t errors = 0;
						real::tokenize(t.begin(), t.end(), std::back_inserter(got), [&](Text::iterator it) { ++errors; inside = inside && t.begin() <= it && it <= t.end(); });
						af.disarm();
						SIM_REQUIRE(inside, "handler", "%s: an error is reported outside the text", show(in).c_str());
						history(errors);
					}
					else if (how == 2)
					{
						std::list<char32_t> l(t.begin(), t.end());
						real::tokenize(l.begin(), l.end(), std::back_inserter(got), nullptr);
					}
					else
					{
						auto it = t.cbegin();
						while (true)
						{
							auto [next, token] = real::consume_token(it, t.cend());
							SIM_REQUIRE(it <= next && next <= t.cend(), "progress", "%s: a token ends outside the text", show(in).c_str());
							if (token.type() == N::EofToken) break;
							SIM_REQUIRE(it < next, "progress", "%s: token %zu takes no text", show(in).c_str(), got.size());
							got.push_back(token);
							it = next;
						}
					}
				}
				af.disarm();
			}
			catch (std::bad_alloc const&)
			{
				af.disarm();
				SIM_REQUIRE(af.fired(), "bad-alloc", "bad_alloc without a failed allocation");
				count("fault:alloc");
				log("out of memory");
				auto v = items(got);
				if (how != 0) SIM_REQUIRE(v.size() <= want.size() && same(v, std::vector<Item>(want.begin(), want.begin() + v.size())), "tokens", "%s: the tokens before memory ran out are %s", show(in).c_str(), dump(v).c_str());
				return;
			}
			check(got, want, in, names[how]);
			for (auto& t : want) count(kind_names[int(t.kind)]);
			history(digest(want));
			cover(shape(want));
			tick(1 + in.size());
			// tokens are values: keep some, they must stay what they were
			for (std::size_t i = 0; i < got.size() && kept.size() < 60; ++i) if (r.chance(1, 4)) { kept.push_back(got[i]); kept_model.push_back(want[i]); }
			if (!kept.empty() && r.chance(1, 3))
			{
				std::size_t a = r.below(kept.size()), b = r.below(kept.size());
				kept[a] = kept[b]; kept_model[a] = Item(kept_model[b]);
			}
		}
		void finish() override { check(kept, kept_model, Text(), "kept tokens"); kept.clear(); kept_model.clear(); }
	};
	SIM_WORLD("P20", Tok);

	// ------------------------------------------------------------------------------------- P21
	struct Out
	{
		Entry e = Entry::Values;
		std::vector<Prim> list;
		std::optional<Prim> rule;
		std::optional<real::declaration> decl;
		std::optional<real::component_value> value;
		std::vector<std::vector<Prim>> lists;

		Result result() const
		{
			Result r;
			switch (e)
			{
			case Entry::Rule: if (rule) r.items.push_back(item(*rule)); else r.failed = true; break;
			case Entry::Declaration: if (decl) r.items.push_back(item(*decl)); else r.failed = true; break;
			case Entry::Value: if (value) r.items.push_back(item(*value)); else r.failed = true; break;
			case Entry::CommaValues: for (auto& l : lists) { r.items.emplace_back(); r.items.back().kind = K::List; r.items.back().kids = items(l); } break;
			default: r.items = items(list);
			}
			return r;
		}
	};
	template <class In> void call(Out& o, Entry e, In&& in)
	{
		o.e = e;
		switch (e)
		{
		case Entry::Stylesheet: o.list = real::parse_stylesheet(std::move(in)); break;
		case Entry::Rules: o.list = real::parse_list_of_rules(std::move(in)); break;
		case Entry::Rule: o.rule = real::parse_rule(std::move(in)); break;
		case Entry::Declaration: o.decl = real::parse_declaration(std::move(in)); break;
		case Entry::Declarations: o.list = real::parse_list_of_declarations(std::move(in)); break;
		case Entry::Value: o.value = real::parse_component_value(std::move(in)); break;
		case Entry::Values: o.list = real::parse_list_of_component_values(std::move(in)); break;
		case Entry::CommaValues: o.lists = real::parse_comma_separated_list_of_component_values(std::move(in)); break;
		}
	}
	char const* const entry_names[] = { "stylesheet", "rules", "rule", "declaration", "declarations", "value", "values", "comma values" };

	struct Parse : World
	{
		struct Slot { Out out; Result model; };
		std::vector<Slot> slots;
		bool leak_check() const override { return true; }
		int length(Rng& r) override { return r.range(4, 30); }
		void start(Rng&) override { slots.clear(); }

		void check(Out const& o, Result const& m, char const* what)
		{
			Result g = o.result();
			SIM_REQUIRE(g.failed == m.failed && same(g.items, m.items), "structure", "%s, %s: %s%s, expected %s%s", entry_names[int(o.e)], what, g.failed ? "failure " : "", dump(g.items).c_str(), m.failed ? "failure " : "", dump(m.items).c_str());
		}

		std::string bytes(Rng& r, Text& text, wordring::encoding_name& enc)
		{
			static char const* const labels[] = { "utf-8", "windows-1252", "latin1", "utf-16be", "utf-16", "nonsense", "UTF-8", " utf8 " };
			Text body;
			for (char32_t c : text) if (c < 0x80) body += c; else body += char32_t(0xE9);
			unsigned latin = 0;
			std::string s;
			if (r.chance(1, 2))
			{
				unsigned k = r.below(8);
				s = std::string("@charset \"") + labels[k];
				latin = k == 1 || k == 2;
				bool padded = r.chance(1, 6);
				if (padded)
				{
					s.append(1022 - s.size() - 3 + r.below(6), ' '); // with the "; after it about the 1024 bytes that are looked at
					if (s.size() + 2 > 1024) latin = 0;
				}
				s += "\";";
				if (!padded && r.chance(1, 6)) { s.insert(r.below(s.size()), 1, 'x'); latin = s.find("@charset \"windows-1252\";") == 0 || s.find("@charset \"latin1\";") == 0; }
			}
			Text head(s.begin(), s.end());
			enc = static_cast<wordring::encoding_name>(0);
			if (r.chance(1, 6)) { enc = wordring::encoding_name::windows_1252; latin = 1; }
			bool bom = r.chance(1, 8);
			if (bom) { s = "\xEF\xBB\xBF" + s; latin = 0; }
			text = head;
			for (char32_t c : body)
			{
				if (c < 0x80) { s += char(c); text += c; }
				else { s += "\xC3\xA9"; if (latin) text += U"\xC3\xA9"; else text += c; }
			}
			return s;
		}

		void step(Rng& r, bool faults) override
		{
			if (slots.size() > 1 && r.chance(1, 4))
			{
				std::size_t a = r.below(slots.size()), b = r.below(slots.size());
				bool fresh = r.chance(1, 2);
				log("copy %zu to %zu%s", b, a, fresh ? " (new)" : "");
				AllocFault af(fail_at(r, faults));
				try
				{
					if (fresh) { Slot s(slots[b]); af.disarm(); if (a != b) slots[a] = std::move(s); }
					else { slots[a].out = slots[b].out; af.disarm(); slots[a].model = Result(slots[b].model); }
					tick(1);
				}
				catch (std::bad_alloc const&)
				{
					af.disarm();
					SIM_REQUIRE(af.fired(), "bad-alloc", "bad_alloc without a failed allocation");
					count("fault:alloc");
					if (a != b) check(slots[b].out, slots[b].model, "source of a copy that ran out of memory");
					if (!fresh) slots.erase(slots.begin() + a);
				}
				return;
			}
			if (!slots.empty() && r.chance(1, 10)) { slots.erase(slots.begin() + r.below(slots.size())); return; }
			Text in = any_text(r);
			Entry e = static_cast<Entry>(r.below(8));
			if (r.chance(1, 2))
			{
				if (e == Entry::Rule) { do in = rules_text(r, 1); while (in.empty()); }
				else if (e == Entry::Declaration) in = declaration_text(r);
				else if (e == Entry::Declarations) in = declarations_text(r);
				else if (e == Entry::Value) in = value_text(r, 3);
				else if (e == Entry::Rules || e == Entry::Stylesheet) in = rules_text(r, 4);
			}
			int how = r.below(e == Entry::Stylesheet ? 4 : 3);
			static char const* const names[] = { "text", "tokens", "values", "bytes" };
			Slot s;
			wordring::encoding_name enc{};
			std::string raw;
			if (how == 3) raw = bytes(r, in, enc);
			log("%s of %s %s", entry_names[int(e)], names[how], show(in).c_str());
			std::vector<Item> tokens = tokenize(preprocess(in));
			s.model = parse(e, tokens);
			bool done = false;
			AllocFault af(fail_at(r, faults));
			try
			{
				switch (how)
				{
				case 0: call(s.out, e, Text(in)); break;
				case 1: call(s.out, e, real::normalize_into_token_stream(Text(in))); break;
				case 2: call(s.out, e, real::parse_list_of_component_values(Text(in))); break;
				case 3: s.out.e = e; s.out.list = real::parse_stylesheet(raw, enc); break;
				}
				af.disarm();
				done = true;
			}
			catch (std::bad_alloc const&)
			{
				af.disarm();
				SIM_REQUIRE(af.fired(), "bad-alloc", "bad_alloc without a failed allocation");
				count("fault:alloc");
				log("out of memory");
			}
			tick(1 + in.size());
			for (auto& x : slots) check(x.out, x.model, "kept result");
			if (!done) return;
			check(s.out, s.model, ("from " + std::string(names[how]) + " " + show(in)).c_str());
			count(s.model.failed ? "parse-failure" : s.model.items.empty() ? "parse-empty" : entry_names[int(e)]);
			history(digest(s.model.items));
			cover(mix(std::uint64_t(e), shape(s.model.items)));
			if (slots.size() < 6) slots.push_back(std::move(s));
			else slots[r.below(6)] = std::move(s);
		}
		void finish() override { for (auto& x : slots) check(x.out, x.model, "kept result"); slots.clear(); }
	};
	SIM_WORLD("P21", Parse);
}
