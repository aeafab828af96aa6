#pragma once
// Reference model: CSS Syntax Module Level 3 (Candidate Recommendation of 24 December 2021), sections 3.3, 4 and 5.
// Written from the specification. Works on a plain vector of code points with a sentinel for EOF.

#include <cmath>
#include <cstdint>
#include <cstdlib>
#include <optional>
#include <string>
#include <vector>

namespace ref::css
{
	using Text = std::u32string;
	constexpr char32_t eof = 0xFFFFFFFF;

	enum class K
	{
		Ident, Function, AtKeyword, Hash, String, BadString, Url, BadUrl, Delim, Number, Percentage, Dimension, Space, Cdo, Cdc,
		Colon, Semicolon, Comma, OpenSquare, CloseSquare, OpenParen, CloseParen, OpenCurly, CloseCurly, Eof,
		FunctionValue, Block, AtRule, QualifiedRule, Declaration, Failure, List
	};

	struct Item
	{
		K kind = K::Eof;
		Text text;          // name, value or unit
		double number = 0;
		char32_t flag = 0;  // hash: is an id; numbers: is an integer; delim: its character; block: its bracket; declaration: important; at-rule: has a block
		std::vector<Item> kids;
		std::vector<Item> block;
	};

	inline bool digit(char32_t c) { return c >= U'0' && c <= U'9'; }
	inline bool hex(char32_t c) { return digit(c) || (c >= U'a' && c <= U'f') || (c >= U'A' && c <= U'F'); }
	inline bool name_start(char32_t c) { return c != eof && ((c >= U'a' && c <= U'z') || (c >= U'A' && c <= U'Z') || c >= 0x80 || c == U'_'); }
	inline bool name_char(char32_t c) { return name_start(c) || digit(c) || c == U'-'; }
	inline bool space(char32_t c) { return c == U'\n' || c == U'\t' || c == U' '; }
	inline bool unprintable(char32_t c) { return c <= 8 || c == 0xB || (c >= 0xE && c <= 0x1F) || c == 0x7F; }
	inline Text lower(Text s) { for (auto& c : s) if (c >= U'A' && c <= U'Z') c += 32; return s; }

	inline Text preprocess(Text const& in)
	{
		Text out;
		for (std::size_t i = 0; i < in.size(); ++i)
		{
			char32_t c = in[i];
			if (c == U'\r') { out += U'\n'; if (i + 1 < in.size() && in[i + 1] == U'\n') ++i; }
			else if (c == U'\f') out += U'\n';
			else if (c == 0 || (c >= 0xD800 && c <= 0xDFFF)) out += char32_t(0xFFFD);
			else out += c;
		}
		return out;
	}

	struct Tokenizer
	{
		Text const& in;
		std::size_t p = 0;
		explicit Tokenizer(Text const& t) : in(t) {}

		char32_t at(std::size_t k = 0) const { return p + k < in.size() ? in[p + k] : eof; }
		char32_t take() { char32_t c = at(); if (c != eof) ++p; return c; }
		bool escape(std::size_t k = 0) const { return at(k) == U'\\' && at(k + 1) != U'\n'; }
		bool ident(std::size_t k = 0) const
		{
			if (at(k) == U'-') return name_start(at(k + 1)) || at(k + 1) == U'-' || escape(k + 1);
			return name_start(at(k)) || escape(k);
		}
		bool number(std::size_t k = 0) const
		{
			if (at(k) == U'+' || at(k) == U'-') return digit(at(k + 1)) || (at(k + 1) == U'.' && digit(at(k + 2)));
			if (at(k) == U'.') return digit(at(k + 1));
			return digit(at(k));
		}
		char32_t escaped() // behind the backslash
		{
			char32_t c = take();
			if (c == eof) return 0xFFFD;
			if (!hex(c)) return c;
			std::uint32_t v = 0;
			for (int n = 0; ; ++n)
			{
				v = v * 16 + (digit(c) ? c - U'0' : (c | 32) - U'a' + 10);
				if (n == 5 || !hex(at())) break;
				c = take();
			}
			if (space(at())) ++p;
			return v == 0 || (v >= 0xD800 && v <= 0xDFFF) || v > 0x10FFFF ? 0xFFFD : v;
		}
		Text name()
		{
			Text s;
			while (true)
			{
				if (name_char(at())) s += take();
				else if (escape()) { ++p; s += escaped(); }
				else return s;
			}
		}
		Item simple(K k, std::size_t n = 1) { p += n; Item t; t.kind = k; return t; }
		Item delim() { Item t; t.kind = K::Delim; t.flag = take(); return t; }
		Item string()
		{
			Item t; t.kind = K::String;
			char32_t end = take();
			while (true)
			{
				char32_t c = at();
				if (c == eof) return t;
				if (c == end) { ++p; return t; }
				if (c == U'\n') { t.kind = K::BadString; t.text.clear(); return t; }
				++p;
				if (c != U'\\') t.text += c;
				else if (at() == eof);
				else if (at() == U'\n') ++p;
				else t.text += escaped();
			}
		}
		Item numeric()
		{
			Item t; t.kind = K::Number; t.flag = 1;
			std::string repr;
			auto eat = [&] { repr += static_cast<char>(take()); };
			if (at() == U'+' || at() == U'-') eat();
			while (digit(at())) eat();
			if (at() == U'.' && digit(at(1))) { eat(); t.flag = 0; while (digit(at())) eat(); }
			if ((at() | 32) == U'e' && at() != eof && (digit(at(1)) || ((at(1) == U'+' || at(1) == U'-') && digit(at(2)))))
			{
				t.flag = 0; eat(); eat();
				while (digit(at())) eat();
			}
			t.number = std::strtod(repr.c_str(), nullptr);
			if (ident()) { t.kind = K::Dimension; t.text = name(); }
			else if (at() == U'%') { ++p; t.kind = K::Percentage; t.flag = 0; }
			return t;
		}
		Item bad_url()
		{
			while (true)
			{
				if (at() == eof) break;
				if (at() == U')') { ++p; break; }
				if (escape()) { ++p; escaped(); }
				else ++p;
			}
			Item t; t.kind = K::BadUrl; return t;
		}
		Item url()
		{
			Item t; t.kind = K::Url;
			while (space(at())) ++p;
			while (true)
			{
				char32_t c = at();
				if (c == eof) return t;
				if (c == U')') { ++p; return t; }
				if (space(c))
				{
					while (space(at())) ++p;
					if (at() == U')') { ++p; return t; }
					if (at() == eof) return t;
					return bad_url();
				}
				if (c == U'"' || c == U'\'' || c == U'(' || unprintable(c)) return bad_url();
				if (c == U'\\')
				{
					if (!escape()) return bad_url();
					++p; t.text += escaped();
				}
				else { t.text += c; ++p; }
			}
		}
		Item ident_like()
		{
			Item t; t.kind = K::Ident; t.text = name();
			if (at() != U'(') return t;
			++p;
			t.kind = K::Function;
			if (lower(t.text) != U"url") return t;
			while (space(at()) && space(at(1))) ++p;
			auto quote = [](char32_t c) { return c == U'"' || c == U'\''; };
			if (quote(at()) || (space(at()) && quote(at(1)))) return t;
			return url();
		}
		Item next()
		{
			while (at() == U'/' && at(1) == U'*')
			{
				p += 2;
				while (at() != eof && !(at() == U'*' && at(1) == U'/')) ++p;
				p = std::min(p + 2, in.size());
			}
			char32_t c = at();
			if (c == eof) return Item();
			if (space(c)) { while (space(at())) ++p; return simple(K::Space, 0); }
			switch (c)
			{
			case U'"': case U'\'': return string();
			case U'#':
				if (name_char(at(1)) || escape(1))
				{
					Item t; t.kind = K::Hash; ++p;
					t.flag = ident() ? 1 : 0;
					t.text = name();
					return t;
				}
				return delim();
			case U'(': return simple(K::OpenParen);
			case U')': return simple(K::CloseParen);
			case U'+': case U'.': return number() ? numeric() : delim();
			case U',': return simple(K::Comma);
			case U'-':
				if (number()) return numeric();
				if (at(1) == U'-' && at(2) == U'>') return simple(K::Cdc, 3);
				return ident() ? ident_like() : delim();
			case U':': return simple(K::Colon);
			case U';': return simple(K::Semicolon);
			case U'<': return at(1) == U'!' && at(2) == U'-' && at(3) == U'-' ? simple(K::Cdo, 4) : delim();
			case U'@':
				if (ident(1)) { Item t; t.kind = K::AtKeyword; ++p; t.text = name(); return t; }
				return delim();
			case U'[': return simple(K::OpenSquare);
			case U'\\': return escape() ? ident_like() : delim();
			case U']': return simple(K::CloseSquare);
			case U'{': return simple(K::OpenCurly);
			case U'}': return simple(K::CloseCurly);
			}
			if (digit(c)) return numeric();
			if (name_start(c)) return ident_like();
			return delim();
		}
	};

	inline std::vector<Item> tokenize(Text const& filtered)
	{
		std::vector<Item> v;
		Tokenizer t(filtered);
		while (true)
		{
			Item i = t.next();
			if (i.kind == K::Eof) return v;
			v.push_back(std::move(i));
		}
	}

	struct Parser
	{
		std::vector<Item> const& in;
		std::size_t p = 0;
		explicit Parser(std::vector<Item> const& v) : in(v) {}

		Item const& next() const { static Item const e; return p < in.size() ? in[p] : e; }
		Item take() { Item i = next(); if (p < in.size()) ++p; return i; }
		void spaces() { while (next().kind == K::Space) ++p; }

		Item value()
		{
			Item t = take();
			switch (t.kind)
			{
			case K::OpenCurly: return until(K::CloseCurly, K::Block, U'{', Text());
			case K::OpenSquare: return until(K::CloseSquare, K::Block, U'[', Text());
			case K::OpenParen: return until(K::CloseParen, K::Block, U'(', Text());
			case K::Function: return until(K::CloseParen, K::FunctionValue, 0, t.text);
			default: return t;
			}
		}
		Item until(K end, K kind, char32_t flag, Text name)
		{
			Item b; b.kind = kind; b.flag = flag; b.text = name;
			while (next().kind != K::Eof && next().kind != end) b.kids.push_back(value());
			take();
			return b;
		}
		bool open() const { return next().kind == K::OpenCurly || (next().kind == K::Block && next().flag == U'{'); }
		Item at_rule()
		{
			Item r; r.kind = K::AtRule; r.text = take().text;
			while (true)
			{
				if (next().kind == K::Eof) return r;
				if (next().kind == K::Semicolon) { take(); return r; }
				if (open()) { r.flag = 1; r.block.push_back(value()); return r; }
				r.kids.push_back(value());
			}
		}
		std::optional<Item> qualified_rule()
		{
			Item r; r.kind = K::QualifiedRule;
			while (true)
			{
				if (next().kind == K::Eof) return std::nullopt;
				if (open()) { r.block.push_back(value()); return r; }
				r.kids.push_back(value());
			}
		}
		std::vector<Item> rules(bool top)
		{
			std::vector<Item> v;
			while (true)
			{
				K k = next().kind;
				if (k == K::Eof) return v;
				if (k == K::Space || (top && (k == K::Cdo || k == K::Cdc))) { take(); continue; }
				if (k == K::AtKeyword) v.push_back(at_rule());
				else if (auto r = qualified_rule()) v.push_back(std::move(*r));
			}
		}
		std::optional<Item> declaration()
		{
			Item d; d.kind = K::Declaration; d.text = take().text;
			spaces();
			if (next().kind != K::Colon) return std::nullopt;
			take();
			spaces();
			while (next().kind != K::Eof) d.kids.push_back(value());
			auto& v = d.kids;
			std::vector<std::size_t> solid;
			for (std::size_t i = 0; i < v.size(); ++i) if (v[i].kind != K::Space) solid.push_back(i);
			if (solid.size() >= 2)
			{
				std::size_t a = solid[solid.size() - 2], b = solid.back();
				if (v[a].kind == K::Delim && v[a].flag == U'!' && v[b].kind == K::Ident && lower(v[b].text) == U"important")
				{
					d.flag = 1;
					v.erase(v.begin() + b);
					v.erase(v.begin() + a);
				}
			}
			while (!v.empty() && v.back().kind == K::Space) v.pop_back();
			return d;
		}
		std::vector<Item> declarations()
		{
			std::vector<Item> v;
			while (true)
			{
				K k = next().kind;
				if (k == K::Eof) return v;
				if (k == K::Space || k == K::Semicolon) { take(); continue; }
				if (k == K::AtKeyword) { v.push_back(at_rule()); continue; }
				std::vector<Item> part;
				while (next().kind != K::Semicolon && next().kind != K::Eof) part.push_back(part.empty() && k == K::Ident ? take() : value());
				if (k != K::Ident) continue;
				Parser q(part);
				if (auto d = q.declaration()) v.push_back(std::move(*d));
			}
		}
	};

	enum class Entry { Stylesheet, Rules, Rule, Declaration, Declarations, Value, Values, CommaValues };

	// A result is a list; a failed parse of one thing is an empty list with failed set.
	struct Result { bool failed = false; std::vector<Item> items; };

	inline Result parse(Entry e, std::vector<Item> const& tokens)
	{
		Parser q(tokens);
		Result r;
		auto one = [&](Item i) { q.spaces(); if (q.next().kind == K::Eof) r.items.push_back(std::move(i)); else r.failed = true; };
		switch (e)
		{
		case Entry::Stylesheet: r.items = q.rules(true); break;
		case Entry::Rules: r.items = q.rules(false); break;
		case Entry::Rule:
			q.spaces();
			if (q.next().kind == K::Eof) r.failed = true;
			else if (q.next().kind == K::AtKeyword) one(q.at_rule());
			else if (auto x = q.qualified_rule()) one(std::move(*x));
			else r.failed = true;
			break;
		case Entry::Declaration:
			q.spaces();
			if (q.next().kind != K::Ident) r.failed = true;
			else if (auto d = q.declaration()) r.items.push_back(std::move(*d));
			else r.failed = true;
			break;
		case Entry::Declarations: r.items = q.declarations(); break;
		case Entry::Value:
			q.spaces();
			if (q.next().kind == K::Eof) r.failed = true;
			else one(q.value());
			break;
		case Entry::Values: while (q.next().kind != K::Eof) r.items.push_back(q.value()); break;
		case Entry::CommaValues:
			r.items.emplace_back(); r.items.back().kind = K::List;
			while (q.next().kind != K::Eof)
			{
				Item i = q.value();
				if (i.kind == K::Comma) { r.items.emplace_back(); r.items.back().kind = K::List; }
				else r.items.back().kids.push_back(std::move(i));
			}
			break;
		}
		return r;
	}
}
