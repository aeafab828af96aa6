// Reference URLs: the URL Standard (edition of early 2021), written over whole strings instead of a state machine.
// Hosts whose treatment differs between editions, or that need IDNA data, are not judged (Maybe::Unjudged).
#pragma once
#include "enc_ref.hpp"

#include <array>
#include <cstdint>
#include <map>
#include <optional>
#include <string>
#include <vector>

namespace url_ref
{
	using Text = std::u32string;
	using E = wordring::whatwg::encoding_name;
	enum class Maybe { Ok, Fail, Unjudged };

	struct Url
	{
		Text scheme, username, password;
		std::optional<Text> host; // as serialised
		std::optional<std::uint32_t> port;
		std::vector<Text> path;
		std::optional<Text> query, fragment;
		bool opaque = false;      // cannot be a base
	};

	inline bool digit(char32_t c) { return U'0' <= c && c <= U'9'; }
	inline bool alpha(char32_t c) { return (U'a' <= c && c <= U'z') || (U'A' <= c && c <= U'Z'); }
	inline int hex(char32_t c) { return digit(c) ? int(c - U'0') : U'a' <= c && c <= U'f' ? int(c - U'a' + 10) : U'A' <= c && c <= U'F' ? int(c - U'A' + 10) : -1; }
	inline char32_t lower(char32_t c) { return U'A' <= c && c <= U'Z' ? c + 32 : c; }
	inline Text lower(Text s) { for (auto& c : s) c = lower(c); return s; }
	inline bool special(Text const& s) { return s == U"http" || s == U"https" || s == U"ws" || s == U"wss" || s == U"ftp" || s == U"file"; }
	inline std::optional<std::uint32_t> default_port(Text const& s)
	{
		static std::map<Text, std::uint32_t> const m{ { U"http", 80 }, { U"ws", 80 }, { U"https", 443 }, { U"wss", 443 }, { U"ftp", 21 } };
		auto i = m.find(s);
		return i == m.end() ? std::nullopt : std::optional(i->second);
	}

	// ---------------------------------------------------------------------------------- percent encoding
	enum class Set { C0, Fragment, Query, SpecialQuery, Path, Userinfo };
	inline bool in_set(Set set, std::uint32_t b)
	{
		if (b < 0x20 || b > 0x7E) return true;
		static std::map<Set, std::string> const m{ { Set::C0, "" }, { Set::Fragment, " \"<>`" }, { Set::Query, " \"#<>" }, { Set::SpecialQuery, " \"#<>'" },
			{ Set::Path, " \"#<>?`{}" }, { Set::Userinfo, " \"#<>?`{}/:;=@[\\]^|" } };
		return m.at(set).find(char(b)) != std::string::npos;
	}
	inline Text pct(unsigned char b) { Text s = U"%"; s += U"0123456789ABCDEF"[b >> 4]; s += U"0123456789ABCDEF"[b & 15]; return s; }
	inline Text encode_bytes(std::string const& bytes, Set set)
	{
		Text r;
		for (unsigned char b : bytes) if (in_set(set, b)) r += pct(b); else r += char32_t(b);
		return r;
	}
	inline std::string utf8(Text const& s) { ref::Encoder e(E::UTF_8); std::string b; for (char32_t c : s) b += *e.put(c); return b; }
	inline Text encode(Text const& s, Set set) { return encode_bytes(utf8(s), set); }
	inline Text number(std::uint32_t n) { Text s; do { s.insert(s.begin(), char32_t(U'0' + n % 10)); n /= 10; } while (n); return s; }
	inline Text encode(Text const& s, Set set, E name) // with the encoding of the document
	{
		ref::Encoder d(name);
		Text r;
		for (char32_t c : s)
		{
			if (auto b = d.put(c)) r += encode_bytes(*b, set);
			else
			{
				if (name == E::ISO_2022_JP) r += encode_bytes(d.m_before, set);
				r += U"%26%23" + number(d.m_error) + U"%3B";
			}
		}
		return r + encode_bytes(d.finish(), set);
	}

	// ---------------------------------------------------------------------------------- hosts
	inline std::map<Text, Text> const& names() // domain names that are not ASCII
	{
		static std::map<Text, Text> const m{ { U"あいうえお.net", U"xn--l8jegik.net" }, { U"bücher.example", U"xn--bcher-kva.example" }, { U"BÜCHER.example", U"xn--bcher-kva.example" },
			{ U"ＧＯ.com", U"go.com" }, { U"faß.example", U"xn--fa-hia.example" }, { U"日本語。ＪＰ", U"xn--wgv71a119e.jp" }, { U"１２７.0.0.1", U"127.0.0.1" }, { U"ドメイン.テスト", U"xn--eckwd4c7c.xn--zckzah" } };
		return m;
	}

	inline std::optional<std::uint64_t> ipv4_number(Text s)
	{
		int radix = 10;
		if (s.size() >= 2 && s[0] == U'0' && (s[1] == U'x' || s[1] == U'X')) { radix = 16; s.erase(0, 2); }
		else if (s.size() >= 2 && s[0] == U'0') { radix = 8; s.erase(0, 1); }
		std::uint64_t n = 0;
		for (char32_t c : s)
		{
			int h = hex(c);
			if (h < 0 || h >= radix) return {};
			n = n * radix + h;
			if (n > 0xFFFFFFFFFFull) n = 0xFFFFFFFFFFull;
		}
		return n;
	}
	// Ok: an address is in out; Fail: not allowed; Unjudged: not an address, a name
	inline Maybe ipv4(Text const& s, Text& out)
	{
		std::vector<Text> parts(1);
		for (char32_t c : s) if (c == U'.') parts.emplace_back(); else parts.back() += c;
		if (parts.back().empty() && parts.size() > 1) parts.pop_back();
		if (parts.size() > 4) return Maybe::Unjudged;
		std::vector<std::uint64_t> n;
		for (auto& p : parts)
		{
			if (p.empty()) return Maybe::Unjudged;
			auto x = ipv4_number(p);
			if (!x) return Maybe::Unjudged;
			n.push_back(*x);
		}
		for (std::size_t i = 0; i + 1 < n.size(); ++i) if (n[i] > 255) return Maybe::Fail;
		if (n.back() >= (1ull << (8 * (5 - n.size())))) return Maybe::Fail;
		std::uint64_t a = n.back();
		for (std::size_t i = 0; i + 1 < n.size(); ++i) a += n[i] << (8 * (3 - i));
		out.clear();
		for (int i = 3; i >= 0; --i) { out += number(a >> (8 * i) & 255); if (i) out += U'.'; }
		return Maybe::Ok;
	}
	inline bool ipv6(Text const& s, Text& out)
	{
		// groups before and after "::"
		std::vector<std::uint32_t> v[2];
		int side = 0;
		std::size_t i = 0, n = s.size();
		if (n == 0) return false;
		if (s[0] == U':') { if (n < 2 || s[1] != U':') return false; i = 2; side = 1; }
		while (i < n)
		{
			if (v[0].size() + v[1].size() + side >= 8) return false;
			if (s[i] == U':') { if (side) return false; side = 1; ++i; continue; }
			std::size_t k = i;
			std::uint32_t value = 0;
			while (k < n && k - i < 4 && hex(s[k]) >= 0) value = value * 16 + hex(s[k++]);
			if (k < n && s[k] == U'.')
			{
				if (k == i || v[0].size() + v[1].size() + side > 6) return false;
				std::uint32_t b[4];
				for (int q = 0; q < 4; ++q)
				{
					if (q) { if (i >= n || s[i] != U'.') return false; ++i; }
					if (i >= n || !digit(s[i])) return false;
					std::size_t f = i;
					std::uint32_t x = 0;
					while (i < n && digit(s[i])) { x = x * 10 + (s[i++] - U'0'); if (x > 255) return false; }
					if (s[f] == U'0' && i - f > 1) return false;
					b[q] = x;
				}
				if (i != n) return false;
				v[side].push_back(b[0] << 8 | b[1]);
				v[side].push_back(b[2] << 8 | b[3]);
				break;
			}
			i = k;
			if (i < n)
			{
				if (s[i] != U':') return false;
				if (++i == n) return false;
			}
			v[side].push_back(value);
		}
		std::size_t total = v[0].size() + v[1].size();
		if (side ? total > 7 : total != 8) return false;
		std::array<std::uint32_t, 8> a{};
		for (std::size_t q = 0; q < v[0].size(); ++q) a[q] = v[0][q];
		for (std::size_t q = 0; q < v[1].size(); ++q) a[8 - v[1].size() + q] = v[1][q];
		// the first longest run of zeros
		int from = -1, len = 1;
		for (int q = 0; q < 8; ++q)
		{
			int e = q;
			while (e < 8 && a[e] == 0) ++e;
			if (e - q > len) { from = q; len = e - q; }
			if (e > q) q = e;
		}
		out = U"[";
		for (int q = 0; q < 8; ++q)
		{
			if (q == from) { out += q == 0 ? U"::" : U":"; q += len - 1; continue; }
			Text h;
			std::uint32_t x = a[q];
			do { h.insert(h.begin(), U"0123456789abcdef"[x & 15]); x >>= 4; } while (x);
			out += h;
			if (q != 7) out += U':';
		}
		out += U']';
		return true;
	}
	inline Maybe host(Text const& in, bool isspecial, Text& out)
	{
		if (!in.empty() && in[0] == U'[')
		{
			if (in.back() != U']') return Maybe::Fail;
			return in.size() >= 2 && ipv6(in.substr(1, in.size() - 2), out) ? Maybe::Ok : Maybe::Fail;
		}
		auto forbidden = [](char32_t c) { return c == 0 || c == 9 || c == 10 || c == 13 || c == U' ' || c == U'#' || c == U'%' || c == U'/' || c == U':' || c == U'?' || c == U'@' || c == U'[' || c == U'\\' || c == U']'; };
		auto doubtful = [](char32_t c) { return c == U'<' || c == U'>' || c == U'^' || c == U'|' || c < 0x20 || c == 0x7F || c == U'`'; };
		if (!isspecial)
		{
			for (char32_t c : in) if (forbidden(c) && c != U'%') return Maybe::Fail;
			for (char32_t c : in) if (doubtful(c)) return Maybe::Unjudged;
			out = encode(in, Set::C0);
			return Maybe::Ok;
		}
		std::string b = utf8(in), d;
		for (std::size_t i = 0; i < b.size(); ++i)
		{
			if (b[i] == '%' && i + 2 < b.size() && hex((unsigned char)b[i + 1]) >= 0 && hex((unsigned char)b[i + 2]) >= 0)
			{
				d += char(hex((unsigned char)b[i + 1]) * 16 + hex((unsigned char)b[i + 2]));
				i += 2;
			}
			else d += b[i];
		}
		Text name = ref::decode_all(E::UTF_8, d);
		bool ascii = true;
		for (char32_t c : name) if (c >= 0x80) ascii = false;
		if (ascii) name = lower(name);
		else if (auto i = names().find(name); i != names().end()) name = i->second;
		else return Maybe::Unjudged;
		if (name.empty()) return Maybe::Unjudged;
		for (char32_t c : name) if (forbidden(c)) return Maybe::Fail;
		for (char32_t c : name) if (doubtful(c)) return Maybe::Unjudged;
		if (ascii && name.find(U"xn--") != Text::npos)
		{
			bool ok = false;
			for (auto& x : names()) if (x.second == name) ok = true;
			if (!ok) return Maybe::Unjudged;
		}
		switch (ipv4(name, out))
		{
		case Maybe::Ok: return Maybe::Ok;
		case Maybe::Fail: return Maybe::Fail;
		case Maybe::Unjudged: out = name; return Maybe::Ok; // a name
		}
		return Maybe::Ok;
	}

	// ---------------------------------------------------------------------------------- parsing
	inline Text without_newlines(Text const& s) { Text r; for (char32_t c : s) if (c != 9 && c != 10 && c != 13) r += c; return r; }
	inline bool drive(Text const& s) { return s.size() == 2 && alpha(s[0]) && (s[1] == U':' || s[1] == U'|'); }
	inline bool starts_with_drive(Text const& s, std::size_t i)
	{
		return s.size() - i >= 2 && drive(s.substr(i, 2)) && (s.size() - i == 2 || s[i + 2] == U'/' || s[i + 2] == U'\\' || s[i + 2] == U'?' || s[i + 2] == U'#');
	}
	inline void shorten(Url& u)
	{
		if (u.path.empty()) return;
		if (u.scheme == U"file" && u.path.size() == 1 && drive(u.path[0]) && u.path[0][1] == U':') return;
		u.path.pop_back();
	}

	struct Parser
	{
		Text s;
		Url const* base = nullptr;
		E name = E::UTF_8;
		Url u;

		char32_t at(std::size_t i) const { return i < s.size() ? s[i] : 0xFFFFFFFF; }
		bool slash(char32_t c) const { return c == U'/' || (c == U'\\' && special(u.scheme)); }
		bool ends(char32_t c) const { return c == 0xFFFFFFFF || c == U'?' || c == U'#' || slash(c); }

		void fragment(std::size_t i) { u.fragment = encode(s.substr(i), Set::Fragment); }
		void query(std::size_t i)
		{
			std::size_t e = std::min(s.find(U'#', i), s.size());
			Set set = special(u.scheme) ? Set::SpecialQuery : Set::Query;
			bool own = special(u.scheme) && u.scheme != U"ws" && u.scheme != U"wss";
			u.query = encode(s.substr(i, e - i), set, own ? name : E::UTF_8);
			if (e < s.size()) fragment(e + 1);
		}
		void rest(std::size_t i) // at the end of a path
		{
			if (at(i) == U'?') query(i + 1);
			else if (at(i) == U'#') fragment(i + 1);
		}
		void path(std::size_t i, bool whole = false) // whole: a setter, where ? and # belong to the path
		{
			for (;;)
			{
				std::size_t e = i;
				while (e < s.size() && !slash(s[e]) && !(!whole && (s[e] == U'?' || s[e] == U'#'))) ++e;
				Text seg = encode(s.substr(i, e - i), Set::Path), l = lower(seg);
				bool more = e < s.size() && slash(s[e]);
				if (l == U".." || l == U".%2e" || l == U"%2e." || l == U"%2e%2e") { shorten(u); if (!more) u.path.push_back(U""); }
				else if (l == U"." || l == U"%2e") { if (!more) u.path.push_back(U""); }
				else
				{
					if (u.scheme == U"file" && u.path.empty() && drive(seg)) seg[1] = U':';
					u.path.push_back(seg);
				}
				i = e;
				if (!more) break;
				++i;
			}
			if (!whole) rest(i);
		}
		void path_start(std::size_t i, bool whole = false)
		{
			if (special(u.scheme)) { if (slash(at(i))) ++i; path(i, whole); }
			else if (!whole && (at(i) == U'?' || at(i) == U'#')) rest(i);
			else if (i < s.size()) { if (s[i] == U'/') ++i; path(i, whole); }
		}
		std::size_t colon(std::size_t i, std::size_t e) const // the colon before a port
		{
			bool in = false;
			for (; i < e; ++i) { if (s[i] == U'[') in = true; else if (s[i] == U']') in = false; else if (s[i] == U':' && !in) return i; }
			return e;
		}
		Maybe authority(std::size_t i)
		{
			std::size_t e = i;
			while (!ends(at(e))) ++e;
			std::size_t h = i;
			for (std::size_t k = i; k < e; ++k) if (s[k] == U'@') h = k + 1;
			if (h != i)
			{
				if (h == e) return Maybe::Fail;
				Text c = s.substr(i, h - 1 - i);
				std::size_t k = std::min(c.find(U':'), c.size());
				u.username = encode(c.substr(0, k), Set::Userinfo);
				if (k < c.size()) u.password = encode(c.substr(k + 1), Set::Userinfo);
			}
			std::size_t k = colon(h, e);
			if (k == h && (k < e || special(u.scheme))) return Maybe::Fail;
			Text out;
			if (Maybe m = host(s.substr(h, k - h), special(u.scheme), out); m != Maybe::Ok) return m;
			u.host = out;
			if (k < e)
			{
				std::uint64_t p = 0;
				for (std::size_t q = k + 1; q < e; ++q) { if (!digit(s[q])) return Maybe::Fail; p = std::min<std::uint64_t>(p * 10 + (s[q] - U'0'), 1000000); }
				if (p > 65535) return Maybe::Fail;
				if (k + 1 < e) u.port = default_port(u.scheme) == p ? std::nullopt : std::optional<std::uint32_t>(p);
			}
			path_start(e);
			return Maybe::Ok;
		}
		Maybe slashes(std::size_t i) { while (at(i) == U'/' || at(i) == U'\\') ++i; return authority(i); }
		Maybe relative(std::size_t i)
		{
			u.scheme = base->scheme;
			char32_t c = at(i);
			if (slash(c))
			{
				c = at(++i);
				if (special(u.scheme) && slash(c)) return slashes(i + 1);
				if (c == U'/') return authority(i + 1);
				u.username = base->username; u.password = base->password; u.host = base->host; u.port = base->port;
				path(i);
				return Maybe::Ok;
			}
			Text scheme = u.scheme;
			u = *base;
			u.fragment.reset();
			if (c == U'?' || c == U'#') { if (c == U'?') u.query.reset(); rest(i); }
			else if (i < s.size()) { u.query.reset(); if (!u.path.empty()) u.path.pop_back(); path(i); }
			return Maybe::Ok;
		}
		Maybe file(std::size_t i)
		{
			u.scheme = U"file";
			u.host = U"";
			bool fb = base && base->scheme == U"file";
			char32_t c = at(i);
			if (c == U'/' || c == U'\\')
			{
				c = at(++i);
				if (c == U'/' || c == U'\\')
				{
					std::size_t e = ++i;
					while (!ends(at(e))) ++e;
					Text b = s.substr(i, e - i);
					if (drive(b)) { path(i); return Maybe::Ok; }
					if (!b.empty())
					{
						Text out;
						if (Maybe m = host(b, true, out); m != Maybe::Ok) return m;
						u.host = out == U"localhost" ? U"" : out;
					}
					path_start(e);
					return Maybe::Ok;
				}
				if (fb)
				{
					u.host = base->host;
					if (!starts_with_drive(s, std::min(i, s.size())) && !base->path.empty() && drive(base->path[0]) && base->path[0][1] == U':') u.path.push_back(base->path[0]);
				}
				path(i);
				return Maybe::Ok;
			}
			if (!fb) { path(i); return Maybe::Ok; }
			u.host = base->host; u.path = base->path; u.query = base->query;
			if (c == U'?' || c == U'#') { if (c == U'?') u.query.reset(); rest(i); }
			else if (i < s.size())
			{
				u.query.reset();
				if (starts_with_drive(s, i)) u.path.clear(); else shorten(u);
				path(i);
			}
			return Maybe::Ok;
		}
		Maybe run()
		{
			std::size_t i = 0;
			if (alpha(at(0))) while (alpha(at(i)) || digit(at(i)) || at(i) == U'+' || at(i) == U'-' || at(i) == U'.') ++i;
			if (i && at(i) == U':')
			{
				u.scheme = lower(s.substr(0, i++));
				bool two = at(i) == U'/' && at(i + 1) == U'/';
				if (u.scheme == U"file") return file(i);
				if (special(u.scheme) && base && base->scheme == u.scheme && !two) return relative(i);
				if (special(u.scheme)) return slashes(two ? i + 2 : i);
				if (two) return authority(i + 2);
				if (at(i) == U'/') { path(i + 1); return Maybe::Ok; }
				u.opaque = true;
				std::size_t e = i;
				while (e < s.size() && s[e] != U'?' && s[e] != U'#') ++e;
				u.path.push_back(encode(s.substr(i, e - i), Set::C0));
				rest(e);
				return Maybe::Ok;
			}
			if (!base || (base->opaque && at(0) != U'#')) return Maybe::Fail;
			if (base->opaque) { u = *base; u.fragment.reset(); fragment(1); return Maybe::Ok; }
			return base->scheme == U"file" ? file(0) : relative(0);
		}
	};

	inline Maybe parse(Text const& text, Url const* base, Url& out, E name = E::UTF_8)
	{
		std::size_t a = 0, b = text.size();
		while (a < b && text[a] <= 0x20) ++a;
		while (a < b && text[b - 1] <= 0x20) --b;
		Parser p;
		p.s = without_newlines(text.substr(a, b - a));
		p.base = base;
		if (name == E::UTF_16BE || name == E::UTF_16LE || name == E::replacement) name = E::UTF_8;
		p.name = name;
		Maybe m = p.run();
		if (m == Maybe::Ok) out = p.u;
		return m;
	}

	inline Text href(Url const& u, bool fragment = true)
	{
		Text s = u.scheme + U":";
		if (u.host)
		{
			s += U"//";
			if (!u.username.empty() || !u.password.empty())
			{
				s += u.username;
				if (!u.password.empty()) s += U":" + u.password;
				s += U"@";
			}
			s += *u.host;
			if (u.port) s += U":" + number(*u.port);
		}
		if (u.opaque) s += u.path[0];
		else
		{
			if (!u.host && u.path.size() > 1 && u.path[0].empty()) s += U"/.";
			for (auto& p : u.path) s += U"/" + p;
		}
		if (u.query) s += U"?" + *u.query;
		if (fragment && u.fragment) s += U"#" + *u.fragment;
		return s;
	}
	inline Text pathname(Url const& u)
	{
		if (u.opaque) return u.path[0];
		Text s;
		for (auto& p : u.path) s += U"/" + p;
		return s;
	}

	// ---------------------------------------------------------------------------------- edits
	// Ok: carried out; Fail: refused, nothing changed; Unjudged: nothing changed here, do not ask the library
	inline bool no_authority(Url const& u) { return !u.host || u.host->empty() || u.opaque || u.scheme == U"file"; }

	inline Maybe set_protocol(Url& u, Text const& v)
	{
		Text s = without_newlines(v) + U":";
		std::size_t i = 0;
		if (alpha(s[0])) while (i < s.size() && (alpha(s[i]) || digit(s[i]) || s[i] == U'+' || s[i] == U'-' || s[i] == U'.')) ++i;
		if (i == 0 || s[i] != U':') return Maybe::Fail;
		Text n = lower(s.substr(0, i));
		if (special(n) != special(u.scheme)) return Maybe::Fail;
		if (n == U"file" && (!u.username.empty() || !u.password.empty() || u.port)) return Maybe::Fail;
		if (u.scheme == U"file" && u.host && u.host->empty()) return Maybe::Fail;
		u.scheme = n;
		if (u.port && u.port == default_port(n)) u.port.reset();
		return Maybe::Ok;
	}
	inline Maybe set_user(Url& u, Text const& v, bool password)
	{
		if (no_authority(u)) return Maybe::Fail;
		(password ? u.password : u.username) = encode(v, Set::Userinfo);
		return Maybe::Ok;
	}
	inline Maybe port_digits(Url& u, Text const& s, std::size_t i)
	{
		std::uint64_t p = 0;
		std::size_t e = i;
		for (; e < s.size() && digit(s[e]); ++e) p = std::min<std::uint64_t>(p * 10 + (s[e] - U'0'), 1000000);
		if (e == i || p > 65535) return Maybe::Fail;
		u.port = default_port(u.scheme) == p ? std::nullopt : std::optional<std::uint32_t>(p);
		return Maybe::Ok;
	}
	inline Maybe set_port(Url& u, Text const& v)
	{
		if (no_authority(u)) return Maybe::Fail;
		if (v.empty()) { u.port.reset(); return Maybe::Ok; }
		return port_digits(u, without_newlines(v), 0);
	}
	inline Maybe set_host(Url& u, Text const& v, bool hostname)
	{
		if (u.opaque) return Maybe::Fail;
		Parser p;
		p.s = without_newlines(v);
		p.u.scheme = u.scheme;
		bool sp = special(u.scheme);
		std::size_t e = 0;
		Text out;
		if (u.scheme == U"file")
		{
			while (!p.ends(p.at(e))) ++e;
			if (e)
			{
				if (Maybe m = host(p.s.substr(0, e), true, out); m != Maybe::Ok) return m;
				if (out == U"localhost") out.clear();
			}
			u.host = out;
			return Maybe::Ok;
		}
		bool in = false;
		for (; !p.ends(p.at(e)) && !(p.s[e] == U':' && !in); ++e) { if (p.s[e] == U'[') in = true; if (p.s[e] == U']') in = false; }
		bool port = p.at(e) == U':';
		if (e == 0 && (port || sp || !u.username.empty() || !u.password.empty() || u.port)) return Maybe::Fail;
		if (Maybe m = host(p.s.substr(0, e), sp, out); m != Maybe::Ok) return m;
		u.host = out;
		if (port && !hostname) port_digits(u, p.s, e + 1);
		return Maybe::Ok;
	}
	inline Maybe set_pathname(Url& u, Text const& v)
	{
		if (u.opaque) return Maybe::Fail;
		Parser p;
		p.s = without_newlines(v);
		p.u = u;
		p.u.path.clear();
		p.path_start(0, true);
		u.path = p.u.path;
		return Maybe::Ok;
	}
	inline Maybe set_search(Url& u, Text v)
	{
		if (v.empty()) { u.query.reset(); return Maybe::Ok; }
		if (v[0] == U'?') v.erase(0, 1);
		u.query = encode(without_newlines(v), special(u.scheme) ? Set::SpecialQuery : Set::Query);
		return Maybe::Ok;
	}
	inline Maybe set_hash(Url& u, Text v)
	{
		if (v.empty()) { u.fragment.reset(); return Maybe::Ok; }
		if (v[0] == U'#') v.erase(0, 1);
		u.fragment = encode(without_newlines(v), Set::Fragment);
		return Maybe::Ok;
	}
}
