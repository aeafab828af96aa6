// Reference decoders and encoders, written from the Encoding Standard over a growing byte buffer.
// Nothing here uses code of the library under test except the enumeration of names.
#pragma once
#include "enc_tables.hpp"

#include <wordring/whatwg/encoding/encoding_defs.hpp>

#include <array>
#include <cstdint>
#include <map>
#include <optional>
#include <string>
#include <string_view>
#include <vector>

namespace ref
{
	using wordring::whatwg::encoding_name;
	using Text = std::u32string;
	using Bytes = std::string;

	struct Table { std::int32_t const* p; std::size_t n; };

	inline Table single_byte(encoding_name e)
	{
#define T(E, N) case encoding_name::E: return { t_##N, n_##N }
		switch (e)
		{
		T(IBM866, ibm866); T(ISO_8859_2, iso_8859_2); T(ISO_8859_3, iso_8859_3); T(ISO_8859_4, iso_8859_4); T(ISO_8859_5, iso_8859_5);
		T(ISO_8859_6, iso_8859_6); T(ISO_8859_7, iso_8859_7); T(ISO_8859_8, iso_8859_8); T(ISO_8859_8_I, iso_8859_8); T(ISO_8859_10, iso_8859_10);
		T(ISO_8859_13, iso_8859_13); T(ISO_8859_14, iso_8859_14); T(ISO_8859_15, iso_8859_15); T(ISO_8859_16, iso_8859_16); T(KOI8_R, koi8_r);
		T(KOI8_U, koi8_u); T(macintosh, macintosh); T(windows_874, windows_874); T(windows_1250, windows_1250); T(windows_1251, windows_1251);
		T(windows_1252, windows_1252); T(windows_1253, windows_1253); T(windows_1254, windows_1254); T(windows_1255, windows_1255);
		T(windows_1256, windows_1256); T(windows_1257, windows_1257); T(windows_1258, windows_1258); T(x_mac_cyrillic, x_mac_cyrillic);
		default: return { nullptr, 0 };
		}
#undef T
	}

	inline std::vector<encoding_name> const& all_encodings()
	{
		static std::vector<encoding_name> const v = [] {
			std::vector<encoding_name> r;
			using E = encoding_name;
			for (E e : { E::UTF_8, E::IBM866, E::ISO_8859_2, E::ISO_8859_3, E::ISO_8859_4, E::ISO_8859_5, E::ISO_8859_6, E::ISO_8859_7, E::ISO_8859_8, E::ISO_8859_8_I,
				E::ISO_8859_10, E::ISO_8859_13, E::ISO_8859_14, E::ISO_8859_15, E::ISO_8859_16, E::KOI8_R, E::KOI8_U, E::macintosh, E::windows_874, E::windows_1250,
				E::windows_1251, E::windows_1252, E::windows_1253, E::windows_1254, E::windows_1255, E::windows_1256, E::windows_1257, E::windows_1258, E::x_mac_cyrillic,
				E::GBK, E::gb18030, E::Big5, E::EUC_JP, E::ISO_2022_JP, E::Shift_JIS, E::EUC_KR, E::replacement, E::UTF_16BE, E::UTF_16LE, E::x_user_defined }) r.push_back(e);
			return r; }();
		return v;
	}

	inline char const* name(encoding_name e)
	{
		static char const* const n[] = { "UTF-8", "IBM866", "ISO-8859-2", "ISO-8859-3", "ISO-8859-4", "ISO-8859-5", "ISO-8859-6", "ISO-8859-7", "ISO-8859-8", "ISO-8859-8-I",
			"ISO-8859-10", "ISO-8859-13", "ISO-8859-14", "ISO-8859-15", "ISO-8859-16", "KOI8-R", "KOI8-U", "macintosh", "windows-874", "windows-1250",
			"windows-1251", "windows-1252", "windows-1253", "windows-1254", "windows-1255", "windows-1256", "windows-1257", "windows-1258", "x-mac-cyrillic",
			"GBK", "gb18030", "Big5", "EUC-JP", "ISO-2022-JP", "Shift_JIS", "EUC-KR", "replacement", "UTF-16BE", "UTF-16LE", "x-user-defined" };
		auto const& v = all_encodings();
		for (std::size_t i = 0; i < v.size(); ++i) if (v[i] == e) return n[i];
		return "?";
	}

	// lower-case label of the standard
	inline std::u32string label(encoding_name e)
	{
		std::u32string s;
		for (char const* p = name(e); *p; ++p) s += static_cast<char32_t>('A' <= *p && *p <= 'Z' ? *p + 32 : *p);
		return s;
	}

	inline std::int64_t at(Table t, std::size_t i) { return i < t.n ? t.p[i] : -1; }

	inline std::int64_t gb_ranges(std::uint32_t pointer)
	{
		if ((39419 < pointer && pointer < 189000) || 1237575 < pointer) return -1;
		if (pointer == 7457) return 0xE7C7;
		std::int64_t off = 0, cp = 0;
		for (std::size_t i = 0; i + 1 < n_gb18030_ranges; i += 2)
			if (static_cast<std::uint32_t>(t_gb18030_ranges[i]) <= pointer) { off = t_gb18030_ranges[i]; cp = t_gb18030_ranges[i + 1]; }
		return cp + (pointer - off);
	}

	// ---- decoding ------------------------------------------------------------------------------
	// next() takes the next item off the buffer: code points, an error, the end, or "needs more bytes".
	class Decoder
	{
	public:
		enum Kind { more, text, error, finished };
		struct Item { Kind kind; Text cp; };

		explicit Decoder(encoding_name e) : m_e(e) {}
		void feed(std::string_view b) { m_b.append(b); }
		std::size_t pending() const { return m_b.size() - m_i; }

		Item next(bool eof)
		{
			using E = encoding_name;
			if (m_e == E::ISO_2022_JP) return iso2022jp(eof);
			if (m_e == E::replacement)
			{
				if (left() == 0) return { eof ? finished : more, {} };
				++m_i;
				if (m_replaced) return { finished, {} };
				m_replaced = true;
				return { error, {} };
			}
			if (left() == 0) return { eof ? finished : more, {} };
			unsigned a = byte(0);
			if (m_e == E::UTF_16BE || m_e == E::UTF_16LE) return utf16(eof);
			if (m_e == E::UTF_8) return utf8(eof);
			if (a < 0x80) return take(1, a);
			if (Table t = single_byte(m_e); t.p) { auto c = at(t, a - 0x80); return c < 0 ? fail(1) : take(1, c); }
			switch (m_e)
			{
			case E::x_user_defined: return take(1, 0xF700 + a);
			case E::GBK: case E::gb18030: return gb(eof);
			case E::Big5:
			{
				if (a < 0x81 || a > 0xFE) return fail(1);
				if (left() < 2) return incomplete(eof);
				unsigned b = byte(1);
				if ((0x40 <= b && b <= 0x7E) || (0xA1 <= b && b <= 0xFE))
				{
					unsigned p = (a - 0x81) * 157 + b - (b < 0x7F ? 0x40 : 0x62);
					if (a == 0x88)
					{
						if (b == 0x62) return take(2, 0xCA, 0x304);
						if (b == 0x64) return take(2, 0xCA, 0x30C);
						if (b == 0xA3) return take(2, 0xEA, 0x304);
						if (b == 0xA5) return take(2, 0xEA, 0x30C);
					}
					auto c = at({ t_big5, n_big5 }, p);
					if (0 <= c) return take(2, c);
				}
				return fail(b < 0x80 ? 1 : 2);
			}
			case E::EUC_JP:
			{
				if (a != 0x8E && a != 0x8F && (a < 0xA1 || a > 0xFE)) return fail(1);
				if (left() < 2) return incomplete(eof);
				unsigned b = byte(1);
				if (a == 0x8E && 0xA1 <= b && b <= 0xDF) return take(2, 0xFF61 - 0xA1 + b);
				if (a == 0x8F && 0xA1 <= b && b <= 0xFE)
				{
					if (left() < 3) return incomplete(eof);
					unsigned d = byte(2);
					if (0xA1 <= d && d <= 0xFE)
					{
						auto c = at({ t_jis0212, n_jis0212 }, (b - 0xA1) * 94 + d - 0xA1);
						if (0 <= c) return take(3, c);
					}
					return fail(d < 0x80 ? 2 : 3);
				}
				if (0xA1 <= a && 0xA1 <= b && b <= 0xFE)
				{
					auto c = at({ t_jis0208, n_jis0208 }, (a - 0xA1) * 94 + b - 0xA1);
					if (0 <= c) return take(2, c);
				}
				return fail(b < 0x80 ? 1 : 2);
			}
			case E::Shift_JIS:
			{
				if (a == 0x80) return take(1, 0x80);
				if (0xA1 <= a && a <= 0xDF) return take(1, 0xFF61 - 0xA1 + a);
				if (a == 0xA0 || a > 0xFC) return fail(1);
				if (left() < 2) return incomplete(eof);
				unsigned b = byte(1);
				if ((0x40 <= b && b <= 0x7E) || (0x80 <= b && b <= 0xFC))
				{
					unsigned p = (a - (a < 0xA0 ? 0x81 : 0xC1)) * 188 + b - (b < 0x7F ? 0x40 : 0x41);
					if (8836 <= p && p <= 10715) return take(2, 0xE000 - 8836 + p);
					auto c = at({ t_jis0208, n_jis0208 }, p);
					if (0 <= c) return take(2, c);
				}
				return fail(b < 0x80 ? 1 : 2);
			}
			case E::EUC_KR:
			{
				if (a < 0x81 || a > 0xFE) return fail(1);
				if (left() < 2) return incomplete(eof);
				unsigned b = byte(1);
				if (0x41 <= b && b <= 0xFE)
				{
					auto c = at({ t_euc_kr, n_euc_kr }, (a - 0x81) * 190 + b - 0x41);
					if (0 <= c) return take(2, c);
				}
				return fail(b < 0x80 ? 1 : 2);
			}
			default: break;
			}
			std::abort();
		}

	private:
		std::size_t left() const { return m_b.size() - m_i; }
		unsigned byte(std::size_t k) const { return static_cast<unsigned char>(m_b[m_i + k]); }
		Item take(std::size_t n, std::int64_t a, std::int64_t b = -1)
		{
			m_i += n;
			Text t(1, static_cast<char32_t>(a));
			if (0 <= b) t += static_cast<char32_t>(b);
			return { text, t };
		}
		Item fail(std::size_t n) { m_i += n; return { error, {} }; }
		Item incomplete(bool eof) { if (!eof) return { more, {} }; m_i = m_b.size(); return { error, {} }; }

		Item utf8(bool eof)
		{
			unsigned a = byte(0);
			if (a < 0x80) return take(1, a);
			struct Row { unsigned lo, hi, n, l2, h2; };
			static Row const rows[] = { { 0xC2, 0xDF, 2, 0x80, 0xBF }, { 0xE0, 0xE0, 3, 0xA0, 0xBF }, { 0xE1, 0xEC, 3, 0x80, 0xBF }, { 0xED, 0xED, 3, 0x80, 0x9F },
				{ 0xEE, 0xEF, 3, 0x80, 0xBF }, { 0xF0, 0xF0, 4, 0x90, 0xBF }, { 0xF1, 0xF3, 4, 0x80, 0xBF }, { 0xF4, 0xF4, 4, 0x80, 0x8F } };
			for (Row const& r : rows)
			{
				if (a < r.lo || r.hi < a) continue;
				std::uint32_t cp = a & (0x7F >> r.n);
				for (unsigned k = 1; k < r.n; ++k)
				{
					if (left() <= k) return incomplete(eof);
					unsigned b = byte(k);
					if (b < (k == 1 ? r.l2 : 0x80) || (k == 1 ? r.h2 : 0xBF) < b) return fail(k);
					cp = cp << 6 | (b & 0x3F);
				}
				return take(r.n, cp);
			}
			return fail(1);
		}

		Item utf16(bool eof)
		{
			auto unit = [&](std::size_t k) { return m_e == encoding_name::UTF_16BE ? byte(k) << 8 | byte(k + 1) : byte(k + 1) << 8 | byte(k); };
			if (left() < 2) return incomplete(eof);
			unsigned u = unit(0);
			if (u < 0xD800 || 0xDFFF < u) return take(2, u);
			if (0xDC00 <= u) return fail(2);
			if (left() < 4) return incomplete(eof);
			unsigned v = unit(2);
			if (0xDC00 <= v && v <= 0xDFFF) return take(4, 0x10000 + ((u - 0xD800) << 10) + (v - 0xDC00));
			return fail(2);
		}

		Item gb(bool eof)
		{
			unsigned a = byte(0);
			if (a == 0x80) return take(1, 0x20AC);
			if (a == 0xFF) return fail(1);
			if (left() < 2) return incomplete(eof);
			unsigned b = byte(1);
			if (0x30 <= b && b <= 0x39)
			{
				if (left() < 3) return incomplete(eof);
				unsigned c = byte(2);
				if (c < 0x81 || c > 0xFE) return fail(1);
				if (left() < 4) return incomplete(eof);
				unsigned d = byte(3);
				if (d < 0x30 || d > 0x39) return fail(1);
				auto cp = gb_ranges(((a - 0x81) * 10 * 126 * 10) + ((b - 0x30) * 10 * 126) + (c - 0x81) * 10 + d - 0x30);
				return cp < 0 ? fail(4) : take(4, cp);
			}
			if ((0x40 <= b && b <= 0x7E) || (0x80 <= b && b <= 0xFE))
			{
				auto cp = at({ t_gb18030, n_gb18030 }, (a - 0x81) * 190 + b - (b < 0x7F ? 0x40 : 0x41));
				if (0 <= cp) return take(2, cp);
			}
			return fail(b < 0x80 ? 1 : 2);
		}

		// ISO-2022-JP: m_set is the character set in force, m_mark says that an escape sequence was the last thing seen
		Item iso2022jp(bool eof)
		{
			for (;;)
			{
				if (left() == 0) return { eof ? finished : more, {} };
				unsigned a = byte(0);
				if (a == 0x1B)
				{
					// a complete and known sequence, an unknown one, or too few bytes
					if (left() < 2) { if (!eof) return { more, {} }; m_mark = false; return fail(1); }
					unsigned b = byte(1);
					if (b == 0x24 || b == 0x28)
					{
						if (left() < 3) { if (!eof) return { more, {} }; m_mark = false; return fail(1); }
						unsigned c = byte(2);
						int set = -1;
						if (b == 0x28 && c == 0x42) set = 0;
						if (b == 0x28 && c == 0x4A) set = 1;
						if (b == 0x28 && c == 0x49) set = 2;
						if (b == 0x24 && (c == 0x40 || c == 0x42)) set = 3;
						if (0 <= set)
						{
							m_i += 3;
							m_set = set;
							bool m = m_mark;
							m_mark = true;
							if (m) return { error, {} };
							continue;
						}
					}
					m_mark = false;
					return fail(1);
				}
				if (m_set == 3)
				{
					if (a < 0x21 || 0x7E < a) { m_mark = false; return fail(1); }
					if (left() < 2) { m_mark = false; return incomplete(eof); }
					m_mark = false;
					unsigned b = byte(1);
					if (b == 0x1B) return fail(1); // the escape is looked at next
					if (b < 0x21 || 0x7E < b) return fail(2);
					auto c = at({ t_jis0208, n_jis0208 }, (a - 0x21) * 94 + b - 0x21);
					return c < 0 ? fail(2) : take(2, c);
				}
				m_mark = false;
				if (m_set == 2) return 0x21 <= a && a <= 0x5F ? take(1, 0xFF61 - 0x21 + a) : fail(1);
				if (a > 0x7F || a == 0x0E || a == 0x0F) return fail(1);
				if (m_set == 1 && a == 0x5C) return take(1, 0xA5);
				if (m_set == 1 && a == 0x7E) return take(1, 0x203E);
				return take(1, a);
			}
		}

		encoding_name m_e;
		Bytes m_b;
		std::size_t m_i = 0;
		bool m_replaced = false;
		int m_set = 0;
		bool m_mark = false;
	};

	// whole input, errors replaced
	inline Text decode_all(encoding_name e, std::string_view b)
	{
		Decoder d(e);
		d.feed(b);
		Text out;
		for (;;)
		{
			auto i = d.next(true);
			if (i.kind == Decoder::finished) return out;
			if (i.kind == Decoder::error) out += U'\xFFFD';
			out += i.cp;
		}
	}

	// ---- encoding ------------------------------------------------------------------------------
	struct Index // from code points to pointers, built from the decoding index by the rules of the standard
	{
		std::map<char32_t, std::uint32_t> m;
	};
	inline Index const& index_of(int which) // 0 big5, 1 euc-kr, 2 gb18030, 3 jis0208, 4 shift_jis
	{
		static std::array<Index, 5> const all = [] {
			std::array<Index, 5> r;
			auto first = [](Index& x, Table t, auto skip) { for (std::size_t i = 0; i < t.n; ++i) if (0 <= t.p[i] && !skip(i)) x.m.emplace(t.p[i], i); };
			auto none = [](std::size_t) { return false; };
			first(r[0], { t_big5, n_big5 }, [](std::size_t i) { return i < (0xA1 - 0x81) * 157; });
			for (char32_t c : { 0x2550, 0x255E, 0x2561, 0x256A, 0x5341, 0x5345 })
				for (std::size_t i = 0; i < n_big5; ++i) if (t_big5[i] == static_cast<std::int32_t>(c)) r[0].m[c] = i;
			first(r[1], { t_euc_kr, n_euc_kr }, none);
			first(r[2], { t_gb18030, n_gb18030 }, none);
			first(r[3], { t_jis0208, n_jis0208 }, none);
			first(r[4], { t_jis0208, n_jis0208 }, [](std::size_t i) { return 8272 <= i && i <= 8835; });
			return r; }();
		return all[which];
	}

	class Encoder
	{
	public:
		explicit Encoder(encoding_name e) : m_e(e) {}

		// bytes for cp, or nothing when the encoding has none (then m_error is the code point of the error)
		std::optional<Bytes> put(char32_t cp)
		{
			using E = encoding_name;
			m_error = cp;
			auto b = [](auto... x) { Bytes s; (s.push_back(static_cast<char>(x)), ...); return s; };
			if (m_e == E::ISO_2022_JP) return iso2022jp(cp);
			if (cp < 0x80) return b(cp);
			if (m_e == E::UTF_8)
			{
				if (cp < 0x800) return b(0xC0 | cp >> 6, 0x80 | (cp & 0x3F));
				if (cp < 0x10000) return b(0xE0 | cp >> 12, 0x80 | (cp >> 6 & 0x3F), 0x80 | (cp & 0x3F));
				return b(0xF0 | cp >> 18, 0x80 | (cp >> 12 & 0x3F), 0x80 | (cp >> 6 & 0x3F), 0x80 | (cp & 0x3F));
			}
			if (Table t = single_byte(m_e); t.p)
			{
				for (std::size_t i = 0; i < t.n; ++i) if (t.p[i] == static_cast<std::int32_t>(cp)) return b(0x80 + i);
				return {};
			}
			if (m_e == E::x_user_defined) { if (0xF780 <= cp && cp <= 0xF7FF) return b(cp - 0xF700); return {}; }
			auto find = [&](int w) -> std::int64_t { auto& m = index_of(w).m; auto i = m.find(cp); return i == m.end() ? std::int64_t(-1) : std::int64_t(i->second); };
			if (m_e == E::GBK || m_e == E::gb18030)
			{
				if (cp == 0xE5E5) return {};
				if (m_e == E::GBK && cp == 0x20AC) return b(0x80);
				auto p = find(2);
				if (0 <= p) return b(p / 190 + 0x81, p % 190 + (p % 190 < 0x3F ? 0x40 : 0x41));
				if (m_e == E::GBK) return {};
				std::uint32_t q = 0;
				if (cp == 0xE7C7) q = 7457;
				else
				{
					std::uint32_t off = 0, base = 0;
					for (std::size_t i = 0; i + 1 < n_gb18030_ranges; i += 2)
						if (static_cast<std::uint32_t>(t_gb18030_ranges[i + 1]) <= cp) { base = t_gb18030_ranges[i]; off = t_gb18030_ranges[i + 1]; }
					q = base + (cp - off);
				}
				return b(q / 12600 + 0x81, q % 12600 / 1260 + 0x30, q % 1260 / 10 + 0x81, q % 10 + 0x30);
			}
			if (m_e == E::Big5)
			{
				auto p = find(0);
				if (p < 0) return {};
				return b(p / 157 + 0x81, p % 157 + (p % 157 < 0x3F ? 0x40 : 0x62));
			}
			if (m_e == E::EUC_KR)
			{
				auto p = find(1);
				if (p < 0) return {};
				return b(p / 190 + 0x81, p % 190 + 0x41);
			}
			// Japanese
			if (m_e == E::Shift_JIS && cp == 0x80) return b(0x80);
			if (cp == 0xA5) return b(0x5C);
			if (cp == 0x203E) return b(0x7E);
			if (0xFF61 <= cp && cp <= 0xFF9F) { if (m_e == E::EUC_JP) return b(0x8E, cp - 0xFF61 + 0xA1); return b(cp - 0xFF61 + 0xA1); }
			if (cp == 0x2212) { cp = 0xFF0D; m_error = cp; }
			auto p = find(m_e == E::EUC_JP ? 3 : 4);
			if (p < 0) return {};
			if (m_e == E::EUC_JP) return b(p / 94 + 0xA1, p % 94 + 0xA1);
			return b(p / 188 + (p / 188 < 0x1F ? 0x81 : 0xC1), p % 188 + (p % 188 < 0x3F ? 0x40 : 0x41));
		}

		Bytes finish() { if (m_e == encoding_name::ISO_2022_JP && m_set != 0) { m_set = 0; return "\x1B(B"; } return {}; }

		char32_t m_error = 0;
		Bytes m_before; // bytes that a failed put() produced all the same (a return to ASCII)

	private:
		std::optional<Bytes> iso2022jp(char32_t cp)
		{
			m_before.clear();
			Bytes out;
			auto select = [&](int set) { static char const* const esc[] = { "\x1B(B", "\x1B(J", "\x1B$B" }; if (m_set != set) { out += esc[set]; m_set = set; } };
			if (m_set != 2 && (cp == 0x0E || cp == 0x0F || cp == 0x1B)) { m_error = 0xFFFD; return {}; }
			if (m_set == 1 && cp < 0x80 && cp != 0x5C && cp != 0x7E) { out += static_cast<char>(cp); return out; }
			if (cp < 0x80)
			{
				select(0);
				if (cp == 0x0E || cp == 0x0F || cp == 0x1B) { m_before = out; m_error = 0xFFFD; return {}; }
				out += static_cast<char>(cp);
				return out;
			}
			if (cp == 0xA5 || cp == 0x203E) { select(1); out += cp == 0xA5 ? '\x5C' : '\x7E'; return out; }
			if (cp == 0x2212) cp = 0xFF0D;
			if (0xFF61 <= cp && cp <= 0xFF9F) cp = t_iso_2022_jp_katakana[cp - 0xFF61];
			auto& m = index_of(3).m;
			auto i = m.find(cp);
			if (i == m.end())
			{
				m_error = cp;
				if (m_set == 2) { select(0); m_before = out; }
				return {};
			}
			select(2);
			out += static_cast<char>(i->second / 94 + 0x21);
			out += static_cast<char>(i->second % 94 + 0x21);
			return out;
		}

		encoding_name m_e;
		int m_set = 0; // ISO-2022-JP: 0 ASCII, 1 Roman, 2 jis0208
	};
}
