// P08: decoders fed in pieces.  P09: encoders fed in pieces.  P10: text_decoder stream sessions.
// Oracle: ref/enc_ref.hpp.
#include "../sim/sim.hpp"
#include "../ref/enc_labels.hpp"
#include "../ref/enc_ref.hpp"

#include <wordring/whatwg/encoding/api.hpp>
#include <wordring/whatwg/encoding/encoding.hpp>

#include <new>
#include <stdexcept>

namespace
{
	using namespace sim;
	using namespace wordring::whatwg::encoding;
	using ref::Bytes;
	using ref::Text;
	using E = encoding_name;

	bool multi_byte(E e) { return e == E::GBK || e == E::gb18030 || e == E::Big5 || e == E::EUC_JP || e == E::ISO_2022_JP || e == E::Shift_JIS || e == E::EUC_KR; }
	bool utf16(E e) { return e == E::UTF_16BE || e == E::UTF_16LE; }
	bool has_encoder(E e) { return e != E::replacement && !utf16(e); }

	E pick_encoding(Rng& r)
	{
		static E const hard[] = { E::UTF_8, E::GBK, E::gb18030, E::Big5, E::EUC_JP, E::ISO_2022_JP, E::Shift_JIS, E::EUC_KR, E::UTF_16BE, E::UTF_16LE };
		if (r.chance(2, 3)) return r.pick(hard);
		return r.pick(ref::all_encodings());
	}

	char32_t any_scalar(Rng& r)
	{
		static char32_t const edge[] = { 0, 9, 0x0A, 0x0E, 0x0F, 0x1B, 0x20, 0x26, 0x5C, 0x7E, 0x7F, 0x80, 0xA0, 0xA5, 0xFF, 0x7FF, 0x800, 0x203E, 0x20AC, 0x2212, 0x3000, 0xD7FF, 0xE000,
			0xE5E5, 0xE7C7, 0xF780, 0xF7FF, 0xFEFF, 0xFF0D, 0xFF61, 0xFF9F, 0xFFFD, 0xFFFE, 0xFFFF, 0x10000, 0x1F600, 0x2550, 0x255E, 0x2561, 0x256A, 0x5341, 0x5345, 0x10FFFF };
		for (;;)
		{
			char32_t c = 0;
			switch (r.below(6))
			{
			case 0: c = r.pick(edge); break;
			case 1: c = 0x20 + r.below(0x5F); break;
			case 2: c = 0x80 + r.below(0x800); break;
			case 3: c = 0x4E00 + r.below(0x5200); break;
			case 4: c = r.below(0x10000); break;
			default: c = r.below(0x110000); break;
			}
			if (c < 0xD800 || 0xDFFF < c) return c;
		}
	}

	// a code point the encoding can express
	char32_t repertoire(Rng& r, E e)
	{
		auto entry = [&](std::int32_t const* p, std::size_t n) -> char32_t { for (int i = 0; i < 30; ++i) { auto c = p[r.below(static_cast<std::uint32_t>(n))]; if (0 <= c) return c; } return U'x'; };
		if (auto t = ref::single_byte(e); t.p) return r.chance(1, 4) ? 0x20 + r.below(0x5F) : entry(t.p, t.n);
		if (r.chance(1, 5)) return 0x20 + r.below(0x5F);
		switch (e)
		{
		case E::Big5: return entry(ref::t_big5, ref::n_big5);
		case E::EUC_KR: return entry(ref::t_euc_kr, ref::n_euc_kr);
		case E::GBK: return entry(ref::t_gb18030, ref::n_gb18030);
		case E::gb18030: return r.chance(1, 2) ? entry(ref::t_gb18030, ref::n_gb18030) : any_scalar(r);
		case E::EUC_JP: case E::ISO_2022_JP: case E::Shift_JIS:
			if (r.chance(1, 8)) return 0xFF61 + r.below(63);
			if (r.chance(1, 12)) return r.chance(1, 2) ? 0xA5 : 0x203E;
			return entry(ref::t_jis0208, ref::n_jis0208);
		case E::x_user_defined: return 0xF780 + r.below(128);
		default: return any_scalar(r);
		}
	}

	Bytes encode_utf16(E e, char32_t c)
	{
		Bytes b;
		auto unit = [&](unsigned u) { if (e == E::UTF_16BE) { b += char(u >> 8); b += char(u & 255); } else { b += char(u & 255); b += char(u >> 8); } };
		if (c < 0x10000) unit(c); else { c -= 0x10000; unit(0xD800 + (c >> 10)); unit(0xDC00 + (c & 0x3FF)); }
		return b;
	}

	// consecutive double-byte sequences: walks through the tables
	Bytes block(Rng& r, E e)
	{
		Bytes b;
		static unsigned char const lo[] = { 0x81, 0xA1, 0x21, 0xE0, 0x8E };
		unsigned lead = r.chance(1, 2) ? 0x81 + r.below(0x7E) : r.pick(lo), trail = e == E::ISO_2022_JP ? 0x21 : 0x30 + r.below(0x90);
		if (e == E::ISO_2022_JP) { b += "\x1B$B"; lead = 0x21 + r.below(0x5E); }
		bool jis0212 = e == E::EUC_JP && r.chance(1, 3);
		bool four = e == E::gb18030 && r.chance(1, 3);
		for (int n = 40 + r.below(120); n; --n)
		{
			if (jis0212) b += '\x8F';
			b += char(lead);
			if (four) { b += char(0x30 + r.below(10)); b += char(0x81 + r.below(0x7E)); b += char(0x30 + r.below(10)); }
			else b += char(trail);
			if (++trail > (e == E::ISO_2022_JP ? 0x7Eu : 0xFEu)) { trail = e == E::ISO_2022_JP ? 0x21 : 0x40; if (++lead > (e == E::ISO_2022_JP ? 0x7Eu : 0xFEu)) lead = e == E::ISO_2022_JP ? 0x21 : 0x81; }
		}
		if (e == E::ISO_2022_JP) b += "\x1B(B";
		return b;
	}

	Bytes piece(Rng& r, E e, bool faults)
	{
		Bytes b;
		int kind = r.below(10);
		if (kind < 5 || (kind < 8 && !faults))
		{
			ref::Encoder enc(e);
			for (int n = r.below(12); n; --n)
			{
				char32_t c = repertoire(r, e);
				if (utf16(e)) b += encode_utf16(e, c);
				else if (e == E::replacement) b += char(c);
				else if (auto x = enc.put(c)) b += *x;
			}
			if (r.chance(1, 2)) b += enc.finish();
		}
		else if (kind == 8 && (multi_byte(e))) b = block(r, e);
		else if (kind == 9 || !faults)
		{
			static Bytes const special[] = { "\xEF\xBB\xBF", "\xFE\xFF", "\xFF\xFE", "\x1B(B", "\x1B(J", "\x1B(I", "\x1B$@", "\x1B$B", "\x1B", "\x1B$", "\x1B(", "\x0E", "\x0F", "\r\n", "<a>", Bytes(1, '\0'), "\x80", "\x88\x62", "\x88\xA5",
				"\x84\x31\xA4\x37", "\x90\x30\x81\x30", "\xE3\x32\x9A\x35", "\x81\x30\x81\x30", "\x81\x35\xF4\x37", "\xFE\x39\xFE\x39", "\x8F\xA2\xB7", "\x8E\xDF", "\xF4\x8F\xBF\xBF", "\xED\x9F\xBF", "\xED\xA0\x80", "\xE0\xA0\x80", "\xF0\x90\x80\x80" };
			for (int n = 1 + r.below(3); n; --n) b += r.pick(special);
		}
		else
		{
			static unsigned char const edge[] = { 0x00, 0x0E, 0x0F, 0x1B, 0x20, 0x21, 0x24, 0x28, 0x2F, 0x30, 0x39, 0x3A, 0x3F, 0x40, 0x41, 0x42, 0x49, 0x4A, 0x5C, 0x5F, 0x60, 0x7E, 0x7F, 0x80, 0x81, 0x84, 0x88, 0x8E, 0x8F, 0x90,
				0x9F, 0xA0, 0xA1, 0xBF, 0xC0, 0xC1, 0xC2, 0xD8, 0xDB, 0xDC, 0xDF, 0xE0, 0xED, 0xEE, 0xEF, 0xF0, 0xF4, 0xF5, 0xFC, 0xFD, 0xFE, 0xFF };
			for (int n = 1 + r.below(8); n; --n) b += r.chance(2, 3) ? char(r.pick(edge)) : char(r.below(256));
		}
		if (faults && !b.empty() && r.chance(1, 2)) // damage on the way
		{
			std::size_t at = r.below(static_cast<std::uint32_t>(b.size()));
			switch (r.below(4))
			{
			case 0: b[at] = char(b[at] ^ (1 << r.below(8))); count("fault:bit_flip"); break;
			case 1: b.erase(at, 1); count("fault:lost_byte"); break;
			case 2: b.insert(at, 1, b[at]); count("fault:duplicated_byte"); break;
			default: b.resize(at); count("fault:truncated_piece"); break;
			}
		}
		return b;
	}

	// cuts [0, n) at random places
	std::vector<std::size_t> cuts(Rng& r, std::size_t n)
	{
		std::vector<std::size_t> v;
		std::size_t i = 0;
		int style = r.below(3);
		while (i < n)
		{
			std::size_t k = style == 0 ? n : style == 1 ? 1 : 1 + r.below(5);
			i = std::min(n, i + k);
			v.push_back(i);
		}
		if (r.chance(1, 6)) v.push_back(n); // an empty delivery
		return v;
	}

	template <typename Q> Text drain32(Q& q, bool& eoq) { Text t; eoq = false; for (;;) { auto i = q.read(); if (i.m_wait) return t; if (i->m_eoq) { eoq = true; return t; } t += static_cast<char32_t>(i->m_value); } }
	template <typename Q> Bytes drain8(Q& q, bool& eoq) { Bytes t; eoq = false; for (;;) { auto i = q.read(); if (i.m_wait) return t; if (i->m_eoq) { eoq = true; return t; } t += static_cast<char>(i->m_value); } }

	int kind_of(result_value const& v) { if (std::holds_alternative<result_finished>(v)) return 0; if (std::holds_alternative<result_error>(v)) return 2; return 1; }
	char const* const kind_name[] = { "finished", "continue", "error" };

	// ------------------------------------------------------------------------------------- P08
	template <typename Unit>
	struct DecodeSession
	{
		E e;
		error_mode_name mode;
		coder c;
		io_queue<Unit> in;
		io_queue<char32_t> out;
		ref::Decoder d;
		Text got, want;
		bool dead = false; // fatal error met or finished
		std::size_t fed = 0;

		DecodeSession(E e_, error_mode_name m) : e(e_), mode(m), c(get_encoding_decoder(e_)), d(e_) {}

		void deliver(std::string_view b, bool eof)
		{
			for (char ch : b) in.push(static_cast<Unit>(ch));
			if (eof) { io_item<Unit> q{}; q.m_eoq = true; in.push(q); }
			fed += b.size();
			d.feed(b);
			int expect = 1;
			for (;;)
			{
				auto i = d.next(eof);
				if (i.kind == ref::Decoder::more) break;
				if (i.kind == ref::Decoder::finished) { expect = 0; break; }
				if (i.kind == ref::Decoder::error)
				{
					if (mode == error_mode_name::Fatal) { expect = 2; break; }
					want += U'\xFFFD';
				}
				want += i.cp;
			}
			result_value rv = process_queue(c, in, out, mode);
			bool eoq;
			got += drain32(out, eoq);
			log("%s %s -> %s, %zu code points", ref::name(e), show(b).c_str(), kind_name[kind_of(rv)], got.size());
			SIM_REQUIRE(kind_of(rv) == expect, "result", "%s decoder, after %zu bytes: result is %s, expected %s", ref::name(e), fed, kind_name[kind_of(rv)], kind_name[expect]);
			SIM_REQUIRE(got == want, "text", "%s decoder, after %zu bytes%s: got %s, expected %s", ref::name(e), fed, eof ? " and the end" : "", show(tail(got, want)).c_str(), show(tail(want, got)).c_str());
			SIM_REQUIRE(eoq == (expect == 0), "end", "%s decoder: end of queue %s", ref::name(e), eoq ? "came too early" : "is missing");
			if (expect != 1) dead = true;
		}

		// the part from shortly before the first difference
		static Text tail(Text const& a, Text const& b) { std::size_t i = 0; while (i < a.size() && i < b.size() && a[i] == b[i]) ++i; i = i < 3 ? 0 : i - 3; return a.substr(i, 24); }
	};

	template <typename Unit>
	struct DecodeWorld : World
	{
		std::vector<std::unique_ptr<DecodeSession<Unit>>> s;
		E favourite{};

		int length(Rng& r) override { static int const n[] = { 4, 12, 30 }; return n[r.below(3)] + r.below(6); }
		int fault_percent(Rng& r) override { static int const p[] = { 0, 30, 70 }; return p[r.below(3)]; }
		void start(Rng& cfg) override { s.resize(1 + cfg.below(3)); favourite = pick_encoding(cfg); }

		void open(Rng& r, std::size_t i)
		{
			E e = r.chance(1, 3) ? pick_encoding(r) : favourite;
			s[i] = std::make_unique<DecodeSession<Unit>>(e, r.chance(1, 4) ? error_mode_name::Fatal : error_mode_name::Replacement);
			log("session %zu: %s%s", i, ref::name(e), s[i]->mode == error_mode_name::Fatal ? ", fatal" : "");
		}

		void step(Rng& r, bool faults) override
		{
			std::size_t i = r.below(static_cast<std::uint32_t>(s.size()));
			if (r.chance(1, 12)) { whole(r, faults); return; }
			if (!s[i] || s[i]->dead) open(r, i);
			auto& x = *s[i];
			Bytes b = piece(r, x.e, faults);
			bool last = r.chance(1, 6);
			bool cut = faults && last && r.chance(1, 2);
			auto v = cuts(r, b.size());
			std::size_t p = 0;
			if (v.empty() && last) x.deliver({}, true);
			for (std::size_t k = 0; k < v.size() && !x.dead; ++k)
			{
				bool end = last && k + 1 == v.size();
				if (cut && r.chance(1, 3)) { end = true; count("fault:input_cut"); }
				x.deliver(std::string_view(b).substr(p, v[k] - p), end);
				p = v[k];
				tick(1);
			}
			history(hash_str(x.got));
			cover(mix(static_cast<std::uint64_t>(x.e), hash_str(x.got)));
			if (faults && !x.dead && r.chance(1, 10)) { log("session %zu abandoned", i); count("fault:session_abandoned"); s[i].reset(); }
		}

		// the hooks that take a complete input
		void whole(Rng& r, bool faults)
		{
			E e = r.chance(1, 2) ? favourite : pick_encoding(r);
			Bytes b = piece(r, e, faults) + piece(r, e, faults);
			static Bytes const bom[] = { "\xEF\xBB\xBF", "\xFE\xFF", "\xFF\xFE", "\xEF\xBB", "\xFE", "\xEF\xBB\xBF\xEF\xBB\xBF", "" };
			if (r.chance(1, 2)) b = r.pick(bom) + b;
			int which = r.below(4);
			io_queue<Unit> in;
			io_queue<char32_t> out;
			Bytes rest = b;
			bool strip8 = b.compare(0, 3, "\xEF\xBB\xBF") == 0;
			if (which == 0)
			{
				if (strip8) { e = E::UTF_8; rest = b.substr(3); }
				else if (b.compare(0, 2, "\xFE\xFF") == 0) { e = E::UTF_16BE; rest = b.substr(2); }
				else if (b.compare(0, 2, "\xFF\xFE") == 0) { e = E::UTF_16LE; rest = b.substr(2); }
			}
			else if (which == 1 && strip8) rest = b.substr(3);
			E asked = e;
			if (which == 0) asked = r.chance(1, 2) ? favourite : e;
			if (which == 0 && rest.size() == b.size()) asked = e;
			if (which != 0) e = E::UTF_8;
			auto run = [&]() -> result_value {
				switch (which)
				{
				case 0: return decode(in, asked, out);
				case 1: return utf8_decode(in, out);
				case 2: return utf8_decode_without_bom(in, out);
				default: return utf8_decode_without_bom_or_fail(in, out);
				} };
			std::size_t p = 0;
			log("whole input %s, hook %d, %s", show(b).c_str(), which, ref::name(asked));
			if (which < 2) // fewer than three bytes: it has to wait and must not consume anything
				while (p < 2 && p < b.size())
				{
					in.push(static_cast<Unit>(b[p++]));
					auto rv = run();
					bool eoq;
					SIM_REQUIRE(kind_of(rv) == 1 && drain32(out, eoq).empty() && !eoq, "early", "decode does not wait for the third byte");
				}
			for (; p < b.size(); ++p) in.push(static_cast<Unit>(b[p]));
			io_item<Unit> q{}; q.m_eoq = true; in.push(q);
			auto rv = run();
			bool eoq;
			Text got = drain32(out, eoq);
			if (which == 3)
			{
				ref::Decoder d(E::UTF_8); d.feed(rest);
				Text want; int expect = 0;
				for (;;) { auto i = d.next(true); if (i.kind == ref::Decoder::finished) break; if (i.kind == ref::Decoder::error) { expect = 2; break; } want += i.cp; }
				SIM_REQUIRE(kind_of(rv) == expect, "result", "decoding or failing gives %s, expected %s", kind_name[kind_of(rv)], kind_name[expect]);
				if (expect == 0) SIM_REQUIRE(got == want, "text", "decoding or failing gives %s, expected %s", show(got).c_str(), show(want).c_str());
				return;
			}
			Text want = ref::decode_all(e, rest);
			SIM_REQUIRE(kind_of(rv) == 0 && eoq, "result", "decoding a complete input ends with %s", kind_name[kind_of(rv)]);
			SIM_REQUIRE(got == want, "text", "decoding a complete input as %s gives %s, expected %s", ref::name(e), show(DecodeSession<Unit>::tail(got, want)).c_str(), show(DecodeSession<Unit>::tail(want, got)).c_str());
			history(hash_str(got));
		}

		void finish() override
		{
			// faults have stopped: each session ends within one more delivery
			for (auto& x : s) if (x && !x->dead) x->deliver({}, true);
		}
	};

	// ------------------------------------------------------------------------------------- P09
	template <typename Unit>
	struct EncodeWorld : World
	{
		struct Session
		{
			E e; bool fatal; coder c; io_queue<char32_t> in; io_queue<Unit> out; ref::Encoder d; Bytes got, want; bool dead = false; std::size_t fed = 0; Text all;
			Session(E e_, bool f) : e(e_), fatal(f), c(get_encoding_encoder(e_)), d(e_) {}

			static Bytes number(char32_t c) { return "&#" + std::to_string(static_cast<unsigned>(c)) + ";"; }

			void deliver(Text const& t, bool eof)
			{
				in.push(t.begin(), t.end());
				if (eof) { io_item<char32_t> q{}; q.m_eoq = true; in.push(q); }
				fed += t.size();
				all += t;
				std::vector<char32_t> errors;
				std::vector<Bytes> parts(1); // want, split at errors when fatal
				for (char32_t cp : t)
				{
					if (auto b = d.put(cp)) parts.back() += *b;
					else
					{
						if (e == E::ISO_2022_JP) parts.back() += d.m_before;
						if (fatal) { errors.push_back(d.m_error); parts.emplace_back(); }
						else parts.back() += number(d.m_error);
					}
				}
				if (eof) parts.back() += d.finish();
				std::size_t k = 0;
				for (;;)
				{
					result_value rv = process_queue(c, in, out, fatal ? error_mode_name::Fatal : error_mode_name::Html);
					bool eoq;
					got += drain8(out, eoq);
					want += parts[k];
					int expect = k < errors.size() ? 2 : eof ? 0 : 1;
					log("%s encoder +%zu -> %s, %zu bytes", ref::name(e), t.size(), kind_name[kind_of(rv)], got.size());
					SIM_REQUIRE(kind_of(rv) == expect, "result", "%s encoder after %s: result is %s, expected %s", ref::name(e), show(all.substr(all.size() < 20 ? 0 : all.size() - 20)).c_str(), kind_name[kind_of(rv)], kind_name[expect]);
					SIM_REQUIRE(got == want, "bytes", "%s encoder after %s: got %s, expected %s", ref::name(e), show(all.substr(all.size() < 20 ? 0 : all.size() - 20)).c_str(), show(tail(got, want)).c_str(), show(tail(want, got)).c_str());
					SIM_REQUIRE(eoq == (expect == 0), "end", "%s encoder: end of queue %s", ref::name(e), eoq ? "came too early" : "is missing");
					if (expect == 2)
					{
						char32_t bad = std::get_if<result_error>(&rv)->code_point;
						SIM_REQUIRE(bad == errors[k], "error-code-point", "%s encoder: error names %u, expected %u", ref::name(e), static_cast<unsigned>(bad), static_cast<unsigned>(errors[k]));
						count("probe:encoder_resumed_after_error");
					}
					if (expect != 2) break;
					++k;
				}
				if (eof) dead = true;
			}
			static Bytes tail(Bytes const& a, Bytes const& b) { std::size_t i = 0; while (i < a.size() && i < b.size() && a[i] == b[i]) ++i; i = i < 6 ? 0 : i - 6; return a.substr(i, 24); }
		};

		std::vector<std::unique_ptr<Session>> s;
		E favourite{};
		int strange = 4;

		int length(Rng& r) override { static int const n[] = { 4, 12, 30 }; return n[r.below(3)] + r.below(6); }
		int fault_percent(Rng& r) override { static int const p[] = { 0, 30, 70 }; return p[r.below(3)]; }
		E pick(Rng& r) { for (;;) { E e = pick_encoding(r); if (has_encoder(e)) return e; } }
		void start(Rng& cfg) override { s.resize(1 + cfg.below(3)); favourite = pick(cfg); strange = 2 + cfg.below(12); }

		Text text(Rng& r, E e)
		{
			Text t;
			if (r.chance(1, 8) && multi_byte(e)) // a stretch of the index
			{
				std::int32_t const* p = e == E::Big5 ? ref::t_big5 : e == E::EUC_KR ? ref::t_euc_kr : e == E::GBK || e == E::gb18030 ? ref::t_gb18030 : ref::t_jis0208;
				std::size_t n = e == E::Big5 ? ref::n_big5 : e == E::EUC_KR ? ref::n_euc_kr : e == E::GBK || e == E::gb18030 ? ref::n_gb18030 : ref::n_jis0208;
				std::size_t i = r.below(static_cast<std::uint32_t>(n));
				for (int k = 200; k; --k, ++i) if (i < n && 0 <= p[i]) t += static_cast<char32_t>(p[i]);
				return t;
			}
			for (int n = 1 + r.below(14); n; --n) t += r.below(strange) == 0 ? any_scalar(r) : repertoire(r, e);
			return t;
		}

		void step(Rng& r, bool faults) override
		{
			std::size_t i = r.below(static_cast<std::uint32_t>(s.size()));
			if (r.chance(1, 12)) { whole(r); return; }
			if (!s[i] || s[i]->dead)
			{
				s[i] = std::make_unique<Session>(r.chance(1, 3) ? pick(r) : favourite, r.chance(1, 3));
				log("session %zu: %s%s", i, ref::name(s[i]->e), s[i]->fatal ? ", fatal" : "");
			}
			auto& x = *s[i];
			Text t = text(r, x.e);
			if (faults && r.chance(1, 2)) { t.insert(r.below(static_cast<std::uint32_t>(t.size() + 1)), 1, any_scalar(r)); count("fault:inexpressible_character_inserted"); }
			bool last = r.chance(1, 6);
			auto v = cuts(r, t.size());
			std::size_t p = 0;
			for (std::size_t k = 0; k < v.size() && !x.dead; ++k)
			{
				bool end = last && k + 1 == v.size();
				if (faults && last && r.chance(1, 4)) { end = true; count("fault:input_cut"); }
				x.deliver(t.substr(p, v[k] - p), end);
				p = v[k];
				tick(1);
			}
			history(hash_str(x.got));
			cover(mix(static_cast<std::uint64_t>(x.e), hash_str(x.got)));
			if (faults && !x.dead && r.chance(1, 10)) { log("session %zu abandoned", i); count("fault:session_abandoned"); s[i].reset(); }
		}

		void whole(Rng& r)
		{
			E e = pick(r);
			Text t = text(r, e);
			io_queue<char32_t> in;
			io_queue<Unit> out;
			in.push(t.begin(), t.end());
			io_item<char32_t> q{}; q.m_eoq = true; in.push(q);
			ref::Encoder d(e);
			log("encode whole %s as %s", show(t).c_str(), ref::name(e));
			bool eoq;
			if (r.chance(1, 2))
			{
				Bytes want;
				for (char32_t cp : t) { if (auto b = d.put(cp)) want += *b; else { if (e == E::ISO_2022_JP) want += d.m_before; want += Session::number(d.m_error); } }
				want += d.finish();
				result_value rv = e == E::UTF_8 && r.chance(1, 2) ? utf8_encode(in, out) : encode(in, e, out);
				Bytes got = drain8(out, eoq);
				SIM_REQUIRE(kind_of(rv) == 0 && eoq && got == want, "bytes", "encode as %s gives %s, expected %s", ref::name(e), show(Session::tail(got, want)).c_str(), show(Session::tail(want, got)).c_str());
				return;
			}
			// encode or fail: one encoder, called again after each error, keeps its state
			coder c = get_encoding_encoder(e);
			Bytes want;
			std::size_t k = 0;
			for (;;)
			{
				int expect = 0;
				for (; k < t.size(); ++k)
				{
					if (auto b = d.put(t[k])) want += *b;
					else { if (e == E::ISO_2022_JP) want += d.m_before; expect = 2; ++k; break; }
				}
				if (expect == 0) want += d.finish();
				io_queue<Unit> part;
				result_value rv = encode_or_fail(in, c, part);
				Bytes got = drain8(part, eoq);
				SIM_REQUIRE(kind_of(rv) == expect && eoq && got == want, "or-fail", "encode-or-fail as %s gives %s with %s, expected %s with %s", ref::name(e), show(Session::tail(got, want)).c_str(), kind_name[kind_of(rv)], show(Session::tail(want, got)).c_str(), kind_name[expect]);
				want.clear();
				if (expect == 0) return;
				char32_t bad = std::get_if<result_error>(&rv)->code_point;
				SIM_REQUIRE(bad == d.m_error, "error-code-point", "encode-or-fail as %s: error names %u, expected %u", ref::name(e), static_cast<unsigned>(bad), static_cast<unsigned>(d.m_error));
			}
		}

		void finish() override { for (auto& x : s) if (x && !x->dead) x->deliver({}, true); }
	};

	// ------------------------------------------------------------------------------------- P10
	struct TextDecoderWorld : World
	{
		struct Session
		{
			E e; bool fatal, ignore_bom;
			text_decoder t;
			std::unique_ptr<ref::Decoder> d; // no value: the next call starts afresh
			bool bom_seen = false;
			bool unsure = false;             // an allocation failed inside a stream: only a flush brings it back
			Session(E e_, bool f, bool i, bool by_label) : e(e_), fatal(f), ignore_bom(i), t(by_label ? text_decoder(std::u32string_view(ref::label(e_)), f, i) : text_decoder(e_, f, i)) {}
		};
		std::vector<std::unique_ptr<Session>> s;
		E favourite{};

		int length(Rng& r) override { static int const n[] = { 4, 12, 40 }; return n[r.below(3)] + r.below(6); }
		int fault_percent(Rng& r) override { static int const p[] = { 0, 30, 70 }; return p[r.below(3)]; }
		E pick(Rng& r) { for (;;) { E e = pick_encoding(r); if (e != E::replacement) return e; } }
		void start(Rng& cfg) override { s.resize(1 + cfg.below(3)); favourite = cfg.chance(1, 3) ? E::UTF_8 : pick(cfg); }

		void step(Rng& r, bool faults) override
		{
			std::size_t i = r.below(static_cast<std::uint32_t>(s.size()));
			if (!s[i] || r.chance(1, 15))
			{
				E e = r.chance(1, 3) ? pick(r) : favourite;
				if (r.chance(1, 8)) // every label, in any spelling, or a wrong one
				{
					static std::vector<std::string> const all = [] { std::vector<std::string> v; for (auto& [n, x] : ref::labels()) v.push_back(n); return v; }();
					std::string n = r.pick(all);
					ref::Text l(n.begin(), n.end());
					if (r.chance(1, 3)) for (auto& c : l) if (c >= U'a' && c <= U'z' && r.chance(1, 2)) c -= 32;
					if (r.chance(1, 3)) { static char32_t const space[] = { U' ', U'\t', U'\n', U'\f', U'\r' }; for (int k = r.range(1, 3); k--; ) l.insert(r.chance(1, 2) ? 0 : l.size(), 1, r.pick(space)); }
					if (r.chance(1, 4)) { static char32_t const odd[] = { U'x', U'0', U'_', 0, 0xB, 0xA0, 0x3000, 0x212A }; l.insert(r.below(l.size() + 1), 1, r.pick(odd)); }
					if (r.chance(1, 30)) l.clear();
					E want = ref::encoding_of(l);
					bool refuse = want == E(0) || want == E::replacement, refused = false;
					Text name;
					try { text_decoder t{ std::u32string_view(l), r.chance(1, 2), false }; name = t.encoding(); } catch (std::range_error const&) { refused = true; }
					log("label %s", show(l).c_str());
					SIM_REQUIRE(refused == refuse, "label", "the label %s is %s", show(l).c_str(), refused ? "refused" : "accepted");
					SIM_REQUIRE(refused || name == ref::label(want), "label", "the label %s names %s, expected %s", show(l).c_str(), show(name).c_str(), ref::name(want));
					count(refused ? "label-refused" : "label");
				}
				s[i] = std::make_unique<Session>(e, r.chance(1, 3), r.chance(1, 4), r.chance(1, 2));
				auto& x = *s[i];
				log("decoder %zu: %s fatal %d ignore-bom %d", i, ref::name(e), x.fatal, x.ignore_bom);
				SIM_REQUIRE(x.t.fatal() == x.fatal && x.t.ignore_bom() == x.ignore_bom && x.t.encoding() == ref::label(e), "attributes", "decoder for %s reports other attributes (%s)", ref::name(e), show(x.t.encoding()).c_str());
			}
			auto& x = *s[i];
			Bytes b = piece(r, x.e, faults);
			static Bytes const bom8[] = { "\xEF\xBB\xBF", "\xEF\xBB", "\xEF", "\xEF\xBB\xBF\xEF\xBB\xBF" };
			if (!x.d && r.chance(1, 2))
			{
				if (x.e == E::UTF_8) b = r.pick(bom8) + b;
				else if (utf16(x.e)) b = encode_utf16(x.e, 0xFEFF).substr(0, 1 + r.below(2)) + b;
			}
			bool stream = r.chance(3, 4);
			auto v = cuts(r, b.size());
			if (v.empty()) v.push_back(0);
			std::size_t p = 0;
			for (std::size_t k = 0; k < v.size(); ++k)
			{
				call(r, x, std::string_view(b).substr(p, v[k] - p), k + 1 < v.size() || stream, faults);
				p = v[k];
				tick(1);
			}
			history(hash_str(b));
		}

		void call(Rng& r, Session& x, std::string_view b, bool stream, bool faults)
		{
			if (!x.d) { x.d = std::make_unique<ref::Decoder>(x.e); x.bom_seen = false; }
			bool oom = faults && r.chance(1, 12);
			Text got, want;
			bool threw = false, bad = false, failed = false;
			{
				AllocFault af(oom ? static_cast<std::int64_t>(r.below(8)) : -1);
				try
				{
					if (b.empty() && r.chance(1, 2)) got = x.t.decode(static_cast<char const*>(nullptr), static_cast<char const*>(nullptr), stream);
					else got = x.t.decode(b.begin(), b.end(), stream);
				}
				catch (std::range_error const&) { threw = true; }
				catch (std::bad_alloc const&) { failed = true; }
				af.disarm();
			}
			if (failed || x.unsure)
			{
				log("decode %s%s -> %s", show(b).c_str(), stream ? " (stream)" : "", failed ? "bad_alloc" : "after an allocation failure");
				// contents of a stream that met a failure are unspecified; a call that does not stream ends it
				x.unsure = stream;
				if (!stream) x.d.reset();
				return;
			}
			x.d->feed(b);
			bool done = false;
			while (!done && !bad)
			{
				auto i = x.d->next(!stream);
				switch (i.kind)
				{
				case ref::Decoder::more: done = true; break;
				case ref::Decoder::finished: done = true; break;
				case ref::Decoder::error: if (x.fatal) bad = true; else want += U'\xFFFD'; break;
				case ref::Decoder::text: want += i.cp; break;
				}
			}
			if (bad) want.clear();
			else if (!x.ignore_bom && !x.bom_seen && !want.empty() && (x.e == E::UTF_8 || utf16(x.e)))
			{
				x.bom_seen = true;
				if (want[0] == 0xFEFF) { want.erase(0, 1); count("probe:bom_removed"); }
			}
			log("decode %s%s -> %s", show(b).c_str(), stream ? " (stream)" : "", threw ? "range_error" : show(got).c_str());
			SIM_REQUIRE(threw == bad, "fatal", "%s text_decoder (fatal %d) %s on %s", ref::name(x.e), x.fatal, threw ? "throws" : "does not throw", show(b).c_str());
			SIM_REQUIRE(got == want, "text", "%s text_decoder gives %s, expected %s", ref::name(x.e), show(DecodeSession<char>::tail(got, want)).c_str(), show(DecodeSession<char>::tail(want, got)).c_str());
			if (bad) count("probe:fatal_error");
			if (!stream) x.d.reset();
			cover(mix(static_cast<std::uint64_t>(x.e), hash_str(got)));
		}

		void finish() override
		{
			// faults have stopped: a flush, then a fresh use of the same object
			Rng r(1);
			for (auto& x : s) if (x)
			{
				call(r, *x, {}, false, false);
				Bytes b;
				for (char c : { 'o', 'k' }) b += utf16(x->e) ? encode_utf16(x->e, c) : Bytes(1, c);
				call(r, *x, b, false, false);
			}
		}
	};

	using D1 = DecodeWorld<char>;
	using D2 = DecodeWorld<std::uint8_t>;
	SIM_WORLD("P08", D1);
	SIM_WORLD("P08", D2);
	using E1 = EncodeWorld<char>;
	using E2 = EncodeWorld<std::uint8_t>;
	SIM_WORLD("P09", E1);
	SIM_WORLD("P09", E2);
	SIM_WORLD("P10", TextDecoderWorld);
}
