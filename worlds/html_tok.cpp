// P11: HTML tokenizer sessions fed code point by code point.  Oracle: ref/html_tok.hpp over the whole text.
// P22: the parse errors the tokenizer reports while it does so.
#include "../sim/sim.hpp"
#include "../ref/html_tok.hpp"
#include "../ref/html_errors.hpp"

#include <wordring/whatwg/html/parsing/token.hpp>
#include <wordring/whatwg/html/parsing/tokenization.hpp>

#include <memory>
#include <new>

namespace
{
	using namespace sim;
	using namespace wordring::whatwg::html::parsing;
	using Text = std::u32string;

	std::string show_token(ref::Token const& t)
	{
		static char const* const kind[] = { "doctype", "start", "end", "comment", "char", "eof" };
		std::string s = kind[t.kind];
		if (t.kind == ref::Token::Char) { s += " "; s += show(Text(1, t.c)); return s; }
		s += " " + show(t.name);
		if (t.kind == ref::Token::Doctype) s += " " + show(t.pub) + " " + show(t.sys);
		if (t.flag) s += t.kind == ref::Token::Doctype ? " quirks" : " selfclosing";
		for (auto const& a : t.attrs) s += " " + show(a.name) + "=" + show(a.value);
		return s;
	}

	// stands for tree construction: what it tells the tokenizer
	struct Policy
	{
		std::vector<bool> open; // true: foreign element
		bool acknowledge = false; // the self-closing flag of the last start tag
		bool cdata() const { return !open.empty() && !open.back(); }
		ref::Mode tag(bool start, Text const& n)
		{
			using M = ref::Mode;
			if (!start) { if (!open.empty()) open.pop_back(); return M::Keep; }
			acknowledge = n == U"br" || n == U"b" || (n == U"svg" && open.empty());
			if (n == U"title" || n == U"textarea") return M::Rcdata;
			if (n == U"style" || n == U"xmp") return M::Rawtext;
			if (n == U"script") return M::Script;
			if (n == U"plaintext") return M::Plaintext;
			if (n == U"svg" || n == U"math") open.push_back(true);
			else if (n == U"p" || n == U"div") open.push_back(false);
			return M::Keep;
		}
	};

	struct Traits { static ns_name get_namespace_name(bool foreign) { return foreign ? ns_name::SVG : ns_name::HTML; } };

	struct Stop {}; // thrown by a consumer that gives up

	struct Real : tokenizer<Real, Traits>
	{
		using base_type = tokenizer<Real, Traits>;
		struct entry { bool m_it; };
		std::vector<entry> m_stack;
		entry m_none{ false };
		entry const& adjusted_current_node() const { return m_stack.empty() ? m_none : m_stack.back(); }

		Policy policy;
		std::vector<ref::Token> out;
		std::int64_t stop_after = -1; // emissions until the consumer gives up

		void reset() { clear(); m_stack.clear(); policy = Policy(); out.clear(); errors.clear(); stream_errors.clear(); stop_after = -1; }
		void add(ref::Token t)
		{
			if (stop_after == 0) throw Stop();
			if (stop_after > 0) --stop_after;
			out.push_back(std::move(t));
		}
		std::vector<char const*> errors, stream_errors;
		bool listen = false;
		void on_report_error(error_name e)
		{
			if (!listen) return;
			char const* s = ref::spelled(e);
			(ref::of_input_stream(s) ? stream_errors : errors).push_back(s);
		}
		void on_emit_token(DOCTYPE_token const& t) { ref::Token k; k.kind = ref::Token::Doctype; k.name = t.m_name; k.pub = t.m_public_identifier; k.sys = t.m_system_identifier; k.flag = t.m_force_quirks_flag; add(k); }
		void on_emit_token(comment_token const& t) { ref::Token k; k.kind = ref::Token::Comment; k.name = t.m_data; add(k); }
		void on_emit_token(character_token const& t) { ref::Token k; k.c = t.m_data; add(k); }
		void on_emit_token(end_of_file_token const&) { ref::Token k; k.kind = ref::Token::Eof; add(k); }
		void on_emit_token(start_tag_token& t) { tag(t, true); if (policy.acknowledge) t.m_acknowledged_self_closing_flag = true; }
		void on_emit_token(end_tag_token const& t) { tag(t, false); }
		void tag(tag_token const& t, bool start)
		{
			ref::Token k;
			k.kind = start ? ref::Token::Start : ref::Token::End;
			k.name = t.m_tag_name;
			k.flag = t.m_self_closing_flag;
			for (auto const& a : t) if (!a.m_omitted) k.attrs.push_back({ a.m_name, a.m_value });
			add(k);
			switch (policy.tag(start, k.name))
			{
			case ref::Mode::Rcdata: change_state(RCDATA_state); break;
			case ref::Mode::Rawtext: change_state(RAWTEXT_state); break;
			case ref::Mode::Script: change_state(script_data_state); break;
			case ref::Mode::Plaintext: change_state(PLAINTEXT_state); break;
			default: break;
			}
			m_stack.clear();
			for (bool b : policy.open) m_stack.push_back({ b });
		}
	};

	// ---------------------------------------------------------------------------------- documents
	Text word(Rng& r)
	{
		static char32_t const c[] = U"abcdefghijklmnopqrstuvwxyzABCXYZ0123456789";
		Text s;
		for (std::uint32_t n = 1 + r.below(4); n--; ) s += c[r.below(42)];
		return s;
	}
	char32_t odd(Rng& r)
	{
		static char32_t const c[] = U"\0\t\n\r\f <>&/=!?-\"'`#;[]xX0a\u00e9\u3042\ufffd\U0001f600\ufdd0\u0080\u000b\u0001\u007f\uffff";
		if (r.chance(1, 60)) { static char32_t const far[] = { 0xD800, 0xDFFF, 0x1FFFE, 0x10FFFF, 0xFDEF, 0x9F }; return r.pick(far); }
		return c[r.below(sizeof(c) / sizeof(*c) - 1)];
	}
	Text reference(Rng& r)
	{
		static char const* const num[] = { "0", "1", "9", "13", "38", "60", "127", "128", "130", "150", "159", "160", "255", "256", "8364", "55295", "55296", "57343", "57344", "64976", "65533", "65535", "65536", "1114111", "1114112", "4294967296", "4294967361", "4294967297", "99999999999999999999", "18446744073709551681" };
		static char const* const hex[] = { "0", "1", "9", "D", "26", "3c", "7F", "80", "8e", "9F", "a0", "d7ff", "D800", "dfff", "E000", "FDD0", "fffe", "10FFFF", "110000", "100000041", "FFFFFFFFF", "10000000000000041", "abcdef" };
		Text s = U"&";
		auto put = [&](std::string_view v) { for (char c : v) s += static_cast<unsigned char>(c); };
		switch (r.below(9))
		{
		case 0: case 1: s += U'#'; put(r.pick(num)); break;
		case 2: case 3: s += U'#'; s += r.chance(1, 2) ? U'x' : U'X'; put(r.pick(hex)); break;
		case 4: s += U'#'; if (r.chance(1, 2)) s += U'x'; break;
		case 5: { static char const* const common[] = { "amp", "lt", "gt;", "AMP", "not", "notin;", "notit;", "noti", "copy", "ngE;", "nGt;", "nGtv;", "CounterClockwiseContourIntegral;", "CounterClockwiseContourIntegra", "NotEqualTilde;", "acE;", "quot", "para", "part;" }; put(r.pick(common)); return s; }
		case 6: case 7: { std::string_view n = ref::entities[r.below(static_cast<std::uint32_t>(sizeof(ref::entities) / sizeof(*ref::entities)))].name; if (r.chance(1, 4)) n = n.substr(0, 1 + r.below(static_cast<std::uint32_t>(n.size()))); put(n); return s; }
		default: s += word(r); break;
		}
		if (r.chance(2, 3)) s += U';';
		return s;
	}
	Text space(Rng& r)
	{
		static char32_t const* const c[] = { U" ", U" ", U"\n", U"\t", U"\r\n", U"\f", U"  ", U"\r", U"" };
		return r.pick(c);
	}
	Text attribute(Rng& r)
	{
		static char32_t const* const n[] = { U"a", U"b", U"A", U"href", U"class", U"ID", U"data-x", U"\u00e9", U"=", U"<", U"\"" };
		Text s = r.pick(n);
		if (r.chance(1, 6)) s += odd(r);
		if (r.chance(1, 4)) return s;
		if (r.chance(1, 6)) s += space(r);
		s += U'=';
		if (r.chance(1, 6)) s += space(r);
		Text v;
		for (std::uint32_t k = r.below(4); k--; ) switch (r.below(5))
		{
		case 0: v += reference(r); break;
		case 1: v += odd(r); break;
		case 2: v += U'='; break;
		default: v += word(r); break;
		}
		switch (r.below(4)) { case 0: return s + U'"' + v + U'"'; case 1: return s + U'\'' + v + U'\''; case 2: return s + v; default: return s + U'"' + v; }
	}
	Text tag(Rng& r, bool end)
	{
		static char32_t const* const n[] = { U"p", U"div", U"a", U"title", U"textarea", U"style", U"xmp", U"script", U"SCRIPT", U"svg", U"math", U"b", U"br", U"x-y", U"tItLe", U"plaintext" };
		Text s = end ? U"</" : U"<";
		std::uint32_t k = r.below(16);
		if (k == 15 && r.chance(3, 4)) k = 0;
		s += r.chance(1, 8) ? word(r) : Text(n[k]);
		if (r.chance(1, 12)) s += odd(r);
		for (std::uint32_t a = r.chance(1, 2) ? 0 : r.below(4); a--; ) { s += r.chance(9, 10) ? U" " : space(r); s += attribute(r); }
		if (r.chance(1, 8)) s += space(r);
		if (r.chance(1, 8)) s += U'/';
		if (r.chance(11, 12)) s += U'>';
		return s;
	}
	Text comment(Rng& r)
	{
		static char32_t const* const in[] = { U"-", U"--", U"!", U"<!--", U"<!-", U"<", U"--!", U"->", U">", U"<<!", U" x ", U"\r", U"--!-", U"<!--->" };
		Text s = U"<!--";
		for (std::uint32_t k = r.below(4); k--; ) { if (r.chance(1, 6)) s += odd(r); else s += r.pick(in); }
		if (r.chance(5, 6)) s += U"-->";
		return s;
	}
	Text quoted(Rng& r)
	{
		Text v = r.chance(1, 5) ? Text() : word(r);
		if (r.chance(1, 6)) v += odd(r);
		char32_t q = r.chance(1, 2) ? U'"' : U'\'';
		Text s = q + v;
		if (r.chance(6, 7)) s += q;
		return s;
	}
	Text doctype(Rng& r)
	{
		static char32_t const* const open[] = { U"<!DOCTYPE", U"<!doctype", U"<!DocType", U"<!DOCTYPE", U"<!DOCTYP", U"<!DOC" };
		static char32_t const* const pub[] = { U"PUBLIC", U"public", U"PubLic", U"PUBLI", U"PUBLICX" };
		static char32_t const* const sys[] = { U"SYSTEM", U"system", U"SysTem", U"SYSTE", U"SYSTEMX" };
		Text s = r.pick(open);
		s += space(r);
		if (r.chance(9, 10)) s += r.chance(1, 2) ? Text(U"html") : word(r);
		if (r.chance(1, 8)) s += odd(r);
		s += space(r);
		if (r.chance(1, 2)) { s += r.pick(pub); s += space(r); if (r.chance(7, 8)) s += quoted(r); s += space(r); if (r.chance(1, 2)) s += quoted(r); }
		else if (r.chance(1, 2)) { s += r.pick(sys); s += space(r); if (r.chance(7, 8)) s += quoted(r); }
		if (r.chance(1, 8)) s += word(r);
		if (r.chance(1, 12)) s += odd(r);
		if (r.chance(6, 7)) s += U'>';
		return s;
	}
	Text script(Rng& r)
	{
		static char32_t const* const in[] = { U"<!--", U"<!-", U"<script>", U"<script ", U"</script ", U"<scrip/", U"<SCRIPT/", U"</scripT>", U"-->", U"--", U"->", U"-", U"<", U"</", U"</s", U"x", U"<!", U"<s>", U"<script", U"</script", U"</title>", U"</style >", U"--!>" };
		Text s = r.chance(1, 2) ? U"<script>" : U"";
		for (std::uint32_t k = 1 + r.below(6); k--; ) { if (r.chance(1, 8)) s += odd(r); else s += r.pick(in); }
		if (r.chance(1, 2)) s += U"</script>";
		return s;
	}
	Text cdata(Rng& r)
	{
		static char32_t const* const in[] = { U"]", U"]]", U"]]]", U">", U"x", U"]>", U"<", U"&amp;" };
		Text s = r.chance(1, 2) ? U"<svg>" : U"";
		s += U"<![CDATA[";
		for (std::uint32_t k = r.below(4); k--; ) { if (r.chance(1, 6)) s += odd(r); else s += r.pick(in); }
		if (r.chance(4, 5)) s += U"]]>";
		if (r.chance(1, 2)) s += U"</svg>";
		return s;
	}
	Text piece(Rng& r)
	{
		switch (r.below(14))
		{
		case 0: case 1: return word(r) + (r.chance(1, 2) ? Text(U" ") : Text());
		case 2: return Text(1, odd(r));
		case 3: case 4: return reference(r);
		case 5: case 6: case 7: return tag(r, false);
		case 8: return tag(r, true);
		case 9: return comment(r);
		case 10: return doctype(r);
		case 11: return script(r);
		case 12: return cdata(r);
		default: { static char32_t const* const bad[] = { U"<", U"</", U"</>", U"<?x>", U"</ x>", U"<!x>", U"<!", U"<3", U"&", U"&#", U"&#x", U"<!>", U"<?", U"</3>" }; return r.pick(bad); }
		}
	}

	struct Session
	{
		Real t;
		Text doc;
		std::vector<ref::Token> want;
		std::vector<char const*> want_errors, want_stream_errors;
		std::size_t fed = 0, norm = 0; // code points fed; the same after newline normalisation
		bool cr = false;
		std::size_t seen = 0;          // tokens compared so far
		std::size_t due = 0;           // tokens that must have arrived
		bool open = false;

		void begin(Text d)
		{
			doc = std::move(d);
			Policy p;
			ref::Tokenizer k;
			k.on_tag = [&](ref::Token const& x) { return p.tag(x.kind == ref::Token::Start, x.name); };
			k.cdata = [&] { return p.cdata(); };
			k.acknowledged = [&] { return p.acknowledge; };
			want = k.run(doc);
			want_errors = k.errors;
			want_stream_errors = k.stream_errors;
			ref::settle(want_errors);
			fed = norm = seen = due = 0;
			cr = false;
			open = true;
		}
		void compare()
		{
			for (; seen < t.out.size(); ++seen)
			{
				SIM_REQUIRE(seen < want.size(), "extra", "token %zu (%s) follows the last expected token, after %zu of %zu code points", seen, show_token(t.out[seen]).c_str(), fed, doc.size());
				SIM_REQUIRE(t.out[seen] == want[seen], "token", "token %zu is %s, expected %s, after %zu of %zu code points of %s", seen, show_token(t.out[seen]).c_str(), show_token(want[seen]).c_str(), fed, doc.size(), show(doc).c_str());
			}
		}
		void account(char32_t c)
		{
			++fed;
			if (c == U'\n' && cr) cr = false;
			else { ++norm; cr = c == U'\r'; }
		}
		void check()
		{
			compare();
			static std::size_t const lookahead = 40; // the longest character reference name and a little
			while (due < want.size() && want[due].kind != ref::Token::Eof && want[due].at + lookahead <= norm) ++due;
			SIM_REQUIRE(due <= seen, "late", "%zu tokens delivered after %zu of %zu code points of %s, %zu were complete %zu code points earlier", seen, fed, doc.size(), show(doc).c_str(), due, lookahead);
		}
		void same_errors(std::vector<char const*> const& got, std::vector<char const*> const& expect)
		{
			for (std::size_t i = 0; i < std::max(got.size(), expect.size()); ++i)
			{
				std::string_view g = i < got.size() ? got[i] : "none", w = i < expect.size() ? expect[i] : "none";
				SIM_REQUIRE(g == w, "error", "error %zu of %s is %s, expected %s", i, show(doc).c_str(), std::string(g).c_str(), std::string(w).c_str());
				if (i < expect.size()) count(expect[i]);
			}
		}
		void feed() { t.push_code_point(doc[fed]); account(doc[fed]); check(); }
		void end()
		{
			t.push_eof();
			compare();
			SIM_REQUIRE(seen == want.size(), "missing", "%zu tokens at the end of %s, expected %zu; next %s", seen, show(doc).c_str(), want.size(), show_token(want[seen]).c_str());
			if (t.listen)
			{
				ref::settle(t.errors);
				same_errors(t.errors, want_errors);
				same_errors(t.stream_errors, want_stream_errors);
			}
			open = false;
			t.reset();
		}
	};

	template <bool Errors> struct TokenizerWorld : World
	{
		std::vector<std::unique_ptr<Session>> s;
		std::uint32_t size = 1;

		int length(Rng& r) override { static int const n[] = { 4, 12, 40 }; return n[r.below(3)] + r.below(6); }
		int fault_percent(Rng& r) override { static int const p[] = { 0, 30, 70 }; return p[r.below(3)]; }
		void start(Rng& cfg) override
		{
			s.resize(1 + cfg.below(3));
			static std::uint32_t const n[] = { 2, 6, 20 };
			size = cfg.pick(n);
			for (auto& x : s) { x = std::make_unique<Session>(); x->t.listen = Errors; }
		}
		void step(Rng& r, bool faults) override
		{
			std::size_t i = r.below(static_cast<std::uint32_t>(s.size()));
			auto& x = *s[i];
			if (!x.open)
			{
				Text d;
				for (std::uint32_t k = 1 + r.below(size); k--; ) d += piece(r);
				if (faults && r.chance(1, 2)) { count("fault:cut"); d.resize(r.below(static_cast<std::uint32_t>(d.size() + 1))); }
				if (faults) for (std::uint32_t k = r.below(3); k--; )
				{
					count("fault:damage");
					std::size_t p = r.below(static_cast<std::uint32_t>(d.size() + 1));
					switch (r.below(3)) { case 0: d.insert(p, 1, odd(r)); break; case 1: if (p < d.size()) d[p] = odd(r); break; default: if (p < d.size()) d.erase(p, 1 + r.below(4)); break; }
				}
				log("session %zu: %s", i, show(d).c_str());
				history(hash_str(d));
				x.begin(d);
			}
			if (faults && r.chance(1, 8)) { abandon(r, x); return; }
			std::size_t n = r.chance(1, 4) ? x.doc.size() - x.fed : std::min<std::size_t>(x.doc.size() - x.fed, r.below(12));
			if (!n && x.fed < x.doc.size()) n = 1;
			log("session %zu: %zu code points from %zu", i, n, x.fed);
			while (n--) { x.feed(); tick(1); }
			cover(mix(x.fed, mix(x.seen, hash_str(x.doc))));
			if (x.fed == x.doc.size()) { log("session %zu: end of input", i); x.end(); }
		}
		void abandon(Rng& r, Session& x)
		{
			int how = r.below(3);
			bool threw = false;
			if (how == 0) count("fault:abandon");
			else
			{
				std::unique_ptr<AllocFault> af;
				if (how == 1) x.t.stop_after = r.below(6);
				else af = std::make_unique<AllocFault>(static_cast<std::int64_t>(r.below(12)));
				try { while (x.fed < x.doc.size()) { x.t.push_code_point(x.doc[x.fed]); x.account(x.doc[x.fed]); tick(1); } }
				catch (Stop const&) { threw = true; }
				catch (std::bad_alloc const&) { threw = true; }
				if (af) af->disarm();
				if (threw) count(how == 1 ? "fault:consumer_throws" : "fault:alloc");
			}
			log("session abandoned after %zu of %zu code points (%s)", x.fed, x.doc.size(), how == 0 ? "no more input" : how == 1 ? "the consumer throws" : "allocation failure");
			x.t.reset();
			x.open = false;
		}
		void finish() override { for (auto& x : s) if (x->open) { while (x->fed < x->doc.size()) x->feed(); x->end(); } }
	};
	using Tokens = TokenizerWorld<false>;
	using Errors = TokenizerWorld<true>;
	SIM_WORLD("P11", Tokens);
	SIM_WORLD("P22", Errors);
}
