// P12, P13, P14: documents built while the text arrives.  Oracle: ref/html_tree.hpp over the whole text.
#include "html_kinds.hpp"
#include "../ref/html_errors.hpp"
#include "../ref/enc_labels.hpp"

#include <new>

namespace hp
{
	std::unique_ptr<Any> make_parser(std::uint32_t k)
	{
		switch (k)
		{
		case 0: return parser_of_kind<0>();
		case 1: return parser_of_kind<1>();
		case 2: return parser_of_kind<2>();
		case 3: return parser_of_kind<3>();
		default: return parser_of_kind<4>();
		}
	}
	std::unique_ptr<Reader> make_reader(std::uint32_t k, Confidence c, Enc e)
	{
		switch (k)
		{
		case 0: return reader_of_kind<0>(c, e);
		case 1: return reader_of_kind<1>(c, e);
		case 2: return reader_of_kind<2>(c, e);
		default: return reader_of_kind<3>(c, e);
		}
	}
	std::string read_in_one_call(std::uint32_t k, Source const& x, Enc e, Confidence conf)
	{
		switch (k)
		{
		case 0: return call_of_kind<0>(x, e, conf);
		case 1: return call_of_kind<1>(x, e, conf);
		case 2: return call_of_kind<2>(x, e, conf);
		default: return call_of_kind<3>(x, e, conf);
		}
	}
}

namespace
{
	using namespace hp;

	// ------------------------------------------------------------------------------------- documents
	using Names = std::vector<char const*>;
	std::vector<Names> const& groups()
	{
		static std::vector<Names> const g = {
			{ "a", "b", "i", "nobr", "font", "em", "strong", "big", "code", "s", "small", "strike", "tt", "u" },
			{ "p", "div", "section", "address", "article", "aside", "blockquote", "center", "details", "dialog", "dir", "dl", "fieldset", "figcaption", "figure", "footer", "header", "hgroup", "main", "menu", "nav", "ol", "summary", "ul", "pre", "listing" },
			{ "table", "caption", "colgroup", "col", "tbody", "thead", "tfoot", "tr", "td", "th" },
			{ "table", "tr", "td" },
			{ "select", "option", "optgroup", "input", "keygen", "textarea" },
			{ "template", "template", "script", "style" },
			{ "svg", "math", "foreignobject", "desc", "title", "mi", "mo", "mn", "ms", "mtext", "annotation-xml", "mglyph", "malignmark", "script", "lineargradient", "g", "x-y", "z\xe9" },
			{ "html", "head", "body", "base", "basefont", "bgsound", "link", "meta", "title", "noframes", "style", "noscript", "script", "template" },
			{ "frameset", "frame", "noframes", "body", "html" },
			{ "li", "ul", "ol", "dd", "dt", "dl", "p", "div", "address" },
			{ "h1", "h2", "h3", "h4", "h5", "h6", "p" },
			{ "applet", "marquee", "object", "button", "form", "form" },
			{ "area", "br", "embed", "img", "image", "keygen", "wbr", "input", "param", "source", "track", "hr" },
			{ "ruby", "rb", "rtc", "rp", "rt" },
			{ "xmp", "iframe", "noembed", "noscript", "textarea" },
			{ "span", "sub", "sup", "var", "x-y", "abc", "unknown", "menuitem", "label", "z\xe9" },
		};
		return g;
	}
	void put(Text& s, std::string_view v) { for (char c : v) s += static_cast<unsigned char>(c); }
	Text lowered(std::u32string_view v) { Text t(v); for (auto& c : t) if (c >= U'A' && c <= U'Z') c += 32; return t; }
	struct Maker
	{
		Names names; // the vocabulary of this document
		std::uint32_t attrs = 33, stray = 8, any = 60;
		void focus(Rng& r)
		{
			names.clear();
			for (std::uint32_t k = 1 + r.below(4); k--; )
			{
				auto const& g = r.pick(groups());
				std::uint32_t n = 1 + r.below(5);
				if (r.chance(1, 4)) n = static_cast<std::uint32_t>(g.size());
				while (n--) names.push_back(r.pick(g));
			}
			if (r.chance(1, 4)) { names.clear(); for (std::uint32_t k = 1 + r.below(3); k--; ) names.push_back(r.pick(r.pick(groups()))); } // few names, many of each
			if (r.chance(1, 12)) names.push_back("plaintext");
			attrs = r.chance(1, 3) ? 2 : 33;
			stray = r.chance(1, 3) ? 40 : 8;
			any = r.chance(1, 6) ? 3 : 60;
		}
		void name(Rng& r, Text& s)
		{
			if (r.chance(1, any))
			{
				s += r.chance(1, 3) ? lowered(r.pick(ref::svg_tag_names)) : Text(r.pick(ref::known_tags));
				return;
			}
			std::string_view n = r.chance(1, stray) ? r.pick(r.pick(groups())) : r.pick(names);
			if (r.chance(1, 20)) { for (char c : n) s += static_cast<unsigned char>(c >= 'a' && c <= 'z' ? c - 32 : c); return; }
			put(s, n);
			if (r.chance(1, 60)) s += r.chance(1, 2) ? U'\u3042' : U'\u00c9';
		}
		void attribute(Rng& r, Text& s)
		{
			static char const* const a[] = { "a=1", "a=2", "b=1", "type=hidden", "type=HIDDEN", "type=text", "encoding=text/html", "encoding='application/XHTML+xml'", "encoding=x", "color=red", "face=x", "size=1", "definitionurl=u", "viewbox=v", "attributename=n", "xlink:href=h", "xlink:title=t", "xml:lang=en", "xml:space=p", "xml:base=b", "xmlns=n", "xmlns:xlink=l", "xmlns:x=y", "class=c", "href=h", "id=i", "zoomandpan", "refx=1", "contentscripttype=c", "name=n", "prompt=q", "action=a", "x=\"&lt;\"" };
			s += U' ';
			if (r.chance(1, any))
			{
				s += r.chance(1, 3) ? lowered(r.pick(ref::svg_attribute_names)) : Text(r.pick(ref::known_attributes));
				if (r.chance(1, 2)) s += U"=v";
				return;
			}
			static_assert(sizeof(a) / sizeof(*a) == 33);
			put(s, a[r.below(attrs)]);
		}
		void start(Rng& r, Text& s)
		{
			s += U'<';
			name(r, s);
			if (r.chance(1, 4)) for (std::uint32_t k = 1 + r.below(3); k--; ) attribute(r, s);
			if (r.chance(1, 10)) s += U'/';
			s += U'>';
		}
		void end(Rng& r, Text& s) { s += U"</"; name(r, s); if (r.chance(1, 30)) attribute(r, s); s += U'>'; }
		void chars(Rng& r, Text& s)
		{
			static char32_t const* const c[] = { U"x", U"y", U" ", U"\n", U"\t ", U"a b", U"\u3042", U"\U0001f600", U"&amp;", U"\r\n", U"\f", U"&notin;" };
			if (r.chance(1, 12)) s += U'\0';
			s += r.pick(c);
		}
		void doctype(Rng& r, Text& s)
		{
			static char const* const d[] = {
				"<!doctype html>", "<!DOCTYPE html>", "<!doctype html SYSTEM \"about:legacy-compat\">", "<!doctype>", "<!doctype x>", "<!doctype html x>",
				"<!doctype html PUBLIC \"-//W3C//DTD HTML 4.01//EN\">", "<!doctype html PUBLIC \"-//W3C//DTD HTML 4.01 Transitional//EN\">", "<!doctype html PUBLIC \"-//w3c//dtd html 4.01 frameset//EN\" \"x\">", "<!doctype html PUBLIC \"-//W3C//DTD HTML 4.01 Transitional//EN\" \"http://www.w3.org/TR/html4/loose.dtd\">",
				"<!doctype html PUBLIC \"-//W3C//DTD XHTML 1.0 Transitional//EN\" \"x\">", "<!doctype html PUBLIC \"-//W3C//DTD XHTML 1.0 Frameset//\">", "<!doctype html PUBLIC \"-//IETF//DTD HTML//EN\">", "<!doctype html PUBLIC \"-//W3C//DTD HTML 3.2 Final//EN\">", "<!doctype html PUBLIC \"html\">", "<!doctype html SYSTEM \"http://www.IBM.com/data/dtd/v11/ibmxhtml1-transitional.dtd\">", "<!doctype html PUBLIC \"-/W3C/DTD HTML 4.0 Transitional/EN\">",
				"<!doctype html PUBLIC \"-//W3O//DTD W3 HTML Strict 3.0//EN//\">", "<!doctype html PUBLIC \"-//W3C//DTD HTML 4.0 Transitional//EN\">", "<!doctype html PUBLIC \"\" \"\">", "<!doctype html PUBLIC \"-//WebTechs//DTD Mozilla HTML 2.0//EN\">", "<!doctype html PUBLIC \"+//Silmaril//dtd html Pro v0r11 19970101//EN\">", "<!doctype HTML PUBLIC \"-//SoftQuad//DTD HoTMetaL PRO 4.0::19971010::extensions to HTML 4.0//\">" };
			if (r.chance(1, 2)) // an identifier of the list, perhaps not quite
			{
				Text id(r.pick(ref::quirky_public_ids));
				if (r.chance(1, 6)) id = lowered(id);
				if (r.chance(1, 3)) id.resize(id.size() - r.below(4));
				if (r.chance(1, 3)) id += U"EN";
				if (r.chance(1, 8)) id.insert(r.below(id.size() + 1), 1, U'x');
				s += U"<!doctype html PUBLIC \"" + id + U'"';
				if (r.chance(1, 3)) s += U" \"x\"";
				s += U'>';
				return;
			}
			put(s, r.pick(d));
		}
		void nest(Rng& r, Text& s) // the same elements many times, one in the other, around an end tag of the first
		{
			Text a, b, x;
			name(r, a);
			start(r, x);
			b = x;
			if (r.chance(1, 2)) { b.clear(); start(r, b); }
			if (r.chance(3, 4)) s += U'<' + a + U'>';
			for (std::uint32_t k = r.range(2, 12); k--; ) { s += r.chance(1, 2) ? x : b; if (r.chance(1, 8)) piece(r, s); }
			if (r.chance(1, 2)) chars(r, s);
			for (std::uint32_t k = r.below(3); k--; ) s += U"</" + a + U'>';
		}
		void piece(Rng& r, Text& s)
		{
			switch (r.below(20))
			{
			default: start(r, s); break;
			case 10: case 11: case 12: case 13: end(r, s); break;
			case 14: case 15: case 16: chars(r, s); break;
			case 17: s += U"<!--c-->"; break;
			case 18: if (r.chance(1, 3)) doctype(r, s); else if (r.chance(1, 2)) put(s, "<![CDATA[x]]>"); else put(s, "<?pi>"); break;
			case 19: chars(r, s); start(r, s); break;
			}
		}
		Text make(Rng& r, std::uint32_t size)
		{
			Text s;
			focus(r);
			if (r.chance(1, 8)) s += U" <!--c-->";
			if (r.chance(2, 3)) doctype(r, s);
			if (r.chance(1, 8)) s += U"<!--c--> ";
			static char32_t const* const head[] = { U"<html>", U"<html a=1>", U"<head>", U"<head><title>t</title></head>", U"<body>", U"<html><head></head><body>", U"<p>", U"<table>", U"<svg>", U"<math>", U"<select>", U"<template>", U"<frameset>", U"<table><tr><td>", U"<svg><foreignobject>", U"<head><noscript>" };
			if (r.chance(1, 2)) s += r.pick(head);
			for (std::uint32_t k = 1 + r.below(size); k--; ) { if (r.chance(1, 25)) nest(r, s); else piece(r, s); }
			return s;
		}
	};

	std::string first_difference(std::string const& a, std::string const& b)
	{
		std::size_t i = 0, j = 0, n = 1;
		auto get = [](std::string const& s, std::size_t& p) { auto e = s.find('\n', p); std::string l = p >= s.size() ? "(nothing)" : s.substr(p, e - p); p = e == std::string::npos ? s.size() : e + 1; return l; };
		while (i < a.size() || j < b.size()) { std::string x = get(a, i), y = get(b, j); if (x != y) return "line " + std::to_string(n) + " is \"" + x + "\", expected \"" + y + "\""; ++n; }
		return "none";
	}

	struct Session
	{
		std::uint32_t kind = 0;
		std::unique_ptr<Any> p;
		Text doc;
		std::string want;
		std::vector<char const*> want_errors, want_stream_errors;
		std::size_t fed = 0;
		std::uint64_t modes = 0;
		bool open = false, disputed = false;

		void begin(Text d)
		{
			doc = std::move(d);
			ref::TreeBuilder b;
			b.parse(doc);
			want = dump(b);
			want_errors = b.errors;
			want_stream_errors = b.stream_errors;
			ref::settle(want_errors);
			modes = b.modes();
			disputed = b.disputed;
			fed = 0;
			open = true;
		}
		void feed() { p->put(doc[fed]); ++fed; }
		void end()
		{
			p->eof();
			std::string got = p->text();
			if (disputed) count("editions of the standard differ");
			else SIM_REQUIRE(got == want, "tree", "%s: the document for %s differs: %s", kind_name[kind], show(doc).c_str(), first_difference(got, want).c_str());
			if (p->listen && !disputed)
			{
				ref::settle(p->errors);
				same_errors(p->errors, want_errors);
				same_errors(p->stream_errors, want_stream_errors);
			}
			p->errors.clear();
			p->stream_errors.clear();
			open = false;
			p->reset();
		}
		void same_errors(std::vector<char const*> const& got, std::vector<char const*> const& expect)
		{
			for (std::size_t i = 0; i < std::max(got.size(), expect.size()); ++i)
			{
				std::string_view g = i < got.size() ? got[i] : "none", w = i < expect.size() ? expect[i] : "none";
				SIM_REQUIRE(g == w, "error", "%s: error %zu of %s is %s, expected %s", kind_name[kind], i, show(doc).c_str(), std::string(g).c_str(), std::string(w).c_str());
				if (i < expect.size()) count(expect[i]);
			}
		}
	};

	template <bool Errors> struct ParserWorld : World
	{
		std::vector<std::unique_ptr<Session>> s;
		std::uint32_t size = 1;
		Maker maker;

		int length(Rng& r) override { static int const n[] = { 4, 12, 30 }; return n[r.below(3)] + r.below(6); }
		int fault_percent(Rng& r) override { static int const p[] = { 0, 20, 60 }; return p[r.below(3)]; }
		void start(Rng& cfg) override
		{
			s.resize(1 + cfg.below(3));
			static std::uint32_t const n[] = { 4, 10, 25 };
			size = cfg.pick(n);
			for (auto& x : s) { x = std::make_unique<Session>(); x->kind = cfg.below(5); x->p = make_parser(x->kind); x->p->listen = Errors; }
		}
		void step(Rng& r, bool faults) override
		{
			std::size_t i = r.below(static_cast<std::uint32_t>(s.size()));
			auto& x = *s[i];
			if (!x.open)
			{
				Text d = maker.make(r, size);
				if (Errors) solidus(r, d);
				if (faults && r.chance(1, 3)) { count("fault:cut"); d.resize(r.below(static_cast<std::uint32_t>(d.size() + 1))); }
				if (faults) for (std::uint32_t k = r.below(3); k--; )
				{
					count("fault:damage");
					static char32_t const odd[] = U"\0\n<>&/=!- \"'x";
					std::size_t p = r.below(static_cast<std::uint32_t>(d.size() + 1));
					char32_t c = odd[r.below(sizeof(odd) / sizeof(*odd) - 1)];
					switch (r.below(3)) { case 0: d.insert(p, 1, c); break; case 1: if (p < d.size()) d[p] = c; break; default: if (p < d.size()) d.erase(p, 1 + r.below(4)); break; }
				}
				log("session %zu (%s): %s", i, kind_name[x.kind], show(d).c_str());
				history(hash_str(d));
				x.begin(d);
			}
			std::size_t n = r.chance(1, 2) ? x.doc.size() - x.fed : std::min<std::size_t>(x.doc.size() - x.fed, r.below(40));
			if (!n && x.fed < x.doc.size()) n = 1;
			log("session %zu: %zu code points from %zu", i, n, x.fed);
			while (n--) { x.feed(); tick(1); }
			if (x.fed == x.doc.size())
			{
				log("session %zu: end of input", i);
				cover(mix(x.modes, hash_str(x.want)));
				x.end();
			}
		}
		static void solidus(Rng& r, Text& d) // some tags become self-closing
		{
			for (std::size_t p = d.find(U'>'); p != Text::npos; p = d.find(U'>', p + 2)) if (r.chance(1, 6)) d.insert(p, 1, U'/');
		}
		void finish() override { for (auto& x : s) if (x->open) { while (x->fed < x->doc.size()) x->feed(); x->end(); } }
	};
	using Trees = ParserWorld<false>;
	using TreeErrors = ParserWorld<true>;
	SIM_WORLD("P12", Trees);
	SIM_WORLD("P22", TreeErrors);

	// ------------------------------------------------------------------------------------------- P13
	// a parser that was abandoned, or that ran out of memory, is as good as new after clear()
	struct ReuseWorld : World
	{
		struct Slot { std::uint32_t kind; std::unique_ptr<Any> p; Text doc; std::size_t fed = 0; bool open = false, dirty = false; };
		std::vector<Slot> s;
		std::uint32_t size = 1;
		Maker maker;

		int length(Rng& r) override { static int const n[] = { 6, 20, 40 }; return n[r.below(3)] + r.below(6); }
		int fault_percent(Rng& r) override { static int const p[] = { 30, 60, 90 }; return p[r.below(3)]; }
		void start(Rng& cfg) override
		{
			s.resize(1 + cfg.below(2));
			static std::uint32_t const n[] = { 3, 8, 20 };
			size = cfg.pick(n);
			for (auto& x : s) { x.kind = cfg.below(5); x.p = make_parser(x.kind); }
		}
		void reset(Rng& r, Slot& x, bool faults)
		{
			for (;;)
			{
				AllocFault f(faults && r.chance(1, 3) ? static_cast<std::int64_t>(r.below(6)) : -1);
				try { x.p->reset(); x.open = x.dirty = false; return; }
				catch (std::bad_alloc const&) { f.disarm(); count("fault:alloc in clear"); log("clear ran out of memory"); }
			}
		}
		// the rest of the document, without faults
		void complete(Slot& x)
		{
			ref::TreeBuilder b;
			b.parse(x.doc);
			std::string want = dump(b);
			while (x.fed < x.doc.size()) { x.p->put(x.doc[x.fed]); ++x.fed; tick(1); }
			x.p->eof();
			std::string got = x.p->text();
			cover(mix(b.modes(), hash_str(want)));
			if (!b.disputed) SIM_REQUIRE(got == want, "reuse", "%s: a used parser gives another document for %s: %s", kind_name[x.kind], show(x.doc).c_str(), first_difference(got, want).c_str());
			count("probe:documents completed");
		}
		void step(Rng& r, bool faults) override
		{
			std::size_t i = r.below(static_cast<std::uint32_t>(s.size()));
			auto& x = s[i];
			if (x.open && !x.dirty && r.chance(1, 3))
			{
				count("fault:abandoned");
				log("session %zu abandoned after %zu code points", i, x.fed);
				if (r.chance(1, 8)) { x.p = make_parser(x.kind); x.open = false; }
				else reset(r, x, faults);
			}
			if (x.dirty) { log("session %zu: clear", i); reset(r, x, faults); }
			if (!x.open)
			{
				if (x.doc.empty() || r.chance(2, 3)) x.doc = maker.make(r, size); // else the same document again
				x.fed = 0;
				x.open = true;
				log("session %zu (%s): %s", i, kind_name[x.kind], show(x.doc).c_str());
				history(hash_str(x.doc));
			}
			if (!faults)
			{
				if (r.chance(1, 3))
				{
					std::size_t n = std::min<std::size_t>(x.doc.size() - x.fed, r.below(30));
					log("session %zu: %zu code points from %zu", i, n, x.fed);
					while (n--) { x.p->put(x.doc[x.fed]); ++x.fed; tick(1); }
					return;
				}
				log("session %zu: completed from %zu", i, x.fed);
				complete(x);
				x.dirty = true; // finished: clear before the next document
				return;
			}
			std::size_t n = r.chance(1, 3) ? x.doc.size() - x.fed : std::min<std::size_t>(x.doc.size() - x.fed, r.below(40));
			static std::uint32_t const far[] = { 4, 30, 200 };
			std::int64_t k = r.below(r.pick(far));
			log("session %zu: %zu code points from %zu, allocation %lld fails", i, n, x.fed, static_cast<long long>(k));
			AllocFault f(k);
			try
			{
				while (n--) { x.p->put(x.doc[x.fed]); ++x.fed; tick(1); }
				if (x.fed == x.doc.size()) { x.p->eof(); x.dirty = true; }
				f.disarm();
			}
			catch (std::bad_alloc const&)
			{
				f.disarm();
				count("fault:alloc in parsing");
				log("out of memory at %zu", x.fed);
				x.dirty = true;
				history(x.p->nodes()); // the partial document can still be walked
			}
		}
		void finish() override
		{
			Rng quiet(1);
			for (auto& x : s)
			{
				if (x.dirty) reset(quiet, x, false);
				if (!x.open) x.fed = 0;
				complete(x);
			}
		}
	};
	SIM_WORLD("P13", ReuseWorld);

	// ------------------------------------------------------------------------------------------- P14
	// a document read from bytes, started again when it declares another encoding
	bool space(char32_t c) { return c == 9 || c == 10 || c == 12 || c == 13 || c == 32; }
	Text lower(Text s) { for (auto& c : s) if (c >= 'A' && c <= 'Z') c += 32; return s; }
	using ref::encoding_of;
	// the algorithm for extracting a character encoding from a meta element
	Enc extract(Text const& content)
	{
		Text s = lower(content);
		for (std::size_t p = 0; ; )
		{
			p = s.find(U"charset", p);
			if (p == Text::npos) return static_cast<Enc>(0);
			p += 7;
			std::size_t q = p;
			while (q < s.size() && space(s[q])) ++q;
			if (q == s.size() || s[q] != U'=') { p = q; continue; }
			++q;
			while (q < s.size() && space(s[q])) ++q;
			if (q == s.size()) return static_cast<Enc>(0);
			if (s[q] == U'"' || s[q] == U'\'')
			{
				std::size_t e = s.find(s[q], q + 1);
				return e == Text::npos ? static_cast<Enc>(0) : encoding_of(s.substr(q + 1, e - q - 1));
			}
			std::size_t e = q;
			while (e < s.size() && !space(s[e]) && s[e] != U';') ++e;
			return encoding_of(s.substr(q, e - q));
		}
	}
	Enc declared(ref::Node const* meta)
	{
		auto get = [&](char32_t const* n) -> Text const* { for (auto& a : meta->attrs) if (a.ns == ref::Ns::None && a.name == n) return &a.value; return nullptr; };
		if (auto* c = get(U"charset")) if (Enc e = encoding_of(*c); e != static_cast<Enc>(0)) return e;
		auto* h = get(U"http-equiv");
		auto* c = get(U"content");
		return h && c && lower(*h) == U"content-type" ? extract(*c) : static_cast<Enc>(0);
	}
	bool utf16(Enc e) { return e == Enc::UTF_16BE || e == Enc::UTF_16LE; }
	Text decoded(Enc e, std::string const& b)
	{
		Text t = ref::decode_all(e, b);
		if ((e == Enc::UTF_8 || utf16(e)) && !t.empty() && t[0] == 0xFEFF) t.erase(0, 1);
		return t;
	}
	// decides the encoding, then reads everything in it
	Outcome expect(std::string const& bytes, Text const* text, Enc enc, Confidence conf)
	{
		Outcome o;
		if (!text && enc == static_cast<Enc>(0)) enc = Enc::UTF_8;
		for (;;)
		{
			ref::TreeBuilder b;
			b.parse(text ? *text : decoded(enc, bytes));
			o.disputed |= b.disputed;
			bool again = false;
			if (!text) for (auto* m : b.metas)
			{
				if (conf != Confidence::tentative) break;
				Enc e = declared(m);
				if (e == static_cast<Enc>(0)) continue;
				conf = Confidence::certain;
				if (utf16(enc)) break;
				if (utf16(e)) e = Enc::UTF_8;
				if (e == Enc::x_user_defined) e = Enc::windows_1252;
				if (e == enc) break;
				enc = e;
				++o.restarts;
				again = true;
				break;
			}
			if (again) continue;
			o.tree = dump(b);
			o.enc = enc;
			o.conf = conf;
			return o;
		}
	}

	struct DeclareWorld : World
	{
		struct Slot { std::uint32_t kind; std::unique_ptr<Reader> p; Enc enc; Confidence conf; bool used = false; };
		std::vector<Slot> s;
		Maker maker;

		static Enc some_encoding(Rng& r) { return r.chance(1, 5) ? static_cast<Enc>(0) : r.chance(1, 2) ? r.pick(common()) : r.pick(ref::all_encodings()); }
		static std::vector<Enc> const& common() { static std::vector<Enc> const v = { Enc::UTF_8, Enc::Shift_JIS, Enc::EUC_JP, Enc::ISO_2022_JP, Enc::windows_1252, Enc::UTF_16LE, Enc::Big5 }; return v; }
		static Confidence some_confidence(Rng& r) { return r.chance(2, 3) ? Confidence::tentative : r.chance(1, 2) ? Confidence::certain : Confidence::irrelevant; }

		int length(Rng& r) override { static int const n[] = { 3, 8, 16 }; return n[r.below(3)] + r.below(4); }
		int fault_percent(Rng& r) override { static int const p[] = { 0, 30, 60 }; return p[r.below(3)]; }
		void start(Rng& cfg) override
		{
			s.resize(1 + cfg.below(2));
			for (auto& x : s)
			{
				x.kind = cfg.chance(3, 4) ? cfg.below(2) : 2 + cfg.below(2);
				x.enc = some_encoding(cfg);
				x.conf = some_confidence(cfg);
				x.p = make_reader(x.kind, x.conf, x.enc);
			}
		}
		static Text any_label(Rng& r)
		{
			static std::vector<Text> const v = [] { std::vector<Text> v; for (auto& l : ref::labels()) v.emplace_back(l.first.begin(), l.first.end()); return v; }();
			return r.pick(v);
		}
		static Text label(Rng& r)
		{
			static char32_t const* const odd[] = { U"utf8", U" UTF-8 ", U"latin1", U"ascii", U"X-SJIS", U"utf-16", U"none-such", U"", U"ISO-8859-1", U"gb2312" };
			return r.chance(1, 3) ? Text(r.pick(odd)) : r.chance(1, 2) ? ref::label(r.pick(common())) : any_label(r);
		}
		static Text meta(Rng& r)
		{
			Text l = label(r), t = U"<meta";
			static char32_t const* const he[] = { U" http-equiv=content-type", U" http-equiv='Content-Type'", U" http-equiv=refresh", U"" };
			switch (r.below(6))
			{
			case 5:
			{
				static char32_t const* const pre[] = { U"", U"text/html;", U"charset", U"charset;", U"x", U"charset = ;charset", U"CharSet\t" };
				static char32_t const* const eq[] = { U"charset=", U"charset \t=\n ", U"charset==", U"charset", U"charset =\"", U"charset='", U"chars\u00e9t=", U"CHARSET=\"", U"charset=;" };
				static char32_t const* const end[] = { U"", U"'", U"\"", U";", U" x", U"\"'", U"\f\"", U",", U"charset=utf-8" };
				Text c = Text(r.pick(pre)) + r.pick(eq) + l + r.pick(end);
				char32_t q = c.find(U'"') == Text::npos ? U'"' : c.find(U'\'') == Text::npos ? U'\'' : 0;
				for (std::size_t i = 0; !q && i < c.size(); ++i) if (c[i] == U'\'') c.erase(i--, 1);
				t += U" http-equiv=Content-type content=";
				t += q ? q : U'\'';
				t += c;
				t += q ? q : U'\'';
				break;
			}
			case 0: case 1: t += U" charset='" + l + U"'"; break;
			case 2: t += Text(r.pick(he)) + U" content='text/html; charset=" + l + U"'"; break;
			case 3: t += U" content='charset charset = \"" + l + U"\" x'" + r.pick(he); break;
			default: t += U" charset='' content='text/html;CHARSET=" + l + U";x'" + r.pick(he) + (r.chance(1, 2) ? U" charset=utf-8" : U""); break;
			}
			if (r.chance(1, 6)) t += U"/";
			return t + U">";
		}
		void bytes_of(Rng& r, Text const& t, Source& x, bool faults)
		{
			Enc e = r.chance(2, 3) ? r.pick(common()) : r.pick(ref::all_encodings());
			x.text.clear();
			x.bytes.clear();
			bool le = e == Enc::UTF_16LE;
			auto unit = [&](unsigned u) { if (le) { x.bytes += static_cast<char>(u & 255); x.bytes += static_cast<char>(u >> 8); } else { x.bytes += static_cast<char>(u >> 8); x.bytes += static_cast<char>(u & 255); } };
			if (r.chance(1, 8)) { if (e == Enc::UTF_8) x.bytes += "\xEF\xBB\xBF"; else if (utf16(e)) unit(0xFEFF); }
			if (utf16(e)) for (char32_t c : t) { if (c < 0x10000) unit(c); else { unit(0xD7C0 + (c >> 10)); unit(0xDC00 | (c & 0x3FF)); } }
			else if (e == Enc::replacement) for (char32_t c : t) x.bytes += static_cast<char>(c & 127);
			else
			{
				ref::Encoder k(e);
				for (char32_t c : t) if (auto b = k.put(c)) x.bytes += *b;
			}
			if (faults) for (std::uint32_t n = 1 + r.below(3); n-- && !x.bytes.empty(); )
			{
				count("fault:damaged bytes");
				std::size_t p = r.below(static_cast<std::uint32_t>(x.bytes.size()));
				switch (r.below(3)) { case 0: x.bytes[p] = static_cast<char>(r.below(256)); break; case 1: x.bytes.erase(p, 1 + r.below(3)); break; default: x.bytes.resize(p); break; }
			}
			x.text = t;
		}
		void check(Slot const& x, std::string const& got, Outcome const& w, Source const& src, char const* how)
		{
			if (w.disputed) return;
			SIM_REQUIRE(got == w.tree, "declared", "%s (%s), read as %s first: the document for %s differs: %s", reader_name[x.kind], how, x.enc == static_cast<Enc>(0) ? "nothing" : ref::name(x.enc), x.p->bytes() ? show(src.bytes).c_str() : show(src.text).c_str(), first_difference(got, w.tree).c_str());
		}
		void step(Rng& r, bool faults) override
		{
			std::size_t i = r.below(static_cast<std::uint32_t>(s.size()));
			auto& x = s[i];
			Source src;
			Text t = maker.make(r, 6), head;
			static char32_t const* const lead[] = { U"", U"<!doctype html>", U"<head>", U"<title>\u3042\u00e9</title>", U"<!--\u3042-->", U"<p>\u65e5\u672c", U"<svg>", U"<template>", U"&", U"<script>\u3042</script>", U"<table>", U"<style>x" };
			for (std::uint32_t n = r.below(3); n--; ) { head += r.pick(lead); if (r.chance(3, 4)) head += meta(r); }
			t = head + t;
			static char32_t const* const tail[] = { U"&amp", U"&no", U"<!--x", U"\r", U"<", U"</", U"&", U"\u3042", U"<![CDATA[x]", U"<meta charset=shift_jis>", U"&#65", U"</p" };
			if (r.chance(1, 3)) t += r.pick(tail);
			bytes_of(r, t, src, faults && r.chance(1, 2));
			if (x.used)
			{
				x.enc = some_encoding(r);
				x.conf = some_confidence(r);
				x.p->clear(x.conf, x.enc);
				x.used = false;
			}
			log("reader %zu (%s), first %s, confidence %d: %s", i, reader_name[x.kind], x.enc == static_cast<Enc>(0) ? "none" : ref::name(x.enc), static_cast<int>(x.conf), x.p->bytes() ? show(src.bytes).c_str() : show(src.text).c_str());
			if (faults && r.chance(1, 2))
			{
				std::int64_t k = r.below(300);
				AllocFault f(k);
				try { x.p->parse(src); f.disarm(); x.used = true; }
				catch (std::bad_alloc const&) { f.disarm(); count("fault:alloc in parsing"); log("out of memory"); x.used = true; }
				if (x.used) { x.p->clear(x.conf, x.enc); x.used = false; }
			}
			Outcome w = expect(src.bytes, x.p->bytes() ? nullptr : &src.text, x.enc, x.conf);
			count("probe:restarts", w.restarts);
			tick(src.text.size());
			cover(mix(hash_str(w.tree), static_cast<std::uint64_t>(w.enc)));
			history(hash_str(w.tree));
			x.p->parse(src);
			x.used = true;
			check(x, x.p->text(), w, src, "parse");
			if (x.p->bytes())
			{
				auto g = x.p->state();
				SIM_REQUIRE(w.disputed || (g.enc == w.enc && g.conf == w.conf), "encoding", "%s: read as %s with confidence %d, expected %s with %d", reader_name[x.kind], ref::name(g.enc), static_cast<int>(g.conf), ref::name(w.enc), static_cast<int>(w.conf));
			}
			if (r.chance(1, 2)) check(x, x.p->take(), w, src, "get");
			if (r.chance(1, 4) && x.enc != static_cast<Enc>(0))
			{
				std::string got = read_in_one_call(x.kind, src, x.enc, x.conf);
				check(x, got, w, src, "make_document");
			}
		}
		void finish() override {}
	};
	SIM_WORLD("P14", DeclareWorld);
}
