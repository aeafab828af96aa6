// The parsers and readers of one kind of container (KIND, set by the build), so that the kinds compile in parallel.
#include "html_kinds.hpp"

#include <wordring/html/simple_html.hpp>
#include <wordring/html/simple_parser.hpp>
#include "../ref/html_errors.hpp"
#include <wordring/tree/tree.hpp>

namespace wordring::html
{
	template <typename S> using plain_tree = wordring::tree<simple_node<S>>;
	template <> struct node_traits<plain_tree<std::u8string>::iterator> : simple_node_traits<plain_tree<std::u8string>::iterator> {};
	template <> struct node_traits<plain_tree<std::u8string>::const_iterator> : simple_node_traits<plain_tree<std::u8string>::const_iterator> {};
	template <> struct node_traits<plain_tree<std::u16string>::iterator> : simple_node_traits<plain_tree<std::u16string>::iterator> {};
	template <> struct node_traits<plain_tree<std::u16string>::const_iterator> : simple_node_traits<plain_tree<std::u16string>::const_iterator> {};
}

namespace
{
	using namespace hp;

	template <class S> Text wide(S const& s) { return wordring::encoding_cast<Text>(s); }
	ref::Ns ns_of(wh::ns_name n)
	{
		switch (n)
		{
		case wh::ns_name::HTML: return ref::Ns::Html;
		case wh::ns_name::MathML: return ref::Ns::MathML;
		case wh::ns_name::SVG: return ref::Ns::Svg;
		case wh::ns_name::XLink: return ref::Ns::XLink;
		case wh::ns_name::XML: return ref::Ns::Xml;
		case wh::ns_name::XMLNS: return ref::Ns::Xmlns;
		default: return ref::Ns::None;
		}
	}
	template <class It> void dump_node(std::string& o, It it, int d)
	{
		auto const& n = *it;
		using T = typename std::decay_t<decltype(n)>::type_name;
		switch (n.type())
		{
		case T::Document: break;
		case T::DocumentType: line(o, d, "!doctype " + show(wide(n.name()))); break; // the node does not give its identifiers
		case T::Text: line(o, d, show(wide(n.data()))); break;
		case T::Comment: line(o, d, "!" + show(wide(n.data()))); break;
		case T::Element:
			line(o, d, element_line(ns_of(n.namespace_uri_name()), wide(n.local_name())));
			for (auto const& a : n) line(o, d + 1, attr_line(ns_of(a.namespace_uri_name()), wide(a.prefix()), wide(a.local_name()), wide(a.value())));
			break;
		default: line(o, d, "?"); break;
		}
		for (It c = it.begin(), e = it.end(); c != e; ++c)
		{
			SIM_REQUIRE(c.parent() == it, "parent", "a child's parent is another node");
			dump_node(o, c, d + 1);
		}
	}

	template <class C> struct Real : wh::simple_parser_base<Real<C>, C>
	{
		using base = wh::simple_parser_base<Real<C>, C>;
		Any* a = nullptr;
		void on_report_error(wh::error_name e)
		{
			if (!a || !a->listen || e == static_cast<wh::error_name>(0)) return;
			char const* s = ref::spelled(e);
			(ref::of_input_stream(s) ? a->stream_errors : a->errors).push_back(s);
		}
	};
	template <class C> struct One : Any
	{
		Real<C> p;
		One() { p.a = this; }
		void put(char32_t c) override { p.push_code_point(c); }
		void eof() override { p.push_eof(); }
		void reset() override { p.clear(wh::encoding_confidence_name::irrelevant, static_cast<wordring::encoding_name>(0)); }
		std::string text() override
		{
			auto d = p.get_document();
			auto m = d->document_mode_name();
			std::string o = m == wh::document_mode_name::Quirks ? "quirks\n" : m == wh::document_mode_name::LimitedQuirks ? "limited quirks\n" : "no quirks\n";
			dump_node(o, d, 0);
			return o;
		}
		template <class It> static std::size_t walk(It it)
		{
			std::size_t n = 1;
			for (It c = it.begin(), e = it.end(); c != e; ++c)
			{
				SIM_REQUIRE(c.parent() == it, "parent", "a child's parent is another node");
				n += walk(c);
			}
			return n;
		}
		std::size_t nodes() override { return walk(p.get_document()); }
	};
	template <class C> std::string container_text(C& c)
	{
		auto d = c.begin();
		SIM_REQUIRE(d != c.end() && std::next(d) == c.end(), "roots", "the container does not hold one document");
		auto m = d->document_mode_name();
		std::string o = m == wh::document_mode_name::Quirks ? "quirks\n" : m == wh::document_mode_name::LimitedQuirks ? "limited quirks\n" : "no quirks\n";
		dump_node(o, d, 0);
		return o;
	}
	template <class C, class Str> struct ReaderOf : Reader
	{
		using It = typename Str::const_iterator;
		struct P : wh::basic_simple_parser<C, It> { using wh::basic_simple_parser<C, It>::basic_simple_parser; };
		P p;
		Str s;
		static P made(Confidence c, Enc e) // what the caller does not say has a meaning of its own
		{
			if (e != static_cast<Enc>(0)) return P(c, e);
			if (c != Confidence::irrelevant) return P(c);
			return P();
		}
		ReaderOf(Confidence c, Enc e) : p(made(c, e)) {}
		static Str of(Source const& x)
		{
			if constexpr (sizeof(typename Str::value_type) == 1) return Str(x.bytes.begin(), x.bytes.end());
			else if constexpr (sizeof(typename Str::value_type) == 4) return x.text;
			else
			{
				Str o;
				for (char32_t c : x.text) { if (c < 0x10000) o += static_cast<char16_t>(c); else { o += static_cast<char16_t>(0xD7C0 + (c >> 10)); o += static_cast<char16_t>(0xDC00 | (c & 0x3FF)); } }
				return o;
			}
		}
		void parse(Source const& x) override { s = of(x); p.parse(s.cbegin(), s.cend()); }
		std::string text() override
		{
			auto d = p.get_document();
			auto m = d->document_mode_name();
			std::string o = m == wh::document_mode_name::Quirks ? "quirks\n" : m == wh::document_mode_name::LimitedQuirks ? "limited quirks\n" : "no quirks\n";
			dump_node(o, d, 0);
			return o;
		}
		std::string take() override { C c = p.get(); return container_text(c); }
		Outcome state() override { return { "", p.m_encoding_name, p.m_encoding_confidence }; }
		void clear(Confidence c, Enc e) override { p.clear(c, e); }
		bool bytes() const override { return sizeof(typename Str::value_type) == 1; }
	};
	template <class C, class Str> std::string in_one_call(Source const& x, Enc e, Confidence conf)
	{
		Str s = ReaderOf<C, Str>::of(x);
		auto made = [&]
		{
			if (conf != Confidence::tentative) return wh::make_document<C>(s.cbegin(), s.cend(), e, conf);
			if (e != Enc::UTF_8) return wh::make_document<C>(s.cbegin(), s.cend(), e);
			return wh::make_document<C>(s.cbegin(), s.cend());
		};
		C c = made();
		return container_text(c);
	}

	template <int K> struct Kind;
	template <> struct Kind<0> { using parser = wh::u8simple_tree; using tree = wh::u8simple_tree; using once = wh::u8simple_tree; using source = std::string; };
	template <> struct Kind<1> { using parser = wh::u16simple_tree; using tree = wh::plain_tree<std::u16string>; using once = wh::u16simple_tree; using source = std::string; };
	template <> struct Kind<2> { using parser = wh::u32simple_tree; using tree = wh::u8simple_tree; using once = wh::u8simple_tree; using source = std::u16string; };
	template <> struct Kind<3> { using parser = wh::plain_tree<std::u8string>; using tree = wh::u16simple_tree; using once = wh::u16simple_tree; using source = std::u32string; };
	template <> struct Kind<4> { using parser = wh::plain_tree<std::u16string>; };
}

namespace hp
{
#if KIND < 10
	template <> std::unique_ptr<Any> parser_of_kind<KIND>() { return std::make_unique<One<Kind<KIND>::parser>>(); }
#else
	using K = Kind<KIND - 10>;
	template <> std::unique_ptr<Reader> reader_of_kind<KIND - 10>(Confidence c, Enc e) { return std::make_unique<ReaderOf<K::tree, K::source>>(c, e); }
	template <> std::string call_of_kind<KIND - 10>(Source const& x, Enc e, Confidence conf) { return in_one_call<K::once, K::source>(x, e, conf); }
#endif
}
