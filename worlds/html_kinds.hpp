// Documents as text, and the interfaces behind which the parsers of the different containers run.
#pragma once
#include "../sim/sim.hpp"
#include "../ref/html_tree.hpp"

#include <wordring/html/html_defs.hpp>
#include <wordring/encoding/encoding_defs.hpp>

#include <memory>

namespace hp
{
	using namespace sim;
	namespace wh = wordring::html;
	using Text = std::u32string;

	// ------------------------------------------------------------------------------- documents as text
	inline char const* ns_prefix(ref::Ns n)
	{
		switch (n)
		{
		case ref::Ns::None: case ref::Ns::Html: return "";
		case ref::Ns::MathML: return "math ";
		case ref::Ns::Svg: return "svg ";
		case ref::Ns::XLink: return "xlink ";
		case ref::Ns::Xml: return "xml ";
		case ref::Ns::Xmlns: return "xmlns ";
		}
		return "?";
	}
	inline void line(std::string& o, int depth, std::string const& s) { o.append(static_cast<std::size_t>(depth) * 2, ' '); o += s; o += '\n'; }
	inline std::string attr_line(ref::Ns ns, Text const& prefix, Text const& name, Text const& value)
	{
		return "@" + std::string(ns_prefix(ns)) + (prefix.empty() ? "" : show(prefix) + ":") + show(name) + "=" + show(value);
	}
	inline std::string element_line(ref::Ns ns, Text const& name) { return "<" + (ns == ref::Ns::None ? std::string("none ") : std::string(ns_prefix(ns))) + show(name) + ">"; }

	inline void dump(std::string& o, ref::Node const* n, int d)
	{
		switch (n->kind)
		{
		case ref::Node::Document: break;
		case ref::Node::Doctype: line(o, d, "!doctype " + show(n->name)); break;
		case ref::Node::Text: line(o, d, show(n->data)); break;
		case ref::Node::Comment: line(o, d, "!" + show(n->data)); break;
		case ref::Node::Element:
			line(o, d, element_line(n->ns, n->name));
			for (auto const& a : n->attrs) line(o, d + 1, attr_line(a.ns, a.prefix, a.name, a.value));
			break;
		}
		for (auto* c : n->children) dump(o, c, d + 1);
	}
	inline std::string dump(ref::TreeBuilder const& b)
	{
		std::string o = b.quirks == ref::Quirks::Yes ? "quirks\n" : b.quirks == ref::Quirks::Limited ? "limited quirks\n" : "no quirks\n";
		dump(o, b.document, 0);
		return o;
	}

	// parsers fed code point by code point
	struct Any
	{
		virtual ~Any() = default;
		virtual void put(char32_t) = 0;
		virtual void eof() = 0;
		virtual void reset() = 0;
		virtual std::string text() = 0;
		std::vector<char const*> errors, stream_errors; // while listen is set, those with a name
		bool listen = false;
		virtual std::size_t nodes() = 0; // walks the document without reading its strings
	};
	inline char const* const kind_name[] = { "tag_tree u8", "tag_tree u16", "tag_tree u32", "tree u8", "tree u16" };
	std::unique_ptr<Any> make_parser(std::uint32_t kind);

	// readers of a whole byte string or text
	using Enc = wordring::encoding_name;
	using Confidence = wh::encoding_confidence_name;
	struct Outcome { std::string tree; Enc enc; Confidence conf; bool disputed = false; std::uint32_t restarts = 0; };

	struct Source { std::string bytes; Text text; };
	struct Reader
	{
		virtual ~Reader() = default;
		virtual void parse(Source const&) = 0;
		virtual std::string text() = 0;
		virtual std::string take() = 0; // get(): the container is moved out
		virtual Outcome state() = 0;
		virtual void clear(Confidence, Enc) = 0;
		virtual bool bytes() const = 0;
	};
	inline char const* const reader_name[] = { "tag_tree u8 from bytes", "tree u16 from bytes", "tag_tree u8 from UTF-16", "tag_tree u16 from UTF-32" };
	std::unique_ptr<Reader> make_reader(std::uint32_t kind, Confidence c, Enc e);
	std::string read_in_one_call(std::uint32_t kind, Source const& x, Enc e, Confidence conf); // make_document

	template <int K> std::unique_ptr<Any> parser_of_kind();
	template <int K> std::unique_ptr<Reader> reader_of_kind(Confidence, Enc);
	template <int K> std::string call_of_kind(Source const&, Enc, Confidence);
}
