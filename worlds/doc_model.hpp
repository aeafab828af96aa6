// A document as plain data, the markup the HTML standard prescribes for it, and the edits both a real
// document and the model go through.
#pragma once
#include "../sim/sim.hpp"
#include "../ref/html_enum.hpp"

#include <wordring/html/simple_html.hpp>
#include <wordring/tree/tree.hpp>

#include <algorithm>
#include <list>
#include <new>
#include <stdexcept>

namespace wordring::html
{
	template <typename S> using plain_tree = wordring::tree<simple_node<S>>;
	template <> struct node_traits<plain_tree<std::u16string>::iterator> : simple_node_traits<plain_tree<std::u16string>::iterator> {};
	template <> struct node_traits<plain_tree<std::u16string>::const_iterator> : simple_node_traits<plain_tree<std::u16string>::const_iterator> {};
}

namespace doc
{
	using namespace sim;
	namespace wh = wordring::html;
	using Text = std::u32string;

	// ------------------------------------------------------------------------------------- UTF
	template <class S> S narrow(Text const& t)
	{
		using C = typename S::value_type;
		S o;
		for (char32_t c : t)
		{
			if constexpr (sizeof(C) == 4) o.push_back(static_cast<C>(c));
			else if constexpr (sizeof(C) == 2)
			{
				if (c < 0x10000) o.push_back(static_cast<C>(c));
				else { o.push_back(static_cast<C>(0xD800 + ((c - 0x10000) >> 10))); o.push_back(static_cast<C>(0xDC00 + ((c - 0x10000) & 0x3FF))); }
			}
			else
			{
				if (c < 0x80) o.push_back(static_cast<C>(c));
				else if (c < 0x800) { o.push_back(static_cast<C>(0xC0 | c >> 6)); o.push_back(static_cast<C>(0x80 | (c & 63))); }
				else if (c < 0x10000) { o.push_back(static_cast<C>(0xE0 | c >> 12)); o.push_back(static_cast<C>(0x80 | (c >> 6 & 63))); o.push_back(static_cast<C>(0x80 | (c & 63))); }
				else { o.push_back(static_cast<C>(0xF0 | c >> 18)); o.push_back(static_cast<C>(0x80 | (c >> 12 & 63))); o.push_back(static_cast<C>(0x80 | (c >> 6 & 63))); o.push_back(static_cast<C>(0x80 | (c & 63))); }
			}
		}
		return o;
	}

	// ------------------------------------------------------------------------------------- names
	struct TagEntry { char32_t const* s; wh::tag_name e; };
	inline TagEntry const tags[] = {
		{ U"a", wh::tag_name::A }, { U"b", wh::tag_name::B }, { U"div", wh::tag_name::Div }, { U"p", wh::tag_name::P }, { U"span", wh::tag_name::Span }, { U"li", wh::tag_name::Li },
		{ U"ul", wh::tag_name::Ul }, { U"table", wh::tag_name::Table }, { U"html", wh::tag_name::Html }, { U"body", wh::tag_name::Body }, { U"head", wh::tag_name::Head },
		{ U"area", wh::tag_name::Area }, { U"base", wh::tag_name::Base }, { U"br", wh::tag_name::Br }, { U"col", wh::tag_name::Col }, { U"embed", wh::tag_name::Embed },
		{ U"hr", wh::tag_name::Hr }, { U"img", wh::tag_name::Img }, { U"input", wh::tag_name::Input }, { U"link", wh::tag_name::Link }, { U"meta", wh::tag_name::Meta },
		{ U"param", wh::tag_name::Param }, { U"source", wh::tag_name::Source }, { U"track", wh::tag_name::Track }, { U"wbr", wh::tag_name::Wbr },
		{ U"basefont", wh::tag_name::Basefont }, { U"bgsound", wh::tag_name::Bgsound }, { U"frame", wh::tag_name::Frame }, { U"keygen", wh::tag_name::Keygen },
		{ U"style", wh::tag_name::Style }, { U"script", wh::tag_name::Script }, { U"xmp", wh::tag_name::Xmp }, { U"iframe", wh::tag_name::Iframe },
		{ U"noembed", wh::tag_name::Noembed }, { U"noframes", wh::tag_name::Noframes }, { U"plaintext", wh::tag_name::Plaintext },
		{ U"noscript", wh::tag_name::Noscript }, { U"title", wh::tag_name::Title }, { U"textarea", wh::tag_name::Textarea }, { U"pre", wh::tag_name::Pre },
		{ U"template", wh::tag_name::Template }, { U"select", wh::tag_name::Select }, { U"svg", wh::tag_name::Svg }, { U"math", wh::tag_name::Math }, { U"image", wh::tag_name::Image },
	};
	constexpr std::size_t first_void = 11, first_raw = 29, first_other = 36;
	inline char32_t const* const free_tags[] = { U"x", U"my-element", U"foo", U"h\u00E9", U"\u65E5\u672C", U"brx" };
	struct AttrEntry { char32_t const* s; wh::attribute_name e; };
	inline AttrEntry const attr_names[] = {
		{ U"id", wh::attribute_name::Id }, { U"class", wh::attribute_name::Class }, { U"href", wh::attribute_name::Href }, { U"title", wh::attribute_name::Title },
		{ U"lang", wh::attribute_name::Lang }, { U"xmlns", wh::attribute_name::Xmlns }, { U"name", wh::attribute_name::Name }, { U"type", wh::attribute_name::Type },
	};
	inline char32_t const* const free_attrs[] = { U"data-x", U"zz", U"onfoo", U"\u5C5E\u6027" };
	inline char32_t const* const ns_uris[] = { U"", U"http://www.w3.org/1999/xhtml", U"http://www.w3.org/1998/Math/MathML", U"http://www.w3.org/2000/svg",
		U"http://www.w3.org/1999/xlink", U"http://www.w3.org/XML/1998/namespace", U"http://www.w3.org/2000/xmlns/", U"urn:other" };
	enum : int { NsNone = 0, NsHtml, NsMath, NsSvg, NsXlink, NsXml, NsXmlns, NsOther };

	// ------------------------------------------------------------------------------------- the model
	struct Attr
	{
		int ns = NsNone;
		Text prefix, name, value;
		bool same_name(Attr const& o) const { return ns == o.ns && prefix == o.prefix && name == o.name; }
		bool operator==(Attr const& o) const { return same_name(o) && value == o.value; }
	};
	enum class Kind { Element, Text, PI, Comment, Document, Doctype, Fragment, Anchor };
	struct Node
	{
		Kind kind = Kind::Anchor;
		int id = 0;
		int ns = NsNone;
		Text prefix, name;        // element; doctype name; PI target
		Text data;                // text, comment, PI
		std::vector<Attr> attrs;
		Node* parent = nullptr;
		std::vector<std::unique_ptr<Node>> kids;

		bool single() const { return kind == Kind::Text || kind == Kind::PI || kind == Kind::Comment || kind == Kind::Doctype; }
		bool element(int n, char32_t const* s) const { return kind == Kind::Element && ns == n && name == s; }
	};
	inline bool in(Text const& s, std::initializer_list<char32_t const*> l) { for (auto* x : l) if (s == x) return true; return false; }

	inline bool serializes_as_void(Node const& n)
	{
		return n.kind == Kind::Element && n.ns == NsHtml
		    && in(n.name, { U"area", U"base", U"br", U"col", U"embed", U"hr", U"img", U"input", U"link", U"meta", U"param", U"source", U"track", U"wbr",
		                    U"basefont", U"bgsound", U"frame", U"keygen" });
	}
	inline bool raw_text(Node const& n) { return n.kind == Kind::Element && n.ns == NsHtml && in(n.name, { U"style", U"script", U"xmp", U"iframe", U"noembed", U"noframes", U"plaintext" }); }
	inline Text qualified(Text const& prefix, Text const& name) { return prefix.empty() ? name : prefix + U":" + name; }
	inline Text escape(Text const& s, bool attr)
	{
		Text o;
		for (char32_t c : s)
		{
			if (c == U'&') o += U"&amp;";
			else if (c == 0xA0) o += U"&nbsp;";
			else if (attr && c == U'"') o += U"&quot;";
			else if (!attr && c == U'<') o += U"&lt;";
			else if (!attr && c == U'>') o += U"&gt;";
			else o += c;
		}
		return o;
	}
	// https://html.spec.whatwg.org/multipage/parsing.html#html-fragment-serialisation-algorithm (edition of 2020)
	inline void serialize(Node const& n, Text& o)
	{
		if (serializes_as_void(n)) return;
		for (auto& u : n.kids)
		{
			Node const& c = *u;
			switch (c.kind)
			{
			case Kind::Element:
			{
				Text tag = c.ns == NsHtml || c.ns == NsMath || c.ns == NsSvg ? c.name : qualified(c.prefix, c.name);
				o += U"<" + tag;
				for (auto& a : c.attrs)
				{
					Text an;
					if (a.ns == NsNone) an = a.name;
					else if (a.ns == NsXml) an = U"xml:" + a.name;
					else if (a.ns == NsXmlns) an = a.name == U"xmlns" ? a.name : U"xmlns:" + a.name;
					else if (a.ns == NsXlink) an = U"xlink:" + a.name;
					else an = qualified(a.prefix, a.name);
					o += U" " + an + U"=\"" + escape(a.value, true) + U"\"";
				}
				o += U">";
				if (serializes_as_void(c)) break;
				serialize(c, o);
				o += U"</" + tag + U">";
				break;
			}
			case Kind::Text: o += raw_text(n) ? c.data : escape(c.data, false); break;
			case Kind::Comment: o += U"<!--" + c.data + U"-->"; break;
			case Kind::PI: o += U"<?" + c.name + U" " + c.data + U">"; break;
			case Kind::Doctype: o += U"<!DOCTYPE " + c.name + U">"; break;
			default: break;
			}
		}
	}
	inline Text markup(Node const& n) { Text o; serialize(n, o); return o; }

	inline void collect(Node* n, std::vector<Node*>& v) { for (auto& k : n->kids) { v.push_back(k.get()); collect(k.get(), v); } }
	inline std::size_t index(Node const* n) { auto& v = n->parent->kids; for (std::size_t i = 0; i < v.size(); ++i) if (v[i].get() == n) return i; std::abort(); }
	inline bool inside(Node const* n, Node const* anc) { for (; n; n = n->parent) if (n == anc) return true; return false; }
	inline std::size_t count_nodes(Node const* n) { std::size_t c = 0; for (auto& k : n->kids) c += 1 + count_nodes(k.get()); return c; }

	// ------------------------------------------------------------------------------------- a document under edit
	template <class TREE>
	struct Editor
	{
		using Tree = TREE;
		using It = typename Tree::iterator;
		using CIt = typename Tree::const_iterator;
		using N = typename Tree::value_type;
		using S = typename N::string_type;
		using A = typename N::attribute_type;
		using E = typename N::element_type;
		static constexpr bool tag = wh::is_simple_tree_v<Tree>;

		virtual ~Editor() = default;
		// what a kind of world puts in its documents
		virtual Node new_node(Rng& r, Node* parent) { return any_node(r, parent == &root); }
		virtual Attr new_attr(Rng& r, Node*, Attr const*) { return any_attr(r); } // for an element, instead of one of its attributes
		virtual bool may_hold(Node const* parent, Node const& child) { return parent == &root || (child.kind != Kind::Document && child.kind != Kind::Fragment); }

		std::unique_ptr<Tree> t = std::make_unique<Tree>();
		Node root;
		int next_id = 1;
		std::map<Node*, It> handle;

		static S str(Text const& x) { return narrow<S>(x); }
		std::vector<Node*> all() { std::vector<Node*> v; collect(&root, v); return v; }

		// how an attribute or element comes to be: by enumerated name or by string, the namespace in the constructor or set later
		static A make_attr(Attr const& a, Rng& r)
		{
			wh::attribute_name e = static_cast<wh::attribute_name>(0);
			for (auto& x : ref::all_attributes) if (a.name == x.s) e = x.e;
			bool by_enum = e != static_cast<wh::attribute_name>(0) && r.chance(1, 2);
			if (a.ns == NsNone && a.prefix.empty() && r.chance(2, 3))
				return by_enum ? A(e, str(a.value)) : A(str(a.name), str(a.value));
			if (a.ns != NsOther && r.chance(2, 3))
				return by_enum ? A(static_cast<wh::ns_name>(a.ns), str(a.prefix), e, str(a.value)) : A(static_cast<wh::ns_name>(a.ns), str(a.prefix), str(a.name), str(a.value));
			A x;
			if (a.ns == NsOther || r.chance(1, 2)) x.namespace_uri(str(ns_uris[a.ns])); else x.namespace_uri_name(static_cast<wh::ns_name>(a.ns));
			x.prefix(str(a.prefix));
			if (by_enum) x.local_name_name(e); else x.local_name(str(a.name));
			x.value(str(a.value));
			return x;
		}
		static N make(Node const& n, Rng& r)
		{
			switch (n.kind)
			{
			case Kind::Element:
			{
				wh::tag_name e = static_cast<wh::tag_name>(0);
				for (auto& x : ref::all_tags) if (n.name == x.s) e = x.e;
				bool by_enum = e != static_cast<wh::tag_name>(0) && r.chance(1, 2);
				E el;
				if (n.ns == NsHtml && n.prefix.empty() && r.chance(1, 2)) el = by_enum ? E(e) : E(str(n.name));
				else if (n.ns == NsOther || r.chance(1, 3)) el = E(str(ns_uris[n.ns]), str(n.prefix), str(n.name));
				else el = by_enum ? E(static_cast<wh::ns_name>(n.ns), str(n.prefix), e) : E(static_cast<wh::ns_name>(n.ns), str(n.prefix), str(n.name));
				std::size_t split = r.below(n.attrs.size() + 1); // some attributes on the element, some on the node
				for (std::size_t i = 0; i < split; ++i) el.push_back(make_attr(n.attrs[i], r));
				N node(std::move(el));
				for (std::size_t i = split; i < n.attrs.size(); ++i) node.push_back(make_attr(n.attrs[i], r));
				return node;
			}
			case Kind::Text: return N(typename N::text_type(str(n.data)));
			case Kind::Comment: return N(typename N::comment_type(str(n.data)));
			case Kind::PI: { typename N::processing_instruction_type p; p.target(str(n.name)); p.data(str(n.data)); return N(p); }
			case Kind::Doctype: return N(typename N::document_type_type(str(n.name), str(U"-//x"), str(U"y")));
			case Kind::Document: return N(typename N::document_type());
			default: return N(typename N::document_fragment_type());
			}
		}

		// ---- random contents
		static Text any_text(Rng& r)
		{
			static char32_t const* const bits[] = { U"&", U"<", U">", U"\"", U"'", U"\u00A0", U"a", U"b", U" ", U"\n", U"\u3042", U"\U0001F600", U"\u00E9", U"--", U"</script>", U"&amp;", U"\uFFFD", U"\uD7FF", U"\uE000", U"=", U"?>", U"\u00A1" };
			Text s;
			int n = r.chance(1, 8) ? 0 : r.chance(1, 10) ? 40 : r.range(1, 6);
			for (int i = 0; i < n; ++i) s += r.pick(bits);
			return s;
		}
		static Attr any_attr(Rng& r)
		{
			Attr a;
			a.name = r.chance(2, 3) ? Text(r.pick(attr_names).s) : r.chance(1, 2) ? Text(r.pick(ref::all_attributes).s) : Text(r.pick(free_attrs));
			if (r.chance(1, 3)) { a.ns = r.below(8); if (r.chance(2, 3)) a.prefix = r.chance(1, 2) ? U"xlink" : U"q"; }
			if (r.chance(1, 12)) a.prefix = U"q";
			a.value = any_text(r);
			return a;
		}
		static Node any_node(Rng& r, bool at_top)
		{
			Node n;
			unsigned k = r.below(at_top ? 24 : 20);
			if (k < 11)
			{
				n.kind = Kind::Element;
				n.ns = r.chance(3, 4) ? static_cast<int>(NsHtml) : static_cast<int>(r.below(8));
				unsigned c = r.below(10);
				if (c < 4) n.name = tags[r.below(first_void)].s;
				else if (c < 6) n.name = tags[first_void + r.below(first_raw - first_void)].s;
				else if (c < 8) n.name = tags[first_raw + r.below(first_other - first_raw)].s;
				else if (c < 9) n.name = tags[first_other + r.below(std::size(tags) - first_other)].s;
				else n.name = r.chance(1, 2) ? Text(r.pick(free_tags)) : Text(r.pick(ref::all_tags).s);
				if (r.chance(1, 8)) n.prefix = U"pre";
				int na = r.chance(1, 2) ? 0 : r.range(1, 4);
				while (na--) n.attrs.push_back(any_attr(r));
			}
			else if (k < 16) { n.kind = Kind::Text; n.data = any_text(r); }
			else if (k < 18) { n.kind = Kind::Comment; n.data = any_text(r); }
			else if (k < 19) { n.kind = Kind::PI; n.data = any_text(r); n.name = U"xml"; }
			else if (k < 20) { n.kind = Kind::Doctype; n.name = r.chance(1, 2) ? U"html" : U""; }
			else if (k < 22) n.kind = Kind::Document;
			else n.kind = Kind::Fragment;
			return n;
		}

		// ---- positions
		It position(Node* parent, std::size_t at)
		{
			if (at < parent->kids.size()) return handle.at(parent->kids[at].get());
			return parent->parent ? handle.at(parent).end() : t->end();
		}
		Node* add(Node* parent, std::size_t at, Node&& v, It it)
		{
			auto u = std::make_unique<Node>(std::move(v));
			u->id = next_id++; u->parent = parent;
			Node* n = u.get();
			parent->kids.insert(parent->kids.begin() + at, std::move(u));
			handle[n] = it;
			return n;
		}
		void forget(Node* n) { handle.erase(n); for (auto& k : n->kids) forget(k.get()); }
		void bind(Node* n, It it)
		{
			handle[n] = it;
			auto c = it.begin();
			for (auto& k : n->kids) { SIM_REQUIRE(c != it.end(), "shape", "a copied node lost children"); bind(k.get(), c); ++c; }
		}
		void rebind_all()
		{
			handle.clear();
			auto it = t->begin();
			for (auto& k : root.kids) { SIM_REQUIRE(it != t->end(), "shape", "a root is missing"); bind(k.get(), it); ++it; }
		}
		Node* pick_parent(Rng& r)
		{
			std::vector<Node*> v{ &root };
			for (auto* n : all()) if (!n->single()) v.push_back(n);
			if (r.chance(1, 4)) return v.back();
			if (v.size() > 1 && r.chance(1, 2)) return v[1 + r.below(v.size() - 1)];
			return v[r.below(v.size())];
		}

		// ---- the document against the model, field by field
		template <class I> void check_node(I it, Node const& n, char const* where)
		{
			N const& x = *it;
			bool ok = false;
			switch (n.kind)
			{
			case Kind::Element:
				ok = x.is_element() && x.local_name() == str(n.name) && x.namespace_uri() == str(ns_uris[n.ns]) && x.qualified_name() == str(qualified(n.prefix, n.name))
				  && static_cast<int>(x.namespace_uri_name()) == (n.ns == NsOther ? 0 : n.ns);
				break;
			case Kind::Text: ok = x.is_text() && x.data() == str(n.data); break;
			case Kind::Comment: ok = x.is_comment() && x.data() == str(n.data); break;
			case Kind::PI: ok = x.is_processing_instruction() && x.data() == str(n.data) && x.target() == str(n.name); break;
			case Kind::Doctype: ok = x.is_document_type() && x.name() == str(n.name); break;
			case Kind::Document: ok = x.is_document(); break;
			case Kind::Fragment: ok = x.type() == N::type_name::DocumentFragment; break;
			case Kind::Anchor: break;
			}
			SIM_REQUIRE(ok, "node", "%s: node %d does not hold what was stored in it", where, n.id);
			if (n.kind == Kind::Element)
			{
				auto a = x.begin();
				for (std::size_t i = 0; i < n.attrs.size(); ++i, ++a)
				{
					SIM_REQUIRE(a != x.end(), "attributes", "%s: node %d has lost attributes", where, n.id);
					Attr const& b = n.attrs[i];
					SIM_REQUIRE(a->local_name() == str(b.name) && a->namespace_uri() == str(ns_uris[b.ns]) && a->prefix() == str(b.prefix) && a->value() == str(b.value)
					            && a->qualified_name() == str(qualified(b.prefix, b.name)), "attributes", "%s: attribute %zu of node %d does not hold what was stored in it", where, i, n.id);
				}
				SIM_REQUIRE(a == x.end(), "attributes", "%s: node %d has additional attributes", where, n.id);
			}
			I c = it.begin(), e = it.end();
			for (auto& k : n.kids)
			{
				SIM_REQUIRE(c != e, "shape", "%s: node %d has lost children", where, n.id);
				SIM_REQUIRE(c.parent() == it, "shape", "%s: node %d has another parent", where, k->id);
				check_node(c, *k, where);
				++c;
			}
			SIM_REQUIRE(c == e, "shape", "%s: node %d has additional children", where, n.id);
		}
		template <class I> void serial(Node const& n, I& s, char const* where)
		{
			for (auto& k : n.kids)
			{
				SIM_REQUIRE(s != t->send() && !s.is_end_tag() && static_cast<It>(s) == handle.at(k.get()), "serial", "%s: the serial walk does not meet node %d in document order", where, k->id);
				++s;
				if (k->single()) continue;
				serial(*k, s, where);
				SIM_REQUIRE(s != t->send() && s.is_end_tag() && s.start_tag() == I(handle.at(k.get())), "serial", "%s: the serial walk does not meet the end of node %d", where, k->id);
				++s;
			}
		}
		void check_contents(char const* where)
		{
			Tree const& c = *t;
			auto it = c.begin();
			for (auto& k : root.kids)
			{
				SIM_REQUIRE(it != c.end(), "shape", "%s: a top node is missing", where);
				check_node<CIt>(it, *k, where);
				++it;
			}
			SIM_REQUIRE(it == c.end(), "shape", "%s: there are additional top nodes", where);
			if constexpr (tag)
			{
				auto s = t->sbegin();
				serial(root, s, where);
				SIM_REQUIRE(s == t->send(), "serial", "%s: the serial walk does not end with the document", where);
			}
		}

		bool may_hold_below(Node const& parent, Node const& child) { return may_hold(&parent, child); }

		// ---- one random edit; false: nothing was done
		template <class F> bool attempt(Rng& r, bool faults, char const* what, F f)
		{
			std::int64_t n = -1;
			if (faults) n = r.chance(2, 3) ? static_cast<std::int64_t>(r.below(4)) : static_cast<std::int64_t>(r.below(30));
			AllocFault af(n);
			try { f(); af.disarm(); }
			catch (std::bad_alloc const&)
			{
				af.disarm();
				SIM_REQUIRE(af.fired(), "bad-alloc", "%s: bad_alloc without a failed allocation", what);
				count("fault:alloc");
				log("%s: out of memory", what);
				return false;
			}
			return true;
		}
		bool edit(Rng& r, bool faults, std::size_t limit)
		{
			auto v = all();
			unsigned op = r.below(100);
			if (v.empty()) op = 0;
			else if (v.size() > limit && op < 45) op = 75;
			if (op < 45) // a new node
			{
				Node* p = pick_parent(r);
				Node x = new_node(r, p);
				if (!may_hold(p, x)) return false;
				std::size_t at = r.chance(1, 2) ? p->kids.size() : r.below(p->kids.size() + 1);
				N val = make(x, r);
				bool rv = r.chance(1, 2);
				log("insert kind %d %s%s below %d at %zu", int(x.kind), show(x.name).c_str(), show(x.data).c_str(), p->id, at);
				It it;
				CIt pos = position(p, at);
				if (attempt(r, faults, "insert", [&] { it = rv ? t->insert(pos, std::move(val)) : t->insert(pos, static_cast<N const&>(val)); })) { add(p, at, std::move(x), it); count("insert"); }
			}
			else if (op < 52) // an attribute more
			{
				Node* n = v[r.below(v.size())];
				if (n->kind != Kind::Element || n->attrs.size() > 8) return false;
				Attr a = new_attr(r, n, nullptr);
				A x = make_attr(a, r);
				log("attribute %s=%s for %d", show(qualified(a.prefix, a.name)).c_str(), show(a.value).c_str(), n->id);
				if (attempt(r, faults, "push_back", [&] { handle.at(n)->push_back(std::move(x)); })) { n->attrs.push_back(a); count("attribute"); }
			}
			else if (op < 60) // a changed attribute
			{
				Node* n = v[r.below(v.size())];
				if (n->kind != Kind::Element || n->attrs.empty()) return false;
				std::size_t i = r.below(n->attrs.size());
				auto a = handle.at(n)->begin() + i;
				if (r.chance(2, 3))
				{
					Text val = any_text(r);
					log("attribute %zu of %d = %s", i, n->id, show(val).c_str());
					S s = str(val);
					if (attempt(r, faults, "value", [&] { a->value(s); })) n->attrs[i].value = val;
				}
				else // renamed
				{
					Attr b = new_attr(r, n, &n->attrs[i]);
					log("attribute %zu of %d becomes %s", i, n->id, show(qualified(b.prefix, b.name)).c_str());
					A x = make_attr(b, r);
					*a = x; n->attrs[i] = b;
				}
			}
			else if (op < 66) // text edited in place
			{
				Node* n = v[r.below(v.size())];
				if (n->kind != Kind::Text && n->kind != Kind::Comment && n->kind != Kind::PI) return false;
				Text more = any_text(r);
				if (n->data.size() > 200) more.clear();
				log("append %s to %d", show(more).c_str(), n->id);
				S s = str(more);
				auto& d = handle.at(n)->data();
				if (r.chance(1, 4)) { if (attempt(r, faults, "data", [&] { d = s; })) n->data = more; }
				else if (attempt(r, faults, "data", [&] { d += s; })) n->data += more;
				count("text");
			}
			else if (op < 70) // another value in the same place
			{
				Node* n = v[r.below(v.size())];
				Node x;
				for (int i = 0; i < 20; ++i) { x = new_node(r, n->parent); if (x.single() == n->single()) break; }
				if (x.single() != n->single() || x.kind == Kind::Document || n->kind == Kind::Document || !may_hold(n->parent, x)) return false;
				for (auto& k : n->kids) if (!may_hold_below(x, *k)) return false;
				log("replace the value of %d", n->id);
				N val = make(x, r);
				*handle.at(n) = val;
				n->kind = x.kind; n->ns = x.ns; n->prefix = x.prefix; n->name = x.name; n->data = x.data; n->attrs = x.attrs;
			}
			else if (op < 84) // erase
			{
				Node* s = v[r.below(v.size())];
				for (int i = 0; i < 2; ++i) { Node* o = v[r.below(v.size())]; if (count_nodes(o) < count_nodes(s)) s = o; }
				log("erase %d with %zu nodes below", s->id, count_nodes(s));
				t->erase(handle.at(s));
				forget(s);
				s->parent->kids.erase(s->parent->kids.begin() + index(s));
				count("erase");
			}
			else if (op < 95) // move
			{
				Node* s = v[r.below(v.size())];
				Node* p = pick_parent(r);
				if (!may_hold(p, *s)) return false;
				std::size_t at = r.below(p->kids.size() + 1);
				if (inside(p, s) || (at < p->kids.size() && p->kids[at].get() == s)) return false;
				log("move %d below %d at %zu", s->id, p->id, at);
				It it;
				CIt pos = position(p, at);
				if (!attempt(r, faults, "move", [&] { it = t->move(pos, handle.at(s)); })) return true;
				std::size_t from = index(s);
				if (s->parent == p && from < at) --at;
				auto u = std::move(s->parent->kids[from]);
				s->parent->kids.erase(s->parent->kids.begin() + from);
				u->parent = p;
				p->kids.insert(p->kids.begin() + at, std::move(u));
				handle[s] = it;
				count("move");
			}
			else // continue on a copy
			{
				log("copy the document");
				std::unique_ptr<Tree> c;
				if (!attempt(r, faults, "copy", [&] { c = std::make_unique<Tree>(*t); })) return true;
				std::unique_ptr<Tree> old = std::move(t);
				t = std::move(c);
				rebind_all();
				while (old->begin() != old->end()) old->erase(old->begin());
				count("copy");
			}
			return true;
		}
	};
}
