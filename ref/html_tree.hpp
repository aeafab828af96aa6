// Reference HTML tree construction, written from the HTML Standard (13.2.6, 2020).
// Scripting is off, there is no fragment case, and a template's contents are its children.
#pragma once
#include "html_names.hpp"
#include "html_tok.hpp"

#include <algorithm>
#include <deque>
#include <initializer_list>
#include <string>
#include <string_view>
#include <vector>

namespace ref
{
	enum class Ns { None, Html, MathML, Svg, XLink, Xml, Xmlns };
	enum class Quirks { No, Limited, Yes };

	struct DomAttr { Ns ns = Ns::None; std::u32string prefix, name, value; bool operator==(DomAttr const&) const = default; };

	struct Node
	{
		enum Kind { Document, Doctype, Element, Text, Comment } kind = Element;
		Ns ns = Ns::None;
		std::u32string name;       // element or doctype name
		std::u32string data;       // text or comment data, public identifier
		std::u32string sys;
		std::vector<DomAttr> attrs;
		Node* parent = nullptr;
		std::vector<Node*> children;
	};

	class TreeBuilder
	{
	public:
		Node* document = nullptr;
		Quirks quirks = Quirks::No;
		bool disputed = false; // editions of the standard differ: </br> or </p> while the current node is foreign
		// a declared encoding: the attributes of each meta element in the order they are inserted
		std::vector<Node*> metas;
		std::vector<char const*> errors, stream_errors; // those the tokenizer reports
		std::vector<std::string> trail; // insertion modes reached, a coverage measure

		void parse(std::u32string_view input)
		{
			m_arena.clear();
			document = make(Node::Document);
			Tokenizer t;
			t.on_token = [this](Token const& k) { m_next = Mode::Keep; m_ack = false; token(k); return m_next; };
			t.acknowledged = [this] { return m_ack; };
			t.cdata = [this] { return !m_stack.empty() && cur()->ns == Ns::Html; };
			t.run(input);
			errors = std::move(t.errors);
			stream_errors = std::move(t.stream_errors);
		}
		std::uint64_t modes() const { return m_modes; }

	private:
		using Str = std::u32string;
		using SV = std::u32string_view;
		using L = std::initializer_list<SV>;
		enum class M
		{
			Initial, BeforeHtml, BeforeHead, InHead, InHeadNoscript, AfterHead, InBody, Text, InTable, InTableText, InCaption, InColumnGroup,
			InTableBody, InRow, InCell, InSelect, InSelectInTable, InTemplate, AfterBody, InFrameset, AfterFrameset, AfterAfterBody, AfterAfterFrameset
		};
		struct Entry { Node* node; Token token; }; // node is null for a marker

		std::deque<Node> m_arena;
		std::vector<Node*> m_stack;
		std::vector<Entry> m_list;
		std::vector<M> m_tmodes;
		M m_mode = M::Initial, m_orig = M::Initial;
		Node* m_head = nullptr;
		Node* m_form = nullptr;
		bool m_frameset_ok = true, m_foster = false, m_skip_lf = false;
		std::vector<Token> m_pending;
		Mode m_next = Mode::Keep;
		std::uint64_t m_modes = 0;
		bool m_stopped = false;

		// ------------------------------------------------------------------------------ helpers
		static bool in(SV s, L l) { return std::find(l.begin(), l.end(), s) != l.end(); }
		static bool is(Node const* n, SV name) { return n->ns == Ns::Html && n->name == name; }
		static bool is(Node const* n, L l) { return n->ns == Ns::Html && in(n->name, l); }
		static bool ws(Token const& t) { return t.kind == Token::Char && (t.c == U'\t' || t.c == U'\n' || t.c == U'\f' || t.c == U'\r' || t.c == U' '); }
		static bool start(Token const& t, L l) { return t.kind == Token::Start && in(t.name, l); }
		static bool end(Token const& t, L l) { return t.kind == Token::End && in(t.name, l); }
		static char32_t low(char32_t c) { return c >= U'A' && c <= U'Z' ? c + 32 : c; }
		static Str lower(Str s) { for (auto& c : s) c = low(c); return s; }
		static Str const* attr(std::vector<Attr> const& a, SV name) { for (auto const& x : a) if (x.name == name) return &x.value; return nullptr; }

		Node* make(Node::Kind k) { m_arena.emplace_back(); m_arena.back().kind = k; return &m_arena.back(); }
		Node* cur() const { return m_stack.back(); }
		void pop() { m_stack.pop_back(); }
		bool on_stack(Node const* n) const { return std::find(m_stack.begin(), m_stack.end(), n) != m_stack.end(); }
		bool on_stack(SV name) const { for (auto* n : m_stack) if (is(n, name)) return true; return false; }
		void drop(Node* n) { m_stack.erase(std::remove(m_stack.begin(), m_stack.end(), n), m_stack.end()); }
		void pop_until(SV name) { for (;;) { Node* n = cur(); pop(); if (is(n, name)) return; } }
		void pop_until(L l) { for (;;) { Node* n = cur(); pop(); if (is(n, l)) return; } }
		void pop_through(Node* x) { for (;;) { Node* n = cur(); pop(); if (n == x) return; } }

		static void detach(Node* n)
		{
			if (!n->parent) return;
			auto& c = n->parent->children;
			c.erase(std::find(c.begin(), c.end(), n));
			n->parent = nullptr;
		}
		struct Place { Node* parent; std::size_t at; };
		static void put(Place p, Node* n)
		{
			p.parent->children.insert(p.parent->children.begin() + static_cast<std::ptrdiff_t>(p.at), n);
			n->parent = p.parent;
		}
		static void append(Node* parent, Node* n) { put({ parent, parent->children.size() }, n); }

		Place place(Node* target = nullptr) const
		{
			if (!target) target = cur();
			if (m_foster && is(target, { U"table", U"tbody", U"tfoot", U"thead", U"tr" }))
			{
				std::ptrdiff_t tpl = -1, tab = -1;
				for (std::size_t i = 0; i < m_stack.size(); ++i) { if (is(m_stack[i], U"template")) tpl = static_cast<std::ptrdiff_t>(i); if (is(m_stack[i], U"table")) tab = static_cast<std::ptrdiff_t>(i); }
				if (tpl >= 0 && tpl > tab) { Node* n = m_stack[static_cast<std::size_t>(tpl)]; return { n, n->children.size() }; }
				if (tab < 0) return { m_stack[0], m_stack[0]->children.size() };
				Node* n = m_stack[static_cast<std::size_t>(tab)];
				if (n->parent)
				{
					auto const& c = n->parent->children;
					return { n->parent, static_cast<std::size_t>(std::find(c.begin(), c.end(), n) - c.begin()) };
				}
				Node* prev = m_stack[static_cast<std::size_t>(tab) - 1];
				return { prev, prev->children.size() };
			}
			return { target, target->children.size() };
		}

		Node* create(Token const& t, Ns ns, bool foreign = false)
		{
			Node* n = make(Node::Element);
			n->ns = ns;
			n->name = t.name;
			for (auto const& a : t.attrs)
			{
				DomAttr d{ Ns::None, U"", a.name, a.value };
				if (foreign) adjust(d, ns);
				n->attrs.push_back(d);
			}
			return n;
		}
		Node* insert_foreign(Token const& t, Ns ns, bool adj)
		{
			Place p = place();
			Node* n = create(t, ns, adj);
			put(p, n);
			m_stack.push_back(n);
			if (is(n, U"meta")) metas.push_back(n);
			return n;
		}
		Node* insert(Token const& t) { return insert_foreign(t, Ns::Html, false); }
		Node* insert(SV name) { Token t; t.kind = Token::Start; t.name = name; return insert(t); }
		void insert_char(char32_t c)
		{
			Place p = place();
			if (p.parent->kind == Node::Document) return;
			if (p.at > 0 && p.parent->children[p.at - 1]->kind == Node::Text) { p.parent->children[p.at - 1]->data += c; return; }
			Node* n = make(Node::Text);
			n->data = Str(1, c);
			put(p, n);
		}
		void comment_at(Place p, Token const& t) { Node* n = make(Node::Comment); n->data = t.name; put(p, n); }
		void comment(Token const& t) { comment_at(place(), t); }

		// -------------------------------------------------------------------------- categories
		static bool special(Node const* n)
		{
			if (n->ns == Ns::Html) return in(n->name, { U"address", U"applet", U"area", U"article", U"aside", U"base", U"basefont", U"bgsound", U"blockquote", U"body", U"br", U"button", U"caption", U"center", U"col", U"colgroup", U"dd", U"details", U"dir", U"div", U"dl", U"dt", U"embed", U"fieldset", U"figcaption", U"figure", U"footer", U"form", U"frame", U"frameset", U"h1", U"h2", U"h3", U"h4", U"h5", U"h6", U"head", U"header", U"hgroup", U"hr", U"html", U"iframe", U"img", U"input", U"keygen", U"li", U"link", U"listing", U"main", U"marquee", U"menu", U"meta", U"nav", U"noembed", U"noframes", U"noscript", U"object", U"ol", U"p", U"param", U"plaintext", U"pre", U"script", U"section", U"select", U"source", U"style", U"summary", U"table", U"tbody", U"td", U"template", U"textarea", U"tfoot", U"th", U"thead", U"title", U"tr", U"track", U"ul", U"wbr", U"xmp" });
			return foreign_scope(n);
		}
		static bool foreign_scope(Node const* n)
		{
			if (n->ns == Ns::MathML) return in(n->name, { U"mi", U"mo", U"mn", U"ms", U"mtext", U"annotation-xml" });
			if (n->ns == Ns::Svg) return in(n->name, { U"foreignObject", U"desc", U"title" });
			return false;
		}
		enum class Scope { Default, List, Button, Table, Select };
		static bool bounds(Node const* n, Scope s)
		{
			switch (s)
			{
			case Scope::Table: return is(n, { U"html", U"table", U"template" });
			case Scope::Select: return !is(n, { U"optgroup", U"option" });
			case Scope::List: if (is(n, { U"ol", U"ul" })) return true; break;
			case Scope::Button: if (is(n, U"button")) return true; break;
			default: break;
			}
			return foreign_scope(n) || is(n, { U"applet", U"caption", U"html", U"table", U"td", U"th", U"marquee", U"object", U"template" });
		}
		template <class F> bool scoped(F f, Scope s) const
		{
			for (auto i = m_stack.rbegin(); i != m_stack.rend(); ++i) { if (f(*i)) return true; if (bounds(*i, s)) return false; }
			return false;
		}
		bool in_scope(SV name, Scope s = Scope::Default) const { return scoped([&](Node* n) { return is(n, name); }, s); }
		bool in_scope(L l, Scope s = Scope::Default) const { return scoped([&](Node* n) { return is(n, l); }, s); }
		bool in_scope(Node* x) const { return scoped([&](Node* n) { return n == x; }, Scope::Default); }

		void insert_empty(Token const& t) { insert(t); pop(); m_ack = true; } // the self-closing flag is acknowledged
		bool m_ack = false;
		void implied(SV except = U"") { while (is(cur(), { U"dd", U"dt", U"li", U"optgroup", U"option", U"p", U"rb", U"rp", U"rt", U"rtc" }) && cur()->name != except) pop(); }
		void implied_thoroughly() { while (is(cur(), { U"caption", U"colgroup", U"dd", U"dt", U"li", U"optgroup", U"option", U"p", U"rb", U"rp", U"rt", U"rtc", U"tbody", U"td", U"tfoot", U"th", U"thead", U"tr" })) pop(); }
		void close_p() { implied(U"p"); pop_until(U"p"); }
		void close_p_if() { if (in_scope(U"p", Scope::Button)) close_p(); }

		// --------------------------------------------------------------- formatting elements
		static bool same(Node const* a, Node const* b)
		{
			return a->ns == b->ns && a->name == b->name && a->attrs.size() == b->attrs.size()
				&& std::is_permutation(a->attrs.begin(), a->attrs.end(), b->attrs.begin());
		}
		void push_format(Node* n, Token const& t)
		{
			int k = 0;
			for (std::size_t i = m_list.size(); i-- && m_list[i].node; )
				if (same(m_list[i].node, n) && ++k == 3) { m_list.erase(m_list.begin() + static_cast<std::ptrdiff_t>(i)); break; }
			m_list.push_back({ n, t });
		}
		void marker() { m_list.push_back({ nullptr, Token() }); }
		void clear_marker() { while (!m_list.empty()) { bool m = !m_list.back().node; m_list.pop_back(); if (m) return; } }
		void reconstruct()
		{
			if (m_list.empty() || !m_list.back().node || on_stack(m_list.back().node)) return;
			std::size_t i = m_list.size() - 1;
			while (i > 0 && m_list[i - 1].node && !on_stack(m_list[i - 1].node)) --i;
			for (; i < m_list.size(); ++i) m_list[i].node = insert(m_list[i].token);
		}
		std::ptrdiff_t find_list(Node const* n) const { for (std::size_t i = 0; i < m_list.size(); ++i) if (m_list[i].node == n) return static_cast<std::ptrdiff_t>(i); return -1; }
		void drop_list(Node const* n) { auto i = find_list(n); if (i >= 0) m_list.erase(m_list.begin() + i); }
		std::ptrdiff_t format_named(SV name) const
		{
			for (std::size_t i = m_list.size(); i-- && m_list[i].node; ) if (m_list[i].node->name == name) return static_cast<std::ptrdiff_t>(i);
			return -1;
		}
		std::size_t stack_at(Node const* n) const { return static_cast<std::size_t>(std::find(m_stack.begin(), m_stack.end(), n) - m_stack.begin()); }

		void adopt(Token const& t)
		{
			SV subject = t.name;
			if (is(cur(), subject) && find_list(cur()) < 0) { pop(); return; }
			for (int outer = 0; outer < 8; ++outer)
			{
				auto fi = format_named(subject);
				if (fi < 0) { any_other_end(t); return; }
				Node* fe = m_list[static_cast<std::size_t>(fi)].node;
				Token ftoken = m_list[static_cast<std::size_t>(fi)].token;
				if (!on_stack(fe)) { drop_list(fe); return; }
				if (!in_scope(fe)) return;
				std::size_t fs = stack_at(fe), b = fs + 1;
				while (b < m_stack.size() && !special(m_stack[b])) ++b;
				if (b == m_stack.size()) { pop_through(fe); drop_list(fe); return; }
				Node* block = m_stack[b];
				Node* ancestor = m_stack[fs - 1];
				std::ptrdiff_t bookmark = fi; // index into m_list where the new entry goes, counting fe
				Node* last = block;
				std::size_t ni = b;
				for (int inner = 1; ; ++inner)
				{
					--ni;
					Node* node = m_stack[ni];
					if (node == fe) break;
					auto li = find_list(node);
					if (inner > 3 && li >= 0)
					{
						m_list.erase(m_list.begin() + li);
						if (li < bookmark) --bookmark;
						li = -1;
					}
					if (li < 0) { m_stack.erase(m_stack.begin() + static_cast<std::ptrdiff_t>(ni)); continue; }
					Node* n = create(m_list[static_cast<std::size_t>(li)].token, Ns::Html);
					m_list[static_cast<std::size_t>(li)].node = n;
					m_stack[ni] = n;
					if (last == block) bookmark = li + 1;
					detach(last);
					append(n, last);
					last = n;
				}
				detach(last);
				put(place(ancestor), last);
				Node* n = create(ftoken, Ns::Html);
				for (Node* c : block->children) { c->parent = n; n->children.push_back(c); }
				block->children.clear();
				append(block, n);
				auto now = find_list(fe);
				m_list.erase(m_list.begin() + now);
				if (now < bookmark) --bookmark;
				m_list.insert(m_list.begin() + bookmark, { n, ftoken });
				drop(fe);
				m_stack.insert(m_stack.begin() + static_cast<std::ptrdiff_t>(stack_at(block)) + 1, n);
			}
		}
		void any_other_end(Token const& t)
		{
			for (std::size_t i = m_stack.size(); i--; )
			{
				Node* n = m_stack[i];
				if (is(n, t.name)) { implied(t.name); pop_through(n); return; }
				if (special(n)) return;
			}
		}

		void reset_mode()
		{
			for (std::size_t i = m_stack.size(); i--; )
			{
				Node* n = m_stack[i];
				bool last = i == 0;
				if (is(n, U"select"))
				{
					for (std::size_t j = i; j > 0; )
					{
						--j;
						if (is(m_stack[j], U"template")) break;
						if (is(m_stack[j], U"table")) { m_mode = M::InSelectInTable; return; }
					}
					m_mode = M::InSelect;
					return;
				}
				if (is(n, { U"td", U"th" }) && !last) { m_mode = M::InCell; return; }
				if (is(n, U"tr")) { m_mode = M::InRow; return; }
				if (is(n, { U"tbody", U"thead", U"tfoot" })) { m_mode = M::InTableBody; return; }
				if (is(n, U"caption")) { m_mode = M::InCaption; return; }
				if (is(n, U"colgroup")) { m_mode = M::InColumnGroup; return; }
				if (is(n, U"table")) { m_mode = M::InTable; return; }
				if (is(n, U"template")) { m_mode = m_tmodes.back(); return; }
				if (is(n, U"head") && !last) { m_mode = M::InHead; return; }
				if (is(n, U"body")) { m_mode = M::InBody; return; }
				if (is(n, U"frameset")) { m_mode = M::InFrameset; return; }
				if (is(n, U"html")) { m_mode = m_head ? M::AfterHead : M::BeforeHead; return; }
			}
			m_mode = M::InBody;
		}

		// --------------------------------------------------------------------------- dispatch
		static bool math_point(Node const* n) { return n->ns == Ns::MathML && in(n->name, { U"mi", U"mo", U"mn", U"ms", U"mtext" }); }
		static bool html_point(Node const* n)
		{
			if (n->ns == Ns::Svg) return in(n->name, { U"foreignObject", U"desc", U"title" });
			if (n->ns != Ns::MathML || n->name != U"annotation-xml") return false;
			for (auto const& a : n->attrs) if (a.ns == Ns::None && a.name == U"encoding") { Str v = lower(a.value); return v == U"text/html" || v == U"application/xhtml+xml"; }
			return false;
		}
		void token(Token const& t)
		{
			if (m_stopped) return;
			if (m_skip_lf) { m_skip_lf = false; if (t.kind == Token::Char && t.c == U'\n') return; }
			dispatch(t);
		}
		void dispatch(Token const& t)
		{
			m_modes |= 1ull << static_cast<int>(m_mode);
			if (m_stack.empty() || t.kind == Token::Eof) { run(m_mode, t); return; }
			Node* n = cur();
			bool ch = t.kind == Token::Char, st = t.kind == Token::Start;
			if (n->ns == Ns::Html
				|| (math_point(n) && (ch || (st && t.name != U"mglyph" && t.name != U"malignmark")))
				|| (n->ns == Ns::MathML && n->name == U"annotation-xml" && st && t.name == U"svg")
				|| (html_point(n) && (st || ch))) run(m_mode, t);
			else { m_modes |= 1ull << 40; if (t.kind == Token::End && in(t.name, { U"br", U"p" })) disputed = true; foreign(t); }
		}
		void run(M m, Token const& t)
		{
			switch (m)
			{
			case M::Initial: initial(t); break;
			case M::BeforeHtml: before_html(t); break;
			case M::BeforeHead: before_head(t); break;
			case M::InHead: in_head(t); break;
			case M::InHeadNoscript: in_head_noscript(t); break;
			case M::AfterHead: after_head(t); break;
			case M::InBody: in_body(t); break;
			case M::Text: text(t); break;
			case M::InTable: in_table(t); break;
			case M::InTableText: in_table_text(t); break;
			case M::InCaption: in_caption(t); break;
			case M::InColumnGroup: in_column_group(t); break;
			case M::InTableBody: in_table_body(t); break;
			case M::InRow: in_row(t); break;
			case M::InCell: in_cell(t); break;
			case M::InSelect: in_select(t); break;
			case M::InSelectInTable: in_select_in_table(t); break;
			case M::InTemplate: in_template(t); break;
			case M::AfterBody: after_body(t); break;
			case M::InFrameset: in_frameset(t); break;
			case M::AfterFrameset: after_frameset(t); break;
			case M::AfterAfterBody: after_after_body(t); break;
			case M::AfterAfterFrameset: after_after_frameset(t); break;
			}
		}
		void stop() { m_stopped = true; }
		void go(M m, Token const& t) { m_mode = m; dispatch(t); }

		static bool starts_ci(SV s, SV p) { if (s.size() < p.size()) return false; for (std::size_t i = 0; i < p.size(); ++i) if (low(s[i]) != low(p[i])) return false; return true; }
		static bool eq_ci(SV s, SV p) { return s.size() == p.size() && starts_ci(s, p); }

		void initial(Token const& t)
		{
			if (ws(t)) return;
			if (t.kind == Token::Comment) { comment_at({ document, document->children.size() }, t); return; }
			if (t.kind == Token::Doctype)
			{
				Node* n = make(Node::Doctype);
				n->name = t.name;
				n->data = t.pub;
				n->sys = t.sys;
				append(document, n);
				bool q = t.flag || t.name != U"html"
					|| eq_ci(t.pub, U"-//W3O//DTD W3 HTML Strict 3.0//EN//") || eq_ci(t.pub, U"-/W3C/DTD HTML 4.0 Transitional/EN") || eq_ci(t.pub, U"HTML")
					|| eq_ci(t.sys, U"http://www.ibm.com/data/dtd/v11/ibmxhtml1-transitional.dtd");
				for (SV p : quirky_public_ids) if (starts_ci(t.pub, p)) q = true;
				bool html401 = starts_ci(t.pub, U"-//W3C//DTD HTML 4.01 Frameset//") || starts_ci(t.pub, U"-//W3C//DTD HTML 4.01 Transitional//");
				if (t.sys.empty() && html401) q = true;
				if (q) quirks = Quirks::Yes;
				else if (starts_ci(t.pub, U"-//W3C//DTD XHTML 1.0 Frameset//") || starts_ci(t.pub, U"-//W3C//DTD XHTML 1.0 Transitional//") || (!t.sys.empty() && html401)) quirks = Quirks::Limited;
				m_mode = M::BeforeHtml;
				return;
			}
			quirks = Quirks::Yes;
			go(M::BeforeHtml, t);
		}
		void before_html(Token const& t)
		{
			if (t.kind == Token::Doctype || ws(t)) return;
			if (t.kind == Token::Comment) { comment_at({ document, document->children.size() }, t); return; }
			if (t.kind == Token::End && !in(t.name, { U"head", U"body", U"html", U"br" })) return;
			bool given = start(t, { U"html" });
			Token h;
			h.kind = Token::Start;
			h.name = U"html";
			Node* n = create(given ? t : h, Ns::Html);
			append(document, n);
			m_stack.push_back(n);
			m_mode = M::BeforeHead;
			if (!given) dispatch(t);
		}
		void before_head(Token const& t)
		{
			if (ws(t) || t.kind == Token::Doctype) return;
			if (t.kind == Token::Comment) { comment(t); return; }
			if (start(t, { U"html" })) { in_body(t); return; }
			if (start(t, { U"head" })) { m_head = insert(t); m_mode = M::InHead; return; }
			if (t.kind == Token::End && !in(t.name, { U"head", U"body", U"html", U"br" })) return;
			m_head = insert(U"head");
			go(M::InHead, t);
		}
		void raw(Token const& t, Mode m) { insert(t); m_next = m; m_orig = m_mode; m_mode = M::Text; }
		void in_head(Token const& t)
		{
			if (ws(t)) { insert_char(t.c); return; }
			if (t.kind == Token::Comment) { comment(t); return; }
			if (t.kind == Token::Doctype) return;
			if (start(t, { U"html" })) { in_body(t); return; }
			if (start(t, { U"base", U"basefont", U"bgsound", U"link", U"meta" })) { insert_empty(t); return; }
			if (start(t, { U"title" })) { raw(t, Mode::Rcdata); return; }
			if (start(t, { U"noframes", U"style" })) { raw(t, Mode::Rawtext); return; }
			if (start(t, { U"noscript" })) { insert(t); m_mode = M::InHeadNoscript; return; }
			if (start(t, { U"script" })) { raw(t, Mode::Script); return; }
			if (end(t, { U"head" })) { pop(); m_mode = M::AfterHead; return; }
			if (start(t, { U"template" })) { insert(t); marker(); m_frameset_ok = false; m_mode = M::InTemplate; m_tmodes.push_back(M::InTemplate); return; }
			if (end(t, { U"template" }))
			{
				if (!on_stack(U"template")) return;
				implied_thoroughly();
				pop_until(U"template");
				clear_marker();
				m_tmodes.pop_back();
				reset_mode();
				return;
			}
			if (start(t, { U"head" }) || (t.kind == Token::End && !in(t.name, { U"body", U"html", U"br" }))) return;
			pop();
			go(M::AfterHead, t);
		}
		void in_head_noscript(Token const& t)
		{
			if (t.kind == Token::Doctype) return;
			if (start(t, { U"html" })) { in_body(t); return; }
			if (end(t, { U"noscript" })) { pop(); m_mode = M::InHead; return; }
			if (ws(t) || t.kind == Token::Comment || start(t, { U"basefont", U"bgsound", U"link", U"meta", U"noframes", U"style" })) { in_head(t); return; }
			if (start(t, { U"head", U"noscript" }) || (t.kind == Token::End && t.name != U"br")) return;
			pop();
			go(M::InHead, t);
		}
		void after_head(Token const& t)
		{
			if (ws(t)) { insert_char(t.c); return; }
			if (t.kind == Token::Comment) { comment(t); return; }
			if (t.kind == Token::Doctype) return;
			if (start(t, { U"html" })) { in_body(t); return; }
			if (start(t, { U"body" })) { insert(t); m_frameset_ok = false; m_mode = M::InBody; return; }
			if (start(t, { U"frameset" })) { insert(t); m_mode = M::InFrameset; return; }
			if (start(t, { U"base", U"basefont", U"bgsound", U"link", U"meta", U"noframes", U"script", U"style", U"template", U"title" }))
			{
				m_stack.push_back(m_head);
				in_head(t);
				drop(m_head);
				return;
			}
			if (end(t, { U"template" })) { in_head(t); return; }
			if (start(t, { U"head" }) || (t.kind == Token::End && !in(t.name, { U"body", U"html", U"br" }))) return;
			insert(U"body");
			go(M::InBody, t);
		}
		void merge(Token const& t, Node* n)
		{
			for (auto const& a : t.attrs)
				if (std::none_of(n->attrs.begin(), n->attrs.end(), [&](DomAttr const& d) { return d.ns == Ns::None && d.name == a.name; })) n->attrs.push_back({ Ns::None, U"", a.name, a.value });
		}
		void li_like(Token const& t, L names)
		{
			m_frameset_ok = false;
			for (std::size_t i = m_stack.size(); i--; )
			{
				Node* n = m_stack[i];
				if (is(n, names)) { SV name = n->name; implied(name); pop_until(name); break; }
				if (special(n) && !is(n, { U"address", U"div", U"p" })) break;
			}
			close_p_if();
			insert(t);
		}
		void in_body(Token const& t)
		{
			if (t.kind == Token::Char)
			{
				if (t.c == 0) return;
				reconstruct();
				insert_char(t.c);
				if (!ws(t)) m_frameset_ok = false;
				return;
			}
			if (t.kind == Token::Comment) { comment(t); return; }
			if (t.kind == Token::Doctype) return;
			if (t.kind == Token::Eof) { if (!m_tmodes.empty()) in_template(t); else stop(); return; }
			if (t.kind == Token::Start) body_start(t); else body_end(t);
		}
		void body_start(Token const& t)
		{
			SV n = t.name;
			if (n == U"html") { if (!on_stack(U"template")) merge(t, m_stack[0]); return; }
			if (in(n, { U"base", U"basefont", U"bgsound", U"link", U"meta", U"noframes", U"script", U"style", U"template", U"title" })) { in_head(t); return; }
			if (n == U"body")
			{
				if (m_stack.size() == 1 || !is(m_stack[1], U"body") || on_stack(U"template")) return;
				m_frameset_ok = false;
				merge(t, m_stack[1]);
				return;
			}
			if (n == U"frameset")
			{
				if (m_stack.size() == 1 || !is(m_stack[1], U"body") || !m_frameset_ok) return;
				detach(m_stack[1]);
				m_stack.resize(1);
				insert(t);
				m_mode = M::InFrameset;
				return;
			}
			if (in(n, { U"address", U"article", U"aside", U"blockquote", U"center", U"details", U"dialog", U"dir", U"div", U"dl", U"fieldset", U"figcaption", U"figure", U"footer", U"header", U"hgroup", U"main", U"menu", U"nav", U"ol", U"p", U"section", U"summary", U"ul" })) { close_p_if(); insert(t); return; }
			if (in(n, { U"h1", U"h2", U"h3", U"h4", U"h5", U"h6" })) { close_p_if(); if (is(cur(), { U"h1", U"h2", U"h3", U"h4", U"h5", U"h6" })) pop(); insert(t); return; }
			if (in(n, { U"pre", U"listing" })) { close_p_if(); insert(t); m_skip_lf = true; m_frameset_ok = false; return; }
			if (n == U"form")
			{
				bool tpl = on_stack(U"template");
				if (m_form && !tpl) return;
				close_p_if();
				Node* f = insert(t);
				if (!tpl) m_form = f;
				return;
			}
			if (n == U"li") { li_like(t, { U"li" }); return; }
			if (in(n, { U"dd", U"dt" })) { li_like(t, { U"dd", U"dt" }); return; }
			if (n == U"plaintext") { close_p_if(); insert(t); m_next = Mode::Plaintext; return; }
			if (n == U"button")
			{
				if (in_scope(U"button")) { implied(); pop_until(U"button"); }
				reconstruct();
				insert(t);
				m_frameset_ok = false;
				return;
			}
			if (n == U"a")
			{
				auto i = format_named(U"a");
				if (i >= 0)
				{
					Node* a = m_list[static_cast<std::size_t>(i)].node;
					adopt(t);
					drop_list(a);
					drop(a);
				}
				reconstruct();
				push_format(insert(t), t);
				return;
			}
			if (in(n, { U"b", U"big", U"code", U"em", U"font", U"i", U"s", U"small", U"strike", U"strong", U"tt", U"u" })) { reconstruct(); push_format(insert(t), t); return; }
			if (n == U"nobr")
			{
				reconstruct();
				if (in_scope(U"nobr")) { adopt(t); reconstruct(); }
				push_format(insert(t), t);
				return;
			}
			if (in(n, { U"applet", U"marquee", U"object" })) { reconstruct(); insert(t); marker(); m_frameset_ok = false; return; }
			if (n == U"table") { if (quirks != Quirks::Yes) close_p_if(); insert(t); m_frameset_ok = false; m_mode = M::InTable; return; }
			if (in(n, { U"area", U"br", U"embed", U"img", U"keygen", U"wbr" })) { reconstruct(); insert_empty(t); m_frameset_ok = false; return; }
			if (n == U"input")
			{
				reconstruct();
				insert_empty(t);
				Str const* v = attr(t.attrs, U"type");
				if (!v || lower(*v) != U"hidden") m_frameset_ok = false;
				return;
			}
			if (in(n, { U"param", U"source", U"track" })) { insert_empty(t); return; }
			if (n == U"hr") { close_p_if(); insert_empty(t); m_frameset_ok = false; return; }
			if (n == U"image") { Token x = t; x.name = U"img"; dispatch(x); return; }
			if (n == U"textarea") { insert(t); m_skip_lf = true; m_next = Mode::Rcdata; m_orig = m_mode; m_frameset_ok = false; m_mode = M::Text; return; }
			if (n == U"xmp") { close_p_if(); reconstruct(); m_frameset_ok = false; raw(t, Mode::Rawtext); return; }
			if (n == U"iframe") { m_frameset_ok = false; raw(t, Mode::Rawtext); return; }
			if (n == U"noembed") { raw(t, Mode::Rawtext); return; }
			if (n == U"select")
			{
				reconstruct();
				insert(t);
				m_frameset_ok = false;
				bool table = m_mode == M::InTable || m_mode == M::InCaption || m_mode == M::InTableBody || m_mode == M::InRow || m_mode == M::InCell;
				m_mode = table ? M::InSelectInTable : M::InSelect;
				return;
			}
			if (in(n, { U"optgroup", U"option" })) { if (is(cur(), U"option")) pop(); reconstruct(); insert(t); return; }
			if (in(n, { U"rb", U"rtc" })) { if (in_scope(U"ruby")) implied(); insert(t); return; }
			if (in(n, { U"rp", U"rt" })) { if (in_scope(U"ruby")) implied(U"rtc"); insert(t); return; }
			if (n == U"math" || n == U"svg")
			{
				reconstruct();
				insert_foreign(t, n == U"math" ? Ns::MathML : Ns::Svg, true);
				if (t.flag) { pop(); m_ack = true; }
				return;
			}
			if (in(n, { U"caption", U"col", U"colgroup", U"frame", U"head", U"tbody", U"td", U"tfoot", U"th", U"thead", U"tr" })) return;
			reconstruct();
			insert(t);
		}
		void body_end(Token const& t)
		{
			SV n = t.name;
			if (n == U"template") { in_head(t); return; }
			if (n == U"body") { if (in_scope(U"body")) m_mode = M::AfterBody; return; }
			if (n == U"html") { if (in_scope(U"body")) go(M::AfterBody, t); return; }
			if (in(n, { U"address", U"article", U"aside", U"blockquote", U"button", U"center", U"details", U"dialog", U"dir", U"div", U"dl", U"fieldset", U"figcaption", U"figure", U"footer", U"header", U"hgroup", U"listing", U"main", U"menu", U"nav", U"ol", U"pre", U"section", U"summary", U"ul" }))
			{
				if (in_scope(n)) { implied(); pop_until(n); }
				return;
			}
			if (n == U"form")
			{
				if (!on_stack(U"template"))
				{
					Node* f = m_form;
					m_form = nullptr;
					if (!f || !in_scope(f)) return;
					implied();
					drop(f);
				}
				else if (in_scope(U"form")) { implied(); pop_until(U"form"); }
				return;
			}
			if (n == U"p") { if (!in_scope(U"p", Scope::Button)) insert(U"p"); close_p(); return; }
			if (n == U"li") { if (in_scope(U"li", Scope::List)) { implied(U"li"); pop_until(U"li"); } return; }
			if (in(n, { U"dd", U"dt" })) { if (in_scope(n)) { implied(n); pop_until(n); } return; }
			if (in(n, { U"h1", U"h2", U"h3", U"h4", U"h5", U"h6" })) { L h = { U"h1", U"h2", U"h3", U"h4", U"h5", U"h6" }; if (in_scope(h)) { implied(); pop_until(h); } return; }
			if (in(n, { U"a", U"b", U"big", U"code", U"em", U"font", U"i", U"nobr", U"s", U"small", U"strike", U"strong", U"tt", U"u" })) { adopt(t); return; }
			if (in(n, { U"applet", U"marquee", U"object" })) { if (in_scope(n)) { implied(); pop_until(n); clear_marker(); } return; }
			if (n == U"br") { Token x; x.kind = Token::Start; x.name = U"br"; body_start(x); return; }
			any_other_end(t);
		}
		void text(Token const& t)
		{
			if (t.kind == Token::Char) { insert_char(t.c); return; }
			pop();
			m_mode = m_orig;
			if (t.kind == Token::Eof) dispatch(t);
		}
		void back_to_table() { while (!is(cur(), { U"table", U"template", U"html" })) pop(); }
		void back_to_body() { while (!is(cur(), { U"tbody", U"tfoot", U"thead", U"template", U"html" })) pop(); }
		void back_to_row() { while (!is(cur(), { U"tr", U"template", U"html" })) pop(); }
		void table_else(Token const& t) { m_foster = true; in_body(t); m_foster = false; }
		void in_table(Token const& t)
		{
			if (t.kind == Token::Char && is(cur(), { U"table", U"tbody", U"tfoot", U"thead", U"tr" })) { m_pending.clear(); m_orig = m_mode; go(M::InTableText, t); return; }
			if (t.kind == Token::Comment) { comment(t); return; }
			if (t.kind == Token::Doctype) return;
			if (start(t, { U"caption" })) { back_to_table(); marker(); insert(t); m_mode = M::InCaption; return; }
			if (start(t, { U"colgroup" })) { back_to_table(); insert(t); m_mode = M::InColumnGroup; return; }
			if (start(t, { U"col" })) { back_to_table(); insert(U"colgroup"); go(M::InColumnGroup, t); return; }
			if (start(t, { U"tbody", U"tfoot", U"thead" })) { back_to_table(); insert(t); m_mode = M::InTableBody; return; }
			if (start(t, { U"td", U"th", U"tr" })) { back_to_table(); insert(U"tbody"); go(M::InTableBody, t); return; }
			if (start(t, { U"table" })) { if (!in_scope(U"table", Scope::Table)) return; pop_until(U"table"); reset_mode(); dispatch(t); return; }
			if (end(t, { U"table" })) { if (!in_scope(U"table", Scope::Table)) return; pop_until(U"table"); reset_mode(); return; }
			if (end(t, { U"body", U"caption", U"col", U"colgroup", U"html", U"tbody", U"td", U"tfoot", U"th", U"thead", U"tr" })) return;
			if (start(t, { U"style", U"script", U"template" }) || end(t, { U"template" })) { in_head(t); return; }
			if (start(t, { U"input" })) { Str const* v = attr(t.attrs, U"type"); if (v && lower(*v) == U"hidden") { insert_empty(t); return; } }
			if (start(t, { U"form" }))
			{
				if (on_stack(U"template") || m_form) return;
				m_form = insert(t);
				pop();
				return;
			}
			if (t.kind == Token::Eof) { in_body(t); return; }
			table_else(t);
		}
		void in_table_text(Token const& t)
		{
			if (t.kind == Token::Char) { if (t.c != 0) m_pending.push_back(t); return; }
			bool odd = std::any_of(m_pending.begin(), m_pending.end(), [](Token const& x) { return !ws(x); });
			for (auto const& x : m_pending) { if (odd) table_else(x); else insert_char(x.c); }
			m_pending.clear();
			go(m_orig, t);
		}
		void in_caption(Token const& t)
		{
			bool close = end(t, { U"caption" });
			bool other = start(t, { U"caption", U"col", U"colgroup", U"tbody", U"td", U"tfoot", U"th", U"thead", U"tr" }) || end(t, { U"table" });
			if (close || other)
			{
				if (!in_scope(U"caption", Scope::Table)) return;
				implied();
				pop_until(U"caption");
				clear_marker();
				m_mode = M::InTable;
				if (other) dispatch(t);
				return;
			}
			if (end(t, { U"body", U"col", U"colgroup", U"html", U"tbody", U"td", U"tfoot", U"th", U"thead", U"tr" })) return;
			in_body(t);
		}
		void in_column_group(Token const& t)
		{
			if (ws(t)) { insert_char(t.c); return; }
			if (t.kind == Token::Comment) { comment(t); return; }
			if (t.kind == Token::Doctype) return;
			if (start(t, { U"html" })) { in_body(t); return; }
			if (start(t, { U"col" })) { insert_empty(t); return; }
			if (end(t, { U"colgroup" })) { if (!is(cur(), U"colgroup")) return; pop(); m_mode = M::InTable; return; }
			if (end(t, { U"col" })) return;
			if (start(t, { U"template" }) || end(t, { U"template" })) { in_head(t); return; }
			if (t.kind == Token::Eof) { in_body(t); return; }
			if (!is(cur(), U"colgroup")) return;
			pop();
			go(M::InTable, t);
		}
		void in_table_body(Token const& t)
		{
			if (start(t, { U"tr" })) { back_to_body(); insert(t); m_mode = M::InRow; return; }
			if (start(t, { U"th", U"td" })) { back_to_body(); insert(U"tr"); go(M::InRow, t); return; }
			if (end(t, { U"tbody", U"tfoot", U"thead" })) { if (!in_scope(t.name, Scope::Table)) return; back_to_body(); pop(); m_mode = M::InTable; return; }
			if (start(t, { U"caption", U"col", U"colgroup", U"tbody", U"tfoot", U"thead" }) || end(t, { U"table" }))
			{
				if (!in_scope({ U"tbody", U"thead", U"tfoot" }, Scope::Table)) return;
				back_to_body();
				pop();
				go(M::InTable, t);
				return;
			}
			if (end(t, { U"body", U"caption", U"col", U"colgroup", U"html", U"td", U"th", U"tr" })) return;
			in_table(t);
		}
		void in_row(Token const& t)
		{
			if (start(t, { U"th", U"td" })) { back_to_row(); insert(t); m_mode = M::InCell; marker(); return; }
			bool close = end(t, { U"tr" });
			bool other = start(t, { U"caption", U"col", U"colgroup", U"tbody", U"tfoot", U"thead", U"tr" }) || end(t, { U"table" });
			bool group = end(t, { U"tbody", U"tfoot", U"thead" });
			if (close || other || group)
			{
				if (group && !in_scope(t.name, Scope::Table)) return;
				if (!in_scope(U"tr", Scope::Table)) return;
				back_to_row();
				pop();
				m_mode = M::InTableBody;
				if (!close) dispatch(t);
				return;
			}
			if (end(t, { U"body", U"caption", U"col", U"colgroup", U"html", U"td", U"th" })) return;
			in_table(t);
		}
		void close_cell() { implied(); pop_until({ U"td", U"th" }); clear_marker(); m_mode = M::InRow; }
		void in_cell(Token const& t)
		{
			if (end(t, { U"td", U"th" })) { if (!in_scope(t.name, Scope::Table)) return; implied(); pop_until(t.name); clear_marker(); m_mode = M::InRow; return; }
			if (start(t, { U"caption", U"col", U"colgroup", U"tbody", U"td", U"tfoot", U"th", U"thead", U"tr" })) { if (!in_scope({ U"td", U"th" }, Scope::Table)) return; close_cell(); dispatch(t); return; }
			if (end(t, { U"body", U"caption", U"col", U"colgroup", U"html" })) return;
			if (end(t, { U"table", U"tbody", U"tfoot", U"thead", U"tr" })) { if (!in_scope(t.name, Scope::Table)) return; close_cell(); dispatch(t); return; }
			in_body(t);
		}
		void in_select(Token const& t)
		{
			if (t.kind == Token::Char) { if (t.c != 0) insert_char(t.c); return; }
			if (t.kind == Token::Comment) { comment(t); return; }
			if (t.kind == Token::Doctype) return;
			if (start(t, { U"html" })) { in_body(t); return; }
			if (start(t, { U"option" })) { if (is(cur(), U"option")) pop(); insert(t); return; }
			if (start(t, { U"optgroup" })) { if (is(cur(), U"option")) pop(); if (is(cur(), U"optgroup")) pop(); insert(t); return; }
			if (end(t, { U"optgroup" }))
			{
				if (is(cur(), U"option") && m_stack.size() > 1 && is(m_stack[m_stack.size() - 2], U"optgroup")) pop();
				if (is(cur(), U"optgroup")) pop();
				return;
			}
			if (end(t, { U"option" })) { if (is(cur(), U"option")) pop(); return; }
			if (end(t, { U"select" }) || start(t, { U"select" })) { if (!in_scope(U"select", Scope::Select)) return; pop_until(U"select"); reset_mode(); return; }
			if (start(t, { U"input", U"keygen", U"textarea" })) { if (!in_scope(U"select", Scope::Select)) return; pop_until(U"select"); reset_mode(); dispatch(t); return; }
			if (start(t, { U"script", U"template" }) || end(t, { U"template" })) { in_head(t); return; }
			if (t.kind == Token::Eof) in_body(t);
		}
		void in_select_in_table(Token const& t)
		{
			L names = { U"caption", U"table", U"tbody", U"tfoot", U"thead", U"tr", U"td", U"th" };
			if (start(t, names) || end(t, names))
			{
				if (t.kind == Token::End && !in_scope(t.name, Scope::Table)) return;
				pop_until(U"select");
				reset_mode();
				dispatch(t);
				return;
			}
			in_select(t);
		}
		void in_template(Token const& t)
		{
			if (t.kind == Token::Char || t.kind == Token::Comment || t.kind == Token::Doctype) { in_body(t); return; }
			if (start(t, { U"base", U"basefont", U"bgsound", U"link", U"meta", U"noframes", U"script", U"style", U"template", U"title" }) || end(t, { U"template" })) { in_head(t); return; }
			if (t.kind == Token::End) return;
			if (t.kind == Token::Eof)
			{
				if (!on_stack(U"template")) { stop(); return; }
				pop_until(U"template");
				clear_marker();
				m_tmodes.pop_back();
				reset_mode();
				dispatch(t);
				return;
			}
			M m = M::InBody;
			if (in(t.name, { U"caption", U"colgroup", U"tbody", U"tfoot", U"thead" })) m = M::InTable;
			else if (t.name == U"col") m = M::InColumnGroup;
			else if (t.name == U"tr") m = M::InTableBody;
			else if (in(t.name, { U"td", U"th" })) m = M::InRow;
			m_tmodes.back() = m;
			go(m, t);
		}
		void after_body(Token const& t)
		{
			if (ws(t) || start(t, { U"html" })) { in_body(t); return; }
			if (t.kind == Token::Comment) { comment_at({ m_stack[0], m_stack[0]->children.size() }, t); return; }
			if (t.kind == Token::Doctype) return;
			if (end(t, { U"html" })) { m_mode = M::AfterAfterBody; return; }
			if (t.kind == Token::Eof) { stop(); return; }
			go(M::InBody, t);
		}
		void in_frameset(Token const& t)
		{
			if (ws(t)) insert_char(t.c);
			else if (t.kind == Token::Comment) comment(t);
			else if (start(t, { U"html" })) in_body(t);
			else if (start(t, { U"frameset" })) insert(t);
			else if (end(t, { U"frameset" })) { if (m_stack.size() > 1) { pop(); if (!is(cur(), U"frameset")) m_mode = M::AfterFrameset; } }
			else if (start(t, { U"frame" })) { insert_empty(t); }
			else if (start(t, { U"noframes" })) in_head(t);
			else if (t.kind == Token::Eof) stop();
		}
		void after_frameset(Token const& t)
		{
			if (ws(t)) insert_char(t.c);
			else if (t.kind == Token::Comment) comment(t);
			else if (start(t, { U"html" })) in_body(t);
			else if (end(t, { U"html" })) m_mode = M::AfterAfterFrameset;
			else if (start(t, { U"noframes" })) in_head(t);
			else if (t.kind == Token::Eof) stop();
		}
		void after_after_body(Token const& t)
		{
			if (t.kind == Token::Comment) comment_at({ document, document->children.size() }, t);
			else if (t.kind == Token::Doctype || ws(t) || start(t, { U"html" })) in_body(t);
			else if (t.kind == Token::Eof) stop();
			else go(M::InBody, t);
		}
		void after_after_frameset(Token const& t)
		{
			if (t.kind == Token::Comment) comment_at({ document, document->children.size() }, t);
			else if (t.kind == Token::Doctype || ws(t) || start(t, { U"html" })) in_body(t);
			else if (t.kind == Token::Eof) stop();
			else if (start(t, { U"noframes" })) in_head(t);
		}

		// --------------------------------------------------------------------- foreign content
		static void adjust(DomAttr& d, Ns ns)
		{
			if (ns == Ns::MathML && d.name == U"definitionurl") d.name = U"definitionURL";
			if (ns == Ns::Svg)
			{
				for (SV n : svg_attribute_names) if (lower(Str(n)) == d.name) { d.name = n; break; }
			}
			static SV const xlink[] = { U"xlink:actuate", U"xlink:arcrole", U"xlink:href", U"xlink:role", U"xlink:show", U"xlink:title", U"xlink:type" };
			for (SV n : xlink) if (d.name == n) { d = { Ns::XLink, U"xlink", Str(n.substr(6)), d.value }; return; }
			if (d.name == U"xml:lang") d = { Ns::Xml, U"xml", U"lang", d.value };
			else if (d.name == U"xml:space") d = { Ns::Xml, U"xml", U"space", d.value };
			else if (d.name == U"xmlns") d = { Ns::Xmlns, U"", U"xmlns", d.value };
			else if (d.name == U"xmlns:xlink") d = { Ns::Xmlns, U"xmlns", U"xlink", d.value };
		}
		static Str svg_name(Str const& s)
		{
			for (SV n : svg_tag_names) if (lower(Str(n)) == s) return Str(n);
			return s;
		}
		void foreign(Token const& t)
		{
			if (t.kind == Token::Char)
			{
				insert_char(t.c ? t.c : U'\ufffd');
				if (t.c && !ws(t)) m_frameset_ok = false;
				return;
			}
			if (t.kind == Token::Comment) { comment(t); return; }
			if (t.kind == Token::Doctype) return;
			if (t.kind == Token::Start)
			{
				bool out = in(t.name, { U"b", U"big", U"blockquote", U"body", U"br", U"center", U"code", U"dd", U"div", U"dl", U"dt", U"em", U"embed", U"h1", U"h2", U"h3", U"h4", U"h5", U"h6", U"head", U"hr", U"i", U"img", U"li", U"listing", U"menu", U"meta", U"nobr", U"ol", U"p", U"pre", U"ruby", U"s", U"small", U"span", U"strong", U"strike", U"sub", U"sup", U"table", U"tt", U"u", U"ul", U"var" })
					|| (t.name == U"font" && (attr(t.attrs, U"color") || attr(t.attrs, U"face") || attr(t.attrs, U"size")));
				if (out)
				{
					do pop(); while (!math_point(cur()) && !html_point(cur()) && cur()->ns != Ns::Html);
					dispatch(t);
					return;
				}
				Token x = t;
				Ns ns = cur()->ns;
				if (ns == Ns::Svg) x.name = svg_name(x.name);
				insert_foreign(x, ns, true);
				if (t.flag) { pop(); m_ack = true; }
				return;
			}
			if (t.name == U"script" && cur()->ns == Ns::Svg && cur()->name == U"script") { pop(); return; }
			for (std::size_t i = m_stack.size() - 1; ; --i)
			{
				Node* n = m_stack[i];
				if (i == 0) return;
				if (n->ns == Ns::Html) { run(m_mode, t); return; }
				if (lower(n->name) == t.name) { pop_through(n); return; }
			}
		}
	};
}
