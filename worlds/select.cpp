// P16: what a selector finds in a document after any history of edits.
#include "doc_model.hpp"

#include <wordring/css/selector.hpp>

namespace
{
	using namespace doc;

	// ------------------------------------------------------------------------------------- selectors as data
	struct Simple
	{
		enum Type { Tag, Any, Id, Class, Attrib, Root } type = Any;
		int ns = 0;              // Tag, Any, Attrib: 0 no prefix, 1 "*|", 2 "|"
		Text name;
		char32_t op = 0;         // Attrib: 0, '=', '~', '|', '^', '$', '*'
		Text value;
		char32_t modifier = 0;   // 0, 'i', 's'
	};
	struct Compound { std::vector<Simple> parts; };
	struct Complex { std::vector<Compound> compounds; std::vector<char32_t> combinators; };
	struct Selector { std::vector<Complex> list; };

	char32_t lower(char32_t c) { return c >= U'A' && c <= U'Z' ? c + 32 : c; }
	Text lower(Text s) { for (auto& c : s) c = lower(c); return s; }
	bool space(char32_t c) { return c == 0x20 || c == 9 || c == 10 || c == 12 || c == 13; }
	std::vector<Text> words(Text const& s)
	{
		std::vector<Text> v; Text w;
		for (char32_t c : s) if (space(c)) { if (!w.empty()) v.push_back(w); w.clear(); } else w += c;
		if (!w.empty()) v.push_back(w);
		return v;
	}

	// known finding select-dash-exact: [a|=v] is not satisfied by a value that is exactly v (existing tests demand it)
	bool dash_exact = true;

	enum class Mode { NoDocument, NoQuirks, Limited, Quirks, Xml };

	bool match(Simple const& s, Node const& n, Mode mode)
	{
		if (n.kind != Kind::Element) return false;
		bool html = mode == Mode::NoQuirks || mode == Mode::Limited || mode == Mode::Quirks;
		auto name = [&](Text const& x) { return html ? lower(x) : x; };
		switch (s.type)
		{
		case Simple::Any: return s.ns != 2 || n.ns == NsNone;
		case Simple::Tag: return (s.ns != 2 || n.ns == NsNone) && name(s.name) == name(n.name);
		case Simple::Root: return n.element(NsHtml, U"html");
		case Simple::Id:
			for (auto& a : n.attrs) if (a.ns == NsNone && a.name == U"id" && (mode == Mode::Quirks ? lower(a.value) == lower(s.name) : a.value == s.name)) return true;
			return false;
		case Simple::Class:
			for (auto& a : n.attrs) if (a.ns == NsNone && a.name == U"class")
				for (auto& w : words(a.value)) if (mode == Mode::Quirks ? lower(w) == lower(s.name) : w == s.name) return true;
			return false;
		case Simple::Attrib:
			for (auto& a : n.attrs)
			{
				if (s.ns != 1 && a.ns != NsNone) continue;
				if (name(a.name) != name(s.name)) continue;
				Text v = a.value, w = s.value;
				if (s.modifier == U'i') { v = lower(v); w = lower(w); }
				switch (s.op)
				{
				case 0: return true;
				case U'=': return v == w;
				case U'~': for (auto& x : words(v)) if (x == w) return true; return false;
				case U'|': return (dash_exact && v == w) || v.substr(0, w.size() + 1) == w + U"-";
				case U'^': return !w.empty() && v.substr(0, w.size()) == w;
				case U'$': return !w.empty() && v.size() >= w.size() && v.substr(v.size() - w.size()) == w;
				case U'*': return !w.empty() && v.find(w) != Text::npos;
				}
			}
			return false;
		}
		return false;
	}
	bool match(Compound const& c, Node const& n, Mode mode) { for (auto& s : c.parts) if (!match(s, n, mode)) return false; return true; }
	bool match(Complex const& c, std::size_t i, Node const* n, Mode mode)
	{
		if (n->kind == Kind::Anchor || !match(c.compounds[i], *n, mode)) return false;
		if (i == 0) return true;
		switch (c.combinators[i - 1])
		{
		case U' ': for (auto* p = n->parent; p; p = p->parent) if (match(c, i - 1, p, mode)) return true; return false;
		case U'>': return n->parent && match(c, i - 1, n->parent, mode);
		case U'+': case U'~':
			if (n->parent->kind == Kind::Anchor) return false;
			for (std::size_t k = index(n); k-- > 0;)
			{
				Node const* p = n->parent->kids[k].get();
				if (p->kind != Kind::Element) continue;
				if (match(c, i - 1, p, mode)) return true;
				if (c.combinators[i - 1] == U'+') return false;
			}
			return false;
		}
		return false;
	}
	bool match(Selector const& s, Node const* n, Mode mode) { for (auto& c : s.list) if (match(c, c.compounds.size() - 1, n, mode)) return true; return false; }

	// ------------------------------------------------------------------------------------- selectors as text
	struct Writer
	{
		Rng& r;
		void escape(Text& o, char32_t c, bool more)
		{
			if (r.chance(1, 3) && !(c < 0x80 && (std::isxdigit(static_cast<int>(c)) || c == 10))) { o += U'\\'; o += c; return; }
			static char const* const hex = "0123456789abcdefABCDEF";
			Text h;
			for (char32_t x = c; x; x >>= 4) { int d = x & 15; h.insert(h.begin(), static_cast<char32_t>(hex[d >= 10 && r.chance(1, 2) ? d + 6 : d])); }
			while (h.size() < 6 && r.chance(1, 3)) h.insert(h.begin(), U'0');
			o += U'\\'; o += h;
			(void)more;
			o += r.chance(1, 3) ? U'\n' : r.chance(1, 2) ? U'\t' : U' '; // always separated from what follows
		}
		Text ident(Text const& s)
		{
			Text o;
			for (std::size_t i = 0; i < s.size(); ++i)
			{
				char32_t c = s[i];
				bool plain = c >= 0x80 || c == U'_' || c == U'-' || (c < 0x80 && std::isalnum(static_cast<int>(c)));
				if (i == 0 && ((c >= U'0' && c <= U'9') || c == U'-')) plain = false;
				if (!plain || r.chance(1, 40)) escape(o, c, i + 1 < s.size()); else o += c;
			}
			return o;
		}
		Text string(Text const& s)
		{
			char32_t q = r.chance(1, 2) ? U'"' : U'\'';
			Text o(1, q);
			for (std::size_t i = 0; i < s.size(); ++i)
			{
				char32_t c = s[i];
				if (c == q || c == U'\\' || c == 10 || c == 12 || c == 13 || r.chance(1, 40)) escape(o, c, i + 1 < s.size()); else o += c;
				if (r.chance(1, 60)) o += U"\\\n";
			}
			return o + q;
		}
		Text gap() { Text o; while (r.chance(1, 4)) o += r.chance(1, 3) ? U"/* x */" : r.chance(1, 2) ? U" " : U"\n\t"; return o; }
		Text must_gap() { Text o = r.chance(1, 2) ? U" " : r.chance(1, 2) ? U"\n" : U"\t "; if (r.chance(1, 8)) o += U"/*>*/"; if (r.chance(1, 8)) o += U" "; return o; }
		Text simple(Simple const& s)
		{
			static char32_t const* const ns[] = { U"", U"*|", U"|" };
			switch (s.type)
			{
			case Simple::Any: return Text(ns[s.ns]) + U"*";
			case Simple::Tag: return ns[s.ns] + ident(s.name);
			case Simple::Id: return U"#" + ident(s.name);
			case Simple::Class: return U"." + ident(s.name);
			case Simple::Root: return r.chance(1, 4) ? U":ROOT" : U":root";
			case Simple::Attrib:
			{
				Text o = U"[" + gap() + ns[s.ns] + ident(s.name) + gap();
				if (s.op)
				{
					if (s.op != U'=') o += s.op;
					o += U"=" + gap();
					bool id = !s.value.empty();
					for (char32_t c : s.value) if (c == 0) id = false;
					bool as_ident = id && r.chance(1, 2);
					o += as_ident ? ident(s.value) : string(s.value);
					if (s.modifier) { o += as_ident ? must_gap() : gap(); o += r.chance(1, 4) ? s.modifier - 32 : s.modifier; }
					o += gap();
				}
				return o + U"]";
			}
			}
			return U"";
		}
		Text compound(Compound const& c) { Text o; for (std::size_t i = 0; i < c.parts.size(); ++i) { if (i && r.chance(1, 20)) o += U"/**/"; o += simple(c.parts[i]); } return o; }
		Text complex(Complex const& c)
		{
			Text o = compound(c.compounds[0]);
			for (std::size_t i = 1; i < c.compounds.size(); ++i)
			{
				char32_t k = c.combinators[i - 1];
				if (k == U' ') o += must_gap(); else o += gap() + Text(1, k) + gap();
				o += compound(c.compounds[i]);
			}
			return o;
		}
		Text selector(Selector const& s)
		{
			Text o = gap();
			for (std::size_t i = 0; i < s.list.size(); ++i) { if (i) o += gap() + U"," + gap(); o += complex(s.list[i]); }
			return o + gap();
		}
	};

	// ------------------------------------------------------------------------------------- contents which queries are about
	char32_t const* const html_tags[] = { U"div", U"p", U"span", U"a", U"li", U"ul", U"b", U"x-y" };
	char32_t const* const other_tags[] = { U"g", U"path", U"mi" };
	char32_t const* const plain_attrs[] = { U"id", U"class", U"title", U"name", U"data-x" };
	char32_t const* const tokens[] = { U"a", U"b", U"A", U"foo", U"Foo", U"fo", U"oo", U"en", U"en-US", U"x1", U"\u3042", U"\U0001F600", U"1", U"-" };

	Text any_value(Rng& r)
	{
		Text s;
		int n = r.chance(1, 6) ? 0 : r.range(1, 3);
		for (int i = 0; i < n; ++i)
		{
			if (i || r.chance(1, 10)) s += r.chance(1, 3) ? U"-" : r.chance(1, 4) ? U"\t\n" : U" ";
			s += r.pick(tokens);
		}
		if (r.chance(1, 12)) s += U" ";
		if (r.chance(1, 20)) s += U"\"'\\";
		return s;
	}

	template <class Tree> struct SelEditor : Editor<Tree>
	{
		Attr new_attr(Rng& r, Node* n, Attr const* instead) override
		{
			Attr a;
			for (int i = 0; i < 20; ++i)
			{
				a = Attr();
				if (r.chance(1, 6)) { a.ns = NsXlink; a.prefix = U"xlink"; a.name = U"href"; }
				else a.name = r.pick(plain_attrs);
				bool taken = false;
				for (auto& b : n->attrs) if (&b != instead && b.name == a.name) taken = true;
				if (!taken) break;
				a.name = Text(U"free") + static_cast<char32_t>(U'a' + n->attrs.size()) + static_cast<char32_t>(U'a' + i);
			}
			a.value = any_value(r);
			return a;
		}
		Node new_node(Rng& r, Node* parent) override
		{
			Node n;
			bool top = parent == &this->root;
			unsigned k = r.below(20);
			if (top && k < 12) n.kind = k < 10 ? Kind::Document : Kind::Fragment;
			else if (k < 15)
			{
				n.kind = Kind::Element;
				if (parent->kind == Kind::Document) { n.ns = NsHtml; n.name = U"html"; }
				else if (r.chance(1, 6)) { n.ns = r.chance(1, 3) ? static_cast<int>(NsNone) : r.chance(1, 2) ? static_cast<int>(NsSvg) : static_cast<int>(NsOther); n.name = r.pick(other_tags); }
				else { n.ns = NsHtml; n.name = r.pick(html_tags); }
				int na = r.below(4);
				while (na--) n.attrs.push_back(new_attr(r, &n, nullptr));
			}
			else if (k < 18) { n.kind = Kind::Text; n.data = U"text"; }
			else { n.kind = Kind::Comment; n.data = U"div"; }
			return n;
		}
		bool may_hold(Node const* parent, Node const& child) override
		{
			if (!Editor<Tree>::may_hold(parent, child)) return false;
			if (child.kind != Kind::Element) return true;
			return (parent->kind == Kind::Document) == (child.name == U"html");
		}
	};

	template <class Tree> struct SelWorld : World
	{
		SelEditor<Tree> d;
		using It = typename Editor<Tree>::It;
		using CIt = typename Editor<Tree>::CIt;
		std::size_t limit = 20;
		std::map<int, Mode> modes; // of the documents

		int length(Rng& r) override { static int const n[] = { 6, 20, 40, 60 }; return n[r.below(4)] + r.below(8); }
		void start(Rng& cfg) override { static std::size_t const n[] = { 6, 16, 40 }; limit = n[cfg.below(3)]; }

		Simple any_simple(Rng& r, Mode mode, bool first)
		{
			Simple s;
			unsigned k = r.below(first ? 12 : 7);
			bool mixed = mode != Mode::NoDocument && mode != Mode::Xml; // names of HTML documents ignore the case of ASCII letters
			auto shout = [&](Text t) { if ((mixed && r.chance(1, 6)) || (mode == Mode::Xml && r.chance(1, 10))) for (auto& c : t) if (c >= U'a' && c <= U'z' && r.chance(1, 2)) c -= 32; return t; };
			if (k < 2) { s.type = Simple::Class; s.name = r.pick(tokens); }
			else if (k < 3) { s.type = Simple::Id; s.name = r.pick(tokens); }
			else if (k < 6)
			{
				s.type = Simple::Attrib;
				s.name = r.chance(1, 6) ? Text(U"href") : shout(r.pick(plain_attrs));
				s.ns = r.chance(1, 6) || s.name == U"href" ? r.below(3) : 0;
				static char32_t const ops[] = { 0, U'=', U'~', U'|', U'^', U'$', U'*' };
				s.op = r.pick(ops);
				if (s.op) { s.value = r.chance(1, 3) ? any_value(r) : r.chance(1, 12) ? Text() : Text(r.pick(tokens)); s.modifier = r.chance(1, 4) ? U'i' : r.chance(1, 6) ? U's' : 0; }
			}
			else if (k < 7) s.type = Simple::Root;
			else if (k < 8) { s.type = Simple::Any; s.ns = r.chance(1, 4) ? r.below(3) : 0; }
			else if (k < 9) { s.type = Simple::Tag; s.name = r.pick(other_tags); s.ns = r.chance(1, 3) ? r.below(3) : 0; }
			else { s.type = Simple::Tag; s.name = r.chance(1, 8) ? Text(U"html") : shout(r.pick(html_tags)); s.ns = r.chance(1, 10) ? r.below(3) : 0; }
			return s;
		}
		Selector any_selector(Rng& r, Mode mode)
		{
			Selector s;
			int nl = r.chance(3, 4) ? 1 : r.range(2, 3);
			while (nl--)
			{
				Complex c;
				int nc = r.chance(1, 2) ? 1 : r.range(2, 4);
				for (int i = 0; i < nc; ++i)
				{
					Compound k;
					int np = r.chance(2, 3) ? 1 : r.range(2, 3);
					for (int j = 0; j < np; ++j) k.parts.push_back(any_simple(r, mode, j == 0));
					c.compounds.push_back(k);
					if (i) { static char32_t const comb[] = { U' ', U' ', U'>', U'+', U'~' }; c.combinators.push_back(r.pick(comb)); }
				}
				s.list.push_back(c);
			}
			return s;
		}

		// a simple selector which holds for the element, or nearly so
		Simple true_simple(Rng& r, Node const& n, Mode mode, bool first)
		{
			Simple s;
			unsigned k = r.below(first ? 8 : 5);
			bool mixed = mode == Mode::NoQuirks || mode == Mode::Limited || mode == Mode::Quirks;
			if (k >= 6 || (k == 5 && n.attrs.empty()))
			{
				s.type = Simple::Tag; s.name = n.name;
				if (mixed && n.ns == NsHtml && r.chance(1, 6)) for (auto& c : s.name) if (c >= U'a' && c <= U'z' && r.chance(1, 2)) c -= 32;
				s.ns = r.chance(1, 8) ? 1 : n.ns == NsNone && r.chance(1, 3) ? 2 : 0;
				return s;
			}
			if (n.attrs.empty()) { if (first) { s.type = Simple::Any; s.ns = r.below(2); return s; } return any_simple(r, mode, false); }
			Attr const& a = n.attrs[r.below(n.attrs.size())];
			auto w = words(a.value);
			if (a.name == U"id" && !a.value.empty() && r.chance(1, 2)) { s.type = Simple::Id; s.name = a.value; }
			else if (a.name == U"class" && !w.empty() && r.chance(2, 3)) { s.type = Simple::Class; s.name = r.pick(w); }
			else
			{
				s.type = Simple::Attrib; s.name = a.name; s.ns = a.ns != NsNone ? 1 : r.chance(1, 6) ? r.below(3) : 0;
				Text const& v = a.value;
				std::size_t i = r.below(v.size() + 1), m = r.below(v.size() - i + 1);
				switch (r.below(7))
				{
				case 0: break;
				case 1: s.op = U'='; s.value = v; break;
				case 2: s.op = U'~'; if (!w.empty()) s.value = r.pick(w); break;
				case 3: { s.op = U'|'; auto d = v.find(U'-'); s.value = v.substr(0, d); break; }
				case 4: s.op = U'^'; s.value = v.substr(0, i); break;
				case 5: s.op = U'$'; s.value = v.substr(i); break;
				case 6: s.op = U'*'; s.value = v.substr(i, m); break;
				}
				if (s.op && r.chance(1, 4)) { s.modifier = r.chance(3, 4) ? U'i' : U's'; }
			}
			bool flip = s.type == Simple::Attrib ? (s.op && r.chance(s.modifier == U'i' ? 3 : 1, 8)) : r.chance(mode == Mode::Quirks ? 4 : 1, 8);
			if (flip) for (auto& c : s.type == Simple::Attrib ? s.value : s.name) if (r.chance(1, 2)) { if (c >= U'a' && c <= U'z') c -= 32; else if (c >= U'A' && c <= U'Z') c += 32; }
			return s;
		}
		Complex true_complex(Rng& r, Node const* n, Mode mode)
		{
			Complex c;
			int nc = r.chance(1, 3) ? 1 : r.range(2, 4);
			while (true)
			{
				Compound k;
				int np = r.chance(1, 2) ? 1 : r.range(2, 3);
				for (int j = 0; j < np; ++j) k.parts.push_back(r.chance(1, 16) ? any_simple(r, mode, j == 0) : true_simple(r, *n, mode, j == 0));
				if (n->element(NsHtml, U"html") && r.chance(1, 4)) { Simple s; s.type = Simple::Root; k.parts.push_back(s); }
				c.compounds.insert(c.compounds.begin(), k);
				if (--nc <= 0) break;
				std::vector<Node const*> before, above;
				if (n->parent->kind != Kind::Anchor)
					for (auto& x : n->parent->kids) { if (x.get() == n) break; if (x->kind == Kind::Element) before.push_back(x.get()); }
				for (auto* x = n->parent; x; x = x->parent) if (x->kind == Kind::Element) above.push_back(x);
				char32_t comb;
				if (!before.empty() && (above.empty() || r.chance(1, 2)))
				{
					if (r.chance(1, 2)) { comb = U'+'; n = before.back(); } else { comb = U'~'; n = r.pick(before); }
				}
				else if (!above.empty())
				{
					if (r.chance(1, 3) && above[0] == n->parent) { comb = U'>'; n = above[0]; } else { comb = U' '; n = r.pick(above); }
				}
				else break;
				if (r.chance(1, 16)) comb = comb == U'+' ? U'~' : U'>';
				c.combinators.insert(c.combinators.begin(), comb);
			}
			return c;
		}

		static Node const* top(Node const* n) { while (n->parent && n->parent->kind != Kind::Anchor) n = n->parent; return n; }

		template <class I, class S> void ask(Node* from, Selector const* sel, Text const& text, Mode mode, Rng& r, bool faults)
		{
			std::vector<Node*> below, want;
			collect(from, below);
			dash_exact = true;
			if (sel) for (auto* n : below) if (match(*sel, n, mode)) want.push_back(n);
			std::vector<Node*> finding;
			dash_exact = false;
			if (sel) for (auto* n : below) if (match(*sel, n, mode)) finding.push_back(n);
			dash_exact = true;
			S src = narrow<S>(text);
			std::vector<I> got;
			got.reserve(below.size() + 8);
			I start = d.handle.at(from);
			bool first_only = r.chance(1, 4);
			{
				AllocFault af(faults ? static_cast<std::int64_t>(r.chance(1, 2) ? r.below(20) : r.below(300)) : -1);
				try
				{
					if (first_only) { I x = wordring::css::query_selector(start, src); af.disarm(); if (x != I()) got.push_back(x); }
					else { wordring::css::query_selector_all(start, src, std::back_inserter(got)); af.disarm(); }
				}
				catch (std::bad_alloc const&)
				{
					af.disarm();
					SIM_REQUIRE(af.fired(), "bad-alloc", "bad_alloc without a failed allocation");
					count("fault:alloc");
					log("query: out of memory");
					auto prefix = [&](std::vector<Node*> const& w) { for (std::size_t i = 0; i < got.size(); ++i) if (i >= w.size() || got[i] != I(d.handle.at(w[i]))) return false; return true; };
					if (!prefix(want) && prefix(finding) && known("select-dash-exact")) want = finding;
					for (std::size_t i = 0; i < got.size(); ++i)
						SIM_REQUIRE(i < want.size() && got[i] == I(d.handle.at(want[i])), "query", "%s from node %d: result %zu before memory ran out is wrong", show(text).c_str(), from->id, i);
					d.check_contents("after a query which ran out of memory");
					return;
				}
			}
			if (first_only && want.size() > 1) want.resize(1);
			if (first_only && finding.size() > 1) finding.resize(1);
			if (finding != want)
			{
				auto same = [&](std::vector<Node*> const& w) { if (w.size() != got.size()) return false; for (std::size_t i = 0; i < w.size(); ++i) if (got[i] != I(d.handle.at(w[i]))) return false; return true; };
				if (!same(want) && same(finding) && known("select-dash-exact")) want = finding;
			}
			SIM_REQUIRE(got.size() == want.size(), "query", "%s from node %d (%s): %zu nodes found, %zu match", show(text).c_str(), from->id, first_only ? "first" : "all", got.size(), want.size());
			for (std::size_t i = 0; i < want.size(); ++i)
				SIM_REQUIRE(got[i] == I(d.handle.at(want[i])), "query", "%s from node %d: result %zu is not node %d", show(text).c_str(), from->id, i, want[i]->id);
			count(!sel ? "query-invalid" : want.empty() ? "query-empty" : "query-found");
			history(hash_str(text)); history(want.size());
		}

		void query(Rng& r, bool faults)
		{
			auto v = d.all();
			if (v.empty()) return;
			Node* from = r.chance(1, 2) ? const_cast<Node*>(top(v[r.below(v.size())])) : v[r.below(v.size())];
			Node const* root = top(from);
			Mode mode = root->kind == Kind::Document ? modes[root->id] : Mode::NoDocument;
			if (root->kind == Kind::Document && !modes.count(root->id)) mode = Mode::NoQuirks;
			Text text;
			Selector sel;
			bool valid = !r.chance(1, 12);
			if (valid)
			{
				std::vector<Node*> below; collect(from, below);
				Node* target = below.empty() ? nullptr : below[r.below(below.size())];
				if (target && target->kind == Kind::Element && r.chance(5, 6))
				{
					sel.list.push_back(true_complex(r, target, mode));
					if (r.chance(1, 8)) { auto more = any_selector(r, mode); sel.list.insert(r.chance(1, 2) ? sel.list.begin() : sel.list.end(), more.list[0]); }
				}
				else sel = any_selector(r, mode);
				text = Writer{ r }.selector(sel); }
			else
			{
				static char32_t const* const bad[] = { U"", U" ", U">", U"div >", U"> div", U"div,", U",div", U"div,,p", U"div p +", U"..a", U".", U"#", U"[", U"[a", U"div[", U"[a=]", U"[=b]", U"[a b]", U"[a=b c]", U"[a='b' i x]",
					U"[a=\"b\" k]", U"div::before", U"::x", U":nothing", U":nothing(x)", U"div $ p", U"div!", U"a{}", U"ns|a", U"[ns|a]", U"12", U"div 5", U"div/**/p", U"'div'", U"()", U"div >> p", U"div + + p", U"div | p", U"div || p" };
				text = r.pick(bad);
				if (text == U"[" || text == U"[a" || text == U"div[") return; // closed at the end of the input by the syntax module
			}
			log("query %s from %d", show(text).c_str(), from->id);
			Selector const* s = valid ? &sel : nullptr;
			switch (r.below(6))
			{
			case 0: return ask<It, std::u8string>(from, s, text, mode, r, faults);
			case 1: return ask<It, std::u16string>(from, s, text, mode, r, faults);
			case 2: return ask<It, std::u32string>(from, s, text, mode, r, faults);
			case 3: return ask<CIt, std::u8string>(from, s, text, mode, r, faults);
			case 4: return ask<CIt, std::u16string>(from, s, text, mode, r, faults);
			default: return ask<CIt, std::u32string>(from, s, text, mode, r, faults);
			}
		}

		void step(Rng& r, bool faults) override
		{
			tick(1000);
			d.edit(r, faults, limit);
			// documents change their mode
			for (auto& k : d.root.kids)
			{
				if (k->kind != Kind::Document) continue;
				N_mode(k.get(), r);
			}
			for (int i = r.range(1, 3); i--;) query(r, faults && i == 0);
			std::uint64_t h = 1;
			for (auto& k : d.root.kids) h = mix(h, hash_str(markup(*k)));
			cover(h);
		}
		void N_mode(Node* n, Rng& r)
		{
			auto& x = *d.handle.at(n);
			if (!modes.count(n->id) || r.chance(1, 10))
			{
				static Mode const m[] = { Mode::NoQuirks, Mode::NoQuirks, Mode::Limited, Mode::Quirks, Mode::Xml };
				Mode to = r.pick(m);
				modes[n->id] = to;
				x.document_type_name(to == Mode::Xml ? wh::document_type_name::Xml : wh::document_type_name::Html);
				x.document_mode_name(to == Mode::Quirks ? wh::document_mode_name::Quirks : to == Mode::Limited ? wh::document_mode_name::LimitedQuirks : wh::document_mode_name::NoQuirks);
				log("document %d is now in mode %d", n->id, int(to));
			}
		}
		void finish() override { d.check_contents("at the end"); }
	};

	using P16a = SelWorld<wh::u8simple_tree>;
	using P16b = SelWorld<wh::u16simple_tree>;
	using P16c = SelWorld<wh::plain_tree<std::u16string>>;
	SIM_WORLD("P16", P16a);
	SIM_WORLD("P16", P16b);
	SIM_WORLD("P16", P16c);
}
