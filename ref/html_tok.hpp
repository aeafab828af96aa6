// Reference HTML tokenizer, written from the HTML Standard (13.2.5) as a pull machine over the whole input.
#pragma once
#include "entities.hpp"

#include <cstdint>
#include <functional>
#include <string>
#include <string_view>
#include <unordered_map>
#include <vector>

namespace ref
{
	struct Attr { std::u32string name, value; bool operator==(Attr const&) const = default; };

	struct Token
	{
		enum Kind { Doctype, Start, End, Comment, Char, Eof } kind = Char;
		std::u32string name;           // tag or doctype name, comment data
		std::u32string pub, sys;       // doctype; missing is empty
		bool flag = false;             // force-quirks or self-closing
		std::vector<Attr> attrs;
		char32_t c = 0;
		std::size_t at = 0;            // code points consumed when it was emitted; not compared
		bool operator==(Token const& o) const { return kind == o.kind && name == o.name && pub == o.pub && sys == o.sys && flag == o.flag && attrs == o.attrs && c == o.c; }
	};

	enum class Mode { Data, Rcdata, Rawtext, Script, Plaintext, Keep };

	// newline normalisation
	inline std::u32string preprocess(std::u32string_view s)
	{
		std::u32string r;
		for (std::size_t i = 0; i < s.size(); ++i)
		{
			if (s[i] != U'\r') { r += s[i]; continue; }
			r += U'\n';
			if (i + 1 < s.size() && s[i + 1] == U'\n') ++i;
		}
		return r;
	}

	class Tokenizer
	{
	public:
		// called for each tag: the mode tree construction switches to
		std::function<Mode(Token const&)> on_tag;
		// called for every token instead of recording it
		std::function<Mode(Token const&)> on_token;
		// whether <![CDATA[ starts a section.  The library reads sections in HTML content and comments in foreign
		// content, the reverse of the Standard; its own tests fix that (serializing_to_string_3, simple_html_sample_syntax_12)
		std::function<bool()> cdata = [] { return false; };
		// parse errors by name, in order; those of the input stream apart
		std::vector<char const*> errors, stream_errors;
		// whether tree construction acknowledges the self-closing flag of the start tag it was just given
		std::function<bool()> acknowledged = [] { return false; };

		std::vector<Token> run(std::u32string_view input)
		{
			m_in = preprocess(input);
			errors.clear();
			stream_errors.clear();
			for (char32_t c : m_in)
			{
				if (0xD800 <= c && c <= 0xDFFF) stream_errors.push_back("surrogate-in-input-stream");
				else if (noncharacter(c)) stream_errors.push_back("noncharacter-in-input-stream");
				else if (c && !ws(c) && control(c)) stream_errors.push_back("control-character-in-input-stream");
			}
			m_i = 0;
			m_out.clear();
			m_state = S::Data;
			m_last_start.clear();
			m_done = false;
			while (!m_done) step();
			return std::move(m_out);
		}

	private:
		static constexpr std::int64_t EOFC = -1;
		enum class S
		{
			Data, Rcdata, Rawtext, Script, Plaintext, TagOpen, EndTagOpen, TagName,
			RcdataLt, RcdataEndOpen, RcdataEndName, RawtextLt, RawtextEndOpen, RawtextEndName,
			ScriptLt, ScriptEndOpen, ScriptEndName, ScriptEscStart, ScriptEscStartDash, ScriptEsc, ScriptEscDash, ScriptEscDashDash,
			ScriptEscLt, ScriptEscEndOpen, ScriptEscEndName, ScriptDblStart, ScriptDbl, ScriptDblDash, ScriptDblDashDash, ScriptDblLt, ScriptDblEnd,
			BeforeAttrName, AttrName, AfterAttrName, BeforeAttrValue, AttrValueDq, AttrValueSq, AttrValueUq, AfterAttrValueQ, SelfClosing,
			BogusComment, Markup, CommentStart, CommentStartDash, Comment, CommentLt, CommentLtBang, CommentLtBangDash, CommentLtBangDashDash,
			CommentEndDash, CommentEnd, CommentEndBang,
			Doctype, BeforeDoctypeName, DoctypeName, AfterDoctypeName, AfterPubKw, BeforePub, PubDq, PubSq, AfterPub, BetweenPubSys, AfterSysKw, BeforeSys, SysDq, SysSq, AfterSys, BogusDoctype,
			Cdata, CdataBracket, CdataEnd, CharRef, NamedRef, AmbiguousAmp, NumRef, HexStart, DecStart, Hex, Dec, NumEnd
		};

		std::u32string m_in;
		std::size_t m_i = 0;
		std::vector<Token> m_out;
		S m_state{}, m_return{};
		bool m_done = false, m_eof = false;
		std::u32string m_tmp, m_last_start;
		Token m_tag, m_comment, m_doctype;
		bool m_attr_open = false, m_any_attr = false;
		std::uint64_t m_code = 0;

		std::int64_t get() { if (m_i < m_in.size()) { m_eof = false; return m_in[m_i++]; } m_eof = true; return EOFC; }
		void back(S s) { if (!m_eof) --m_i; m_state = s; }
		void emit(Token t) { t.at = m_i; if (on_token) m_asked = on_token(t); else m_out.push_back(std::move(t)); }
		Mode m_asked = Mode::Keep;
		void ch(std::int64_t c) { Token t; t.kind = Token::Char; t.c = static_cast<char32_t>(c); emit(t); }
		void eof() { Token t; t.kind = Token::Eof; emit(t); m_done = true; }
		static bool alpha(std::int64_t c) { return ('a' <= c && c <= 'z') || ('A' <= c && c <= 'Z'); }
		static bool digit(std::int64_t c) { return '0' <= c && c <= '9'; }
		static bool ws(std::int64_t c) { return c == 9 || c == 10 || c == 12 || c == 32; }
		static char32_t low(std::int64_t c) { return static_cast<char32_t>('A' <= c && c <= 'Z' ? c + 32 : c); }
		static char32_t nul(std::int64_t c) { return c == 0 ? U'\xFFFD' : static_cast<char32_t>(c); }

		static bool noncharacter(std::uint64_t c) { return (0xFDD0 <= c && c <= 0xFDEF) || (c & 0xFFFE) == 0xFFFE; }
		static bool control(std::uint64_t c) { return c <= 0x1F || (0x7F <= c && c <= 0x9F); }
		void err(char const* e) { errors.push_back(e); }
		char32_t seen(std::int64_t c) { if (c == 0) err("unexpected-null-character"); return nul(c); } // a code point of a construct that replaces NUL
		void eof_in(char const* e) { err(e); eof(); }
		void named() // leaving the attribute name state
		{
			for (std::size_t i = 0; i + 1 < m_tag.attrs.size(); ++i) if (m_tag.attrs[i].name == m_tag.attrs.back().name) { err("duplicate-attribute"); return; }
		}

		void new_tag(Token::Kind k) { m_tag = Token(); m_tag.kind = k; m_attr_open = m_any_attr = false; }
		void new_attr() { close_attr(); m_tag.attrs.emplace_back(); m_attr_open = m_any_attr = true; }
		void close_attr() // leaving the attribute: a later duplicate is dropped
		{
			if (!m_attr_open) return;
			m_attr_open = false;
			for (std::size_t i = 0; i + 1 < m_tag.attrs.size(); ++i) if (m_tag.attrs[i].name == m_tag.attrs.back().name) { m_tag.attrs.pop_back(); return; }
		}
		Attr& attr() { return m_tag.attrs.back(); }
		void emit_tag()
		{
			close_attr();
			Token t = m_tag;
			m_state = S::Data;
			bool start = t.kind == Token::Start;
			if (start) m_last_start = t.name;
			else
			{
				if (m_any_attr) err("end-tag-with-attributes");
				if (t.flag) err("end-tag-with-trailing-solidus");
			}
			emit(t);
			switch (on_tag ? on_tag(t) : on_token ? m_asked : Mode::Keep)
			{
			case Mode::Data: m_state = S::Data; break;
			case Mode::Rcdata: m_state = S::Rcdata; break;
			case Mode::Rawtext: m_state = S::Rawtext; break;
			case Mode::Script: m_state = S::Script; break;
			case Mode::Plaintext: m_state = S::Plaintext; break;
			case Mode::Keep: break;
			}
			if (start && t.flag && !acknowledged()) err("non-void-html-element-start-tag-with-trailing-solidus");
		}
		bool appropriate() const { return m_tag.kind == Token::End && !m_last_start.empty() && m_tag.name == m_last_start; }
		bool in_attr() const { return m_return == S::AttrValueDq || m_return == S::AttrValueSq || m_return == S::AttrValueUq; }
		void flush_ref() { for (char32_t c : m_tmp) if (in_attr()) attr().value += c; else ch(c); }
		bool ahead(std::u32string_view s, bool nocase)
		{
			if (m_in.size() - m_i < s.size()) return false;
			for (std::size_t k = 0; k < s.size(); ++k) { char32_t c = m_in[m_i + k]; if ((nocase ? low(c) : c) != (nocase ? low(s[k]) : s[k])) return false; }
			return true;
		}

		void end_name(S text) // the three end tag name states
		{
			auto c = get();
			if (ws(c) && appropriate()) { m_state = S::BeforeAttrName; return; }
			if (c == '/' && appropriate()) { m_state = S::SelfClosing; return; }
			if (c == '>' && appropriate()) { emit_tag(); return; }
			if (alpha(c)) { m_tag.name += low(c); m_tmp += static_cast<char32_t>(c); return; }
			ch('<'); ch('/');
			for (char32_t x : m_tmp) ch(x);
			back(text);
		}
		void lt(S endopen, S text) { auto c = get(); if (c == '/') { m_tmp.clear(); m_state = endopen; } else { ch('<'); back(text); } }
		void endopen(S name, S text) { auto c = get(); if (alpha(c)) { new_tag(Token::End); back(name); } else { ch('<'); ch('/'); back(text); } }
		void emit_doctype() { emit(m_doctype); }
		void doctype_eof() { err("eof-in-doctype"); m_doctype.flag = true; emit_doctype(); eof(); }
		void comment_eof() { err("eof-in-comment"); emit(m_comment); eof(); }

		void step()
		{
			std::int64_t c;
			switch (m_state)
			{
			case S::Data:
				c = get();
				if (c == '&') { m_return = S::Data; m_state = S::CharRef; }
				else if (c == '<') m_state = S::TagOpen;
				else if (c == EOFC) eof();
				else { seen(c); ch(c); }
				break;
			case S::Rcdata:
				c = get();
				if (c == '&') { m_return = S::Rcdata; m_state = S::CharRef; }
				else if (c == '<') m_state = S::RcdataLt;
				else if (c == EOFC) eof();
				else ch(seen(c));
				break;
			case S::Rawtext: c = get(); if (c == '<') m_state = S::RawtextLt; else if (c == EOFC) eof(); else ch(seen(c)); break;
			case S::Script: c = get(); if (c == '<') m_state = S::ScriptLt; else if (c == EOFC) eof(); else ch(seen(c)); break;
			case S::Plaintext: c = get(); if (c == EOFC) eof(); else ch(seen(c)); break;
			case S::TagOpen:
				c = get();
				if (c == '!') m_state = S::Markup;
				else if (c == '/') m_state = S::EndTagOpen;
				else if (alpha(c)) { new_tag(Token::Start); back(S::TagName); }
				else if (c == '?') { err("unexpected-question-mark-instead-of-tag-name"); new_comment(); back(S::BogusComment); }
				else if (c == EOFC) { err("eof-before-tag-name"); ch('<'); eof(); }
				else { err("invalid-first-character-of-tag-name"); ch('<'); back(S::Data); }
				break;
			case S::EndTagOpen:
				c = get();
				if (alpha(c)) { new_tag(Token::End); back(S::TagName); }
				else if (c == '>') { err("missing-end-tag-name"); m_state = S::Data; }
				else if (c == EOFC) { err("eof-before-tag-name"); ch('<'); ch('/'); eof(); }
				else { err("invalid-first-character-of-tag-name"); new_comment(); back(S::BogusComment); }
				break;
			case S::TagName:
				c = get();
				if (ws(c)) m_state = S::BeforeAttrName;
				else if (c == '/') m_state = S::SelfClosing;
				else if (c == '>') emit_tag();
				else if (c == EOFC) eof_in("eof-in-tag");
				else m_tag.name += seen(low(c));
				break;
			case S::RcdataLt: lt(S::RcdataEndOpen, S::Rcdata); break;
			case S::RcdataEndOpen: endopen(S::RcdataEndName, S::Rcdata); break;
			case S::RcdataEndName: end_name(S::Rcdata); break;
			case S::RawtextLt: lt(S::RawtextEndOpen, S::Rawtext); break;
			case S::RawtextEndOpen: endopen(S::RawtextEndName, S::Rawtext); break;
			case S::RawtextEndName: end_name(S::Rawtext); break;
			case S::ScriptLt:
				c = get();
				if (c == '/') { m_tmp.clear(); m_state = S::ScriptEndOpen; }
				else if (c == '!') { m_state = S::ScriptEscStart; ch('<'); ch('!'); }
				else { ch('<'); back(S::Script); }
				break;
			case S::ScriptEndOpen: endopen(S::ScriptEndName, S::Script); break;
			case S::ScriptEndName: end_name(S::Script); break;
			case S::ScriptEscStart: c = get(); if (c == '-') { m_state = S::ScriptEscStartDash; ch('-'); } else back(S::Script); break;
			case S::ScriptEscStartDash: c = get(); if (c == '-') { m_state = S::ScriptEscDashDash; ch('-'); } else back(S::Script); break;
			case S::ScriptEsc:
			case S::ScriptEscDash:
			case S::ScriptEscDashDash:
			{
				S was = m_state;
				c = get();
				if (c == '-') { m_state = was == S::ScriptEsc ? S::ScriptEscDash : S::ScriptEscDashDash; ch('-'); }
				else if (c == '<') m_state = S::ScriptEscLt;
				else if (c == '>' && was == S::ScriptEscDashDash) { m_state = S::Script; ch('>'); }
				else if (c == EOFC) eof_in("eof-in-script-html-comment-like-text");
				else { m_state = S::ScriptEsc; ch(seen(c)); }
				break;
			}
			case S::ScriptEscLt:
				c = get();
				if (c == '/') { m_tmp.clear(); m_state = S::ScriptEscEndOpen; }
				else if (alpha(c)) { m_tmp.clear(); ch('<'); back(S::ScriptDblStart); }
				else { ch('<'); back(S::ScriptEsc); }
				break;
			case S::ScriptEscEndOpen: endopen(S::ScriptEscEndName, S::ScriptEsc); break;
			case S::ScriptEscEndName: end_name(S::ScriptEsc); break;
			case S::ScriptDblStart:
				c = get();
				if (ws(c) || c == '/' || c == '>') { m_state = m_tmp == U"script" ? S::ScriptDbl : S::ScriptEsc; ch(c); }
				else if (alpha(c)) { m_tmp += low(c); ch(c); }
				else back(S::ScriptEsc);
				break;
			case S::ScriptDbl:
			case S::ScriptDblDash:
			case S::ScriptDblDashDash:
			{
				S was = m_state;
				c = get();
				if (c == '-') { m_state = was == S::ScriptDbl ? S::ScriptDblDash : S::ScriptDblDashDash; ch('-'); }
				else if (c == '<') { m_state = S::ScriptDblLt; ch('<'); }
				else if (c == '>' && was == S::ScriptDblDashDash) { m_state = S::Script; ch('>'); }
				else if (c == EOFC) eof_in("eof-in-script-html-comment-like-text");
				else { m_state = S::ScriptDbl; ch(seen(c)); }
				break;
			}
			case S::ScriptDblLt: c = get(); if (c == '/') { m_tmp.clear(); m_state = S::ScriptDblEnd; ch('/'); } else back(S::ScriptDbl); break;
			case S::ScriptDblEnd:
				c = get();
				if (ws(c) || c == '/' || c == '>') { m_state = m_tmp == U"script" ? S::ScriptEsc : S::ScriptDbl; ch(c); }
				else if (alpha(c)) { m_tmp += low(c); ch(c); }
				else back(S::ScriptDbl);
				break;
			case S::BeforeAttrName:
				c = get();
				if (ws(c)) break;
				if (c == '/' || c == '>' || c == EOFC) { back(S::AfterAttrName); break; }
				new_attr();
				if (c == '=') { err("unexpected-equals-sign-before-attribute-name"); attr().name = U"="; m_state = S::AttrName; }
				else back(S::AttrName);
				break;
			case S::AttrName:
				c = get();
				if (ws(c) || c == '/' || c == '>' || c == EOFC) { named(); back(S::AfterAttrName); }
				else if (c == '=') { named(); m_state = S::BeforeAttrValue; }
				else if (c == '"' || c == '\'' || c == '<') { err("unexpected-character-in-attribute-name"); attr().name += static_cast<char32_t>(c); }
				else attr().name += seen(low(c));
				break;
			case S::AfterAttrName:
				c = get();
				if (ws(c)) break;
				if (c == '/') m_state = S::SelfClosing;
				else if (c == '=') m_state = S::BeforeAttrValue;
				else if (c == '>') emit_tag();
				else if (c == EOFC) eof_in("eof-in-tag");
				else { new_attr(); back(S::AttrName); }
				break;
			case S::BeforeAttrValue:
				c = get();
				if (ws(c)) break;
				if (c == '"') m_state = S::AttrValueDq;
				else if (c == '\'') m_state = S::AttrValueSq;
				else if (c == '>') { err("missing-attribute-value"); emit_tag(); }
				else back(S::AttrValueUq);
				break;
			case S::AttrValueDq:
			case S::AttrValueSq:
				c = get();
				if (c == (m_state == S::AttrValueDq ? '"' : '\'')) m_state = S::AfterAttrValueQ;
				else if (c == '&') { m_return = m_state; m_state = S::CharRef; }
				else if (c == EOFC) eof_in("eof-in-tag");
				else attr().value += seen(c);
				break;
			case S::AttrValueUq:
				c = get();
				if (ws(c)) m_state = S::BeforeAttrName;
				else if (c == '&') { m_return = m_state; m_state = S::CharRef; }
				else if (c == '>') emit_tag();
				else if (c == EOFC) eof_in("eof-in-tag");
				else if (c == '"' || c == '\'' || c == '<' || c == '=' || c == '`') { err("unexpected-character-in-unquoted-attribute-value"); attr().value += static_cast<char32_t>(c); }
				else attr().value += seen(c);
				break;
			case S::AfterAttrValueQ:
				c = get();
				if (ws(c)) m_state = S::BeforeAttrName;
				else if (c == '/') m_state = S::SelfClosing;
				else if (c == '>') emit_tag();
				else if (c == EOFC) eof_in("eof-in-tag");
				else { err("missing-whitespace-between-attributes"); back(S::BeforeAttrName); }
				break;
			case S::SelfClosing:
				c = get();
				if (c == '>') { m_tag.flag = true; emit_tag(); }
				else if (c == EOFC) eof_in("eof-in-tag");
				else { err("unexpected-solidus-in-tag"); back(S::BeforeAttrName); }
				break;
			case S::BogusComment:
				c = get();
				if (c == '>') { m_state = S::Data; emit(m_comment); }
				else if (c == EOFC) { emit(m_comment); eof(); }
				else m_comment.name += seen(c);
				break;
			case S::Markup:
				if (ahead(U"--", false)) { m_i += 2; new_comment(); m_state = S::CommentStart; }
				else if (ahead(U"DOCTYPE", true)) { m_i += 7; m_state = S::Doctype; }
				else if (ahead(U"[CDATA[", false))
				{
					m_i += 7;
					if (cdata()) m_state = S::Cdata;
					else { err("cdata-in-html-content"); new_comment(); m_comment.name = U"[CDATA["; m_state = S::BogusComment; }
				}
				else { err("incorrectly-opened-comment"); new_comment(); m_state = S::BogusComment; }
				break;
			case S::CommentStart:
				c = get();
				if (c == '-') m_state = S::CommentStartDash;
				else if (c == '>') { err("abrupt-closing-of-empty-comment"); m_state = S::Data; emit(m_comment); }
				else back(S::Comment);
				break;
			case S::CommentStartDash:
				c = get();
				if (c == '-') m_state = S::CommentEnd;
				else if (c == '>') { err("abrupt-closing-of-empty-comment"); m_state = S::Data; emit(m_comment); }
				else if (c == EOFC) comment_eof();
				else { m_comment.name += U'-'; back(S::Comment); }
				break;
			case S::Comment:
				c = get();
				if (c == '<') { m_comment.name += U'<'; m_state = S::CommentLt; }
				else if (c == '-') m_state = S::CommentEndDash;
				else if (c == EOFC) comment_eof();
				else m_comment.name += seen(c);
				break;
			case S::CommentLt:
				c = get();
				if (c == '!') { m_comment.name += U'!'; m_state = S::CommentLtBang; }
				else if (c == '<') m_comment.name += U'<';
				else back(S::Comment);
				break;
			case S::CommentLtBang: c = get(); if (c == '-') m_state = S::CommentLtBangDash; else back(S::Comment); break;
			case S::CommentLtBangDash: c = get(); if (c == '-') m_state = S::CommentLtBangDashDash; else back(S::CommentEndDash); break;
			case S::CommentLtBangDashDash: c = get(); if (c != '>' && c != EOFC) err("nested-comment"); back(S::CommentEnd); break;
			case S::CommentEndDash:
				c = get();
				if (c == '-') m_state = S::CommentEnd;
				else if (c == EOFC) comment_eof();
				else { m_comment.name += U'-'; back(S::Comment); }
				break;
			case S::CommentEnd:
				c = get();
				if (c == '>') { m_state = S::Data; emit(m_comment); }
				else if (c == '!') m_state = S::CommentEndBang;
				else if (c == '-') m_comment.name += U'-';
				else if (c == EOFC) comment_eof();
				else { m_comment.name += U"--"; back(S::Comment); }
				break;
			case S::CommentEndBang:
				c = get();
				if (c == '-') { m_comment.name += U"--!"; m_state = S::CommentEndDash; }
				else if (c == '>') { err("incorrectly-closed-comment"); m_state = S::Data; emit(m_comment); }
				else if (c == EOFC) comment_eof();
				else { m_comment.name += U"--!"; back(S::Comment); }
				break;
			case S::Doctype:
				c = get();
				m_doctype = Token(); m_doctype.kind = Token::Doctype;
				if (ws(c)) m_state = S::BeforeDoctypeName;
				else if (c == EOFC) doctype_eof();
				else { if (c != '>') err("missing-whitespace-before-doctype-name"); back(S::BeforeDoctypeName); }
				break;
			case S::BeforeDoctypeName:
				c = get();
				if (ws(c)) break;
				if (c == '>') { err("missing-doctype-name"); m_doctype.flag = true; m_state = S::Data; emit_doctype(); }
				else if (c == EOFC) doctype_eof();
				else { m_doctype.name += seen(low(c)); m_state = S::DoctypeName; }
				break;
			case S::DoctypeName:
				c = get();
				if (ws(c)) m_state = S::AfterDoctypeName;
				else if (c == '>') { m_state = S::Data; emit_doctype(); }
				else if (c == EOFC) doctype_eof();
				else m_doctype.name += seen(low(c));
				break;
			case S::AfterDoctypeName:
				c = get();
				if (ws(c)) break;
				if (c == '>') { m_state = S::Data; emit_doctype(); break; }
				if (c == EOFC) { doctype_eof(); break; }
				--m_i;
				if (ahead(U"PUBLIC", true)) { m_i += 6; m_state = S::AfterPubKw; }
				else if (ahead(U"SYSTEM", true)) { m_i += 6; m_state = S::AfterSysKw; }
				else { err("invalid-character-sequence-after-doctype-name"); m_doctype.flag = true; m_state = S::BogusDoctype; }
				break;
			case S::AfterPubKw:
			case S::BeforePub:
			{
				bool keyword = m_state == S::AfterPubKw;
				c = get();
				if (keyword && (c == '"' || c == '\'')) err("missing-whitespace-after-doctype-public-keyword");
				if (ws(c)) m_state = S::BeforePub;
				else if (c == '"') m_state = S::PubDq;
				else if (c == '\'') m_state = S::PubSq;
				else if (c == '>') { err("missing-doctype-public-identifier"); m_doctype.flag = true; m_state = S::Data; emit_doctype(); }
				else if (c == EOFC) doctype_eof();
				else { err("missing-quote-before-doctype-public-identifier"); m_doctype.flag = true; back(S::BogusDoctype); }
				break;
			}
			case S::PubDq:
			case S::PubSq:
				c = get();
				if (c == (m_state == S::PubDq ? '"' : '\'')) m_state = S::AfterPub;
				else if (c == '>') { err("abrupt-doctype-public-identifier"); m_doctype.flag = true; m_state = S::Data; emit_doctype(); }
				else if (c == EOFC) doctype_eof();
				else m_doctype.pub += seen(c);
				break;
			case S::AfterPub:
			case S::BetweenPubSys:
			{
				bool next = m_state == S::AfterPub;
				c = get();
				if (next && (c == '"' || c == '\'')) err("missing-whitespace-between-doctype-public-and-system-identifiers");
				if (ws(c)) m_state = S::BetweenPubSys;
				else if (c == '>') { m_state = S::Data; emit_doctype(); }
				else if (c == '"') m_state = S::SysDq;
				else if (c == '\'') m_state = S::SysSq;
				else if (c == EOFC) doctype_eof();
				else { err("missing-quote-before-doctype-system-identifier"); m_doctype.flag = true; back(S::BogusDoctype); }
				break;
			}
			case S::AfterSysKw:
			case S::BeforeSys:
			{
				bool keyword = m_state == S::AfterSysKw;
				c = get();
				if (keyword && (c == '"' || c == '\'')) err("missing-whitespace-after-doctype-system-keyword");
				if (ws(c)) m_state = S::BeforeSys;
				else if (c == '"') m_state = S::SysDq;
				else if (c == '\'') m_state = S::SysSq;
				else if (c == '>') { err("missing-doctype-system-identifier"); m_doctype.flag = true; m_state = S::Data; emit_doctype(); }
				else if (c == EOFC) doctype_eof();
				else { err("missing-quote-before-doctype-system-identifier"); m_doctype.flag = true; back(S::BogusDoctype); }
				break;
			}
			case S::SysDq:
			case S::SysSq:
				c = get();
				if (c == (m_state == S::SysDq ? '"' : '\'')) m_state = S::AfterSys;
				else if (c == '>') { err("abrupt-doctype-system-identifier"); m_doctype.flag = true; m_state = S::Data; emit_doctype(); }
				else if (c == EOFC) doctype_eof();
				else m_doctype.sys += seen(c);
				break;
			case S::AfterSys:
				c = get();
				if (ws(c)) break;
				if (c == '>') { m_state = S::Data; emit_doctype(); }
				else if (c == EOFC) doctype_eof();
				else { err("unexpected-character-after-doctype-system-identifier"); back(S::BogusDoctype); }
				break;
			case S::BogusDoctype:
				c = get();
				if (c == '>') { m_state = S::Data; emit_doctype(); }
				else if (c == EOFC) { emit_doctype(); eof(); }
				else seen(c);
				break;
			case S::Cdata: c = get(); if (c == ']') m_state = S::CdataBracket; else if (c == EOFC) eof_in("eof-in-cdata"); else ch(c); break;
			case S::CdataBracket: c = get(); if (c == ']') m_state = S::CdataEnd; else { ch(']'); back(S::Cdata); } break;
			case S::CdataEnd:
				c = get();
				if (c == ']') ch(']');
				else if (c == '>') m_state = S::Data;
				else { ch(']'); ch(']'); back(S::Cdata); }
				break;
			case S::CharRef:
				m_tmp = U"&";
				c = get();
				if (alpha(c) || digit(c)) back(S::NamedRef);
				else if (c == '#') { m_tmp += U'#'; m_state = S::NumRef; }
				else { flush_ref(); back(m_return); }
				break;
			case S::NamedRef:
			{
				Entity const* e = longest();
				if (!e) { flush_ref(); m_state = S::AmbiguousAmp; break; }
				std::size_t n = std::string_view(e->name).size();
				m_tmp.append(m_in, m_i, n);
				m_i += n;
				std::int64_t next = m_i < m_in.size() ? static_cast<std::int64_t>(m_in[m_i]) : EOFC;
				if (in_attr() && m_tmp.back() != U';' && (next == '=' || alpha(next) || digit(next))) { flush_ref(); m_state = m_return; break; }
				if (m_tmp.back() != U';') err("missing-semicolon-after-character-reference");
				m_tmp.assign(1, e->a);
				if (e->b) m_tmp += e->b;
				flush_ref();
				m_state = m_return;
				break;
			}
			case S::AmbiguousAmp:
				c = get();
				if (alpha(c) || digit(c)) { if (in_attr()) attr().value += static_cast<char32_t>(c); else ch(c); }
				else { if (c == ';') err("unknown-named-character-reference"); back(m_return); }
				break;
			case S::NumRef:
				m_code = 0;
				c = get();
				if (c == 'x' || c == 'X') { m_tmp += static_cast<char32_t>(c); m_state = S::HexStart; }
				else back(S::DecStart);
				break;
			case S::HexStart: c = get(); if (hex(c) >= 0) back(S::Hex); else { err("absence-of-digits-in-numeric-character-reference"); flush_ref(); back(m_return); } break;
			case S::DecStart: c = get(); if (digit(c)) back(S::Dec); else { err("absence-of-digits-in-numeric-character-reference"); flush_ref(); back(m_return); } break;
			case S::Hex:
			case S::Dec:
			{
				c = get();
				int d = m_state == S::Hex ? hex(c) : digit(c) ? static_cast<int>(c - '0') : -1;
				if (d >= 0) { m_code = m_code * (m_state == S::Hex ? 16 : 10) + d; if (m_code > 0x110000) m_code = 0x110000; }
				else if (c == ';') m_state = S::NumEnd;
				else { err("missing-semicolon-after-character-reference"); back(S::NumEnd); }
				break;
			}
			case S::NumEnd:
			{
				static std::unordered_map<std::uint64_t, char32_t> const map = {
					{ 0x80, 0x20AC }, { 0x82, 0x201A }, { 0x83, 0x0192 }, { 0x84, 0x201E }, { 0x85, 0x2026 }, { 0x86, 0x2020 }, { 0x87, 0x2021 }, { 0x88, 0x02C6 }, { 0x89, 0x2030 },
					{ 0x8A, 0x0160 }, { 0x8B, 0x2039 }, { 0x8C, 0x0152 }, { 0x8E, 0x017D }, { 0x91, 0x2018 }, { 0x92, 0x2019 }, { 0x93, 0x201C }, { 0x94, 0x201D }, { 0x95, 0x2022 },
					{ 0x96, 0x2013 }, { 0x97, 0x2014 }, { 0x98, 0x02DC }, { 0x99, 0x2122 }, { 0x9A, 0x0161 }, { 0x9B, 0x203A }, { 0x9C, 0x0153 }, { 0x9E, 0x017E }, { 0x9F, 0x0178 } };
				if (m_code == 0) err("null-character-reference");
				else if (m_code > 0x10FFFF) err("character-reference-outside-unicode-range");
				else if (0xD800 <= m_code && m_code <= 0xDFFF) err("surrogate-character-reference");
				else if (noncharacter(m_code)) err("noncharacter-character-reference");
				else if (m_code == 0x0D || (control(m_code) && !ws(static_cast<std::int64_t>(m_code)))) err("control-character-reference");
				if (m_code == 0 || m_code > 0x10FFFF || (0xD800 <= m_code && m_code <= 0xDFFF)) m_code = 0xFFFD;
				else if (auto i = map.find(m_code); i != map.end()) m_code = i->second;
				m_tmp.assign(1, static_cast<char32_t>(m_code));
				flush_ref();
				m_state = m_return;
				break;
			}
			}
		}

		void new_comment() { m_comment = Token(); m_comment.kind = Token::Comment; }
		static int hex(std::int64_t c) { if (digit(c)) return static_cast<int>(c - '0'); if ('a' <= c && c <= 'f') return static_cast<int>(c - 'a' + 10); if ('A' <= c && c <= 'F') return static_cast<int>(c - 'A' + 10); return -1; }

		Entity const* longest() const
		{
			static std::unordered_map<std::string, Entity const*> const map = [] { std::unordered_map<std::string, Entity const*> m; for (auto const& e : entities) m[e.name] = &e; return m; }();
			std::string s;
			Entity const* best = nullptr;
			for (std::size_t k = m_i; k < m_in.size() && s.size() < 33; ++k)
			{
				if (m_in[k] >= 0x80) break;
				s += static_cast<char>(m_in[k]);
				if (auto i = map.find(s); i != map.end()) best = i->second;
			}
			return best;
		}
	};
}
