#pragma once
// The parse errors of the HTML Standard and how the library calls them.
#include <wordring/whatwg/html/parsing/parser_defs.hpp>
#include <string_view>
namespace ref
{
	struct ErrorSpelling { wordring::whatwg::html::parsing::error_name e; char const* s; };
	using wordring::whatwg::html::parsing::error_name;
	inline constexpr ErrorSpelling all_errors[] = {
		{ error_name::abrupt_closing_of_empty_comment, "abrupt-closing-of-empty-comment" },
		{ error_name::abrupt_doctype_public_identifier, "abrupt-doctype-public-identifier" },
		{ error_name::abrupt_doctype_system_identifier, "abrupt-doctype-system-identifier" },
		{ error_name::absence_of_digits_in_numeric_character_reference, "absence-of-digits-in-numeric-character-reference" },
		{ error_name::cdata_in_html_content, "cdata-in-html-content" },
		{ error_name::character_reference_outside_unicode_range, "character-reference-outside-unicode-range" },
		{ error_name::control_character_in_input_stream, "control-character-in-input-stream" },
		{ error_name::control_character_reference, "control-character-reference" },
		{ error_name::end_tag_with_attributes, "end-tag-with-attributes" },
		{ error_name::duplicate_attribute, "duplicate-attribute" },
		{ error_name::end_tag_with_trailing_solidus, "end-tag-with-trailing-solidus" },
		{ error_name::eof_before_tag_name, "eof-before-tag-name" },
		{ error_name::eof_in_cdata, "eof-in-cdata" },
		{ error_name::eof_in_comment, "eof-in-comment" },
		{ error_name::eof_in_doctype, "eof-in-doctype" },
		{ error_name::eof_in_script_html_comment_like_text, "eof-in-script-html-comment-like-text" },
		{ error_name::eof_in_tag, "eof-in-tag" },
		{ error_name::incorrectly_closed_comment, "incorrectly-closed-comment" },
		{ error_name::incorrectly_opened_comment, "incorrectly-opened-comment" },
		{ error_name::invalid_character_sequence_after_doctype_name, "invalid-character-sequence-after-doctype-name" },
		{ error_name::invalid_first_character_of_tag_name, "invalid-first-character-of-tag-name" },
		{ error_name::missing_attribute_value, "missing-attribute-value" },
		{ error_name::missing_doctype_name, "missing-doctype-name" },
		{ error_name::missing_doctype_public_identifier, "missing-doctype-public-identifier" },
		{ error_name::missing_doctype_system_identifier, "missing-doctype-system-identifier" },
		{ error_name::missing_end_tag_name, "missing-end-tag-name" },
		{ error_name::missing_quote_before_doctype_public_identifier, "missing-quote-before-doctype-public-identifier" },
		{ error_name::missing_quote_before_doctype_system_identifier, "missing-quote-before-doctype-system-identifier" },
		{ error_name::missing_semicolon_after_character_reference, "missing-semicolon-after-character-reference" },
		{ error_name::missing_whitespace_after_doctype_public_keyword, "missing-whitespace-after-doctype-public-keyword" },
		{ error_name::missing_whitespace_after_doctype_system_keyword, "missing-whitespace-after-doctype-system-keyword" },
		{ error_name::missing_whitespace_before_doctype_name, "missing-whitespace-before-doctype-name" },
		{ error_name::missing_whitespace_between_attributes, "missing-whitespace-between-attributes" },
		{ error_name::missing_whitespace_between_doctype_public_and_system_identifiers, "missing-whitespace-between-doctype-public-and-system-identifiers" },
		{ error_name::nested_comment, "nested-comment" },
		{ error_name::noncharacter_character_reference, "noncharacter-character-reference" },
		{ error_name::noncharacter_in_input_stream, "noncharacter-in-input-stream" },
		{ error_name::non_void_html_element_start_tag_with_trailing_solidus, "non-void-html-element-start-tag-with-trailing-solidus" },
		{ error_name::null_character_reference, "null-character-reference" },
		{ error_name::surrogate_character_reference, "surrogate-character-reference" },
		{ error_name::surrogate_in_input_stream, "surrogate-in-input-stream" },
		{ error_name::unexpected_character_after_doctype_system_identifier, "unexpected-character-after-doctype-system-identifier" },
		{ error_name::unexpected_character_in_attribute_name, "unexpected-character-in-attribute-name" },
		{ error_name::unexpected_character_in_unquoted_attribute_value, "unexpected-character-in-unquoted-attribute-value" },
		{ error_name::unexpected_equals_sign_before_attribute_name, "unexpected-equals-sign-before-attribute-name" },
		{ error_name::unexpected_null_character, "unexpected-null-character" },
		{ error_name::unexpected_question_mark_instead_of_tag_name, "unexpected-question-mark-instead-of-tag-name" },
		{ error_name::unexpected_solidus_in_tag, "unexpected-solidus-in-tag" },
		{ error_name::unknown_named_character_reference, "unknown-named-character-reference" },
	};
	inline char const* spelled(error_name e) { for (auto& x : all_errors) if (x.e == e) return x.s; return "no error of the tokenizer"; }
	inline bool of_input_stream(std::string_view s) { return s.ends_with("-in-input-stream"); }
	// the order of two errors of one and the same end tag is open
	template <class V> void settle(V& v) { for (std::size_t i = 1; i < v.size(); ++i) if (std::string_view(v[i - 1]) == "end-tag-with-trailing-solidus" && std::string_view(v[i]) == "end-tag-with-attributes") std::swap(v[i - 1], v[i]); }
}
