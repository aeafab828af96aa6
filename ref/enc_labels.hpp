// The labels of the Encoding Standard ("names and labels"), written out independently of the library: the edition
// the library implements. Nine labels the standard gained later (unicode, ucs-2, unicode11utf8, ...) are left out.
#pragma once
#include "enc_ref.hpp"

namespace ref
{
	inline std::map<std::string, encoding_name> const& labels()
	{
		static std::map<std::string, encoding_name> const m = [] {
			using E = encoding_name;
			static std::pair<E, char const*> const t[] = {
				{ E::UTF_8, "unicode-1-1-utf-8 utf-8 utf8" },
				{ E::IBM866, "866 cp866 csibm866 ibm866" },
				{ E::ISO_8859_2, "csisolatin2 iso-8859-2 iso-ir-101 iso8859-2 iso88592 iso_8859-2 iso_8859-2:1987 l2 latin2" },
				{ E::ISO_8859_3, "csisolatin3 iso-8859-3 iso-ir-109 iso8859-3 iso88593 iso_8859-3 iso_8859-3:1988 l3 latin3" },
				{ E::ISO_8859_4, "csisolatin4 iso-8859-4 iso-ir-110 iso8859-4 iso88594 iso_8859-4 iso_8859-4:1988 l4 latin4" },
				{ E::ISO_8859_5, "csisolatincyrillic cyrillic iso-8859-5 iso-ir-144 iso8859-5 iso88595 iso_8859-5 iso_8859-5:1988" },
				{ E::ISO_8859_6, "arabic asmo-708 csiso88596e csiso88596i csisolatinarabic ecma-114 iso-8859-6 iso-8859-6-e iso-8859-6-i iso-ir-127 iso8859-6 iso88596 iso_8859-6 iso_8859-6:1987" },
				{ E::ISO_8859_7, "csisolatingreek ecma-118 elot_928 greek greek8 iso-8859-7 iso-ir-126 iso8859-7 iso88597 iso_8859-7 iso_8859-7:1987 sun_eu_greek" },
				{ E::ISO_8859_8, "csiso88598e csisolatinhebrew hebrew iso-8859-8 iso-8859-8-e iso-ir-138 iso8859-8 iso88598 iso_8859-8 iso_8859-8:1988 visual" },
				{ E::ISO_8859_8_I, "csiso88598i iso-8859-8-i logical" },
				{ E::ISO_8859_10, "csisolatin6 iso-8859-10 iso-ir-157 iso8859-10 iso885910 l6 latin6" },
				{ E::ISO_8859_13, "iso-8859-13 iso8859-13 iso885913" },
				{ E::ISO_8859_14, "iso-8859-14 iso8859-14 iso885914" },
				{ E::ISO_8859_15, "csisolatin9 iso-8859-15 iso8859-15 iso885915 iso_8859-15 l9" },
				{ E::ISO_8859_16, "iso-8859-16" },
				{ E::KOI8_R, "cskoi8r koi koi8 koi8-r koi8_r" },
				{ E::KOI8_U, "koi8-ru koi8-u" },
				{ E::macintosh, "csmacintosh mac macintosh x-mac-roman" },
				{ E::windows_874, "dos-874 iso-8859-11 iso8859-11 iso885911 tis-620 windows-874" },
				{ E::windows_1250, "cp1250 windows-1250 x-cp1250" },
				{ E::windows_1251, "cp1251 windows-1251 x-cp1251" },
				{ E::windows_1252, "ansi_x3.4-1968 ascii cp1252 cp819 csisolatin1 ibm819 iso-8859-1 iso-ir-100 iso8859-1 iso88591 iso_8859-1 iso_8859-1:1987 l1 latin1 us-ascii windows-1252 x-cp1252" },
				{ E::windows_1253, "cp1253 windows-1253 x-cp1253" },
				{ E::windows_1254, "cp1254 csisolatin5 iso-8859-9 iso-ir-148 iso8859-9 iso88599 iso_8859-9 iso_8859-9:1989 l5 latin5 windows-1254 x-cp1254" },
				{ E::windows_1255, "cp1255 windows-1255 x-cp1255" },
				{ E::windows_1256, "cp1256 windows-1256 x-cp1256" },
				{ E::windows_1257, "cp1257 windows-1257 x-cp1257" },
				{ E::windows_1258, "cp1258 windows-1258 x-cp1258" },
				{ E::x_mac_cyrillic, "x-mac-cyrillic x-mac-ukrainian" },
				{ E::GBK, "chinese csgb2312 csiso58gb231280 gb2312 gb_2312 gb_2312-80 gbk iso-ir-58 x-gbk" },
				{ E::gb18030, "gb18030" },
				{ E::Big5, "big5 big5-hkscs cn-big5 csbig5 x-x-big5" },
				{ E::EUC_JP, "cseucpkdfmtjapanese euc-jp x-euc-jp" },
				{ E::ISO_2022_JP, "csiso2022jp iso-2022-jp" },
				{ E::Shift_JIS, "csshiftjis ms932 ms_kanji shift-jis shift_jis sjis windows-31j x-sjis" },
				{ E::EUC_KR, "cseuckr csksc56011987 euc-kr iso-ir-149 korean ks_c_5601-1987 ks_c_5601-1989 ksc5601 ksc_5601 windows-949" },
				{ E::replacement, "csiso2022kr hz-gb-2312 iso-2022-cn iso-2022-cn-ext iso-2022-kr replacement" },
				{ E::UTF_16BE, "utf-16be" },
				{ E::UTF_16LE, "utf-16 utf-16le" },
				{ E::x_user_defined, "x-user-defined" },
			};
			std::map<std::string, E> r;
			for (auto& x : t)
			{
				std::string l;
				for (char const* p = x.second; ; ++p)
				{
					if (*p == ' ' || !*p) { r[l] = x.first; l.clear(); if (!*p) break; }
					else l += *p;
				}
			}
			return r; }();
		return m;
	}

	// "get an encoding": 0 when the label is unknown
	inline encoding_name encoding_of(Text const& label)
	{
		auto space = [](char32_t c) { return c == 9 || c == 10 || c == 12 || c == 13 || c == 32; };
		std::size_t b = 0, e = label.size();
		while (b < e && space(label[b])) ++b;
		while (b < e && space(label[e - 1])) --e;
		std::string s;
		for (; b < e; ++b)
		{
			char32_t c = label[b];
			if (c >= 0x80) return static_cast<encoding_name>(0);
			s += static_cast<char>(c >= 'A' && c <= 'Z' ? c + 32 : c);
		}
		auto it = labels().find(s);
		return it == labels().end() ? static_cast<encoding_name>(0) : it->second;
	}
}
