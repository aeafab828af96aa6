#pragma once
#include <cstdint>
#include <cstddef>
namespace ref {
extern std::int32_t const t_big5[]; extern std::size_t const n_big5;
extern std::int32_t const t_euc_kr[]; extern std::size_t const n_euc_kr;
extern std::int32_t const t_gb18030[]; extern std::size_t const n_gb18030;
extern std::int32_t const t_jis0208[]; extern std::size_t const n_jis0208;
extern std::int32_t const t_jis0212[]; extern std::size_t const n_jis0212;
extern std::int32_t const t_ibm866[]; extern std::size_t const n_ibm866;
extern std::int32_t const t_iso_2022_jp_katakana[]; extern std::size_t const n_iso_2022_jp_katakana;
extern std::int32_t const t_iso_8859_2[]; extern std::size_t const n_iso_8859_2;
extern std::int32_t const t_iso_8859_3[]; extern std::size_t const n_iso_8859_3;
extern std::int32_t const t_iso_8859_4[]; extern std::size_t const n_iso_8859_4;
extern std::int32_t const t_iso_8859_5[]; extern std::size_t const n_iso_8859_5;
extern std::int32_t const t_iso_8859_6[]; extern std::size_t const n_iso_8859_6;
extern std::int32_t const t_iso_8859_7[]; extern std::size_t const n_iso_8859_7;
extern std::int32_t const t_iso_8859_8[]; extern std::size_t const n_iso_8859_8;
extern std::int32_t const t_iso_8859_10[]; extern std::size_t const n_iso_8859_10;
extern std::int32_t const t_iso_8859_13[]; extern std::size_t const n_iso_8859_13;
extern std::int32_t const t_iso_8859_14[]; extern std::size_t const n_iso_8859_14;
extern std::int32_t const t_iso_8859_15[]; extern std::size_t const n_iso_8859_15;
extern std::int32_t const t_iso_8859_16[]; extern std::size_t const n_iso_8859_16;
extern std::int32_t const t_koi8_r[]; extern std::size_t const n_koi8_r;
extern std::int32_t const t_koi8_u[]; extern std::size_t const n_koi8_u;
extern std::int32_t const t_macintosh[]; extern std::size_t const n_macintosh;
extern std::int32_t const t_windows_874[]; extern std::size_t const n_windows_874;
extern std::int32_t const t_windows_1250[]; extern std::size_t const n_windows_1250;
extern std::int32_t const t_windows_1251[]; extern std::size_t const n_windows_1251;
extern std::int32_t const t_windows_1252[]; extern std::size_t const n_windows_1252;
extern std::int32_t const t_windows_1253[]; extern std::size_t const n_windows_1253;
extern std::int32_t const t_windows_1254[]; extern std::size_t const n_windows_1254;
extern std::int32_t const t_windows_1255[]; extern std::size_t const n_windows_1255;
extern std::int32_t const t_windows_1256[]; extern std::size_t const n_windows_1256;
extern std::int32_t const t_windows_1257[]; extern std::size_t const n_windows_1257;
extern std::int32_t const t_windows_1258[]; extern std::size_t const n_windows_1258;
extern std::int32_t const t_x_mac_cyrillic[]; extern std::size_t const n_x_mac_cyrillic;
extern std::int32_t const t_gb18030_ranges[]; extern std::size_t const n_gb18030_ranges;
}
