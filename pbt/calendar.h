// Independent civil calendar model (proleptic Gregorian, astronomical year numbering), by counting.
#pragma once
#include <cstdint>
namespace cal {
inline int64_t fdiv(int64_t a, int64_t b) { int64_t q = a / b; return (a % b != 0 && ((a < 0) != (b < 0)))? q - 1: q; }
inline bool leap(int64_t y) { const int64_t m4 = y - 4 * fdiv(y, 4), m100 = y - 100 * fdiv(y, 100), m400 = y - 400 * fdiv(y, 400); return m4 == 0 && (m100 != 0 || m400 == 0); }
inline int dim(int64_t y, int m) { static const int d[] = {31, 28, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31}; return m == 2 && leap(y)? 29: d[m - 1]; }
/// days from 0000 January 1 to January 1 of year y
inline int64_t year_start(int64_t y) { const int64_t p = y - 1; return 365 * y + (fdiv(p, 4) - fdiv(p, 100) + fdiv(p, 400)) + 1; }
inline int64_t raw_days(int64_t y, int m, int64_t d) { int64_t n = year_start(y); for (int k = 1; k < m; k++) n += dim(y, k); return n + d - 1; }
/// MJD of 0h on the given date; day may be any integer
inline int64_t mjd(int64_t y, int m, int64_t d) { return raw_days(y, m, d) - raw_days(1858, 11, 17); }
inline bool valid(int64_t y, int m, int d) { return m >= 1 && m <= 12 && d >= 1 && d <= dim(y, m); }
/// year and day in year, in the Julian calendar (leap year every 4) that coincides with the Gregorian one on 2000 January 1
inline void julian_yd(int64_t mjd_, int64_t& y, int64_t& yd) {
    const int64_t n = mjd_ - mjd(2000, 1, 1) + 365 * 2000 + 500;          // days since aligned Julian 0000 January 1
    auto start = [](int64_t k) { return 365 * k + fdiv(k + 3, 4); };
    y = fdiv(n * 4, 1461);
    while (start(y) > n) y--;
    while (start(y + 1) <= n) y++;
    yd = n - start(y) + 1;
}
} // cal
