// X01: calendar time converts to the right instant
#include "mc.hpp"
#include <sprout/ctime.hpp>
#include <ctime>
using namespace mc;
// calendar time
MC_SECTION(x01_time) {
	bound("dates", "every day of the years 1900-2100 (thorough: 1601-2400), every second of three days; every __DATE__/__TIME__ text of the years");
	static const char* mon[] = {"Jan", "Feb", "Mar", "Apr", "May", "Jun", "Jul", "Aug", "Sep", "Oct", "Nov", "Dec"}; int y0 = thorough() ? 1601 : 1900, y1 = thorough() ? 2400 : 2100;
	for (int y = y0; y <= y1; ++y) for (int m = 1; m <= 12; ++m) { int nd = m == 2 ? 28 + ((y % 4 == 0 && y % 100) || y % 400 == 0) : 30 + ((m + (m > 7)) & 1); for (int d = 1; d <= nd; ++d) {
		MC_STATE(str(y) + "-" + str(m) + "-" + str(d)); std::tm t = std::tm(); t.tm_year = y - 1900; t.tm_mon = m - 1; t.tm_mday = d; t.tm_hour = (y + d) % 24; t.tm_min = (y * 7 + d) % 60; t.tm_sec = (y + 3 * d) % 60; std::tm u = t; std::time_t want = timegm(&u);
		eq("to_time_t(numbers)", (long)sprout::to_time_t(y, m, d, t.tm_hour, t.tm_min, t.tm_sec), (long)want); eq("to_time_t(tm)", (long)sprout::to_time_t(t), (long)want);
		char db[40], tb[40]; std::snprintf(db, sizeof db, "%s %2d %d", mon[m - 1], d, y); std::snprintf(tb, sizeof tb, "%02d:%02d:%02d", t.tm_hour, t.tm_min, t.tm_sec); eq("to_time_t(date, time)", (long)sprout::to_time_t((const char*)db, (const char*)tb), (long)want); eq("difftime", sprout::difftime(want, 12345), std::difftime(want, 12345)); trace(); } }
	for (int day : {1, 59, 366}) for (int s = 0; s < 86400; ++s) { MC_STATE("second " + str(s)); std::tm t = std::tm(); t.tm_year = 100; t.tm_mon = 0; t.tm_mday = 1; std::time_t base = timegm(&t); (void)day; eq("to_time_t(second)", (long)sprout::to_time_t(2000, 1, 1, s / 3600, s / 60 % 60, s % 60), (long)(base + s)); }
}
