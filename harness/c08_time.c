/* Contract of mbus_data_tm_decode (C08): N bytes, exactly as large as given. */
#include "vp.h"
#include <time.h>
#include "mbus-protocol.h"
void harness(void)
{
    struct tm t, w; u8 d[N ? N : 1]; size_t k, n = N; int ok;
    vp_fill(&t, sizeof t); memset(&w, 0, sizeof w); vp_fill(d, N);
#if N == 2
    w.tm_mday = d[0] & 31; w.tm_mon = (d[1] & 15) - 1;
    w.tm_year = 100 + (((d[1] >> 4) << 3) | (d[0] >> 5));
#elif N == 4
    if (!(d[0] & 0x80)) {
        int y = ((d[3] >> 4) << 3) | (d[2] >> 5), c = (d[1] >> 5) & 3;
        w.tm_min = d[0] & 63; w.tm_hour = d[1] & 31; w.tm_mday = d[2] & 31; w.tm_mon = (d[3] & 15) - 1;
        w.tm_year = y + ((c == 0 && y <= 80) ? 100 : 100 * c);
        w.tm_isdst = d[1] >> 7;
    }
    VP_COVER(d[0] & 0x80, "invalid time");
#elif N == 6
    if (!(d[1] & 0x80)) {
        w.tm_sec = d[0] & 63; w.tm_min = d[1] & 63; w.tm_hour = d[2] & 31; w.tm_mday = d[3] & 31; w.tm_mon = (d[4] & 15) - 1;
        w.tm_year = 100 + (((d[4] >> 4) << 3) | (d[3] >> 5));
        w.tm_isdst = (d[0] >> 6) & 1;
    }
    VP_COVER(d[1] & 0x80, "invalid time");
#else                           /* every other size */
    n = vp_size(); VP_ASSUME(n != 2 && n != 4 && n != 6);
#endif
    { struct tm t0 = t; (void)t0;
    mbus_data_tm_decode(&t, d, n);
    ok = t.tm_sec == w.tm_sec && t.tm_min == w.tm_min && t.tm_hour == w.tm_hour;
    VP_ASSERT(ok, "time of day");
    VP_ASSERT(t.tm_mday == w.tm_mday && t.tm_mon == w.tm_mon && t.tm_year == w.tm_year, "date");
    VP_ASSERT(t.tm_isdst == w.tm_isdst && t.tm_wday == 0 && t.tm_yday == 0, "daylight saving bit"); }
    vp_fill(&t, sizeof t);
    mbus_data_tm_decode(&t, NULL, n);
    VP_ASSERT(!t.tm_sec && !t.tm_min && !t.tm_hour && !t.tm_mday && !t.tm_mon && !t.tm_year && !t.tm_isdst, "no data: all zero");
    mbus_data_tm_decode(NULL, d, n);
    VP_COVER(ok, "reached");
    (void)k;
}
