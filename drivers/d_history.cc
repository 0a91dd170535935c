// C07, C08: history window and median against an explicit list of samples
#include "../harness/vh.h"
extern "C" {
#include "gutil_history.h"
}
typedef __int128 i128;
static gint64 now_;
static gint64 clock_fn(void) { return now_; }

struct HistCase {
    Case& c; Rng& r;
    GUtilIntHistory* h;
    int max_size; i64 max_interval;
    std::deque<std::pair<i64,int>> s;
    bool median_only;
    int vclass;
    i64 tmax;
    int refs;
    HistCase(Case& c_, bool m) : c(c_), r(c_.r), median_only(m), refs(1) {}

    void flush() { while (s.size() && s.front().first < now_ - max_interval) { s.pop_front(); CNT("expired"); } }
    int value() {
        switch (vclass) {
        case 0: return (int)r.range(-10, 10);
        case 1: return (int)r.range(-1000000, 1000000);
        case 2: { static const int e[] = { INT_MAX, INT_MIN, INT_MAX - 1, INT_MIN + 1, 0, 1, -1 }; return e[r.below(7)]; }
        case 3: return (int)r.range(0, 3);
        case 4: return INT_MAX - (int)r.below(5);
        case 5: return INT_MIN + (int)r.below(5);
        default: return r.int32();
        }
    }
    void check_median(int got, const char* what) {
        int lo = INT_MAX, hi = INT_MIN;
        for (auto& e : s) { lo = MIN(lo, e.second); hi = MAX(hi, e.second); }
        CHECK(got >= lo && got <= hi, "%s: median %d is out of range %d..%d", what, got, lo, hi);
        if (s.size() == 1) { CHECK_EQ(got, s.front().second, what); CNT("median_single"); }
        else {
            i128 sum = 0;
            const i64 dt = s.back().first - s.front().first;
            for (size_t i = 1; i < s.size(); i++)
                sum += (i128)(s[i].first - s[i-1].first) * ((i64)s[i].second + s[i-1].second);
            // The (doubled) area under each odd segment can't be halved exactly, the result is rounded either way
            i128 lo2 = sum, hi2 = sum;
            for (size_t i = 1; i < s.size(); i++)
                if (((s[i].first - s[i-1].first) & 1) && (((i64)s[i].second + s[i-1].second) & 1)) { lo2--; hi2++; }
            const i64 vmax = MAX(MAX(-(i64)lo, (i64)hi), 1);
            if (dt > INT64_MAX / (2 * vmax)) {
                // The area doesn't fit into 64 bits, the result can't be better than 2^-30 of the values per sample
                const i64 tol = 2 + (i64)(s.size() + 2) * vmax / (1 << 28);
                lo2 -= (i128)2 * dt * tol; hi2 += (i128)2 * dt * tol;
                CNT("median_long");
            }
            const i128 d2 = (i128)2 * dt;
            const i128 min = lo2 >= 0 ? lo2 / d2 : -((-lo2 + d2 - 1) / d2);
            const i128 max = hi2 >= 0 ? (hi2 + d2 - 1) / d2 : -((-hi2) / d2);
            CHECK(got >= min && got <= max, "%s: median %d, expected about %lld (%lld..%lld, %u samples)", what, got,
                (long long)(sum / d2), (long long)min, (long long)max, (unsigned)s.size());
            CNT("median_multi");
        }
    }
    void run() {
        vclass = (int)r.below(7);
        tmax = (i64)1 << (20 + r.below(42));
        switch (r.below(4)) {
        case 0: max_interval = 1 + r.below(10); break;
        case 1: max_interval = 1 + r.below(1000); break;
        case 2: max_interval = 1 + (i64)r.below(MIN(tmax, (i64)1 << 31)); break;
        default: max_interval = 1 + (i64)(r.next() % (u64)tmax); break;
        }
        max_size = r.pct(10) ? 1 : r.pct(60) ? 1 + (int)r.below(8) : 1 + (int)r.size(60);
        if (c.thorough && r.pct(5)) max_size = 1 + (int)r.below(2000);
        const bool round = c.idx % 211 == 17;
        if (round) { max_size = (int)(r.pct(60) ? 1 + r.near_round(1100) : 1200); if (max_interval < 20000) max_interval = 20000; }
        now_ = r.pct(20) ? 0 : (i64)r.below(1000000000000LL);
        if (r.pct(15)) { now_ = r.pct(70) ? -(i64)r.below(20 * (u64)MIN(max_interval, 1 << 20)) : -now_; if (now_ < 0) CNT("negative_time"); }
        // Adding a sample takes time proportional to the number of samples
        const bool big = vh_big(c, 160001);
        if (big) {
            max_size = !vh_o3(c) ? 5000 + (int)r.below(1000) : ((c.idx / 160001) & 1 ? 65537 : 32769) + (int)r.below(4);
            if (max_interval < 200000) max_interval = 200000;
        }
        // Nothing ever expires
        const bool forever = r.pct(4);
        if (forever) { max_interval = G_MAXINT64 - (i64)r.below(3); if (now_ < 0) now_ = -now_; CNT("forever"); }
        vh_op("new size=%d interval=%lld now=%lld", max_size, (long long)max_interval, (long long)now_);
        h = gutil_int_history_new_full(max_size, max_interval, clock_fn);
        CHECK(h != NULL, "new");
        if (big) {
            for (int i = 0; i < max_size + 10; i++) {
                now_ += 1 + r.below(2);
                const int v = value(), m = gutil_int_history_add(h, v);
                flush();
                s.push_back({ now_, v }); if ((int)s.size() > max_size) s.pop_front();
                if (i % 500 == 0) { check_median(m, "add to a large history"); vh_heartbeat(); }
            }
            CHECK_EQ(gutil_int_history_size(h), (guint)s.size(), "size of a large history");
            CNT("large");
        }
        if (round) {
            for (u64 k = max_size < 1200 ? max_size + r.below(5) : r.near_round(1100); k > 0; k--) {
                now_ += 1 + r.below(2);
                const int v = value(), m = gutil_int_history_add(h, v);
                flush();
                s.push_back({ now_, v }); if ((int)s.size() > max_size) s.pop_front();
                if (k < 4) check_median(m, "add to a history of a round size");
            }
            CHECK_EQ(gutil_int_history_size(h), (guint)s.size(), "size of a history");
            CNT("round_size");
        }
        const int ops = big || round ? 20 : 30 + (int)r.below(r.pct(20) ? 600 : 100);
        const bool allow_back = r.pct(30);
        bool back = false;      // clock is behind the newest sample
        const int dense = (int)r.below(100);
        for (int i = 0; i < ops; i++) {
            // Clock
            if (r.pct(70)) {
                i64 d;
                if (forever) d = r.pct(20) ? 0 : (i64)(r.next() >> (2 + r.below(62)));
                else switch (r.below(8)) {
                case 0: d = 0; break;
                case 1: case 2: d = 1 + (i64)r.below(3); break;
                case 3: d = dense < 50 ? 1 : max_interval + (i64)r.range(-1, 2); break;
                case 4: d = (i64)r.below(max_interval / MAX(max_size, 2) + 2); break;
                case 5: d = (i64)r.below(max_interval + 2) / 4; break;
                case 6: d = r.pct(20) ? (i64)r.below((u64)max_interval) * 2 : 1; break;
                default: // put some sample right on the boundary
                    d = s.size() ? s[r.below(s.size())].first + max_interval + (i64)r.range(-1, 1) - now_ : 1;
                    if (d < 0 || r.pct(60)) d = 1;
                    break;
                }
                if (allow_back && r.pct(8) && (now_ > 100 || now_ < 0)) d = -(i64)r.below(MIN(now_ < 0 ? 1000 : now_, max_interval) + 1);
                if (now_ > ((i64)1 << 61) || d > ((i64)1 << 61)) break;
                now_ += d;
                vh_op("clock %+lld", (long long)d);
            }
            back = s.size() && now_ < s.back().first;
            if (back) CNT("clock_behind_newest");
            switch (r.below(12)) {
            case 0: case 1: case 2: case 3: case 4: case 5: {
                const int v = value();
                vh_op("add %d", v);
                const int m = gutil_int_history_add(h, v);
                flush();
                if (s.size() && now_ <= s.back().first) { s.back().second = v; CNT("replaced"); }
                else { s.push_back({ now_, v }); if ((int)s.size() > max_size) { s.pop_front(); CNT("evicted"); } }
                check_median(m, "add");
                vh_mix((u64)m);
                CNT("add");
                break; }
            case 6: case 7: {
                flush();
                vh_op("size");
                CHECK_EQ(gutil_int_history_size(h), (guint)s.size(), "size");
                vh_mix(s.size());
                break; }
            case 8: {
                flush();
                vh_op("interval");
                const i64 got = gutil_int_history_interval(h);
                if (!back) CHECK_EQ(got, (i64)(s.size() ? now_ - s.front().first : 0), "interval");
                break; }
            case 9: case 10: {
                flush();
                vh_op("median");
                const int def = r.int32();
                const int m = gutil_int_history_median(h, def);
                if (s.empty()) { CHECK_EQ(m, def, "median of empty history"); CNT("median_default"); }
                else check_median(m, "median");
                vh_mix((u64)m);
                break; }
            case 11:
                if (r.pct(25)) { vh_op("clear"); gutil_int_history_clear(h); s.clear(); CNT("clear"); }
                else if (r.pct(50)) { CHECK(gutil_int_history_ref(h) == h, "ref"); refs++; }
                else if (refs > 1) { gutil_int_history_unref(h); refs--; }
                break;
            }
            if (s.size() > 1) vh_nontrivial();
        }
        while (refs--) gutil_int_history_unref(h);
    }
};
// The clock goes on between any two readings of it. Whatever a query returns has
// to be right for a moment during the call.
static i64 ticking_now, tick;
static std::vector<i64> readings;
static gint64 ticking_clock(void) { const i64 t = ticking_now; ticking_now += tick; readings.push_back(t); return t; }
static void ticking(Case& c)
{
    Rng& r = c.r;
    const int max_size = 1 + (int)r.below(8);
    const i64 max_interval = 1 + (i64)r.below(60);
    ticking_now = (i64)r.below(1000);
    tick = 1 + (i64)r.below(r.pct(70) ? 3 : max_interval + 2);
    GUtilIntHistory* h = gutil_int_history_new_full(max_size, max_interval, ticking_clock);
    CHECK(h, "new");
    vh_op("ticking size=%d interval=%lld tick=%lld", max_size, (long long)max_interval, (long long)tick);
    std::deque<std::pair<i64,int>> all;
    for (int n = 40; n; n--) {
        if (r.pct(40)) ticking_now += (i64)r.below(r.pct(80) ? 5 : max_interval);
        readings.clear();
        switch (r.below(5)) {
        case 0: case 1: {
            const int v = (int)r.range(-1000, 1000), m = gutil_int_history_add(h, v);
            if (readings.size() != 1) { n = 1; break; } // Could be any of those
            all.push_back({ readings[0], v });
            if ((int)all.size() > max_size) all.pop_front();
            int lo = v, hi = v;
            for (auto& e : all) if (e.first >= readings[0] - max_interval) { lo = MIN(lo, e.second); hi = MAX(hi, e.second); }
            CHECK(m >= lo && m <= hi, "median %d is out of range %d..%d", m, lo, hi);
            break; }
        case 2: {
            const guint k = gutil_int_history_size(h);
            if (readings.empty()) readings.push_back(ticking_now); // Empty already
            bool ok = all.empty() && !k;
            for (i64 t : readings) ok = ok || k == (guint)std::count_if(all.begin(), all.end(), [&](const std::pair<i64,int>& e) { return e.first >= t - max_interval; });
            CHECK(ok, "size is %u", k);
            break; }
        case 3: {
            const i64 k = gutil_int_history_interval(h);
            if (readings.empty()) readings.push_back(ticking_now);
            bool ok = all.empty() && !k;
            CHECK(k >= 0 && k <= max_interval, "interval is %lld", (long long)k);
            for (i64 t : readings) { auto e = std::find_if(all.begin(), all.end(), [&](const std::pair<i64,int>& e) { return e.first >= t - max_interval; }); ok = ok || k == (e == all.end() ? 0 : t - e->first); }
            CHECK(ok, "interval is %lld", (long long)k);
            break; }
        case 4: {
            const int k = gutil_int_history_median(h, 123456);
            if (readings.empty()) readings.push_back(ticking_now);
            bool ok = all.empty() && k == 123456;
            for (i64 t : readings) {
                int lo = INT_MAX, hi = INT_MIN;
                for (auto& e : all) if (e.first >= t - max_interval) { lo = MIN(lo, e.second); hi = MAX(hi, e.second); }
                ok = ok || (lo > hi ? k == 123456 : k >= lo && k <= hi);
            }
            CHECK(ok, "median is %d", k);
            break; }
        }
    }
    gutil_int_history_unref(h);
    CNT("ticking_clock");
}
static void c07(Case& c)
{
    if (c.idx % 8 == 3) ticking(c);
    if (c.idx % 64 == 0) {
        const int bs[] = { 0, -1, INT_MIN, -(int)c.r.below(1000) - 1 };
        const i64 bi[] = { 0, -1, INT64_MIN, -(i64)c.r.below(1000) - 1 };
        for (int k = 0; k < 4; k++) {
            CHECK(!gutil_int_history_new(bs[k], 10), "history of non-positive size");
            CHECK(!gutil_int_history_new(3, bi[k]), "history with non-positive interval");
            CHECK(!gutil_int_history_new_full(bs[k], bi[k], clock_fn), "bad history");
        }
        for (int k = 0; k < 20; k++) {
            const int n = 1 + (int)c.r.size(300);
            const i64 i = c.r.pct(50) ? 1 + (i64)c.r.size(300) : c.r.pct(30) ? n : c.r.pct(50) ? 2 * (i64)n : 1 + (i64)(c.r.next() >> (2 + c.r.below(50)));
            GUtilIntHistory* h = c.r.pct(50) ? gutil_int_history_new(n, i) : gutil_int_history_new_full(n, i, NULL);
            const int v = c.r.int32();
            CHECK(h, "new(%d, %lld)", n, (long long)i);
            CHECK_EQ(gutil_int_history_add(h, v), v, "first add");
            CHECK(gutil_int_history_size(h) <= 1, "size after the first add");
            CHECK(gutil_int_history_interval(h) <= i, "interval is too long");
            if (i > 3600 * (i64)GUTIL_HISTORY_SEC) CHECK_EQ(gutil_int_history_median(h, ~v), v, "median of one");
            gutil_int_history_unref(h);
        }
        // Default clock is monotonic and an hour is enough for the test to finish
        GUtilIntHistory* h = gutil_int_history_new(3, 3600 * GUTIL_HISTORY_SEC);
        const i64 t0 = g_get_monotonic_time();
        CHECK_EQ(gutil_int_history_add(h, 5), 5, "first add");
        const i64 t1 = g_get_monotonic_time();
        CHECK_EQ(gutil_int_history_size(h), 1u, "size with the real clock");
        const i64 iv = gutil_int_history_interval(h);
        const i64 t2 = g_get_monotonic_time();
        CHECK(iv >= 0 && iv <= t2 - t0 && iv >= 0 && t1 >= t0, "interval with the real clock: %lld", (long long)iv);
        gutil_int_history_unref(h);
        CNT("real_clock");
    }
    HistCase hc(c, false); hc.run();
}
static void c08(Case& c) { HistCase hc(c, true); hc.run(); }
VH_PROP(C07, c07);
VH_PROP(C08, c08);
