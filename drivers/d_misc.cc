// C22, C23, C24, C32: hex, numbers, data blocks, handlers and sources
#include <functional>
#include "../harness/vh.h"
#include <sys/mman.h>
#include <cerrno>
extern "C" {
#include "gutil_misc.h"
#include "gutil_macros.h"
}

namespace {
typedef std::vector<u8> V;
V random_bytes(Rng& r, size_t n) {
    V v(n);
    const int k = (int)r.below(5);
    const u8 x = (u8)r.next();
    for (size_t i = 0; i < n; i++) v[i] = k == 0 ? (u8)r.next() : k == 1 ? (u8)(i + x) : k == 2 ? (u8)r.below(2) : k == 3 ? 0xff - (u8)r.below(3) : x;
    return v;
}

//-------------------------------------------------------------------------- C22
bool hexdigit(u8 c) { return (c >= '0' && c <= '9') || (c >= 'a' && c <= 'f') || (c >= 'A' && c <= 'F'); }
int hexval(u8 c) { return c <= '9' ? c - '0' : c <= 'F' ? c - 'A' + 10 : c - 'a' + 10; }
std::string to_hex(const V& v, bool upper) {
    std::string s;
    for (u8 b : v) { char t[3]; snprintf(t, sizeof(t), upper ? "%02X" : "%02x", b); s += t; }
    return s;
}
void hex_back(Rng& r, const std::string& s, bool valid, const V& bytes) {
    // Exactly the given characters, no terminator
    ExactAt e(s.data(), s.size(), r.below(4));
    const size_t n = s.size() / 2;
    u8* out = (u8*)malloc(n ? n : 1);
    memset(out, 0x77, n ? n : 1);
    void* res = gutil_hex2bin((char*)e.p, (gssize)s.size(), out);
    CHECK((res == out) == valid && (res != NULL) == valid, "gutil_hex2bin(%s): %s", vh_quote(s.c_str()).c_str(), res ? "accepted" : "refused");
    if (valid) CHECK(!memcmp(out, bytes.data(), n), "gutil_hex2bin(%s) => %s", vh_quote(s.c_str()).c_str(), vh_hex(out, n).c_str());
    CHECK(!memcmp(e.p, s.data(), s.size()), "input has changed");
    free(out);
    GBytes* b = s.size() || r.pct(50) ? gutil_hex2bytes((char*)e.p, (gssize)s.size()) : NULL;
    CHECK((b != NULL) == valid, "gutil_hex2bytes(%s): %s", vh_quote(s.c_str()).c_str(), b ? "accepted" : "refused");
    if (b) {
        gsize size; const void* p = g_bytes_get_data(b, &size);
        CHECK(size == n && !memcmp(p, bytes.data(), n), "gutil_hex2bytes(%s) => %s", vh_quote(s.c_str()).c_str(), vh_hex(p, size).c_str());
        g_bytes_unref(b);
    }
    // The whole string
    if (s.find('\0') == std::string::npos) {
        Exact z(std::string(s.c_str(), s.size() + 1));
        b = gutil_hex2bytes((char*)z.p, r.pct(70) ? -1 : -(gssize)r.below(1000) - 1);
        CHECK((b != NULL) == valid, "gutil_hex2bytes(%s,-1): %s", vh_quote(s.c_str()).c_str(), b ? "accepted" : "refused");
        if (b) { CHECK(g_bytes_get_size(b) == n && !memcmp(g_bytes_get_data(b, NULL), bytes.data(), n), "gutil_hex2bytes(-1)"); g_bytes_unref(b); }
        CNT("whole_strings");
    }
    vh_mix(valid);
    if (valid) CNT("accepted"); else CNT("rejected");
}
void c22(Case& c)
{
    Rng& r = c.r;
    for (int k = 0; k < 8; k++) {
        // All pairs of characters first
        if (c.idx < 8192) {
            std::string s; s += (char)(c.idx * 8 + k >> 8); s += (char)(c.idx * 8 + k);
            const bool ok = hexdigit(s[0]) && hexdigit(s[1]);
            vh_key(c.idx * 8 + k);
            hex_back(r, s, ok, ok ? V(1, (u8)(hexval(s[0]) * 16 + hexval(s[1]))) : V());
            CNT("pairs");
            continue;
        }
        const bool big = !k && vh_big(c, 499);
        const V v = random_bytes(r, big ? vh_big_size(r) : r.size(r.pct(3) ? 5000 : 300));
        if (big) CNT("large");
        for (u8 b : v) vh_key(b);
        vh_op("%u bytes", (unsigned)v.size());
        ExactAt e(v.data(), v.size(), r.below(8));
        const bool upper = r.pct(50);
        char* h = gutil_bin2hex(e.p, v.size(), r.truth(upper));
        CHECK(h && h == to_hex(v, upper), "gutil_bin2hex(%s) => %s", vh_hex(v).c_str(), vh_quote(h).c_str());
        CHECK(!memcmp(e.p, v.data(), v.size()), "input has changed");
        GUtilData d; d.bytes = e.p; d.size = v.size();
        char* h2 = gutil_data2hex(&d, r.truth(upper));
        CHECK(h2 && !strcmp(h, h2), "gutil_data2hex");
        std::string s = h;
        g_free(h); g_free(h2);
        CNT("encoded");
        hex_back(r, s, v.size() > 0, v);
        for (char& ch : s) if (r.pct(50)) ch = g_ascii_isupper(ch) ? g_ascii_tolower(ch) : g_ascii_toupper(ch);
        hex_back(r, s, v.size() > 0, v);
        if (s.empty()) continue;
        // Spoil it
        std::string t = s;
        switch (r.below(4)) {
        case 0: { static const char near_[] = "/:@G`g\0 -+xX."; t[r.below(t.size())] = near_[r.below(sizeof(near_) - 1)]; break; }
        case 1: t[r.below(t.size())] = (char)r.next(); break;
        case 2: t.erase(r.below(t.size()), 1); break;
        case 3: t.insert(r.below(t.size() + 1), 1, (char)(r.pct(50) ? '0' + r.below(10) : r.next())); break;
        }
        bool ok = t.size() > 0 && !(t.size() & 1);
        for (char ch : t) ok = ok && hexdigit((u8)ch);
        V bytes;
        if (ok) for (size_t i = 0; i < t.size(); i += 2) bytes.push_back((u8)(hexval(t[i]) * 16 + hexval(t[i + 1])));
        hex_back(r, t, ok, bytes);
        // Count which isn't positive
        u8 dummy = 1;
        CHECK(!gutil_hex2bin(s.c_str(), -(gssize)r.below(5), &dummy) && dummy == 1, "negative count");
        CHECK(!gutil_hex2bin(s.c_str(), 0, &dummy) && dummy == 1, "zero count");
        CHECK(!gutil_hex2bytes(s.c_str(), 0), "zero count");
    }
    vh_nontrivial();
}

//-------------------------------------------------------------------------- C23
struct Parsed { bool known, ok, neg; unsigned __int128 mag; };
bool space(char c) { return c == ' ' || c == '\t' || c == '\n' || c == '\r' || c == '\f'; }
Parsed reference(const std::string& str, int base, bool is_signed) {
    Parsed p = { true, false, false, 0 };
    size_t b = 0, e = str.size();
    while (b < e && space(str[b])) b++;
    while (e > b && space(str[e - 1])) e--;
    std::string s = str.substr(b, e - b);
    if (s.find('\v') != std::string::npos) { p.known = false; return p; }       // is it white space?
    size_t i = 0;
    if (i < s.size() && (s[i] == '+' || s[i] == '-')) {
        if (s[i] == '-') { if (!is_signed) return p; p.neg = true; }
        i++;
    }
    if ((base == 0 || base == 16) && s.size() > i + 1 && s[i] == '0' && (s[i + 1] == 'x' || s[i + 1] == 'X')) { base = 16; i += 2; }
    else if ((base == 0 || base == 2) && s.size() > i + 1 && s[i] == '0' && (s[i + 1] == 'b' || s[i + 1] == 'B')) { p.known = false; return p; } // up to the C library
    else if (base == 0) base = i < s.size() && s[i] == '0' ? 8 : 10;
    if (i >= s.size()) return p;
    for (; i < s.size(); i++) {
        const u8 ch = (u8)s[i];
        const int d = ch >= '0' && ch <= '9' ? ch - '0' : ch >= 'a' && ch <= 'z' ? ch - 'a' + 10 : ch >= 'A' && ch <= 'Z' ? ch - 'A' + 10 : 99;
        if (d >= base) return p;
        if (p.mag < ((unsigned __int128)1 << 100)) p.mag = p.mag * base + d;
    }
    p.ok = true;
    return p;
}
std::string number(unsigned __int128 v, int base, Rng& r) {
    std::string s;
    do { const int d = (int)(v % base); s += d < 10 ? (char)('0' + d) : (char)((r.pct(50) ? 'a' : 'A') + d - 10); v /= base; } while (v);
    std::reverse(s.begin(), s.end());
    return s;
}
void parse_check(Rng& r, const std::string& s, int base) {
    vh_op("%s base %d", vh_quote(s.c_str()).c_str(), base);
    const Parsed ps = reference(s, base, true), pu = reference(s, base, false);
    if (!ps.known) { CNT("up_to_libc"); }
    const unsigned __int128 one = 1;
    Exact e(std::string(s.c_str(), s.size() + 1));
    const char* str = (char*)e.p;
    const bool out = r.pct(85);
    int saved = r.pct(50) ? ERANGE : r.pct(50) ? EINVAL : 0;       // whatever is left there from previous failures
    #define TRY(fn, type, P, CAN) do { \
        const type init = (type)0x5aa5c33c17e8d249ULL; \
        type v = init; \
        errno = saved; \
        const gboolean ok = fn(str, base, out ? &v : NULL); \
        if ((P).known) { \
            const bool exp = (P).ok && (CAN); \
            CHECK((ok != FALSE) == exp, #fn "(%s,%d): %s", vh_quote(str).c_str(), base, ok ? "accepted" : "refused"); \
            if (exp && out) { const type x = (P).neg ? (type)(0 - (u64)(P).mag) : (type)(u64)(P).mag; CHECK(v == x, #fn "(%s,%d) => %lld expected %lld", vh_quote(str).c_str(), base, (long long)v, (long long)x); } \
            if (!exp) CHECK(v == init, #fn "(%s,%d) failed and changed the output", vh_quote(str).c_str(), base); \
            if (exp) CNT(#fn); else if ((P).ok) CNT(#fn "_out_of_range"); else CNT("not_a_number"); \
            vh_mix(exp); \
        } } while (0)
    TRY(gutil_parse_int, int, ps, ps.neg ? ps.mag <= (one << 31) : ps.mag < (one << 31));
    TRY(gutil_parse_uint, unsigned int, pu, pu.mag < (one << 32));
    TRY(gutil_parse_int64, gint64, ps, ps.neg ? ps.mag <= (one << 63) : ps.mag < (one << 63));
    TRY(gutil_parse_uint64, guint64, pu, pu.mag < (one << 64));
    CHECK(!memcmp(e.p, s.c_str(), s.size() + 1), "the string has changed");
}
void c23(Case& c)
{
    Rng& r = c.r;
    for (int k = 0; k < 16; k++) {
        const int base = r.pct(45) ? 0 : r.pct(50) ? 10 : r.pct(40) ? 16 : r.pct(30) ? 8 : 2 + (int)r.below(35);
        std::string s;
        const int kind = (int)r.below(10);
        if (kind == 9) {                        // anything
            static const char a[] = "0123456789abcdefxXzZ+- \t\n\r\f.,_\xff%LlUu";
            for (size_t n = r.below(12); n; n--) s += a[r.below(sizeof(a) - 1)];
        } else {
            unsigned __int128 v;
            const unsigned __int128 one = 1;
            static const int edge[] = { 0, 7, 8, 15, 16, 31, 32, 62, 63, 64, 65, 80, 33 };
            switch (r.below(4)) {
            case 0: v = (one << edge[r.below(G_N_ELEMENTS(edge))]) + (int)r.range(-2, 2); if (v >> 100) v = 0; break;
            case 1: v = r.bits64(); break;
            case 2: v = r.below(1000); break;
            default: v = (unsigned __int128)r.next() * (r.pct(20) ? r.below(100) : 1) >> r.below(70); break;
            }
            const int nb = base ? base : r.pct(50) ? 10 : r.pct(50) ? 16 : 8;
            s = number(v, nb, r);
            if (r.pct(10)) s = std::string(r.below(r.pct(5) ? 1000 : 30), '0') + s;
            const size_t pad = r.pct(99) ? 3 : !k && vh_big(c, 97) ? vh_big_size(r) : 300;
            if (pad > 3) CNT("long_spaces");
            if (nb == 16 && r.pct(base ? 40 : 90)) s = (r.pct(50) ? "0x" : "0X") + s;
            else if (!base && nb == 8) s = "0" + s;
            if (r.pct(30)) s = (r.pct(70) ? "-" : r.pct(80) ? "+" : "--") + s;
            if (r.pct(30)) { static const char w[] = " \t\n\r\f"; std::string sp; for (size_t n = 1 + r.below(pad); n; n--) sp += w[r.below(5)]; s = sp + s; }
            if (r.pct(30)) { static const char w[] = " \t\n\r\f"; for (size_t n = 1 + r.below(pad); n; n--) s += w[r.below(5)]; }
            if (r.pct(20)) {                    // spoil it
                static const char a[] = " -+x.,0z\xa0\v";
                switch (r.below(3)) {
                case 0: s.insert(r.below(s.size() + 1), 1, a[r.below(sizeof(a) - 1)]); break;
                case 1: s[r.below(s.size())] = a[r.below(sizeof(a) - 1)]; break;
                case 2: s.resize(r.below(s.size() + 1)); break;
                }
            }
        }
        for (size_t i; (i = s.find('\0')) != std::string::npos; ) s.erase(i, 1);
        parse_check(r, s, base);
    }
    int v = 5; unsigned int u = 5; gint64 ll = 5; guint64 ull = 5;
    CHECK(!gutil_parse_int(NULL, 0, &v) && !gutil_parse_uint(NULL, 10, &u) && !gutil_parse_int64(NULL, 16, &ll) && !gutil_parse_uint64(NULL, 0, &ull), "NULL is a number");
    CHECK(v == 5 && u == 5 && ll == 5 && ull == 5, "output is changed");
    vh_nontrivial();
}

//-------------------------------------------------------------------------- C24
struct Blocks {
    Case& c; Rng& r;
    std::vector<V> pool;
    Blocks(Case& c_) : c(c_), r(c_.r) {}
    V bytes() {
        if (pool.size() && r.pct(60)) {         // related to one of the others
            V v = r.pick(pool);
            switch (r.below(7)) {
            case 0: v.resize(r.below(v.size() + 1)); break;                                     // prefix
            case 1: v.erase(v.begin(), v.begin() + r.below(v.size() + 1)); break;               // suffix
            case 2: if (v.size()) v[r.below(v.size())] ^= 1 << r.below(8); break;
            case 3: { V w = random_bytes(r, r.below(10)); v.insert(r.pct(50) ? v.begin() : v.end(), w.begin(), w.end()); break; }
            case 4: if (v.size()) v.back() ^= 0x80; break;
            case 5: if (v.size()) v.front() ^= 1; break;
            }
            return v;
        }
        V v = random_bytes(r, vh_big(c, 499) && r.pct(50) ? vh_big_size(r) : r.size(r.pct(5) ? 3000 : 100));
        if (v.size() > 32000) CNT("large");
        pool.push_back(v);
        return v;
    }
    struct B {      // GBytes with exact bounds
        ExactAt e; GBytes* b; V v; bool null;
        B(const V& x, Rng& r, bool null_) : e(x.data(), x.size(), r.below(9)), b(null_ ? NULL : g_bytes_new_static(e.p, x.size())), v(x), null(null_) {}
        ~B() { if (b) g_bytes_unref(b); }
    };
    struct D {      // GUtilData with exact bounds
        ExactAt e; GUtilData d; const GUtilData* p; V v;
        D(const V& x, Rng& r, bool null) : e(x.data(), x.size(), r.below(9)), v(x) { d.bytes = x.empty() && r.pct(50) ? NULL : e.p; d.size = x.size(); p = null ? NULL : &d; }
    };
    static bool prefix(const V& v, const V& p) { return p.size() <= v.size() && std::equal(p.begin(), p.end(), v.begin()); }
    static bool suffix(const V& v, const V& p) { return p.size() <= v.size() && std::equal(p.begin(), p.end(), v.end() - p.size()); }
    static V of(GBytes* b) { gsize n; const u8* p = (const u8*)g_bytes_get_data(b, &n); return n ? V(p, p + n) : V(); }
    void expect(GBytes* res, const V& v, const char* what) {
        CHECK(res, "%s: NULL", what);
        CHECK(of(res) == v, "%s: got %s expected %s", what, vh_hex(of(res)).c_str(), vh_hex(v).c_str());
        vh_mix_buf(v.data(), v.size());
    }
    void yes(gboolean got, bool exp, const char* what) {
        CHECK_EQ(got ? 1 : 0, exp ? 1 : 0, what);
        if (exp) CNT("true_results"); else CNT("false_results");
        vh_mix(exp);
    }
    void data() {
        D a(bytes(), r, r.pct(5)), b(bytes(), r, r.pct(5));
        const GUtilData sa = a.d, sb = b.d;
        const bool both = a.p && b.p, none = !a.p && !b.p;
        vh_op("data %s%u %s%u", a.p ? "" : "NULL ", (unsigned)a.v.size(), b.p ? "" : "NULL ", (unsigned)b.v.size());
        yes(gutil_data_equal(a.p, b.p), both ? a.v == b.v : none, "gutil_data_equal");
        yes(gutil_data_has_prefix(a.p, b.p), both ? prefix(a.v, b.v) : none, "gutil_data_has_prefix");
        yes(gutil_data_has_suffix(a.p, b.p), both ? suffix(a.v, b.v) : none, "gutil_data_has_suffix");
        yes(gutil_data_equal(a.p, a.p), true, "gutil_data_equal to itself");
        CHECK(!memcmp(&sa, &a.d, sizeof(sa)) && !memcmp(&sb, &b.d, sizeof(sb)), "arguments have changed");
        CNT("data");
        // Copies
        GUtilData* d = gutil_data_copy(a.p);
        CHECK((d != NULL) == (a.p != NULL), "gutil_data_copy");
        if (d) {
            CHECK(d->size == a.v.size() && (!d->size || (d->bytes != a.e.p && !memcmp(d->bytes, a.v.data(), d->size))), "contents of the copy");
            GUtilData* d2 = gutil_data_copy(d);
            for (size_t i = 0; i < d->size; i++) ((u8*)d->bytes)[i] ^= 0xff;
            CHECK(!memcmp(a.e.p, a.v.data(), a.v.size()), "the copy is not independent");
            CHECK(d2->size == a.v.size() && (!d2->size || !memcmp(d2->bytes, a.v.data(), d2->size)), "the copy of the copy is not independent");
            g_free(d);
            g_free(d2);
            CNT("copies");
        }
        {
            const bool null = r.pct(10);
            d = gutil_data_new(null ? NULL : b.e.p, (guint)b.v.size());
            CHECK(d, "gutil_data_new");
            if (null) CHECK(!d->bytes && !d->size, "data from NULL");
            else CHECK(d->size == b.v.size() && !memcmp(d->bytes, b.v.data(), d->size), "gutil_data_new contents");
            g_free(d);
        }
        GVariant* var = gutil_data_copy_as_variant(a.p);
        CHECK((var != NULL) == (a.p != NULL), "gutil_data_copy_as_variant");
        if (var) {
            CHECK(g_variant_is_floating(var), "not floating");
            CHECK(g_variant_is_of_type(var, G_VARIANT_TYPE_BYTESTRING), "variant type");
            gsize n = 0;
            const void* p = g_variant_get_fixed_array(var, &n, 1);
            CHECK(n == a.v.size() && (!n || (p != a.e.p && !memcmp(p, a.v.data(), n))), "variant contents");
            g_variant_unref(g_variant_ref_sink(var));
            CNT("variants");
        }
        CHECK(!gutil_data_from_bytes(NULL, NULL) && !gutil_data_from_string(NULL, "x"), "no output");
    }
    void from() {
        std::string s; for (size_t n = r.size(100); n; n--) s += (char)(1 + r.below(255));
        Exact e(std::string(s.c_str(), s.size() + 1));
        GUtilData d = { (const guint8*)"", 777 };
        const char* str = r.pct(10) ? NULL : (char*)e.p;
        CHECK(gutil_data_from_string(&d, str) == &d, "gutil_data_from_string");
        CHECK(str ? d.bytes == (guint8*)str && d.size == s.size() : !d.bytes && !d.size, "gutil_data_from_string");
        CHECK_EQ(gutil_strlen0(str), str ? s.size() : (gsize)0, "gutil_strlen0");
        B b(bytes(), r, r.pct(10));
        d.size = 777; d.bytes = (const guint8*)"";
        CHECK(gutil_data_from_bytes(&d, b.b) == &d, "gutil_data_from_bytes");
        CHECK(d.size == (b.b ? b.v.size() : 0) && (b.b ? d.bytes == g_bytes_get_data(b.b, NULL) : !d.bytes), "gutil_data_from_bytes");
        void* m = gutil_memdup(b.v.size() && !b.null ? b.e.p : NULL, b.v.size());
        CHECK((m != NULL) == (b.v.size() && !b.null), "gutil_memdup");
        if (m) { CHECK(m != b.e.p && !memcmp(m, b.v.data(), b.v.size()), "gutil_memdup contents"); memset(m, 0, b.v.size()); g_free(m); CHECK(!memcmp(b.e.p, b.v.data(), b.v.size()), "the copy is not independent"); }
        CHECK(!gutil_memdup("", 0), "gutil_memdup of nothing");
        vh_op("from %u %u", (unsigned)s.size(), (unsigned)b.v.size());
        CNT("conversions");
    }
    void gbytes() {
        B a(bytes(), r, r.pct(5));
        D d(bytes(), r, r.pct(8));
        const void* p = d.p ? (d.v.empty() ? (const void*)d.e.p : d.p->bytes) : NULL;
        if (d.p && d.v.empty()) d.d.bytes = d.e.p;
        vh_op("bytes %s%u %s%u", a.b ? "" : "NULL ", (unsigned)a.v.size(), p ? "" : "NULL ", (unsigned)d.v.size());
        const bool both = a.b && p, none = !a.b && !p;
        const size_t n = p ? d.v.size() : 0;
        yes(gutil_bytes_equal(a.b, p, n), both ? a.v == d.v : none, "gutil_bytes_equal");
        yes(gutil_bytes_equal_data(a.b, d.p), both ? a.v == d.v : none, "gutil_bytes_equal_data");
        yes(gutil_bytes_has_prefix(a.b, p, n), a.b && (!p || prefix(a.v, d.v)), "gutil_bytes_has_prefix");
        yes(gutil_bytes_has_suffix(a.b, p, n), a.b && (!p || suffix(a.v, d.v)), "gutil_bytes_has_suffix");
        CNT("gbytes");
        // XOR
        B b(bytes(), r, r.pct(5));
        GBytes* x = gutil_bytes_xor(a.b, b.b);
        if (a.b && b.b) {
            V v(std::min(a.v.size(), b.v.size()));
            for (size_t i = 0; i < v.size(); i++) v[i] = a.v[i] ^ b.v[i];
            expect(x, v, "gutil_bytes_xor");
            g_bytes_unref(x);
            if (v.size() > 8) CNT("xor_long");
        } else CHECK(!x, "gutil_bytes_xor with NULL");
        CNT("xor");
    }
    void concat() {
        const int n = 1 + (int)r.below(6);
        const bool many = r.pct(1);
        std::vector<B*> b; V v;
        const int empty = (int)r.below(101);
        for (int i = 0; i < n; i++) { b.push_back(new B(r.pct(empty) ? V() : bytes(), r, false)); v.insert(v.end(), b[i]->v.begin(), b[i]->v.end()); }
        vh_op("concat %d: %u", n, (unsigned)v.size());
        if (n > 1 && r.pct(15)) { delete b[1]; b[1] = b[0]; v = V(); for (B* x : b) v.insert(v.end(), x->v.begin(), x->v.end()); }
        GBytes* x = NULL;
        if (many) {
            GBytes* a[300];
            v = V();
            for (GBytes*& y : a) { B* z = b[r.below(n)]; y = z->b; v.insert(v.end(), z->v.begin(), z->v.end()); }
            x = vh_call_n<300>([](auto... y) { return gutil_bytes_concat(y...); }, a);
            CNT("concat_many");
        } else switch (n) {
        case 1: x = gutil_bytes_concat(b[0]->b, NULL); break;
        case 2: x = gutil_bytes_concat(b[0]->b, b[1]->b, NULL); break;
        case 3: x = gutil_bytes_concat(b[0]->b, b[1]->b, b[2]->b, NULL); break;
        case 4: x = gutil_bytes_concat(b[0]->b, b[1]->b, b[2]->b, b[3]->b, NULL); break;
        case 5: x = gutil_bytes_concat(b[0]->b, b[1]->b, b[2]->b, b[3]->b, b[4]->b, NULL); break;
        case 6: x = gutil_bytes_concat(b[0]->b, b[1]->b, b[2]->b, b[3]->b, b[4]->b, b[5]->b, NULL); break;
        }
        expect(x, v, "gutil_bytes_concat");
        bool same = false;
        for (B* y : b) { same |= y->b == x; CHECK(of(y->b) == y->v, "argument has changed"); }
        if (same) CNT("concat_ref");
        g_bytes_unref(x);
        if (n > 1 && b[1] == b[0]) b.erase(b.begin() + 1);
        for (B* y : b) { CHECK(of(y->b) == y->v, "argument is gone"); delete y; }
        CHECK(!gutil_bytes_concat(NULL, NULL), "concatenation of nothing");
        CNT("concat");
    }
    void range() {
        B b(bytes(), r, r.pct(5));
        GUtilRange g; memset(&g, 0x5a, sizeof(g));
        const gsize size = gutil_range_init_with_bytes(&g, b.b);
        CHECK_EQ(size, b.b ? (gsize)b.v.size() : (gsize)0, "gutil_range_init_with_bytes");
        if (b.b) CHECK(g.ptr == g_bytes_get_data(b.b, NULL) && g.end == g.ptr + b.v.size(), "gutil_range_init_with_bytes");
        else CHECK(!g.ptr && !g.end, "gutil_range_init_with_bytes(NULL)");
        CHECK_EQ(gutil_range_init_with_bytes(NULL, b.b), (gsize)0, "no range");
        V v = b.b ? b.v : V();
        for (int k = 0; k < 6; k++) {
            V x = bytes();
            if (r.pct(60)) x = V(v.begin(), v.begin() + r.below(std::min(v.size(), (size_t)12) + 1));
            if (r.pct(15) && x.size()) x[r.below(x.size())] ^= 1;
            if (r.pct(10)) { x = v; if (r.pct(50)) x.push_back(1); }
            D d(x, r, r.pct(5));
            const GUtilRange s = g;
            const bool exp = d.p && g.ptr && prefix(v, x);
            vh_op("range of %u, prefix %u", (unsigned)v.size(), (unsigned)x.size());
            yes(gutil_range_has_prefix(&g, d.p), exp, "gutil_range_has_prefix");
            CHECK(!memcmp(&g, &s, sizeof(g)), "range has changed");
            yes(gutil_range_skip_prefix(&g, d.p), exp, "gutil_range_skip_prefix");
            CHECK(g.end == s.end && g.ptr == s.ptr + (exp ? x.size() : 0), "gutil_range_skip_prefix: position");
            if (exp) { v.erase(v.begin(), v.begin() + x.size()); CNT("skipped"); }
            CHECK(!gutil_range_has_prefix(NULL, d.p) && !gutil_range_skip_prefix(NULL, d.p), "no range");
        }
        CNT("ranges");
    }
    // A block of more than 4G. Only both ends of it are ever touched (huge_full excepted)
    static u8* huge_block(size_t& size) {
        static u8* block; static const size_t n = (4UL << 30) + 4096 + 21;
        if (!block) {
            block = (u8*)mmap(NULL, n, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
            if (block == MAP_FAILED) vh_fail("harness", "cannot map 4G");
            for (size_t i = 0; i < 8192; i++) { block[i] = (u8)(i * 7 + (i >> 8)); block[n - 1 - i] = (u8)(i * 11 + 3); }
        }
        size = n;
        return block;
    }
    void huge() {
        size_t size; u8* h = huge_block(size);
        const size_t low = (guint)size;         // what's left of it if truncated
        size_t n = r.pct(50) ? low : r.below(8000);
        if (!n) n = 1;
        const bool end = r.pct(50);
        V v(end ? h + size - n : h, end ? h + size : h + n);
        vh_op("huge %s %u", end ? "suffix" : "prefix", (unsigned)n);
        if (r.pct(20)) v[r.below(n)] ^= 1;
        const bool pre = !memcmp(v.data(), h, n), suf = !memcmp(v.data(), h + size - n, n);
        D d(v, r, false); B b(v, r, false);
        GUtilData hd = { h, size }; const GUtilData hd1 = { h, size - 1 - r.below(3) };
        GBytes* hb = g_bytes_new_static(h, size);
        yes(gutil_data_equal(&hd, d.p), false, "gutil_data_equal(4G)");
        yes(gutil_data_equal(d.p, &hd), false, "gutil_data_equal(4G)");
        yes(gutil_data_equal(&hd, &hd1), false, "gutil_data_equal(4G)");
        yes(gutil_data_has_prefix(&hd, d.p), pre, "gutil_data_has_prefix(4G)");
        yes(gutil_data_has_prefix(d.p, &hd), false, "gutil_data_has_prefix(4G)");
        yes(gutil_data_has_suffix(&hd, d.p), suf, "gutil_data_has_suffix(4G)");
        yes(gutil_data_has_suffix(d.p, &hd), false, "gutil_data_has_suffix(4G)");
        yes(gutil_bytes_equal(hb, d.e.p, n), false, "gutil_bytes_equal(4G)");
        yes(gutil_bytes_equal(b.b, h, size), false, "gutil_bytes_equal(4G)");
        yes(gutil_bytes_equal_data(hb, d.p), false, "gutil_bytes_equal_data(4G)");
        yes(gutil_bytes_equal_data(b.b, &hd), false, "gutil_bytes_equal_data(4G)");
        yes(gutil_bytes_has_prefix(hb, d.e.p, n), pre, "gutil_bytes_has_prefix(4G)");
        yes(gutil_bytes_has_prefix(b.b, h, size), false, "gutil_bytes_has_prefix(4G)");
        yes(gutil_bytes_has_suffix(hb, d.e.p, n), suf, "gutil_bytes_has_suffix(4G)");
        yes(gutil_bytes_has_suffix(b.b, h, size), false, "gutil_bytes_has_suffix(4G)");
        GUtilData x = { NULL, 0 };
        CHECK(gutil_data_from_bytes(&x, hb) == &x && x.bytes == h && x.size == size, "gutil_data_from_bytes(4G)");
        GUtilRange g, s;
        CHECK(gutil_range_init_with_bytes(&g, hb) == size && g.ptr == h && g.end == h + size, "gutil_range_init_with_bytes(4G)");
        yes(gutil_range_has_prefix(&g, d.p), pre, "gutil_range_has_prefix(4G)");
        yes(gutil_range_skip_prefix(&g, d.p), pre, "gutil_range_skip_prefix(4G)");
        CHECK(g.ptr == h + (pre ? n : 0) && g.end == h + size, "gutil_range_skip_prefix(4G)");
        gutil_range_init_with_bytes(&s, b.b); g = s;
        yes(gutil_range_has_prefix(&s, &hd), false, "gutil_range_has_prefix(4G)");
        yes(gutil_range_skip_prefix(&s, &hd), false, "gutil_range_skip_prefix(4G)");
        CHECK(!memcmp(&s, &g, sizeof(g)), "range has changed");
        const bool first = r.pct(50);
        GBytes* y = first ? gutil_bytes_xor(hb, b.b) : gutil_bytes_xor(b.b, hb);
        V w(n); for (size_t i = 0; i < n; i++) w[i] = v[i] ^ h[i];
        expect(y, w, "gutil_bytes_xor(4G)");
        g_bytes_unref(y);
        GBytes* none = g_bytes_new_static(NULL, 0);
        y = first ? gutil_bytes_concat(hb, none, NULL) : gutil_bytes_concat(none, hb, NULL);
        CHECK(y && g_bytes_get_size(y) == size && g_bytes_get_data(y, NULL) == h, "gutil_bytes_concat(4G)");
        g_bytes_unref(y); g_bytes_unref(none);
        g_bytes_unref(hb);
        CNT("huge");
    }
    static bool same_huge(const u8* p, const u8* h, size_t size) {
        if (!p || p == h || memcmp(p, h, 65536) || memcmp(p + size - 65536, h + size - 65536, 65536)) return false;
        for (size_t i = 0; i < size; i += 1 << 20) if (p[i] != h[i]) return false;
        return true;
    }
    // Really copies 4G
    void huge_full(int what) {
        size_t size; u8* h = huge_block(size);
        vh_op("copy %d of 4G", what);
        for (size_t i = 1 << 20; i < size - 65536; i += 1 << 20) h[i] = (u8)(i >> 20) | 1;
        switch (what) {
        case 0: {
            const GUtilData d = { h, size };
            GUtilData* c = gutil_data_copy(&d);
            CHECK(c && c->size == size && same_huge(c->bytes, h, size), "gutil_data_copy(4G): %lu bytes", c ? (unsigned long)c->size : 0UL);
            g_free(c); } break;
        case 1: {
            void* p = gutil_memdup(h, size);
            CHECK(same_huge((u8*)p, h, size), "gutil_memdup(4G)");
            g_free(p); } break;
        case 2: {
            GBytes* a = g_bytes_new_static("abc", 3); GBytes* b = g_bytes_new_static(h, size);
            GBytes* x = gutil_bytes_concat(a, b, a, NULL);
            gsize n = 0; const u8* p = x ? (const u8*)g_bytes_get_data(x, &n) : NULL;
            CHECK(n == size + 6 && !memcmp(p, "abc", 3) && same_huge(p + 3, h, size) && !memcmp(p + 3 + size, "abc", 3), "gutil_bytes_concat(4G): %lu bytes", (unsigned long)n);
            g_bytes_unref(x); g_bytes_unref(a); g_bytes_unref(b); } break;
        case 3: {
            GBytes* a = g_bytes_new_static(h + 4096, size - 4096); GBytes* b = g_bytes_new_static(h, size);
            GBytes* x = gutil_bytes_xor(a, b);
            gsize n = 0; const u8* p = x ? (const u8*)g_bytes_get_data(x, &n) : NULL;
            bool ok = n == size - 4096;
            for (size_t i = 0; ok && i < n; i += i < 65536 || i > n - 65536 ? 1 : 4096) ok = p[i] == (h[i] ^ h[i + 4096]);
            CHECK(ok, "gutil_bytes_xor(4G): %lu bytes", (unsigned long)n);
            g_bytes_unref(x); g_bytes_unref(a); g_bytes_unref(b); } break;
        }
        madvise(h + 8192, (size - 16384) & ~4095UL, MADV_DONTNEED);
        CNT("huge_copies");
    }
    void run() {
        if (!(c.idx % 199)) huge();
        // Needs a lot of memory, one after another
        if (!strcmp(vh_variant, "o3") && c.idx >= 1UL << 42 && c.idx < (1UL << 42) + 32 && !(c.idx & 7)) {
            huge_full((int)((c.idx >> 3) & 3));
        }
        for (int k = 0; k < 10; k++) switch (r.below(6)) {
        case 0: case 1: data(); break;
        case 2: from(); break;
        case 3: gbytes(); break;
        case 4: concat(); break;
        case 5: range(); break;
        }
        for (const V& v : pool) vh_mix_buf(v.data(), v.size());
        for (const V& v : pool) for (u8 b : v) vh_key(b);
        vh_nontrivial();
    }
};
void c24(Case& c) { Blocks b(c); b.run(); }

//-------------------------------------------------------------------------- C32
int calls[512];
int closed[512];
std::function<void(int)> in_handler;
void handler(GObject*, gpointer i) { calls[(size_t)i]++; if (in_handler) in_handler((int)(size_t)i); }
void handler_closed(gpointer i, GClosure*) { closed[(size_t)i]++; }
guint sig() {
    static guint s;
    if (!s) {
        s = g_signal_new("vh-signal", G_TYPE_OBJECT, G_SIGNAL_RUN_FIRST, 0, NULL, NULL, NULL, G_TYPE_NONE, 0);
        g_signal_new("vh-signal2", G_TYPE_OBJECT, G_SIGNAL_RUN_FIRST, 0, NULL, NULL, NULL, G_TYPE_NONE, 0);
    }
    return s;
}
// Event sources which remove themselves and each other
struct SourceCase {
    std::vector<guint>* ids;            // what the owner has, 0 when removed
    std::vector<guint> orig;
    std::vector<int> st, gone, calls, act, ready;
    bool running = false;
    void drop(int i, bool clear) {
        guint* id = &(*ids)[i];
        if (clear) {
            CHECK_EQ(gutil_source_clear(id) ? 1 : 0, st[i], "gutil_source_clear");
            if (st[i]) CNT("source_cleared"); else CNT("source_zero");
        } else if (st[i]) {
            CHECK(gutil_source_remove(*id) != FALSE, "gutil_source_remove");
            *id = 0;
            CNT("source_removed");
        } else {
            CHECK(!gutil_source_remove(0), "gutil_source_remove(0)");
            CNT("source_zero");
        }
        st[i] = 0;
        CHECK_EQ(*id, 0u, "source id");
        CHECK(!g_main_context_find_source_by_id(NULL, orig[i]), "source %d is still there", i);
    }
};
struct SourceRef { SourceCase* c; int i; };
gboolean source_cb(gpointer p) {
    SourceRef* s = (SourceRef*)p;
    SourceCase& c = *s->c; const int i = s->i;
    CHECK(c.running, "source is run outside of the main loop");
    CHECK(c.st[i] == 1, "removed source %d is run", i);
    CHECK(c.ready[i], "source %d is run too early", i);
    c.calls[i]++;
    switch (c.act[i]) {
    case 1: c.drop(i, false); CNT("source_removes_itself"); return G_SOURCE_REMOVE;
    case 2: c.drop(i, true); CNT("source_removes_itself"); return G_SOURCE_CONTINUE;
    case 3: c.drop((int)((i + 1) % c.st.size()), true); return G_SOURCE_CONTINUE;
    case 4: (*c.ids)[i] = 0; c.st[i] = 0; return G_SOURCE_REMOVE;
    }
    return G_SOURCE_CONTINUE;
}
void source_gone(gpointer p) { SourceRef* s = (SourceRef*)p; s->c->gone[s->i]++; delete s; }
std::vector<gpointer> freed_ptrs;
void weak(gpointer p, GObject*) { (*(int*)p)++; }
void helpers(Case& c)
{
    Rng& r = c.r;
    // Signal handlers
    {
        sig();
        const bool many = r.pct(1), large = vh_big(c, 2003);
        const int nobj = 1 + (int)r.below(2), n = 1 + (int)r.below(many ? 400 : 20);
        GObject* obj[2] = { NULL, NULL };
        for (int i = 0; i < nobj; i++) obj[i] = (GObject*)g_object_new(G_TYPE_OBJECT, NULL);
        std::vector<gulong> ids; std::vector<bool> on, blocked, second;
        memset(closed, 0, sizeof(closed));
        for (int i = 0; i < n; i++) {
            // Some are connected to another signal
            second.push_back(r.pct(20));
            ids.push_back(g_signal_connect_data(obj[0], second[i] ? "vh-signal2" : "vh-signal", G_CALLBACK(handler), (gpointer)(size_t)i, handler_closed, r.pct(20) ? G_CONNECT_AFTER : (GConnectFlags)0));
            on.push_back(true);
            blocked.push_back(r.pct(15));
            if (blocked[i]) { g_signal_handler_block(obj[0], ids[i]); CNT("blocked_handlers"); }
        }
        gulong other = nobj > 1 ? g_signal_connect(obj[1], "vh-signal", G_CALLBACK(handler), (gpointer)(size_t)500) : 0;
        for (int round = 0; round < 4; round++) {
            std::vector<gulong> arr; std::vector<int> who;
            for (size_t k = r.below(many ? 600 : 8); k; k--) {
                const int i = (int)r.below(n);
                const bool use = on[i] && !r.pct(30) && std::find(who.begin(), who.end(), i) == who.end();
                arr.push_back(use ? ids[i] : 0);
                who.push_back(use ? i : -1);
            }
            // Most of the array may be empty
            if (large && !round) { const size_t k = vh_big_size(r), at = r.below(k); arr.insert(arr.begin(), k, 0); who.insert(who.begin(), k, -1); const int i = (int)r.below(n);
                if (std::find(who.begin(), who.end(), i) == who.end()) { arr[at] = ids[i]; who[at] = i; arr.push_back(0); who.push_back(-1); } CNT("large_arrays"); }
            const int count = arr.size() && !large && r.pct(30) ? (int)r.below(arr.size()) : r.pct(5) ? -1 : (int)arr.size();
            const bool null = r.pct(5), inside = r.pct(30);
            std::vector<gulong> before = arr;
            Exact e(arr.data(), MAX(count, 0) * sizeof(gulong));
            gulong* p = (gulong*)e.p;
            vh_op("disconnect %d of %d%s%s", count, (int)arr.size(), null ? " NULL" : "", inside ? " from a handler" : "");
            auto act = [&]() {
                if (null) { if (r.pct(50)) gutil_disconnect_handlers(NULL, p, count); else gutil_disconnect_handlers(obj[0], NULL, count); }
                else gutil_disconnect_handlers(obj[0], p, count);
                for (int i = 0; i < count; i++) {
                    CHECK(p[i] == (null ? before[i] : 0), "id %d after gutil_disconnect_handlers", i);
                    if (who[i] >= 0 && !null) { on[who[i]] = false; CNT("disconnected"); }
                }
            };
            if (inside) {
                // The first handler of the first signal does it
                memset(calls, 0, sizeof(calls));
                std::vector<bool> was = on;
                int first = -1;
                in_handler = [&](int i) { if (first < 0) { first = i; act(); } else CHECK(on[i], "handler %d is called after it was disconnected", i); };
                g_signal_emit(obj[0], sig(), 0);
                in_handler = nullptr;
                if (first < 0) act(); else CNT("disconnected_in_handler");
                for (int i = 0; i < n; i++) if (!second[i] && !blocked[i] && was[i]) { if (on[i] || i == first) CHECK_EQ(calls[i], 1, "calls during which others were disconnected"); } else CHECK_EQ(calls[i], 0, "unexpected handler calls");
            } else act();
            memset(calls, 0, sizeof(calls));
            g_signal_emit(obj[0], sig(), 0);
            for (int i = 0; i < n; i++) CHECK_EQ(calls[i], on[i] && !blocked[i] && !second[i] ? 1 : 0, "handler calls");
            g_signal_emit_by_name(obj[0], "vh-signal2");
            for (int i = 0; i < n; i++) { CHECK_EQ(calls[i], on[i] && !blocked[i] ? 1 : 0, "handler calls"); CHECK_EQ(closed[i], on[i] ? 0 : 1, "handler is released"); }
            if (other) { g_signal_emit(obj[1], sig(), 0); CHECK_EQ(calls[500], 1, "handler of another object"); }
            for (int i = 0; i < n; i++) { CHECK_EQ(g_signal_handler_is_connected(obj[0], ids[i]) ? 1 : 0, on[i] ? 1 : 0, "connected"); vh_mix(on[i]); }
            CNT("disconnect_calls");
        }
        for (int i = 0; i < nobj; i++) g_object_unref(obj[i]);
    }
    // Sources
    {
        const int n = 1 + (int)r.below(16);
        std::vector<guint> ids(n);
        SourceCase sc; sc.ids = &ids; sc.st.assign(n, 1); sc.gone.assign(n, 0); sc.calls.assign(n, 0); sc.act.assign(n, 0); sc.orig.assign(n, 0); sc.ready.assign(n, 0);
        std::vector<int>& st = sc.st;
        for (int i = 0; i < n; i++) {
            SourceRef* d = new SourceRef{&sc, i};
            const int prio = r.pct(70) ? G_PRIORITY_DEFAULT : (int)r.range(-300, 300);
            const int kind = (int)r.below(4);
            sc.ready[i] = 1;
            switch (kind) {
            case 0: ids[i] = g_idle_add_full(prio, source_cb, d, source_gone); break;
            case 1: sc.ready[i] = r.pct(50); ids[i] = g_timeout_add_full(prio, sc.ready[i] ? 0 : 1000000, source_cb, d, source_gone); break;
            case 2: sc.ready[i] = 0; ids[i] = g_timeout_add_seconds_full(prio, 100000, source_cb, d, source_gone); break;
            default: {
                GSource* s = r.pct(50) ? g_idle_source_new() : g_timeout_source_new(0);
                g_source_set_priority(s, prio);
                g_source_set_can_recurse(s, r.pct(50));
                if (r.pct(50)) g_source_set_name(s, "vh");
                g_source_set_callback(s, source_cb, d, source_gone);
                ids[i] = g_source_attach(s, NULL);
                g_source_unref(s); } break;
            }
            // 1 - removes or clears itself when it's run, 2 - does that to another one
            if (r.pct(30)) sc.act[i] = 1 + (int)r.below(4);
        }
        sc.orig = ids;
        auto check = [&](const char* what) {
            for (int j = 0; j < n; j++) {
                CHECK((g_main_context_find_source_by_id(NULL, sc.orig[j]) != NULL) == (st[j] == 1), "%s: source %d is %s", what, j, st[j] ? "gone" : "still there");
                CHECK_EQ(ids[j], st[j] ? sc.orig[j] : 0u, "source id");
                CHECK_EQ(sc.gone[j], st[j] ? 0 : 1, "destroy notifications");
            }
        };
        for (int k = (int)r.below(20); k; k--) {
            const int i = (int)r.below(n);
            vh_op("source %d of %d state %d", i, n, st[i]);
            switch (r.below(4)) {
            case 0: case 1: sc.drop(i, r.pct(50)); break;
            case 2: CHECK(!gutil_source_clear(NULL), "gutil_source_clear(NULL)"); break;
            case 3:
                for (int j = 0; j < n; j++) sc.calls[j] = 0;
                sc.running = true;
                for (int m = 1 + (int)r.below(3); m; m--) { g_main_context_iteration(NULL, FALSE); check("after an iteration"); }
                sc.running = false;
                for (int j = 0; j < n; j++) if (sc.calls[j]) { CNT("source_run"); vh_mix(j); }
                break;
            }
            check("after an operation");
        }
        for (int j = 0; j < n; j++) { vh_mix(st[j]); if (st[j]) g_source_remove(sc.orig[j]); CHECK_EQ(sc.gone[j], 1, "destroy notifications"); }
    }
    // References
    {
        GObject* o = (GObject*)g_object_new(G_TYPE_OBJECT, NULL);
        int gone = 0, refs = 1;
        g_object_weak_ref(o, weak, &gone);
        CHECK(!gutil_object_ref(NULL), "gutil_object_ref(NULL)");
        gutil_object_unref(NULL);
        for (int k = (int)r.below(20); k && refs; k--) {
            if (r.pct(55)) { CHECK(gutil_object_ref(o) == o, "gutil_object_ref"); refs++; }
            else { if (!--refs) { CHECK_EQ(o->ref_count, 1u, "references"); CHECK(!gone, "gone too early"); } gutil_object_unref(o); }
            if (refs) { CHECK_EQ(o->ref_count, (guint)refs, "number of references"); CHECK(!gone, "gone too early"); } else CHECK_EQ(gone, 1, "object is gone");
        }
        while (refs > 0) { refs--; gutil_object_unref(o); CHECK_EQ(gone, refs ? 0 : 1, "object is gone"); }
        CNT("objects");
    }
    // Pointer vectors
    {
        const size_t n = vh_big(c, 499) ? vh_big_size(r) : r.size(60);
        if (n > 32000) CNT("large");
        gpointer* v = (gpointer*)g_malloc((n + 1) * sizeof(gpointer));
        for (size_t i = 0; i < n; i++) { const size_t k = 1 + r.below(64); v[i] = g_malloc(k); memset(v[i], 7, k); }
        v[n] = NULL;
        vh_op("vector of %u", (unsigned)n);
        CHECK_EQ(gutil_ptrv_length(v), (gsize)n, "gutil_ptrv_length");
        CHECK_EQ(gutil_ptrv_is_empty(v) ? 1 : 0, n ? 0 : 1, "gutil_ptrv_is_empty");
        for (size_t i = 0; i < n; i++) CHECK(((u8*)v[i])[0] == 7, "element has changed");
        gutil_ptrv_free(v);
        CHECK_EQ(gutil_ptrv_length(NULL), (gsize)0, "gutil_ptrv_length(NULL)");
        CHECK(gutil_ptrv_is_empty(NULL), "gutil_ptrv_is_empty(NULL)");
        gutil_ptrv_free(NULL);
        CNTN("vector_elements", n);
        CNT("vectors");
    }
    vh_nontrivial();
}
VH_PROP(C22, c22);
VH_PROP(C23, c23);
VH_PROP(C24, c24);
VH_PROP(C32, helpers);
}
