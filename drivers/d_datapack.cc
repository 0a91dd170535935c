// C01..C04: MBN and TLV codecs against bit-level reference models
#include "../harness/vh.h"
#include <sys/mman.h>
extern "C" {
#include "gutil_datapack.h"
}
typedef __int128 i128;
typedef unsigned __int128 u128;

//---------------------------------------------------------------- reference
static unsigned ref_ssize(i64 v)
{
    for (unsigned n = 1; ; n++) {
        i128 lim = (i128)1 << (7 * n - 1);
        if (v >= -lim && v < lim) return n;
    }
}
static unsigned ref_usize(u64 v)
{
    for (unsigned n = 1; ; n++) if ((u128)v < ((u128)1 << (7 * n))) return n;
}
static std::vector<u8> ref_bytes(i128 v, unsigned n)
{
    std::vector<u8> b(n);
    for (unsigned i = 0; i < n; i++) {
        b[n - 1 - i] = (u8)((v >> (7 * i)) & 0x7f) | (i ? 0x80 : 0);
    }
    return b;
}
// Number of bytes of the number which the buffer starts with, 0 if none
static unsigned ref_len(const u8* p, size_t n)
{
    for (size_t i = 0; i < n && i < 10; i++) if (!(p[i] & 0x80)) return i + 1;
    return 0;
}
static unsigned ref_udecode(const u8* p, size_t n, u64* out)
{
    unsigned k = ref_len(p, n);
    if (!k) return 0;
    u128 v = 0;
    for (unsigned i = 0; i < k; i++) v = (v << 7) | (p[i] & 0x7f);
    if (v >> 64) return 0;
    *out = (u64)v;
    return k;
}
static unsigned ref_sdecode(const u8* p, size_t n, i64* out)
{
    unsigned k = ref_len(p, n);
    if (!k) return 0;
    i128 v = (p[0] & 0x40) ? -1 : 0;
    for (unsigned i = 0; i < k; i++) v = v * 128 + (p[i] & 0x7f);
    if (v < INT64_MIN || v > INT64_MAX) return 0;
    *out = (i64)v;
    return k;
}

//--------------------------------------------------------------------- C01
static void encode_signed(Rng& r, i64 v)
{
    const unsigned n = ref_ssize(v);
    CHECK_EQ(gutil_signed_mbn_size(v), n, "signed size");
    for (unsigned size = n; size <= 10; size++) {
        const bool minimal = size == n && r.pct(70);
        u8* buf = (u8*)malloc(size);
        memset(buf, 0x5a, size);
        const unsigned ret = minimal ? gutil_signed_mbn_encode(buf, v) :
            gutil_signed_mbn_encode2(buf, v, size);
        if (ret != size) vh_fail("oracle", "signed encode(%lld, %u) returned %u", (long long)v, size, ret);
        std::vector<u8> b = ref_bytes(v, size);
        if (memcmp(buf, b.data(), size))
            vh_fail("oracle", "signed encode(%lld, %u) = %s, expected %s", (long long)v, size,
                vh_hex(buf, size).c_str(), vh_hex(b).c_str());
        // Decode it back, with something following it
        std::vector<u8> t(buf, buf + size);
        free(buf);
        for (unsigned k = r.below(4); k; k--) t.push_back((u8)r.next());
        Exact e(t);
        GUtilRange in = { e.p, e.p + e.n };
        gint64 out = ~v;
        if (!gutil_signed_mbn_decode(&in, &out) || out != v || in.ptr != e.p + size)
            vh_fail("oracle", "signed %lld (%u bytes) decoded as %lld, %ld bytes consumed",
                (long long)v, size, (long long)out, (long)(in.ptr - e.p));
        GUtilData d = { e.p, size };
        out = ~v;
        if (!gutil_signed_mbn_decode2(&d, &out) || out != v)
            vh_fail("oracle", "signed %lld (%u bytes) decoded as %lld by decode2", (long long)v, size, (long long)out);
        CNT("signed_roundtrips");
        if (size == n) vh_mix_buf(b.data(), size);
    }
}
static void encode_unsigned(Rng& r, u64 v)
{
    const unsigned n = ref_usize(v);
    CHECK_EQ(gutil_unsigned_mbn_size(v), n, "unsigned size");
    for (unsigned size = n; size <= 10; size++) {
        const bool minimal = size == n && r.pct(70);
        u8* buf = (u8*)malloc(size);
        memset(buf, 0x5a, size);
        const unsigned ret = minimal ? gutil_unsigned_mbn_encode(buf, v) :
            gutil_unsigned_mbn_encode2(buf, v, size);
        if (ret != size) vh_fail("oracle", "unsigned encode(%llu, %u) returned %u", (unsigned long long)v, size, ret);
        std::vector<u8> b = ref_bytes((i128)(u128)v, size);
        if (memcmp(buf, b.data(), size))
            vh_fail("oracle", "unsigned encode(%llu, %u) = %s, expected %s", (unsigned long long)v, size,
                vh_hex(buf, size).c_str(), vh_hex(b).c_str());
        std::vector<u8> t(buf, buf + size);
        free(buf);
        for (unsigned k = r.below(4); k; k--) t.push_back((u8)r.next());
        Exact e(t);
        GUtilRange in = { e.p, e.p + e.n };
        guint64 out = ~v;
        if (!gutil_unsigned_mbn_decode(&in, &out) || out != v || in.ptr != e.p + size)
            vh_fail("oracle", "unsigned %llu (%u bytes) decoded as %llu, %ld bytes consumed",
                (unsigned long long)v, size, (unsigned long long)out, (long)(in.ptr - e.p));
        GUtilData d = { e.p, size };
        out = ~v;
        if (!gutil_unsigned_mbn_decode2(&d, &out) || out != v)
            vh_fail("oracle", "unsigned %llu (%u bytes) decoded as %llu by decode2", (unsigned long long)v, size, (unsigned long long)out);
        CNT("unsigned_roundtrips");
        if (size == n) vh_mix_buf(b.data(), size);
    }
}
static void c01(Case& c)
{
    for (int i = 0; i < 24; i++) {
        u64 v;
        if (c.idx < 1024) {
            // Every power of two +-12, both signs
            const unsigned bit = c.idx % 64;
            v = ((c.idx & 64) ? 0 - (1ULL << bit) : 1ULL << bit) + (u64)(i - 12);
            if (c.idx >= 128) v += (c.idx / 128) * 24;
        } else if (c.idx % 4 == 0) {
            v = (u64)((i64)(c.idx / 4) * 24 - 40000 + i);  // sweep of small values
        } else {
            v = c.r.bits64();
        }
        if (!i) vh_op("values from 0x%llx", (unsigned long long)v);
        vh_key(v);
        encode_signed(c.r, (i64)v);
        encode_unsigned(c.r, v);
        switch (ref_ssize((i64)v)) {
        case 1: CNT("ssize_1"); break; case 2: CNT("ssize_2"); break;
        case 9: CNT("ssize_9"); break; case 10: CNT("ssize_10"); break;
        default: CNT("ssize_3_8"); break;
        }
    }
    vh_nontrivial();
}
VH_PROP(C01, c01);

//--------------------------------------------------------------------- C02
static void decode_any(Rng& r, const u8* p, size_t n)
{
    // Two runs: signed and unsigned, range and whole buffer forms
    ExactAt e(p, n, 0);
    const bool null_out = r.pct(15);
    {
        GUtilRange in = { e.p, e.p + n };
        const i64 junk = (i64)0xa5a5a5a5deadbeefULL;
        gint64 out = junk; i64 ref = 0;
        const unsigned k = ref_sdecode(p, n, &ref);
        const gboolean ok = gutil_signed_mbn_decode(&in, null_out ? NULL : &out);
        if (!!ok != !!k) vh_fail("oracle", "signed decode(%s) returned %d", vh_hex(p, n).c_str(), ok);
        if (in.ptr != e.p + k || in.end != e.p + n)
            vh_fail("oracle", "signed decode(%s) consumed %ld bytes, expected %u", vh_hex(p, n).c_str(), (long)(in.ptr - e.p), k);
        if (!null_out && out != (k ? ref : junk))
            vh_fail("oracle", "signed decode(%s) = %lld, expected %lld", vh_hex(p, n).c_str(), (long long)out, (long long)(k ? ref : junk));
        GUtilData d = { e.p, n };
        out = junk;
        const bool whole = k && k == n;
        const gboolean ok2 = gutil_signed_mbn_decode2(&d, null_out ? NULL : &out);
        if (!!ok2 != whole) vh_fail("oracle", "signed decode2(%s) returned %d", vh_hex(p, n).c_str(), ok2);
        if (!null_out && out != (whole ? ref : junk))
            vh_fail("oracle", "signed decode2(%s) = %lld", vh_hex(p, n).c_str(), (long long)out);
        if (k) { CNT("signed_ok"); if (k >= 9) CNT("signed_ok_9_10"); } else CNT("signed_rejected");
        vh_mix(ok); vh_mix(ok ? ref : 0);
    }
    {
        GUtilRange in = { e.p, e.p + n };
        const u64 junk = 0x5a5a5a5adeadbeefULL;
        guint64 out = junk; u64 ref = 0;
        const unsigned k = ref_udecode(p, n, &ref);
        const gboolean ok = gutil_unsigned_mbn_decode(&in, null_out ? NULL : &out);
        if (!!ok != !!k) vh_fail("oracle", "unsigned decode(%s) returned %d", vh_hex(p, n).c_str(), ok);
        if (in.ptr != e.p + k || in.end != e.p + n)
            vh_fail("oracle", "unsigned decode(%s) consumed %ld bytes, expected %u", vh_hex(p, n).c_str(), (long)(in.ptr - e.p), k);
        if (!null_out && out != (k ? ref : junk))
            vh_fail("oracle", "unsigned decode(%s) = %llu, expected %llu", vh_hex(p, n).c_str(), (unsigned long long)out, (unsigned long long)(k ? ref : junk));
        GUtilData d = { e.p, n };
        out = junk;
        const bool whole = k && k == n;
        const gboolean ok2 = gutil_unsigned_mbn_decode2(&d, null_out ? NULL : &out);
        if (!!ok2 != whole) vh_fail("oracle", "unsigned decode2(%s) returned %d", vh_hex(p, n).c_str(), ok2);
        if (!null_out && out != (whole ? ref : junk))
            vh_fail("oracle", "unsigned decode2(%s) = %llu", vh_hex(p, n).c_str(), (unsigned long long)out);
        if (k) { CNT("unsigned_ok"); if (k >= 9) CNT("unsigned_ok_9_10"); } else CNT("unsigned_rejected");
        vh_mix(ok); vh_mix(ok ? ref : 0);
    }
}
static std::vector<u8> gen_mbn(Rng& r)
{
    std::vector<u8> b;
    switch (r.below(7)) {
    case 0: { // random with continuation bias
        unsigned n = r.below(14), bias = r.below(100);
        for (unsigned i = 0; i < n; i++) { u8 x = (u8)r.next() & 0x7f; if (r.pct(bias)) x |= 0x80; b.push_back(x); }
        break; }
    case 1: { // 8..12 bytes of a complete number, extreme bytes
        unsigned n = 8 + r.below(5);
        static const u8 ext[] = { 0x80, 0x81, 0xff, 0xfe, 0xc0, 0xbf, 0x83, 0x82 };
        for (unsigned i = 0; i + 1 < n; i++) b.push_back(i == 0 || r.pct(20) ? (r.pct(70) ? ext[r.below(8)] : 0x80 | (u8)r.next()) : r.pct(50) ? 0x80 : 0xff);
        b.push_back((u8)r.next() & 0x7f);
        break; }
    case 2: { // valid signed, possibly truncated or extended
        i64 v = (i64)r.bits64();
        b = ref_bytes(v, ref_ssize(v) + r.below(2));
        break; }
    case 3: { u64 v = r.bits64();
        b = ref_bytes((i128)(u128)v, ref_usize(v) + r.below(2));
        break; }
    case 4: { // only continuations
        unsigned n = r.below(24); for (unsigned i = 0; i < n; i++) b.push_back(0x80 | (u8)r.next());
        if (r.pct(50)) b.push_back((u8)r.next() & 0x7f);
        break; }
    case 5: { // mutated valid
        u64 v = r.bits64();
        b = ref_bytes((i64)v, ref_ssize((i64)v));
        for (unsigned k = 1 + r.below(2); k; k--) { size_t i = r.below(b.size()); b[i] ^= 1 << r.below(8); }
        break; }
    default: { // over-long padding
        u64 v = r.next() >> (30 + r.below(34));
        unsigned n = 1 + r.below(13);
        b.assign(n, r.pct(50) ? 0x80 : 0xff); b.back() = (u8)v & 0x7f;
        break; }
    }
    if (r.pct(15) && !b.empty()) b.resize(b.size() - 1 - r.below(b.size()));
    if (r.pct(25)) for (unsigned k = 1 + r.below(4); k; k--) b.push_back((u8)r.next());
    return b;
}
static void c02(Case& c)
{
    if (c.idx < 257) {
        // All sequences of one and two bytes
        u8 b[2];
        vh_op("exhaustive block %u", (unsigned)c.idx);
        if (c.idx == 256) {
            for (int i = 0; i < 256; i++) { b[0] = i; decode_any(c.r, b, 1); }
            decode_any(c.r, b, 0);
            GUtilRange empty = { NULL, NULL };
            gint64 s = 5; guint64 u = 5;
            CHECK(!gutil_signed_mbn_decode(&empty, &s) && s == 5, "empty range decoded");
            CHECK(!gutil_unsigned_mbn_decode(&empty, &u) && u == 5, "empty range decoded");
            CHECK(!gutil_signed_mbn_decode2(NULL, &s) && s == 5, "NULL decoded");
            CHECK(!gutil_unsigned_mbn_decode2(NULL, &u) && u == 5, "NULL decoded");
        } else {
            b[0] = (u8)c.idx;
            for (int i = 0; i < 256; i++) { b[1] = i; decode_any(c.r, b, 2); }
        }
    } else if (c.idx < 257 + 256) {
        // 10 (and 9, 11) byte sequences with every first byte
        u8 b[11];
        vh_op("long block %u", (unsigned)c.idx);
        for (int n = 8; n <= 11; n++) for (int f = 0; f < 4; f++) for (int l = 0; l < 4; l++) {
            static const u8 fill[] = { 0x80, 0xff, 0xc0, 0xbf };
            static const u8 last[] = { 0x00, 0x7f, 0x40, 0x3f };
            memset(b, fill[f], n);
            b[0] = (u8)(c.idx - 257);
            b[n - 1] = last[l];
            decode_any(c.r, b, n);
        }
    } else {
        for (int i = 0; i < 24; i++) {
            std::vector<u8> b = gen_mbn(c.r);
            vh_op("decode %s", vh_hex(b).c_str());
            decode_any(c.r, b.data(), b.size());
        }
    }
    vh_nontrivial();
}
VH_PROP(C02, c02);

//--------------------------------------------------------------------- C03
static void put_u(std::vector<u8>& b, u64 v, unsigned pad = 0)
{
    std::vector<u8> e = ref_bytes((i128)(u128)v, MIN(ref_usize(v) + pad, 10));
    b.insert(b.end(), e.begin(), e.end());
}
static u64 gen_tag(Rng& r, bool valid)
{
    if (valid) {
        switch (r.below(4)) {
        case 0: return 1 + r.below(200);
        case 1: return (u64)INT_MAX - r.below(3);
        case 2: { u64 v = (1ULL << r.below(31)) + r.below(3); return MIN(v, (u64)INT_MAX); }
        default: { u64 v = (r.next() & INT_MAX) >> r.below(31); return v ? v : 1; }
        }
    }
    switch (r.below(6)) {
    case 0: return 0;
    case 1: return (u64)INT_MAX + 1 + r.below(3);
    case 2: return ((u64)1 << 32) + r.below(300);
    case 3: return UINT64_MAX - r.below(3);
    case 4: return ((u64)1 << (31 + r.below(33))) + r.below(3);
    default: return UINT_MAX - r.below(3);
    }
}
// Reference TLV decoder
static unsigned ref_tlv(const u8* p, size_t n, size_t* voff, size_t* vlen)
{
    u64 tag, len;
    unsigned k = ref_udecode(p, n, &tag);
    if (!k || !tag || tag > INT_MAX) return 0;
    unsigned l = ref_udecode(p + k, n - k, &len);
    if (!l || len > n - k - l) return 0;
    *voff = k + l;
    *vlen = (size_t)len;
    return (unsigned)tag;
}
static std::vector<u8> gen_tlv_bytes(Rng& r, bool big)
{
    std::vector<u8> b;
    for (unsigned k = 1 + r.below(3); k; k--) {
        u64 len;
        put_u(b, gen_tag(r, r.pct(85)), r.pct(10) ? r.below(4) : 0);
        size_t have = r.pct(30) ? 0 : r.size(big ? 20000 : 300);
        switch (r.below(10)) {
        case 0: len = have + 1 + r.below(3); break;
        case 1: len = r.bits64(); break;
        case 2: len = (u64)0 - r.below(300); break;
        case 3: len = ((u64)1 << 63) + (u64)r.range(-300, 300); break;
        case 4: len = ((u64)1 << (31 + r.below(33))) + have; break;
        default: len = have; break;
        }
        put_u(b, len, r.pct(10) ? r.below(4) : 0);
        for (size_t i = 0; i < have; i++) b.push_back((u8)r.next());
    }
    if (r.pct(20) && b.size()) b.resize(b.size() - 1 - r.below(MIN(b.size(), (size_t)6)));
    if (r.pct(10)) b = gen_mbn(r);
    return b;
}
// Sizes which don't fit into 32 bits. The values are hardly ever touched (huge_encode excepted)
static u8* tlv_huge_block()
{
    static u8* block;
    if (!block) {
        block = (u8*)mmap(NULL, (4UL << 30) + (1 << 17), PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
        if (block == MAP_FAILED) vh_fail("harness", "cannot map 4G");
    }
    return block;
}
static void tlv_huge(Rng& r)
{
    for (int i = 0; i < 20; i++) {
        const guint tag = (guint)gen_tag(r, true);
        const size_t len = r.pct(50) ? ((size_t)1 << (31 + r.below(32))) + r.range(-20, 20) : r.next() >> (1 + r.below(34));
        CHECK_EQ((u64)gutil_tlv_size(tag, len), (u64)(ref_usize(tag) + ref_usize(len) + len), "tlv size");
        CNT("tlv_huge_sizes");
    }
    // Entries with that much data
    u8* block = tlv_huge_block();
    const guint tag = (guint)gen_tag(r, true), tag2 = (guint)gen_tag(r, true);
    const size_t len = (4UL << 30) + r.range(-5, 60000);
    std::vector<u8> head, next;
    put_u(head, tag); put_u(head, len); put_u(next, tag2); put_u(next, 1); next.push_back((u8)r.next());
    const size_t total = head.size() + len;
    vh_op("decode tag=%u len=%lu tag2=%u", tag, (unsigned long)len, tag2);
    memcpy(block, head.data(), head.size());
    memcpy(block + total, next.data(), next.size());
    GUtilRange in = { block, block + total + next.size() };
    GUtilData out = { NULL, 1 };
    CHECK_EQ(gutil_tlv_decode(&in, &out), tag, "tlv decode (4G)");
    CHECK(out.bytes == block + head.size() && out.size == len, "value (4G)");
    CHECK(in.ptr == block + total, "input position (4G)");
    CHECK_EQ(gutil_tlv_decode(&in, &out), tag2, "tlv decode (after 4G)");
    CHECK(out.bytes == block + total + next.size() - 1 && out.size == 1 && in.ptr == in.end, "value (after 4G)");
    const GUtilRange cut = { block, block + total - 1 - r.below(3) };
    in = cut; out.size = 77;
    CHECK(!gutil_tlv_decode(&in, &out) && !memcmp(&in, &cut, sizeof(in)) && out.size == 77, "tlv decode (incomplete 4G)");
    if (tag != tag2) {
        const guint tags[] = { tag2, tag, 0 };
        const GUtilData d = { block, total + next.size() };
        GUtilData vals[2];
        memset(vals, 0x55, sizeof(vals));
        CHECK_EQ(gutil_tlvs_decode(&d, tags, vals, GUTIL_TLVS_DECODE_NO_FLAGS), 3, "tlvs decode (4G)");
        CHECK(vals[0].bytes == block + total + next.size() - 1 && vals[0].size == 1, "value 0 (4G)");
        CHECK(vals[1].bytes == block + head.size() && vals[1].size == len, "value 1 (4G)");
    }
    memset(block, 0, head.size());
    memset(block + total, 0, next.size());
    CNT("tlv_huge");
}
static void tlv_huge_encode(Rng& r)
{
    u8* block = tlv_huge_block();
    const guint tag = (guint)gen_tag(r, true);
    const GUtilData d = { block, (4UL << 30) + r.below(60000) };
    const size_t total = ref_usize(tag) + ref_usize(d.size) + d.size;
    vh_op("encode tag=%u size=%lu", tag, (unsigned long)d.size);
    for (size_t i = 0; i < d.size; i += 1 << 20) block[i] = (u8)(i >> 20) | 1;
    memcpy(block + d.size - 8, "the end.", 8);
    u8* buf = (u8*)malloc(total + 16);
    memset(buf + total, 0xcd, 16);
    CHECK_EQ((u64)gutil_tlv_encode(buf, tag, &d), (u64)total, "tlv encode (4G)");
    std::vector<u8> head;
    put_u(head, tag); put_u(head, d.size);
    CHECK(!memcmp(buf, head.data(), head.size()), "tlv header (4G)");
    for (size_t i = 0; i < d.size; i += 1 << 20) CHECK(buf[head.size() + i] == block[i], "tlv value at %lu (4G)", (unsigned long)i);
    CHECK(!memcmp(buf + total - 8, "the end.", 8), "tlv value (4G)");
    for (int k = 0; k < 16; k++) CHECK(buf[total + k] == 0xcd, "encode wrote past the entry (4G)");
    free(buf);
    madvise(block, 4UL << 30, MADV_DONTNEED);
    memset(block + d.size - 8, 0, 8);
    CNT("tlv_huge_encoded");
}
static void c03(Case& c)
{
    Rng& r = c.r;
    if (!(c.idx % 211)) tlv_huge(r);
    // This one needs a lot of memory
    if (!strcmp(vh_variant, "o3") && c.idx == 1UL << 42) tlv_huge_encode(r);
    // Round trips
    for (int i = 0; i < 4; i++) {
        const guint tag = (guint)gen_tag(r, true);
        size_t len;
        switch (r.below(c.thorough ? 12 : 40)) {
        case 0: len = 2097151 + r.below(3); break;
        case 1: case 2: case 3: len = 16383 + r.below(3); break;
        case 4: case 5: case 6: case 7: case 8: len = 126 + r.below(4); break;
        case 9: len = 0; break;
        default: len = r.size(5000); break;
        }
        std::vector<u8> val(len);
        u64 x = r.next();
        for (size_t k = 0; k < len; k++) { x = x * 6364136223846793005ULL + 1442695040888963407ULL; val[k] = (u8)(x >> 56); }
        vh_op("roundtrip tag=%u len=%u", tag, (unsigned)len);
        const size_t total = ref_usize(tag) + ref_usize(len) + len;
        CHECK_EQ((size_t)gutil_tlv_size(tag, len), total, "tlv size");
        Exact src(val);
        GUtilData d = { len ? src.p : r.pct(50) ? src.p : NULL, len };
        const GUtilData* pd = (!len && r.pct(40)) ? NULL : &d;
        const size_t extra = r.below(4);
        u8* buf = (u8*)malloc(total + extra);
        memset(buf, 0xcd, total + extra);
        CHECK_EQ((size_t)gutil_tlv_encode(buf, tag, pd), total, "tlv encode");
        for (size_t k = 0; k < extra; k++) CHECK(buf[total + k] == 0xcd, "encode wrote past the entry");
        std::vector<u8> head;
        put_u(head, tag); put_u(head, len);
        CHECK(!memcmp(buf, head.data(), head.size()), "tlv header %s, expected %s", vh_hex(buf, head.size()).c_str(), vh_hex(head).c_str());
        CHECK(!len || !memcmp(buf + head.size(), val.data(), len), "tlv value differs");
        CHECK(!memcmp(src.p, val.data(), len), "source modified");
        GUtilRange in = { buf, buf + total + extra };
        GUtilData out = { NULL, 12345 };
        const bool noval = r.pct(15);
        CHECK_EQ(gutil_tlv_decode(&in, noval ? NULL : &out), tag, "tlv decode");
        CHECK(in.ptr == buf + total && in.end == buf + total + extra, "input position after decoding: %ld", (long)(in.ptr - buf));
        if (!noval) {
            CHECK_EQ((size_t)out.size, len, "decoded size");
            CHECK(out.bytes == buf + head.size(), "decoded value is at %ld", (long)(out.bytes - buf));
        }
        vh_mix_buf(buf, total);
        free(buf);
        CNT("tlv_roundtrips");
        if (len > 16383) CNT("tlv_roundtrips_large");
    }
    // Arbitrary input
    for (int i = 0; i < 10; i++) {
        std::vector<u8> b = gen_tlv_bytes(r, i == 0);
        vh_op("decode %s", vh_hex(b).c_str());
        Exact e(b);
        GUtilRange in = { e.p, e.p + e.n };
        size_t left = e.n;
        for (;;) {
            size_t voff = 0, vlen = 0;
            const u8* at = in.ptr;
            const unsigned ref = ref_tlv(at, left, &voff, &vlen);
            GUtilData out = { (const guint8*)&in, 77777 };
            const guint tag = gutil_tlv_decode(&in, &out);
            CHECK(tag == ref, "tlv decode returned %u, expected %u", tag, ref);
            vh_mix(tag);
            if (!ref) {
                CHECK(in.ptr == at && in.end == e.p + e.n, "failed decode moved input by %ld", (long)(in.ptr - at));
                CHECK(out.bytes == (const guint8*)&in && out.size == 77777, "failed decode changed the output");
                CNT("tlv_rejected");
                break;
            }
            CHECK(out.bytes == at + voff && out.size == vlen, "value at %ld+%lu, expected %lu+%lu",
                (long)(out.bytes - at), (unsigned long)out.size, (unsigned long)voff, (unsigned long)vlen);
            CHECK(in.ptr == at + voff + vlen, "consumed %ld, expected %lu", (long)(in.ptr - at), (unsigned long)(voff + vlen));
            left -= voff + vlen;
            CNT("tlv_decoded");
        }
    }
    vh_nontrivial();
}
VH_PROP(C03, c03);

//--------------------------------------------------------------------- C04
static void c04(Case& c)
{
    Rng& r = c.r;
    for (int round = 0; round < 6; round++) {
        // Tag list
        const unsigned ntags = r.pct(12) ? 29 + r.below(8) : r.below(7);
        std::vector<guint> tags;
        for (unsigned i = 0; i < ntags; i++)
            tags.push_back(tags.size() && r.pct(5) ? r.pick(tags) : (guint)(r.pct(80) ? 1 + r.below(MAX(ntags * 2, 1u)) : gen_tag(r, true)));
        if (r.pct(30)) { std::set<guint> s(tags.begin(), tags.end()); tags.assign(s.begin(), s.end()); }
        // Entries
        std::vector<u8> b;
        std::vector<guint> pool(tags);
        const unsigned nent = r.pct(10) ? ntags + r.below(3) : r.below(6);
        const bool dups = r.pct(25), unk = r.pct(35);
        for (unsigned i = 0; i < nent; i++) {
            u64 t;
            if (unk && r.pct(35)) t = gen_tag(r, true);
            else if (pool.size()) { size_t k = r.below(pool.size()); t = pool[k]; if (!dups) pool.erase(pool.begin() + k); }
            else if (unk) t = gen_tag(r, true);
            else break;
            put_u(b, t, r.pct(5) ? r.below(3) : 0);
            size_t len = r.pct(30) ? 0 : r.size(200);
            put_u(b, len);
            for (size_t k = 0; k < len; k++) b.push_back((u8)r.next());
        }
        switch (r.below(10)) {
        case 0: if (b.size()) b.resize(b.size() - 1); break;
        case 1: b.push_back((u8)r.next()); break;
        case 2: b.push_back(0); b.push_back(0); break;
        case 3: if (b.size()) b[r.below(b.size())] ^= 1 << r.below(8); break;
        case 4: { std::vector<u8> x = gen_tlv_bytes(r, false); b.insert(b.end(), x.begin(), x.end()); break; }
        default: break;
        }
        const bool skip = r.pct(50), novals = r.pct(15);
        vh_op("tags=%u data=%s skip=%d novals=%d", (unsigned)tags.size(), vh_hex(b).c_str(), skip, novals);
        // Reference
        std::vector<std::pair<size_t,size_t>> ref(tags.size(), { 0, 0 });
        std::vector<bool> present(tags.size(), false);
        int expect = 0;
        size_t off = 0;
        while (off < b.size()) {
            size_t vo = 0, vl = 0;
            const unsigned t = ref_tlv(b.data() + off, b.size() - off, &vo, &vl);
            if (!t) { expect = GUTIL_TLVS_DECODE_ERROR; break; }
            size_t k;
            for (k = 0; k < tags.size() && k < 31 && tags[k] != t; k++);
            if (k < tags.size() && k < 31) {
                if (present[k]) { expect = GUTIL_TLVS_DECODE_DUPLICATE_TAG; break; }
                present[k] = true;
                ref[k] = { off + vo, vl };
                expect |= 1 << k;
            } else if (!skip) { expect = GUTIL_TLVS_DECODE_UNKNOWN_TAG; break; }
            off += vo + vl;
        }
        Exact e(b);
        GUtilData in = { e.p, e.n };
        std::vector<guint> tv(tags);
        tv.push_back(0);
        Exact te(tv.data(), tv.size() * sizeof(guint));
        GUtilData* vals = novals ? NULL : (GUtilData*)malloc(MAX(tags.size(), (size_t)1) * sizeof(GUtilData));
        if (vals) memset(vals, 0xa5, tags.size() * sizeof(GUtilData));
        const int ret = gutil_tlvs_decode(&in, (guint*)te.p, vals, skip ?
            GUTIL_TLVS_DECODE_FLAG_SKIP_UNKNOWN_TAGS : GUTIL_TLVS_DECODE_NO_FLAGS);
        CHECK(ret == expect, "tlvs decode returned %d, expected %d", ret, expect);
        vh_mix((u64)ret);
        if (vals) for (size_t i = 0; i < tags.size(); i++) {
            if (ret >= 0) {
                if (present[i]) {
                    CHECK(vals[i].bytes == e.p + ref[i].first && vals[i].size == ref[i].second,
                        "output %u is at %ld+%lu, expected %lu+%lu", (unsigned)i, (long)(vals[i].bytes - e.p),
                        (unsigned long)vals[i].size, (unsigned long)ref[i].first, (unsigned long)ref[i].second);
                } else {
                    CHECK(!vals[i].bytes && !vals[i].size, "output %u is not zeroed", (unsigned)i);
                }
            } else if (vals[i].bytes) {
                CHECK(vals[i].bytes >= e.p && vals[i].size <= (size_t)(e.p + e.n - vals[i].bytes), "output %u is outside of the input", (unsigned)i);
            }
        }
        free(vals);
        if (ret > 0) vh_nontrivial();
        if (ret >= 0) CNT("decoded"); else if (ret == -1) CNT("error"); else if (ret == -2) CNT("duplicate"); else CNT("unknown");
        if (tags.size() > 31) CNT("more_than_31_tags");
        if (ret > 0 && (ret & (1 << 30))) CNT("bit_30");
    }
}
VH_PROP(C04, c04);
