// C04: byte stuffing. Encoding: every byte is replaced by exactly its escape sequence (or itself), in order, for data of any
// length. Decoding inverts encoding.
#include "vf.h"
#include <iterator>
#include <unordered_map>
#include "bin_utils.cpp"
using namespace BinUtils;
using TRules = std::unordered_map<uint8_t, std::vector<uint8_t>>;

// An arbitrary SLIP-like rule set: two escaped bytes, one of which is the escape byte itself.
struct Rules { uint8_t k0, k1; TRules m; };
static void Arb(Rules& r)
{
    r.k0 = __vf_u8();
    r.k1 = __vf_u8();
    uint8_t c0 = __vf_u8();
    uint8_t c1 = __vf_u8();
    VF_REQUIRES(r.k0 != r.k1 && c0 != c1);
    r.m.emplace(r.k0, std::vector<uint8_t>({r.k1, c0}));
    r.m.emplace(r.k1, std::vector<uint8_t>({r.k1, c1}));
}
// Ghost output iterator: compares every emitted byte with the specification of the encoding, for two arbitrary reserved bytes
// k0, k1 with arbitrary escape sequences x0 y0 (z0), x1 y1 (z1) of L0 and L1 bytes.
template<size_t L0, size_t L1> struct Spec
{
    uint8_t k0, k1, x0, y0, z0, x1, y1, z1;
    const std::vector<uint8_t>* d;
    size_t i = 0;
    size_t sub = 0;
    void Put(uint8_t b)
    {
        VF_ASSERT(i < d->size(), "nothing is emitted beyond the data");
        if (i >= d->size())
            return;
        uint8_t x = (*d)[i];
        bool r0 = x == k0;
        if (!r0 && x != k1) {
            VF_ASSERT(b == x, "an ordinary byte is emitted as is");
            ++i;
        } else if (sub == 0) {
            VF_ASSERT(b == (r0 ? x0 : x1), "a reserved byte is replaced by its escape sequence: first byte");
            if (r0 ? L0 == 1 : L1 == 1)
                ++i;
            else
                sub = 1;
        } else if (sub == 1) {
            VF_ASSERT(b == (r0 ? y0 : y1), "a reserved byte is replaced by its escape sequence: second byte");
            if (r0 ? L0 == 2 : L1 == 2) {
                sub = 0;
                ++i;
            } else
                sub = 2;
        } else {
            VF_ASSERT(b == (r0 ? z0 : z1), "a reserved byte is replaced by its escape sequence: third byte");
            sub = 0;
            ++i;
        }
    }
};
template<size_t L> static std::vector<uint8_t> Seq(uint8_t x, uint8_t y, uint8_t z)
{
    if constexpr (L == 1)
        return {x};
    else if constexpr (L == 2)
        return {x, y};
    else
        return {x, y, z};
}
template<class S> struct Out
{
    using iterator_category = std::output_iterator_tag;
    using value_type = void;
    using difference_type = ptrdiff_t;
    using pointer = void;
    using reference = void;
    S* s;
    Out& operator*() { return *this; }
    Out& operator++() { return *this; }
    Out operator++(int) { return *this; }
    Out& operator=(uint8_t b) { s->Put(b); return *this; }
};
template<size_t L0, size_t L1> static void Encode()
{
    Spec<L0, L1> s{__vf_u8(), __vf_u8(), __vf_u8(), __vf_u8(), __vf_u8(), __vf_u8(), __vf_u8(), __vf_u8()};
    VF_REQUIRES(s.k0 != s.k1);
    TRules m;
    m.emplace(s.k0, Seq<L0>(s.x0, s.y0, s.z0));
    m.emplace(s.k1, Seq<L1>(s.x1, s.y1, s.z1));
    auto d = vf_vec(__vf_size(VF_MAX));
    s.d = &d;
    ApplyByteStuffing(d, m, Out<Spec<L0, L1>>{&s});
    VF_ASSERT(s.i == d.size() && s.sub == 0, "every byte is encoded");
    __vf_cover("done");
}
VF_HARNESS(encode_2_2) { Encode<2, 2>(); }
VF_HARNESS(encode_1_3) { Encode<1, 3>(); }
// Decoding a stuffed stream gives back the data (data of at most max bytes: a bounded stand-in).
template<size_t max> static void RoundTrip()
{
    Rules r;
    Arb(r);
    size_t n = __vf_split(__vf_size(max));
    auto d = vf_vec(n);
    std::vector<uint8_t> e;
    ApplyByteStuffing(d, r.m, std::back_inserter(e));
    DecodeByteStuffing(e, r.m);
    VF_ASSERT(e.size() == n, "decoding restores the length");
    for (size_t i = 0; i < n; ++i)
        VF_ASSERT(e[i] == d[i], "decoding restores the data");
    __vf_cover("round trip");
}
VF_HARNESS(round_trip) { RoundTrip<5>(); }
// A stream without escape bytes is unchanged, whatever its length.
VF_HARNESS(decode_plain)
{
    Rules r;
    Arb(r);
    auto d = vf_vec(__vf_size(VF_MAX));
    for (size_t i = 0; i < d.size(); ++i) // every stream free of the escape byte has this form
        d[i] = d[i] == r.k1 ? r.k0 : d[i];
    auto e = d;
    DecodeByteStuffing(e, r.m);
    VF_ASSERT(e.size() == d.size(), "no bytes are lost");
    size_t i = __vf_index();
    VF_REQUIRES(i < d.size());
    VF_ASSERT(e[i] == d[i], "nothing but escape sequences changes");
    __vf_cover("plain");
}
VF_HARNESS(bad_rule)
{
    TRules m;
    m.emplace(__vf_u8(), std::vector<uint8_t>());
    auto d = vf_vec(1);
    bool ex = false;
    try {
        DecodeByteStuffing(d, m);
    } catch (const std::invalid_argument&) {
        ex = true;
    }
    VF_ASSERT(ex, "an empty escape sequence is refused");
    __vf_cover("refused");
}
