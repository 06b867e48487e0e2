// Entries for the parts that are not about all types alike: hash trees, hashers, predicates, numbers, text.
#include <array>
#include <cstring>
#include <exception>
#include <string>
#include <string_view>
#include <vector>

#include "build.hpp"
#include "helpers/bytes_to_int.hpp"
#include "helpers/bytes_to_string.hpp"
#include "helpers/math.hpp"
#include "spec_types.hpp"
#include "ssz/hasher.hpp"
#include "ssz/hashtree.hpp"
#include "verif.h"

using spec::Bytes;
using spec::u64;
using spec::u8;
using spec::Value;

namespace {
Bytes unknown_bytes(std::size_t n) {
    Bytes b;
    if (n) {
        b.reserve(n);
        b.resize(n);
        verif_bytes(b.data(), n);
    }
    return b;
}
void same(const Bytes& got, const Bytes& want, const char* msg) {
    verif_assert(got.size() == want.size(), msg);
    verif_assert_bytes(got.data(), want.data(), want.size(), msg);
}
void same(const std::string& got, const std::string& want, const char* msg) {
    verif_assert(got.size() == want.size(), msg);
    verif_assert_bytes(got.data(), want.data(), want.size(), msg);
}
}  // namespace

#ifdef PROP_BACKEND  // C03
using IMPL = ssz::Hasher::IMPL;
extern "C" void prop_backend() {
    enum { SSE = 1, AVX = 2, AVX2 = 4, SHA = 8 };
    auto& t = verif_cpuid_table;
    // leaf 0: the highest leaf; leaf 1; leaf 7. A processor answers leaves above its highest one with anything.
    for (auto& row : t) verif_bytes(&row[2], 16);
    verif_assume(t[0][2] >= 1);
    u64 want = 0;
    if (t[1][4] & 1u) want |= SSE;  // SSE3
    if (t[1][4] >> 28 & 1u) want |= AVX;
    bool leaf7 = t[0][2] >= 7;
    if (leaf7 && (t[2][3] >> 5 & 1u)) want |= AVX2;
    if (leaf7 && (t[2][3] >> 29 & 1u)) want |= SHA;
    // what the architecture implies
    if (want & (AVX2 | SHA)) verif_assume(want & SSE);
    if (want & AVX2) verif_assume(want & AVX);
    verif_assert((u64)(int)ssz::Hasher::implemented() == want, "the capability set is not the processor's");
    u64 best = want & SHA ? SHA : want & AVX2 ? AVX2 : want & AVX ? AVX : SSE;
    u64 impl = verif_param("impl");
    bool one = impl == SSE || impl == AVX || impl == AVX2 || impl == SHA;
    const std::size_t n = verif_param("blocks");
    Bytes in = unknown_bytes(64 * n), out(32 * n), ref(32 * n);
    verif_backends = 0;
    if (impl == 99) ssz::Hasher{}.hash_64b_blocks(out.data(), in.data(), n);
    else ssz::Hasher{(IMPL)(int)impl}.hash_64b_blocks(out.data(), in.data(), n);
    u64 ran = verif_backends;
    verif_assert(ran == (one ? impl : best), one ? "not the requested backend runs" : "not the best supported backend runs");
    for (std::size_t k = 0; k < n; ++k) verif_hash(ref.data() + 32 * k, in.data() + 64 * k);
    verif_assert_bytes(out.data(), ref.data(), ref.size(), "the hasher gives other digests than its backend");
    verif_cover(one ? "requested" : "default");
    // the kernel behind the SSE backend is written with AVX instructions
    if (!one) verif_assert(!(ran & SSE) || (want & AVX), "without AVX, the hasher nobody chose runs AVX instructions");
}
#endif

#ifdef PROP_TREE  // C04, C22
namespace {
void tree(const std::vector<spec::Chunk>& spec_chunks, u64 count, u64 limit, u64 mix, const auto& make) {
    bool over = limit && count > limit;
    try {
        ssz::HashTree ht = make();
        verif_assert(!over, "more chunks than the limit are hashed");
        spec::Chunk want = spec::merkleize(spec_chunks, limit);
        if (mix) {
            u64 n = verif_u64();
            ht.mix_in(n);
            want = spec::mix(want, n);
        }
        auto got = ht.hash_tree_root();
        verif_assert_bytes(got.data(), want.data(), 32, "the root of a list of chunks is not the specification's");
        auto all = ht.hash_tree();
        verif_assert(!all.empty(), "a tree without a root");
        verif_assert_bytes(all.back().data(), want.data(), 32, "the last node of a tree is not its root");
        verif_cover("hashed");
    } catch (const std::exception&) {
        verif_assert(over || count == 0, "chunks within the limit are rejected");
        verif_cover("rejected");
    }
}
}  // namespace
extern "C" void prop_tree() {
    u64 n = verif_param("n"), limit = verif_param("limit"), mix = verif_param("mix");
    if (verif_param("bytes")) {
        Bytes b = unknown_bytes(n);
        tree(spec::pack(b), (n + 31) / 32, limit, mix, [&] { return ssz::HashTree{b, limit}; });
    } else {
        std::vector<ssz::Chunk> c;
        c.reserve(n);
        c.resize(n);
        if (n) verif_bytes(c.data(), 32 * n);
        std::vector<spec::Chunk> w(c.begin(), c.end());
        tree(w, n, limit, mix, [&] { return ssz::HashTree{c, limit}; });
    }
}
#endif

#ifdef PROP_SLASHABLE  // C13
namespace {
bool has_fields(const eth::AttestationData& o, const Value& v) {
    Bytes s = o.serialize(), w = spec::ser(v);
    return s.size() == w.size() && verif_bytes_eq(s.data(), w.data(), w.size());
}
}  // namespace
extern "C" void prop_slashable() {
    const spec::Type& t = *spec::type_AttestationData;
    Value v = spec::unknown(t, {}), w = spec::unknown(t, {});
    eth::AttestationData a, b;
    impl::build(a, v);
    impl::build(b, w);
    auto epoch = [](const Value& x, int c) { return spec::number(x.e[c].e[0]); };
    Bytes x = spec::ser(v), y = spec::ser(w);
    bool eq = verif_bytes_eq(x.data(), y.data(), x.size());
    bool dbl = !eq && epoch(v, 4) == epoch(w, 4);
    bool sur = epoch(v, 3) < epoch(w, 3) && epoch(w, 4) < epoch(v, 4);
    bool got = a.is_slashable(b);
    verif_assert(got == (dbl | sur), "the slashing predicate is not the specification's");
    if (got) {
        if (dbl) verif_cover("double vote");
        else verif_cover("surround vote");
    } else
        verif_cover("not slashable");
    verif_assert(has_fields(a, v), "the predicate changed a vote");
    verif_assert(!a.is_slashable(a), "a vote is slashable against itself");
}
#endif

#ifdef PROP_INDEXED  // C14
extern "C" void prop_indexed() {
    u64 n = verif_param("n");
    Value v = spec::unknown_field(*spec::type_IndexedAttestation, 0, n);
    eth::IndexedAttestation a;
    impl::build(a, v);
    eth::BeaconState state;
    if (verif_param("state")) impl::build(state, spec::unknown(*spec::type_BeaconState, {verif_param("state")}));
    bool want = n > 0;
    const Value& l = v.e[0];
    for (u64 k = 1; k < n; ++k) want &= spec::number(l.e[k - 1]) < spec::number(l.e[k]);
    bool got = a.is_valid(state);
    verif_assert(got == want, "the check of the indices is not the specification's");
    verif_cover(got ? "valid" : "invalid");
    Bytes s = a.serialize(), w = spec::ser(v);
    same(s, w, "the check changed the attestation");
}
#endif

#ifdef PROP_VALIDATOR  // C15
extern "C" void prop_validator() {
    Value v = spec::unknown(*spec::type_Validator, {});
    eth::Validator o;
    impl::build(o, v);
    u64 epoch = verif_u64();
    auto f = [&](int k) { return spec::number(v.e[k]); };
    u64 balance = f(2), slashed = f(3), eligible = f(4), activation = f(5), exit = f(6), withdrawable = f(7);
    bool active = (activation <= epoch) & (epoch < exit);
    bool queue = (eligible == ~0ull) & (balance == 32000000000ull);
    bool slashable = (slashed == 0) & (activation <= epoch) & (epoch < withdrawable);
    bool a = o.is_active(eth::Epoch{epoch});
    verif_assert(a == active, "the activity of a validator is not the specification's");
    verif_cover(a ? "active" : "inactive");
    bool q = o.is_eligible_for_activation_queue();
    verif_assert(q == queue, "the eligibility of a validator is not the specification's");
    verif_cover(q ? "eligible" : "not eligible");
    bool s = o.is_slashable(eth::Epoch{epoch});
    verif_assert(s == slashable, "whether a validator can be slashed is not the specification's");
    verif_cover(s ? "slashable" : "not slashable");
    Bytes b = o.serialize(), w = spec::ser(v);
    same(b, w, "a predicate changed the validator");
}
#endif

#ifdef PROP_ISQRT  // C16
extern "C" void prop_isqrt() {
    u64 k, x = verif_isqrt_input(&k);
    if (verif_param("width") == 32) {
        std::uint32_t r = helpers::integer_squareroot((std::uint32_t)x);
        verif_assert(r == (std::uint32_t)k, "the integer square root is wrong");
    } else {
        u64 r = helpers::integer_squareroot((std::uint64_t)x);
        verif_assert(r == k, "the integer square root is wrong");
    }
    verif_cover("root");
}
namespace {
template <class T>
void log2() {
    T n = (T)verif_u64();
    int r = helpers::log2ceil(n);
    constexpr int W = sizeof(T) * 8;
    verif_assert(r >= 0 && r <= W, "the tree depth is out of range");
    u64 x = n;
    if (x <= 1) {
        verif_assert(r == 0, "the tree depth of an empty or one element list is not zero");
        verif_cover("at most one");
        return;
    }
    verif_assert(r > 0, "the tree depth is too small");
    // 2^(r-1) < n <= 2^r
    verif_assert((1ull << ((unsigned)(r - 1) & 63)) < x, "the tree depth is too large");
    verif_assert(r >= 64 || x <= (1ull << ((unsigned)r & 63)), "the tree depth is too small");
    verif_cover("depth");
}
}  // namespace
extern "C" void prop_log2() {
    switch (verif_param("width")) {
        case 32: return log2<std::uint32_t>();
        default: return log2<std::uint64_t>();
    }
}
#endif

#ifdef PROP_TEXT  // C17
namespace {
// one of the 22 digits in either letter case
bool digit(char c) { return ((c >= '0') & (c <= '9')) | ((c >= 'a') & (c <= 'f')) | ((c >= 'A') & (c <= 'F')); }
u8 digit_value(char c) {
    u8 x = (u8)c;
    u8 letter = (u8)((x | 32) - 'a' + 10);
    return x <= '9' ? (u8)(x - '0') : letter;
}
// the text of b; every letter in lower or upper case, which is unknown
std::string text_of(const Bytes& b, bool any_case) {
    std::string r = spec::hex(b);
    if (any_case)
        for (std::size_t k = 2; k < r.size(); ++k) {
            u8 up;
            verif_bytes(&up, 1);
            up &= 1;
            char c = r[k];
            r[k] = c >= 'a' ? (char)(c - 32 * up) : c;
        }
    return r;
}
template <class F>
bool accepts(F&& f) {
    try {
        f();
        return true;
    } catch (const std::exception&) {
        return false;
    }
}
// len characters of which the digits are unknown; the prefix is there when `prefix` is
std::string unknown_text(u64 len, bool prefix, bool digits, bool& good) {
    std::string s(len, '0');
    if (len) verif_bytes(s.data(), len);
    good = true;
    for (u64 k = 0; k < len; ++k) {
        if (prefix && k < 2) s[k] = k ? 'x' : '0';
        else if (digits) verif_assume(digit(s[k]));
        else good &= digit(s[k]);
    }
    return s;
}
Bytes parsed(const std::string& s) {
    Bytes b;
    for (std::size_t k = 2; k + 1 < s.size(); k += 2) b.push_back((u8)(digit_value(s[k]) << 4 | digit_value(s[k + 1])));
    return b;
}
template <std::size_t N>
void text_bytes() {
    eth::Bytes<N> o, p;
    u64 len = verif_param("len");
    switch (verif_param("mode")) {
        case 0: {
            Bytes b = unknown_bytes(N);
            std::memcpy(o.data(), b.data(), N);
            same(o.to_string(), spec::hex(b), "the text of a byte string is not its hexadecimal form");
            std::string s = text_of(b, true);
            p.from_string(s);
            same(p.serialize(), b, "reading the text of a byte string gives another one");
            eth::Bytes<N> q{std::string_view{s}};
            same(q.serialize(), b, "constructing a byte string from its text gives another one");
            verif_cover("text");
            return;
        }
        case 1: {  // prefixed, any characters
            bool good;
            std::string s = unknown_text(len, true, false, good);
            bool ok = accepts([&] { p.from_string(s); });
            if (len > 2 * N + 2) verif_assert(!ok, "text that is too long is accepted");
            else if (len % 2 == 0) {
                verif_assert(ok == good, "text is accepted exactly when it has digits only");
                if (ok) {
                    Bytes b = parsed(s);
                    b.resize(N);
                    same(p.serialize(), b, "text is read as another byte string");
                    verif_cover("read");
                }
            }
            return;
        }
        default: {  // without prefix
            bool good;
            std::string s = unknown_text(len, false, false, good);
            if (len >= 2) verif_assume(!((s[0] == '0') & (s[1] == 'x')));
            bool ok = accepts([&] { p.from_string(s); });
            verif_assert(!ok, "text without prefix is accepted");
            bool ok2 = accepts([&] { eth::Bytes<N> q{std::string_view{s}}; });
            verif_assert(!ok2, "text without prefix is accepted");
            verif_cover("no prefix");
        }
    }
}
template <class T>
void text_bits(T o, T p, const spec::Type& t) {
    u64 len = verif_param("len");
    std::size_t max = t.kind == spec::BITVEC ? (t.n + 7) / 8 : t.n / 8 + 1;
    switch (verif_param("mode")) {
        case 0: {
            Value v = spec::unknown_field(t, 0, len);
            impl::build(o, v);
            Bytes b = spec::ser(v);
            same(o.to_string(), spec::hex(b), "the text of a bit field is not its hexadecimal form");
            p.from_hexstring(text_of(b, true));
            same(p.serialize(), b, "reading the text of a bit field gives another one");
            verif_assert(p == o, "reading the text of a bit field gives another one");
            verif_cover("text");
            return;
        }
        case 1: {
            bool good;
            std::string s = unknown_text(len, true, false, good);
            bool ok = accepts([&] { p.from_hexstring(s); });
            if (len % 2) verif_assert(!ok, "text with an odd number of digits is accepted");
            else if (len > 2 * max + 2) verif_assert(!ok, "text that is too long is accepted");
            else {
                if (!good) verif_assert(!ok, "text with other characters than digits is accepted");
                else {
                    Bytes b = parsed(s);
                    if (t.kind == spec::BITLIST) {
                        // the delimiter has to be there
                        u8 last = b.empty() ? 0 : b.back();
                        u64 bits = b.empty() ? 0 : 8 * (b.size() - 1);
                        for (int k = 1; k < 8; ++k) bits += (last >> k) != 0;
                        verif_assert(ok == ((last != 0) & (bits <= t.n)), "text of bit lists is accepted exactly when it has a delimiter and few enough bits");
                        if (ok) same(p.serialize(), b, "text is read as another bit list");
                    } else {
                        b.resize(max);
                        bool stray = t.n % 8 && b.back() >> (t.n % 8);
                        if (!stray) {
                            verif_assert(ok, "text of a bit vector is rejected");
                            same(p.serialize(), b, "text is read as another bit vector");
                        } else
                            ok = false;
                    }
                    if (ok) verif_cover("read");
                }
            }
            return;
        }
        default: {
            bool good;
            std::string s = unknown_text(len, false, false, good);
            if (len >= 2) verif_assume(!((s[0] == '0') & (s[1] == 'x')));
            bool ok = accepts([&] { p.from_hexstring(s); });
            verif_assert(!ok, "text without prefix is accepted");
            verif_cover("no prefix");
        }
    }
}
}  // namespace
extern "C" void prop_text() {
    using spec::Type;
    switch (verif_param("type")) {
        case 1: return text_bytes<1>();
        case 4: return text_bytes<4>();
        case 20: return text_bytes<20>();
        case 32: return text_bytes<32>();
        case 48: return text_bytes<48>();
        case 96: return text_bytes<96>();
        case 104: { static constexpr Type t{spec::BITVEC, 4, nullptr, nullptr, 0, ""}; return text_bits(eth::Bitvector<4>{}, eth::Bitvector<4>{}, t); }
        case 108: { static constexpr Type t{spec::BITVEC, 8, nullptr, nullptr, 0, ""}; return text_bits(eth::Bitvector<8>{}, eth::Bitvector<8>{}, t); }
        case 109: { static constexpr Type t{spec::BITVEC, 9, nullptr, nullptr, 0, ""}; return text_bits(eth::Bitvector<9>{}, eth::Bitvector<9>{}, t); }
        case 133: { static constexpr Type t{spec::BITVEC, 33, nullptr, nullptr, 0, ""}; return text_bits(eth::Bitvector<33>{}, eth::Bitvector<33>{}, t); }
        case 201: { static constexpr Type t{spec::BITLIST, 1, nullptr, nullptr, 0, ""}; return text_bits(eth::Bitlist{1}, eth::Bitlist{1}, t); }
        case 209: { static constexpr Type t{spec::BITLIST, 9, nullptr, nullptr, 0, ""}; return text_bits(eth::Bitlist{9}, eth::Bitlist{9}, t); }
        case 240: { static constexpr Type t{spec::BITLIST, 40, nullptr, nullptr, 0, ""}; return text_bits(eth::Bitlist{40}, eth::Bitlist{40}, t); }
        default: verif_assert(false, "unknown type");
    }
}
#endif

#ifdef PROP_NUMBERS  // C19
namespace {
template <std::size_t N, class T>
void from_int() {
    T x = (T)verif_u64();
    eth::Bytes<N> o{x};
    Bytes want(N, 0);
    for (std::size_t k = 0; k < sizeof(T); ++k) want[k] = (u8)((std::make_unsigned_t<T>)x >> (8 * k % (8 * sizeof(T))));
    same(o.serialize(), want, "a byte string made of a number does not hold it little endian");
    if constexpr (N == sizeof(T) && std::is_unsigned_v<T>) {
        T y = o.template to_integer_little_endian<T>();
        verif_assert(y == x, "the number read from a byte string is another one");
    }
    verif_cover("number");
}
template <class T>
void read_int() {
    Bytes b = unknown_bytes(sizeof(T));
    T x = helpers::to_integer_little_endian<T>(b.data());
    u64 w = 0;
    for (std::size_t k = sizeof(T); k-- > 0;) w = w << 8 | b[k];
    verif_assert((u64)x == w, "bytes are not read as a little endian number");
    verif_cover("read");
}
template <std::size_t N>
void operations() {
    std::array<u8, N> a, c;
    verif_bytes(a.data(), N);
    verif_bytes(c.data(), N);
    eth::Bytes<N> x{a}, y{c};
    const eth::Bytes<N> z{c};
    Bytes va(a.begin(), a.end()), vc(c.begin(), c.end());
    same(x.serialize(), va, "a byte string does not hold the bytes it was made of");
    for (std::size_t k = 0; k < N; ++k) {
        verif_assert(x[k] == a[k], "indexing gives another byte");
        verif_assert(z[k] == c[k], "indexing gives another byte");
    }
    std::size_t k = 0;
    for (auto it = x.begin(); it != x.end(); ++it, ++k) verif_assert(k < N && *it == a[k], "iteration gives other bytes");
    verif_assert(k == N, "iteration gives another number of bytes");
    k = 0;
    for (auto it = z.cbegin(); it != z.cend(); ++it, ++k) verif_assert(k < N && *it == c[k], "iteration gives other bytes");
    verif_assert(k == N, "iteration gives another number of bytes");
    verif_assert(x.size() == N, "the size of a byte string is wrong");
    verif_assert_bytes(x.data(), a.data(), N, "the data of a byte string is wrong");
    verif_assert_bytes(z.to_array().data(), c.data(), N, "the array of a byte string is wrong");
    same((std::vector<u8>)x, va, "conversion to a vector gives other bytes");
    // exclusive or
    x ^= y;
    Bytes w(N);
    for (std::size_t q = 0; q < N; ++q) w[q] = (u8)(a[q] ^ c[q]);
    same(x.serialize(), w, "the exclusive or is wrong");
    same(y.serialize(), vc, "the exclusive or changed its operand");
    x ^= x;
    same(x.serialize(), Bytes(N, 0), "the exclusive or with itself is not zero");
    // writing through an index
    u8 byte;
    verif_bytes(&byte, 1);
    y[N - 1] = byte;
    vc[N - 1] = byte;
    same(y.serialize(), vc, "writing through an index changes something else");
    if (verif_param("iterate")) *y.begin() = byte, vc[0] = byte, same(y.serialize(), vc, "writing through an iterator changes something else");
    verif_cover("operations");
}
template <std::size_t N, std::size_t M>
void concatenate() {
    std::array<u8, N> a;
    std::array<u8, M> c;
    verif_bytes(a.data(), N);
    verif_bytes(c.data(), M);
    eth::Bytes<N> x{a};
    eth::Bytes<M> y{c};
    auto s = x + y;
    static_assert(decltype(s)::ssz_size == N + M);
    Bytes w(a.begin(), a.end());
    w.insert(w.end(), c.begin(), c.end());
    same(s.serialize(), w, "a concatenation does not hold its operands in order");
    same(x.serialize(), Bytes(a.begin(), a.end()), "a concatenation changed an operand");
    verif_cover("concatenation");
}
void slots() {
    u64 x = verif_u64(), y = verif_u64();
    eth::Slot s{x};
    const eth::Slot cs{x};
    verif_assert((u64)s == x, "a slot gives another number");
    verif_assert((u64)cs == x, "a slot gives another number");
    Bytes w(8);
    for (int k = 0; k < 8; ++k) w[k] = (u8)(x >> (8 * k));
    same(((eth::Bytes8)cs).serialize(), w, "the bytes of a slot are not its number");
    same(s.serialize(), w, "the serialization of a slot is not its number");
    std::uint64_t& r = s;
    r = y;
    verif_assert((u64)s == y, "writing a slot gives another number");
    verif_assert((cs == s) == (x == y), "slots compare wrongly");
    verif_assert((cs < s) == (x < y), "slots are ordered wrongly");
    s = cs;
    verif_assert((u64)s == x, "assigning a slot gives another number");
    // booleans
    u8 b;
    verif_bytes(&b, 1);
    b &= 1;
    eth::Boolean o{b != 0};
    const eth::Boolean co{b != 0};
    verif_assert((bool)co == (b != 0), "a boolean gives another value");
    same(((eth::Bytes1)co).serialize(), Bytes(1, b), "the byte of a boolean is wrong");
    bool& rb = o;
    rb = !rb;
    verif_assert((bool)o == (b == 0), "writing a boolean gives another value");
    verif_cover("slots");
}
// the number of a text of hexadecimal digits
void digits() {
    u64 n = verif_param("len");
    std::string s(n, '0');
    if (n) verif_bytes(s.data(), n);
    u64 w = 0;
    for (u64 k = 0; k < n; ++k) {
        u8 c = (u8)s[k];
        verif_assume(((c >= '0') & (c <= '9')) | ((c >= 'a') & (c <= 'f')) | ((c >= 'A') & (c <= 'F')));
        w = w << 4 | (c <= '9' ? c - '0' : (c | 32) - 'a' + 10);
    }
    int r = helpers::strhex2int(s);
    verif_assert((u64)(std::int64_t)r == w, "hexadecimal digits are read as another number");
    verif_cover("digits");
}
}  // namespace
extern "C" void prop_numbers() {
    switch (verif_param("case")) {
        case 0: return from_int<1, std::uint8_t>();
        case 1: return from_int<4, std::uint8_t>();
        case 2: return from_int<4, std::uint16_t>();
        case 3: return from_int<4, std::uint32_t>();
        case 4: return from_int<8, std::uint64_t>();
        case 5: return from_int<32, std::uint64_t>();
        case 6: return from_int<96, std::uint32_t>();
        case 7: return from_int<8, std::int32_t>();
        case 8: return from_int<8, std::int64_t>();
        case 9: return from_int<32, std::int16_t>();
        case 10: return from_int<2, std::uint16_t>();
        case 11: return from_int<48, std::uint16_t>();
        case 20: return read_int<std::uint8_t>();
        case 21: return read_int<std::uint16_t>();
        case 22: return read_int<std::uint32_t>();
        case 23: return read_int<std::uint64_t>();
        case 30: return operations<1>();
        case 31: return operations<4>();
        case 32: return operations<20>();
        case 33: return operations<32>();
        case 34: return operations<48>();
        case 35: return operations<96>();
        case 40: return concatenate<4, 28>();
        case 41: return concatenate<32, 32>();
        case 42: return concatenate<1, 4>();
        case 43: return concatenate<48, 1>();
        case 50: return slots();
        case 60: return digits();
        default: verif_assert(false, "unknown case");
    }
}
#endif

#ifdef PROP_CONST  // C21
#include "config/constants.hpp"
#include "config.hpp"
namespace {
template <class T>
u64 as_number(const T& x) {
    return (u64)x;
}
}  // namespace
extern "C" void prop_const() {
#define CHECK_CONST(NAME, VALUE) verif_assert(as_number(constants::NAME) == VALUE, #NAME " is not the specification's");
#define CHECK_BYTES(NAME, VALUE)                                                              \
    {                                                                                         \
        static const char w[] = VALUE;                                                        \
        eth::Bytes<sizeof(w) / 2> b{std::string_view{"0x" VALUE}};                            \
        auto c = constants::NAME;                                                             \
        verif_assert(c.serialize() == b.serialize(), #NAME " is not the specification's");    \
    }
#include "spec_const.hpp"
    verif_cover("constants");
}
#endif
