// One entry for each property; compiled for the types and the property a check asks for.
#include <cmath>
#include <exception>
#include <type_traits>

#include "verif.h"
#include "build.hpp"
#include "spec_types.hpp"
#include "with_type.hpp"

using spec::Bytes;
using spec::Shape;
using spec::Type;
using spec::u64;
using spec::u8;
using spec::Value;

namespace {
// the value the parameters ask for: prefix "" or "b" for a second one
struct Names {
    const char *shape, *shapes, *field_set, *field, *count;
};
const Names A{"shape", "shapes", "field_set", "field", "count"};
const Names B{"bshape", "bshapes", "bfield_set", "bfield", "bcount"};
Value value(const Type& t, const Names& n = A) {
    if (verif_param(n.field_set)) return spec::unknown_field(t, verif_param(n.field), verif_param(n.count));
    Shape s;
    u64 k = verif_param(n.shapes);
    s.kind = verif_param(n.shape) + (k > 1 ? verif_choose(k) : 0);
    return spec::unknown(t, s);
}
void same(const Bytes& got, const Bytes& want, const char* msg) {
    verif_assert(got.size() == want.size(), msg);
    verif_assert_bytes(got.data(), want.data(), want.size(), msg);
}
void same_root(const ssz::Chunk& got, const spec::Chunk& want, const char* msg) { verif_assert_bytes(got.data(), want.data(), 32, msg); }
bool equal(const Bytes& a, const Bytes& b) { return a.size() == b.size() && verif_bytes_eq(a.data(), b.data(), a.size()); }
template <class T>
bool decode(T& o, const Bytes& b) {
    return o.deserialize(b.cbegin(), b.cend());
}
// a vector without spare capacity, so that reading past its end is seen
Bytes exactly(const Bytes& b) {
    Bytes r;
    if (!b.empty()) {
        r.reserve(b.size());
        r.assign(b.begin(), b.end());
    }
    return r;
}

template <class T>
void has_contents(const T& o, const Value& v, const char* msg) {
    same(o.serialize(), spec::ser(v), msg);
}

// ---- YAML form ----
void check_node(const YAML::Node& n, const Value& v) {
    const Type& t = *v.t;
    switch (t.kind) {
        case spec::UINT64:
            verif_assert(n.IsScalar(), "a number is not a YAML scalar");
            verif_assert(n.as<u64>() == spec::number(v), "a number has another YAML value");
            return;
        case spec::BOOL:
            verif_assert(n.IsScalar(), "a boolean is not a YAML scalar");
            verif_assert(n.as<bool>() == (v.b[0] != 0), "a boolean has another YAML value");
            return;
        case spec::BYTES: case spec::BITVEC: case spec::BITLIST: {
            verif_assert(n.IsScalar(), "bytes are not a YAML scalar");
            std::string s = n.as<std::string>(), w = spec::hex(spec::ser(v));
            verif_assert(s.size() == w.size(), "bytes have another YAML text");
            verif_assert_bytes(s.data(), w.data(), w.size(), "bytes have another YAML text");
            return;
        }
        case spec::VECTOR: case spec::LIST:
            if (v.e.empty() && n.IsNull()) return;
            verif_assert(n.IsSequence(), "a list is not a YAML sequence");
            verif_assert(n.size() == v.e.size(), "a list has another number of YAML elements");
            for (std::size_t k = 0; k < v.e.size(); ++k) check_node(n[k], v.e[k]);
            return;
        default:
            verif_assert(n.IsMap(), "a container is not a YAML mapping");
            verif_assert(n.size() == t.nf, "a container has another number of YAML fields");
            for (unsigned k = 0; k < t.nf; ++k) {
                const YAML::Node f = n[std::string(t.fields[k].name)];
                verif_assert(f.IsDefined(), "a field is missing from the YAML mapping");
                check_node(f, v.e[k]);
            }
    }
}
YAML::Node make_node(const Value& v) {
    const Type& t = *v.t;
    switch (t.kind) {
        case spec::UINT64: return YAML::Node(spec::number(v));
        case spec::BOOL: return YAML::Node((bool)(v.b[0] & 1));
        case spec::BYTES: case spec::BITVEC: case spec::BITLIST: return YAML::Node(spec::hex(spec::ser(v)));
        case spec::VECTOR: case spec::LIST: {
            YAML::Node n(YAML::NodeType::Sequence);
            for (auto& e : v.e) n.push_back(make_node(e));
            return n;
        }
        default: {
            YAML::Node n;
            for (unsigned k = 0; k < t.nf; ++k) n[std::string(t.fields[k].name)] = make_node(v.e[k]);
            return n;
        }
    }
}
// whether decoding succeeds; an exception is a rejection
template <class T>
bool decode_yaml(T& o, const YAML::Node& n) {
    try {
        return o.decode(n);
    } catch (const std::exception&) {
        return false;
    }
}
}  // namespace

#ifdef PROP_ROOT  // C05, C06
extern "C" void prop_root() {
    with_type([]<class T>(const Type& t, auto make) {
        Value v = value(t);
        T o = make();
        impl::build(o, v);
        same_root(o.hash_tree_root(), spec::root(v), "the root is not the specification's");
        verif_cover("root");
    });
}
#endif
#ifdef PROP_SER  // C07
extern "C" void prop_ser() {
    with_type([]<class T>(const Type& t, auto make) {
        Value v = value(t);
        T o = make();
        impl::build(o, v);
        same(o.serialize(), spec::ser(v), "the serialization is not the specification's");
        verif_cover("ser");
    });
}
#endif
#ifdef PROP_ROUND  // C08
extern "C" void prop_round() {
    with_type([]<class T>(const Type& t, auto make) {
        Value v = value(t);
        T o = make();
        impl::build(o, v);
        Bytes b = exactly(o.serialize());
        T p = make();
        bool ok = decode(p, b);
        verif_assert(ok, "an encoded value is rejected");
        verif_assert(p == o, "decoding an encoded value gives another value");
        same(p.serialize(), b, "a decoded value is encoded differently");
        auto r1 = o.hash_tree_root(), r2 = p.hash_tree_root();
        verif_assert_bytes(r2.data(), r1.data(), 32, "a decoded value has another root");
        verif_cover("round");
    });
}
#endif
#ifdef PROP_DECODE  // C09, C10: any bytes
extern "C" void prop_decode() {
    with_type([]<class T>(const Type& t, auto make) {
        (void)t;
        Bytes b;
        std::size_t n = verif_param("len");
        if (n) {
            b.reserve(n);
            b.resize(n);
            verif_bytes(b.data(), n);
        }
        T o = make();
        bool ok = decode(o, b);
        if (ok) {
            same(o.serialize(), b, "accepted bytes are not the encoding of the decoded value");
            verif_cover("accepted");
        } else
            verif_cover("rejected");
    });
}
#endif
#ifdef PROP_OFFSETS  // C09, C10: encodings of a value in which the offsets may be anything
namespace {
// marks the offsets of the encoding of v at position pos; all, or `many` of them from the number `first` on
u64 number_of_offset, first_unknown, many_unknown;
void unknown_offsets(Bytes& b, std::size_t pos, const Value& v) {
    if (spec::fixed(*v.t) || v.t->kind == spec::BITLIST) return;
    if (v.t->kind == spec::LIST && spec::fixed(*v.t->elem)) return;
    std::size_t head = 0, tail = 0;
    for (auto& e : v.e) tail += spec::fixed(*e.t) ? spec::ser(e).size() : 4;
    for (auto& e : v.e) {
        if (spec::fixed(*e.t)) {
            head += spec::ser(e).size();
            continue;
        }
        ++number_of_offset;
        if (!first_unknown || number_of_offset - first_unknown < many_unknown) verif_bytes(b.data() + pos + head, 4);
        unknown_offsets(b, pos + tail, e);
        tail += spec::ser(e).size();
        head += 4;
    }
}
void plain(Value& v) {
    for (std::size_t k = 0; k < v.b.size(); ++k)
        v.b[k] = v.t->kind == spec::BYTES ? (u8)(29 * k + 3) : v.t->kind == spec::UINT64 ? (u8)(k < 2 ? k + 7 : 0) : 0;
    for (auto& e : v.e) plain(e);
}
}  // namespace
extern "C" void prop_offsets() {
    with_type([]<class T>(const Type& t, auto make) {
        Value v = value(t);
        if (verif_param("plain")) plain(v);
        Bytes b = exactly(spec::ser(v));
        number_of_offset = 0;
        first_unknown = verif_param("first");
        many_unknown = verif_param("many");
        unknown_offsets(b, 0, v);
        if (first_unknown && number_of_offset < first_unknown + many_unknown - 1) return;
        T o = make();
        bool ok = decode(o, b);
        if (ok) {
            same(o.serialize(), b, "accepted bytes are not the encoding of the decoded value");
            verif_cover("accepted");
        } else
            verif_cover("rejected");
    });
}
#endif
#ifdef PROP_LIMIT  // C11: a list of `count` elements, where `limit` are allowed
extern "C" void prop_limit() {
    with_type([]<class T>(const Type& t, auto make) {
        u64 limit = verif_param("limit"), count = verif_param("count");
        Value v = value(t);
        Bytes b = exactly(spec::ser(v));
        T o = make();
        bool ok = decode(o, b);
        if (count > limit) {
            verif_assert(!ok, "a list longer than its limit is accepted");
            verif_cover("over the limit");
        } else {
            verif_assert(ok, "a list within its limit is rejected");
            has_contents(o, v, "a list within its limit is decoded to something else");
            verif_cover("within the limit");
        }
        if (verif_param("again")) {
            // the limit is still the declared one
            Value w = value(t, B);
            bool ok2 = decode(o, exactly(spec::ser(w)));
            verif_assert(ok2 == (verif_param("bcount") <= limit), "the limit in force after decoding is another one");
            if (ok2) same_root(o.hash_tree_root(), spec::root(w), "the root after decoding is that of another limit");
        }
    });
}
#endif
#ifdef PROP_YAMLLIMIT  // C11, the YAML side
extern "C" void prop_yamllimit() {
    with_type([]<class T>(const Type& t, auto make) {
        u64 limit = verif_param("limit"), count = verif_param("count");
        Value v = value(t);
        T o = make();
        bool ok = decode_yaml(o, make_node(v));
        verif_assert(ok == (count <= limit), count <= limit ? "YAML with a list within its limit is rejected" : "YAML with a list longer than its limit is accepted");
        if (ok) has_contents(o, v, "YAML with a list within its limit is decoded to something else");
        verif_cover("yaml");
    });
}
#endif
#ifdef PROP_EQUAL  // C12
extern "C" void prop_equal() {
    with_type([]<class T>(const Type& t, auto make) {
        Value v = value(t), w = value(t, B);
        T o = make(), p = make();
        impl::build(o, v);
        impl::build(p, w);
        bool eq = o == p;
        bool want = equal(spec::ser(v), spec::ser(w));
        if (eq) {
            verif_assert(want, "values with different contents compare equal");
            verif_cover("equal");
        } else {
            verif_assert(!want, "values with the same contents compare unequal");
            verif_cover("different");
        }
        verif_assert((o != p) == !eq, "inequality is not the negation of equality");
        verif_assert((p == o) == eq, "equality depends on the order of its operands");
    });
}
#endif
#ifdef PROP_EQUALBYTES  // C12: byte strings and vectors of bytes
namespace {
template <std::size_t N, std::size_t M>
void equal_bytes() {
    std::array<u8, N> a;
    std::array<u8, M> c;
    verif_bytes(a.data(), N);
    verif_bytes(c.data(), M);
    eth::Bytes<N> x{a};
    bool want = false;
    if constexpr (N == M) {
        // comparing byte strings of different sizes does not compile
        eth::Bytes<M> z{c};
        want = verif_bytes_eq(a.data(), c.data(), N);
        bool eq = x == z;
        verif_assert(eq == want, "byte strings compare wrongly");
        verif_assert((x != z) == !want, "byte strings compare wrongly");
    }
    std::vector<u8> v(c.begin(), c.end());
    bool eqv = x == v;
    verif_assert(eqv == want, "a byte string and a vector of bytes compare wrongly");
}
}  // namespace
extern "C" void prop_equalbytes() {
    switch (verif_param("case")) {
        case 0: equal_bytes<1, 1>(); break;
        case 1: equal_bytes<4, 4>(); break;
        case 2: equal_bytes<32, 32>(); break;
        case 3: equal_bytes<4, 3>(); break;
        case 4: equal_bytes<4, 5>(); break;
        case 5: equal_bytes<32, 48>(); break;
        case 6: equal_bytes<96, 96>(); break;
        default: equal_bytes<20, 4>();
    }
    verif_cover("bytes");
}
#endif
#ifdef PROP_YAML  // C18
extern "C" void prop_yaml() {
    with_type([]<class T>(const Type& t, auto make) {
        Value v = value(t);
        T o = make();
        impl::build(o, v);
        const YAML::Node n = o.encode();
        check_node(n, v);
        T p = make();
        bool ok = decode_yaml(p, n);
        verif_assert(ok, "the YAML form of a value is rejected");
        has_contents(p, v, "the YAML form of a value is decoded to another value");
        verif_cover("yaml");
    });
}
// reading the specification's form, which the code under test did not write
extern "C" void prop_readyaml() {
    with_type([]<class T>(const Type& t, auto make) {
        Value v = value(t);
        T p = make();
        bool ok = decode_yaml(p, make_node(v));
        verif_assert(ok, "the specification's YAML form is rejected");
        has_contents(p, v, "the specification's YAML form is decoded to another value");
        verif_cover("yaml");
    });
}
#endif
#ifdef PROP_DEFAULT  // C20
extern "C" void prop_default() {
    with_type([]<class T>(const Type& t, auto make) {
        void* p = ::operator new(sizeof(T));
        T& o = *make.at(p);
        Value v = spec::zero(t);
        Bytes s = o.serialize();
        Bytes w = spec::ser(v);
        verif_assert(s.size() == w.size(), "the serialization of a default value is not the specification's");
        verif_assert(verif_defined(s.data(), s.size()), "a default value has contents that are not initialised");
        verif_assert_bytes(s.data(), w.data(), w.size(), "the serialization of a default value is not the specification's");
        same_root(o.hash_tree_root(), spec::root(v), "the root of a default value is not the specification's");
        check_node(o.encode(), v);
        // value initialisation too
        T q = make();
        same(q.serialize(), w, "the serialization of a value initialised object is not the specification's");
        bool eq = q == o;
        verif_assert(eq, "two default values are not equal");
        o.~T();
        ::operator delete(p);
        verif_cover("default");
    });
}
#endif
#ifdef PROP_SIZE  // C21: sizes and limits
namespace {
template <class T>
u64 static_size() {
    if constexpr (requires { T::ssz_size; }) return T::ssz_size;
    else return 0;
}
template <class T>
u64 list_limit(const T& o) {
    if constexpr (requires { o.limit_; }) return o.limit_;
    else return ~0ull;
}
}  // namespace
extern "C" void prop_size() {
    with_type([]<class T>(const Type& t, auto make) {
        T o = make();
        bool f = spec::fixed(t) && t.kind != spec::BOOL;
        u64 want = spec::fixed(t) ? spec::fixed_size(t) : 0;
        (void)f;
        verif_assert(o.get_ssz_size() == want, "the encoded size is not the specification's");
        if (static_size<T>()) verif_assert(static_size<T>() == want, "the declared size is not the specification's");
        u64 l = list_limit(o);
        if (l != ~0ull) verif_assert(l == t.n, "the limit is not the specification's");
        if (verif_param("root")) same_root(o.hash_tree_root(), spec::root(spec::zero(t)), "the root of the default value is not the specification's");
        if (verif_param("ser")) same(o.serialize(), spec::ser(spec::zero(t)), "the serialization of the default value is not the specification's");
        verif_cover("size");
    });
}
#endif
#ifdef PROP_USED  // C23
extern "C" void prop_used() {
    with_type([]<class T>(const Type& t, auto make) {
        Value v = value(t), w = value(t, B);
        T o = make(), p = make();
        impl::build(o, v);
        if (verif_param("yaml")) {
            bool ok = decode_yaml(o, make_node(w));
            verif_assert(ok, "YAML is rejected because of the previous contents");
            has_contents(o, w, "previous contents survive the decoding of YAML");
            T q = make();
            impl::build(q, w);
            verif_assert(o == q, "an object decoded from YAML differs from a fresh one");
            verif_cover("used yaml");
            return;
        }
        Bytes b = exactly(spec::ser(w));
        if (std::size_t n = verif_param("rawlen")) {
            b.resize(n);
            verif_bytes(b.data(), n);
            b = exactly(b);
        }
        bool fresh = decode(p, b);
        bool used = decode(o, b);
        verif_assert(fresh == used, "whether bytes are accepted depends on the previous contents");
        if (!verif_param("rawlen")) verif_assert(used, "a valid encoding is rejected");
        if (used) {
            same(o.serialize(), p.serialize(), "previous contents survive decoding");
            verif_assert(o == p, "an object decoded into differs from a fresh one");
            auto r1 = o.hash_tree_root(), r2 = p.hash_tree_root();
            verif_assert_bytes(r1.data(), r2.data(), 32, "the root after decoding depends on the previous contents");
            verif_cover("used");
        }
    });
}
#endif
#ifdef PROP_COPY  // C24
namespace {
struct Seen {
    Bytes ser;
    ssz::Chunk root;
    std::string text;
};
template <class T>
Seen look(const T& o, u64 order) {
    Seen s;
    if (order & 1) s.root = o.hash_tree_root();
    if (order & 2) (void)o.encode();
    s.ser = o.serialize();
    if (order & 4) (void)(o == o);
    s.root = o.hash_tree_root();
    if constexpr (requires { o.to_string(); }) s.text = o.to_string();
    return s;
}
void same_seen(const Seen& a, const Seen& b, const char* msg) {
    same(a.ser, b.ser, msg);
    verif_assert_bytes(a.root.data(), b.root.data(), 32, msg);
    verif_assert(a.text.size() == b.text.size(), msg);
    verif_assert_bytes(a.text.data(), b.text.data(), a.text.size(), msg);
}
}  // namespace
extern "C" void prop_copy() {
    with_type([]<class T>(const Type& t, auto make) {
        Value v = value(t), w = value(t, B);
        T o = make();
        impl::build(o, v);
        Seen a = look(o, 0);
        same(a.ser, spec::ser(v), "the serialization is not that of the contents");
        for (u64 k = 1; k < 8; k += 3) same_seen(look(o, k), a, "reading a value changed it");
        check_node(o.encode(), v);
        // copies
        T c = o;
        same_seen(look(c, 0), a, "a copy differs from its source");
        verif_assert(c == o, "a copy is not equal to its source");
        impl::build(c, w);
        has_contents(c, w, "a copy cannot be changed");
        same_seen(look(o, 0), a, "changing a copy changed its source");
        T d = make();
        impl::build(d, w);
        d = o;
        same_seen(look(d, 0), a, "an assigned value differs from its source");
        impl::build(o, w);
        same_seen(look(d, 0), a, "changing the source changed a copy");
        has_contents(o, w, "the source cannot be changed");
        // moves
        T m = std::move(d);
        same_seen(look(m, 0), a, "a moved value differs from its source");
        T n = make();
        n = std::move(m);
        same_seen(look(n, 0), a, "a moved value differs from its source");
        verif_cover("copy");
    });
}
#endif
#ifdef PROP_SAFE  // C22: values no decoder would give, too
extern "C" void prop_safe() {
    with_type([]<class T>(const Type& t, auto make) {
        Value v = value(t);
        T o = make();
        impl::build(o, v);
        if constexpr (requires { o.limit(1ul); }) {
            if (verif_param("setlimit")) o.limit(verif_param("newlimit"));
        }
        try {
            auto r = o.hash_tree_root();
            verif_assert(verif_defined(r.data(), 32), "the root is not initialised");
            verif_cover("root");
        } catch (const std::exception&) {
            verif_cover("rejected");
        }
    });
}
#endif
