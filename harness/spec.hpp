// The SSZ specification: types, values, serialization, merkleization, YAML form. Independent of the code under test.
#pragma once
#include <array>
#include <cstdint>
#include <cstring>
#include <string>
#include <vector>

#include "verif.h"

namespace spec {
using u8 = std::uint8_t;
using u64 = std::uint64_t;
enum Kind { UINT64, BOOL, BYTES, BITVEC, BITLIST, VECTOR, LIST, CONTAINER };
struct Type;
struct Field {
    const char* name;
    const Type* type;
};
struct Type {
    Kind kind;
    u64 n;  // size, length or limit
    const Type* elem;
    const Field* fields;
    unsigned nf;
    const char* name;
};
struct Value {
    const Type* t = nullptr;
    u64 bits = 0;          // number of bits of bit lists and bit vectors
    std::vector<u8> b;     // numbers (little endian), bytes, packed bits
    std::vector<Value> e;  // elements, fields
};
using Bytes = std::vector<u8>;
using Chunk = std::array<u8, 32>;

inline bool fixed(const Type& t) {
    switch (t.kind) {
        case BITLIST: case LIST: return false;
        case VECTOR: return fixed(*t.elem);
        case CONTAINER:
            for (unsigned k = 0; k < t.nf; ++k)
                if (!fixed(*t.fields[k].type)) return false;
            return true;
        default: return true;
    }
}
inline u64 fixed_size(const Type& t) {
    switch (t.kind) {
        case UINT64: return 8;
        case BOOL: return 1;
        case BYTES: return t.n;
        case BITVEC: return (t.n + 7) / 8;
        case VECTOR: return t.n * fixed_size(*t.elem);
        case CONTAINER: {
            u64 r = 0;
            for (unsigned k = 0; k < t.nf; ++k) r += fixed_size(*t.fields[k].type);
            return r;
        }
        default: return 0;
    }
}
inline bool basic(const Type& t) { return t.kind == UINT64 || t.kind == BOOL; }

inline void append(Bytes& a, const Bytes& b) {
    std::size_t n = a.size();
    a.resize(n + b.size());
    if (!b.empty()) std::memcpy(a.data() + n, b.data(), b.size());
}
inline Bytes ser(const Value& v) {
    switch (v.t->kind) {
        case UINT64: case BOOL: case BYTES: case BITVEC: return v.b;
        case BITLIST: {
            Bytes r = v.b;
            r.resize(v.bits / 8 + 1);
            r[v.bits / 8] = (u8)(r[v.bits / 8] | (1u << (v.bits % 8)));
            return r;
        }
        default: break;
    }
    // sequences and containers
    Bytes head, tail;
    u64 first = 0;
    std::size_t n = v.e.size();
    std::vector<Bytes> parts(n);
    for (std::size_t k = 0; k < n; ++k) {
        parts[k] = ser(v.e[k]);
        first += fixed(*v.e[k].t) ? parts[k].size() : 4;
    }
    for (std::size_t k = 0; k < n; ++k) {
        if (fixed(*v.e[k].t)) append(head, parts[k]);
        else {
            u64 off = first + tail.size();
            append(head, {(u8)off, (u8)(off >> 8), (u8)(off >> 16), (u8)(off >> 24)});
            append(tail, parts[k]);
        }
    }
    append(head, tail);
    return head;
}

inline Chunk hash2(const Chunk& a, const Chunk& b) {
    u8 in[64];
    std::memcpy(in, a.data(), 32);
    std::memcpy(in + 32, b.data(), 32);
    Chunk r;
    verif_hash(r.data(), in);
    return r;
}
struct Zeros {
    Chunk z[65];
    Zeros() {
        z[0] = Chunk{};
        for (int k = 1; k < 65; ++k) z[k] = hash2(z[k - 1], z[k - 1]);
    }
};
inline const Zeros zeros;
// limit: number of leaves, 0 for as many as there are
inline Chunk merkleize(std::vector<Chunk> c, u64 limit) {
    u64 leaves = limit ? limit : c.size();
    unsigned depth = 0;
    while (depth < 64 && (1ull << depth) < leaves) ++depth;
    for (unsigned h = 0; h < depth; ++h) {
        if (c.empty()) return zeros.z[depth];
        if (c.size() % 2) c.push_back(zeros.z[h]);
        std::vector<Chunk> up(c.size() / 2);
        for (std::size_t k = 0; k < up.size(); ++k) up[k] = hash2(c[2 * k], c[2 * k + 1]);
        c = up;
    }
    return c.empty() ? zeros.z[depth] : c[0];
}
inline std::vector<Chunk> pack(const Bytes& b) {
    std::vector<Chunk> r((b.size() + 31) / 32, Chunk{});
    for (std::size_t k = 0; k < r.size(); ++k) std::memcpy(r[k].data(), b.data() + 32 * k, std::min<std::size_t>(32, b.size() - 32 * k));
    return r;
}
inline Chunk mix(const Chunk& a, u64 n) {
    Chunk l{};
    for (int k = 0; k < 8; ++k) l[k] = (u8)(n >> (8 * k));
    return hash2(a, l);
}
inline Chunk root(const Value& v) {
    const Type& t = *v.t;
    switch (t.kind) {
        case UINT64: case BOOL: case BYTES: return merkleize(pack(v.b), 0);
        case BITVEC: return merkleize(pack(v.b), (t.n + 255) / 256);
        case BITLIST: return mix(merkleize(pack(v.b), (t.n + 255) / 256), v.bits);
        case VECTOR: case LIST:
            if (basic(*t.elem)) {
                Bytes all;
                for (auto& e : v.e) append(all, e.b);
                u64 lim = (t.n * fixed_size(*t.elem) + 31) / 32;
                Chunk r = merkleize(pack(all), lim);
                return t.kind == LIST ? mix(r, v.e.size()) : r;
            } else {
                std::vector<Chunk> c;
                for (auto& e : v.e) c.push_back(root(e));
                Chunk r = merkleize(c, t.n);
                return t.kind == LIST ? mix(r, v.e.size()) : r;
            }
        default: {
            std::vector<Chunk> c;
            for (auto& e : v.e) c.push_back(root(e));
            return merkleize(c, 0);
        }
    }
}

// ---- values ----
struct Shape {
    u64 kind = 0;
    unsigned count = 0;
    bool nested = false;
    u64 outer = ~0ull;  // length of the outermost list
};
inline u64 list_length(const Type& t, Shape& s) {
    unsigned k = s.count++;
    if (s.outer != ~0ull) {
        u64 r = s.outer;
        s.outer = ~0ull;
        return r;
    }
    u64 n;
    if (t.kind == BITLIST) {
        static const u64 lens[] = {0, 1, 8, 7, 9, 16, 13, 40, 255, 256, 257, 3};
        n = lens[(s.kind + k) % 12];
    } else if (s.kind < 3) n = s.kind;
    else n = (k + s.kind) % 3;
    return n < t.n ? n : t.n;
}
// how the contents come about
enum Fill { UNKNOWN, ZERO };
inline void fill(Value& v, const Type& t, Shape& s, Fill how) {
    v.t = &t;
    v.b.clear();
    v.e.clear();
    auto draw = [&](u64 n) {
        v.b.resize(n);
        if (how == UNKNOWN && n) verif_bytes(v.b.data(), n);
    };
    switch (t.kind) {
        case UINT64: return draw(8);
        case BOOL:
            draw(1);
            v.b[0] &= 1;
            return;
        case BYTES: return draw(t.n);
        case BITVEC: case BITLIST:
            v.bits = t.kind == BITVEC ? t.n : how == ZERO ? 0 : list_length(t, s);
            draw((v.bits + 7) / 8);
            if (v.bits % 8) v.b.back() &= (u8)((1u << (v.bits % 8)) - 1);
            return;
        case VECTOR: case LIST: {
            u64 n = t.kind == VECTOR ? t.n : how == ZERO ? 0 : list_length(t, s);
            v.e.resize(n);
            for (auto& e : v.e) fill(e, *t.elem, s, how);
            return;
        }
        default:
            v.e.resize(t.nf);
            for (unsigned k = 0; k < t.nf; ++k) fill(v.e[k], *t.fields[k].type, s, how);
    }
}
inline Value unknown(const Type& t, Shape s) {
    Value v;
    fill(v, t, s, UNKNOWN);
    return v;
}
// a container whose lists are empty but for one field, which has n elements; for other types, n elements
inline Value unknown_field(const Type& t, u64 field, u64 n) {
    Value v;
    Shape s;
    if (t.kind != CONTAINER) {
        s.outer = n;
        fill(v, t, s, UNKNOWN);
        return v;
    }
    v.t = &t;
    v.e.resize(t.nf);
    for (unsigned k = 0; k < t.nf; ++k) {
        Shape f;
        if (k == field) f.outer = n;
        fill(v.e[k], *t.fields[k].type, f, UNKNOWN);
    }
    return v;
}
inline Value zero(const Type& t) {
    Value v;
    Shape s;
    fill(v, t, s, ZERO);
    return v;
}
inline std::string hex(const Bytes& b) {
    std::string r = "0x";
    for (u8 x : b) {
        u8 h = x >> 4, l = x & 15;
        r.push_back((char)(h < 10 ? '0' + h : 'a' + (h - 10)));
        r.push_back((char)(l < 10 ? '0' + l : 'a' + (l - 10)));
    }
    return r;
}
inline u64 number(const Value& v) {
    u64 x = 0;
    for (std::size_t k = v.b.size(); k-- > 0;) x = x << 8 | v.b[k];
    return x;
}
}  // namespace spec
