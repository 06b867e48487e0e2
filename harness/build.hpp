// Building objects of the code under test from values of the specification.
#pragma once
#include "beacon-chain/attestation.hpp"
#include "beacon-chain/beacon_block.hpp"
#include "beacon-chain/beacon_state.hpp"
#include "beacon-chain/deposits.hpp"
#include "beacon-chain/eth1data.hpp"
#include "beacon-chain/validator.hpp"
#include "common/bitlist.hpp"
#include "common/bitvector.hpp"
#include "common/boolean.hpp"
#include "common/bytes.hpp"
#include "common/containers.hpp"
#include "common/slot.hpp"
#include "spec.hpp"

namespace impl {
using spec::Value;
template <class T>
struct Set;
template <class T>
bool set(T& o, const Value& v) {
    return Set<T>::go(o, v);
}
inline bool bit(const Value& v, std::size_t k) { return v.b[k / 8] >> (k % 8) & 1; }
template <std::size_t N>
struct Set<eth::Bytes<N>> {
    template <class T>
    static bool go(T& o, const Value& v) {
        std::memcpy(o.data(), v.b.data(), N);
        return true;
    }
};
template <>
struct Set<eth::Slot> {
    static bool go(eth::Slot& o, const Value& v) {
        o = eth::Slot{spec::number(v)};
        return true;
    }
};
template <>
struct Set<eth::Boolean> {
    static bool go(eth::Boolean& o, const Value& v) {
        o = eth::Boolean{(bool)v.b[0]};
        return true;
    }
};
template <unsigned N>
struct Set<eth::Bitvector<N>> {
    template <class T>
    static bool go(T& o, const Value& v) {
        std::array<bool, N> a;
        for (unsigned k = 0; k < N; ++k) a[k] = bit(v, k);
        o = T{a};
        return true;
    }
};
template <>
struct Set<eth::Bitlist> {
    template <class T>
    static bool go(T& o, const Value& v) {
        if constexpr (requires { o.m_arr.flip(); }) {
            o.m_arr.clear();
            o.m_arr.resize(v.bits);
            for (std::size_t k = 0; k < v.bits; ++k) o.m_arr[k] = bit(v, k);
            return true;
        } else
            return false;
    }
};
template <class E, std::size_t N>
struct Set<eth::VectorFixedSizedParts<E, N>> {
    template <class T>
    static bool go(T& o, const Value& v) {
        std::size_t k = 0;
        for (auto& x : o)
            if (!set(x, v.e[k++])) return false;
        return true;
    }
};
template <class A>
bool setvec(A& a, const Value& v) {
    a.clear();
    a.resize(v.e.size());
    for (std::size_t k = 0; k < v.e.size(); ++k)
        if (!set(a[k], v.e[k])) return false;
    return true;
}
template <class E>
struct Set<eth::ListFixedSizedParts<E>> {
    template <class T>
    static bool go(T& o, const Value& v) {
        if constexpr (requires { o.m_arr.resize(1); }) return setvec(o.m_arr, v);
        else if constexpr (requires { o.data().resize(1); }) return setvec(o.data(), v);
        else return false;
    }
};
template <class E>
struct Set<eth::ListVariableSizedParts<E>> {
    template <class T>
    static bool go(T& o, const Value& v) {
        if constexpr (requires { o.m_arr.resize(1); }) return setvec(o.m_arr, v);
        else if constexpr (requires { o.data().resize(1); }) return setvec(o.data(), v);
        else return false;
    }
};
}  // namespace impl
#include "set_types.hpp"
namespace impl {
// o gets the contents of v
template <class T>
void build(T& o, const Value& v) {
    if (set(o, v)) return;
    // a class whose members are not named as in the specification: by decoding
    spec::Bytes b = spec::ser(v);
    verif_assume(o.deserialize(b.cbegin(), b.cend()));
}
}  // namespace impl
