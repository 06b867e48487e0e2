// Stand-in for yaml-cpp: a shared tree of nodes. Scalars made from integers and Booleans keep the number instead of its
// decimal text, so that their conversion stays symbolic.
#pragma once
#include <algorithm>
#include <array>
#include <cctype>
#include <cmath>
#include <cstring>
#include <functional>
#include <iterator>
#include <limits>
#include <set>
#include <cstddef>
#include <cstdint>
#include <list>
#include <map>
#include <memory>
#include <iostream>
#include <sstream>
#include <stdexcept>
#include <string>
#include <type_traits>
#include <utility>
#include <vector>

namespace YAML {
class Exception : public std::runtime_error {
   public:
    explicit Exception(const std::string& m) : std::runtime_error{m} {}
};
class InvalidNode : public Exception {
   public:
    InvalidNode() : Exception{"invalid node"} {}
};
class BadConversion : public Exception {
   public:
    BadConversion() : Exception{"bad conversion"} {}
};
template <class T>
class TypedBadConversion : public BadConversion {};

struct NodeType {
    enum value { Undefined, Null, Scalar, Sequence, Map };
};

class Node;
template <class T>
struct convert;

namespace detail {
enum Payload { TEXT, UINT, SINT, BOOL };
struct Data {
    NodeType::value type = NodeType::Undefined;
    Payload payload = TEXT;
    std::string text;
    std::uint64_t num = 0;
    std::vector<std::shared_ptr<Data>> items;                            // sequence
    std::vector<std::pair<std::string, std::shared_ptr<Data>>> fields;  // map
};
}  // namespace detail

template <class Ref>
class iterator_base;

class Node {
   public:
    std::shared_ptr<detail::Data> d;
    bool valid = true;
    // where an assignment puts the node that operator[] did not find
    std::shared_ptr<detail::Data> parent;
    std::string parent_key;

    Node() : d{std::make_shared<detail::Data>()} { d->type = NodeType::Null; }
    explicit Node(NodeType::value t) : Node() { d->type = t; }
    Node(const Node&) = default;
    explicit Node(std::shared_ptr<detail::Data> p) : d{std::move(p)} {}
    template <class T>
    requires(!std::is_same_v<std::decay_t<T>, Node> && !std::is_same_v<std::decay_t<T>, NodeType::value> &&
             !std::is_same_v<std::decay_t<T>, std::shared_ptr<detail::Data>>)
    explicit Node(const T& v) : Node() {
        *d = *convert<T>::encode(v).d;
    }
    explicit Node(const char* v) : Node(std::string(v)) {}

    void check() const {
        if (!valid) throw InvalidNode();
    }
    void attach() {
        check();
        if (parent) {
            if (parent->type != NodeType::Map) {
                parent->type = NodeType::Map;
                parent->fields.clear();
            }
            parent->fields.emplace_back(parent_key, d);
            parent.reset();
        }
    }
    Node& operator=(const Node& o) {
        check();
        o.check();
        if (parent) {
            if (parent->type != NodeType::Map) parent->type = NodeType::Map;
            parent->fields.emplace_back(parent_key, o.d);
            parent.reset();
        } else if (slot) {
            for (auto& f : slot->fields)
                if (f.second == d) f.second = o.d;
            for (auto& f : slot->items)
                if (f == d) f = o.d;
        }
        d = o.d;
        return *this;
    }
    template <class T>
    requires(!std::is_same_v<std::decay_t<T>, Node>)
    Node& operator=(const T& v) {
        Node n = make(v);
        return *this = n;
    }
    std::shared_ptr<detail::Data> slot;

    NodeType::value Type() const {
        check();
        if (parent) return NodeType::Undefined;
        return d->type;
    }
    bool IsDefined() const { return valid && !parent && d->type != NodeType::Undefined; }
    bool IsNull() const { return Type() == NodeType::Null; }
    bool IsScalar() const { return Type() == NodeType::Scalar; }
    bool IsSequence() const { return Type() == NodeType::Sequence; }
    bool IsMap() const { return Type() == NodeType::Map; }
    explicit operator bool() const { return IsDefined(); }
    bool operator!() const { return !IsDefined(); }
    const std::string& Scalar() const {
        check();
        return d->text;
    }
    std::size_t size() const {
        check();
        return d->type == NodeType::Sequence ? d->items.size() : d->type == NodeType::Map ? d->fields.size() : 0;
    }
    template <class T>
    static Node make(const T& v) {
        if constexpr (std::is_convertible_v<T, const char*>) return Node(std::string(v));
        else return convert<T>::encode(v);
    }
    template <class T>
    void push_back(const T& v) {
        attach();
        if (d->type != NodeType::Sequence) d->type = NodeType::Sequence;
        if constexpr (std::is_same_v<T, Node>) d->items.push_back(v.d);
        else d->items.push_back(make(v).d);
    }
    const Node find(const std::string& k) const {
        check();
        Node r;
        r.valid = false;
        if (parent || d->type != NodeType::Map) return r;
        for (auto& f : d->fields)
            if (f.first == k) return Node(f.second);
        return r;
    }
    Node find_or_add(const std::string& k) {
        attach();
        if (d->type == NodeType::Scalar) throw Exception("operator[] on a scalar");
        if (d->type == NodeType::Map)
            for (auto& f : d->fields)
                if (f.first == k) {
                    Node r(f.second);
                    r.slot = d;
                    return r;
                }
        Node r;
        r.parent = d;
        r.parent_key = k;
        return r;
    }
    const Node at(std::size_t k) const {
        check();
        Node r;
        r.valid = false;
        if (d->type != NodeType::Sequence || k >= d->items.size()) return r;
        return Node(d->items[k]);
    }
    const Node operator[](const std::string& k) const { return find(k); }
    Node operator[](const std::string& k) { return find_or_add(k); }
    const Node operator[](const char* k) const { return find(k); }
    Node operator[](const char* k) { return find_or_add(k); }
    template <class I>
    requires(std::is_integral_v<I>)
    const Node operator[](I k) const { return at(k); }
    template <class I>
    requires(std::is_integral_v<I>)
    Node operator[](I k) { return at(k); }
    template <class T>
    T as() const {
        if (!valid) throw InvalidNode();
        T t{};
        if (convert<T>::decode(*this, t)) return t;
        throw TypedBadConversion<T>();
    }
    struct value_type_;
    class iterator;
    using const_iterator = iterator;
    iterator begin() const;
    iterator end() const;
};

struct Node::value_type_ : public Node, public std::pair<Node, Node> {
    value_type_() = default;
};
class Node::iterator {
   public:
    std::shared_ptr<detail::Data> d;
    std::size_t k;
    struct Proxy {
        value_type_ v;
        value_type_* operator->() { return &v; }
    };
    value_type_ operator*() const {
        value_type_ v;
        if (d->type == NodeType::Sequence) static_cast<Node&>(v).d = d->items[k];
        else {
            v.first.d->type = NodeType::Scalar;
            v.first.d->text = d->fields[k].first;
            v.second.d = d->fields[k].second;
        }
        return v;
    }
    Proxy operator->() const { return Proxy{**this}; }
    iterator& operator++() {
        ++k;
        return *this;
    }
    bool operator==(const iterator& o) const { return k == o.k; }
    bool operator!=(const iterator& o) const { return k != o.k; }
};
inline Node::iterator Node::begin() const { return {d, 0}; }
inline Node::iterator Node::end() const { return {d, valid ? size() : 0}; }

template <>
struct convert<Node> {
    static Node encode(const Node& n) { return n; }
    static bool decode(const Node& n, Node& r) {
        r.d = n.d;
        return true;
    }
};
template <>
struct convert<std::string> {
    static Node encode(const std::string& s) {
        Node n;
        n.d->type = NodeType::Scalar;
        n.d->text = s;
        return n;
    }
    static bool decode(const Node& n, std::string& s) {
        if (!n.IsScalar()) return false;
        if (n.d->payload == detail::BOOL) s = n.d->num ? "true" : "false";
        else if (n.d->payload != detail::TEXT) s = std::to_string(n.d->num);
        else s = n.d->text;
        return true;
    }
};
template <>
struct convert<bool> {
    static Node encode(bool b) {
        Node n;
        n.d->type = NodeType::Scalar;
        n.d->payload = detail::BOOL;
        n.d->num = b;
        return n;
    }
    static bool decode(const Node& n, bool& b) {
        if (!n.IsScalar()) return false;
        if (n.d->payload == detail::BOOL) {
            b = (bool)(n.d->num & 1);
            return true;
        }
        if (n.d->payload != detail::TEXT) return false;
        if (n.d->text == "true") return b = true, true;
        if (n.d->text == "false") return b = false, true;
        return false;
    }
};
template <class T>
requires(std::is_integral_v<T>)
struct convert<T> {
    static Node encode(const T& v) {
        Node n;
        n.d->type = NodeType::Scalar;
        n.d->payload = std::is_signed_v<T> ? detail::SINT : detail::UINT;
        n.d->num = (std::uint64_t)v;
        return n;
    }
    static bool decode(const Node& n, T& v) {
        if (!n.IsScalar()) return false;
        if (n.d->payload == detail::BOOL) return false;
        if (n.d->payload == detail::TEXT) {
            if (n.d->text.empty()) return false;
            std::uint64_t x = 0;
            for (char c : n.d->text) {
                if (c < '0' || c > '9') return false;
                x = 10 * x + (c - '0');
            }
            v = (T)x;
            return true;
        }
        if ((std::uint64_t)(T)n.d->num != n.d->num) return false;
        if (n.d->payload == detail::SINT && std::is_unsigned_v<T> && (n.d->num >> 63)) return false;
        v = (T)n.d->num;
        return true;
    }
};
template <class T, class A>
struct convert<std::vector<T, A>> {
    static Node encode(const std::vector<T, A>& v) {
        Node n(NodeType::Sequence);
        for (const auto& x : v) n.push_back(x);
        return n;
    }
    static bool decode(const Node& n, std::vector<T, A>& v) {
        if (!n.IsSequence()) return false;
        v.clear();
        for (std::size_t k = 0; k < n.size(); ++k) v.push_back(n.at(k).template as<T>());
        return true;
    }
};
template <class T, class A>
struct convert<std::list<T, A>> {
    static Node encode(const std::list<T, A>& v) {
        Node n(NodeType::Sequence);
        for (const auto& x : v) n.push_back(x);
        return n;
    }
    static bool decode(const Node& n, std::list<T, A>& v) {
        if (!n.IsSequence()) return false;
        v.clear();
        for (std::size_t k = 0; k < n.size(); ++k) v.push_back(n.at(k).template as<T>());
        return true;
    }
};
template <class T, std::size_t N>
struct convert<std::array<T, N>> {
    static Node encode(const std::array<T, N>& v) {
        Node n(NodeType::Sequence);
        for (const auto& x : v) n.push_back(x);
        return n;
    }
    static bool decode(const Node& n, std::array<T, N>& v) {
        if (!n.IsSequence() || n.size() != N) return false;
        for (std::size_t k = 0; k < N; ++k) v[k] = n.at(k).template as<T>();
        return true;
    }
};
template <class T, class U>
struct convert<std::pair<T, U>> {
    static Node encode(const std::pair<T, U>& v) {
        Node n(NodeType::Sequence);
        n.push_back(v.first);
        n.push_back(v.second);
        return n;
    }
    static bool decode(const Node& n, std::pair<T, U>& v) {
        if (!n.IsSequence() || n.size() != 2) return false;
        v.first = n.at(0).template as<T>();
        v.second = n.at(1).template as<U>();
        return true;
    }
};
}  // namespace YAML
