// Minimal stand-in for the bitsery serialisation library (not installed here):
// the subset of its interface /repo uses, with bitsery's documented encoding
// (little-endian fixed-size values, compact size prefix, errors are sticky and
// leave zero values behind).
#pragma once
#include <cstddef>
#include <cstdint>
#include <cstring>
#include <limits>
#include <string>
#include <string_view>
#include <type_traits>
#include <utility>
#include <vector>

namespace bitsery {

enum class ReaderError { NoError, ReadingError, DataOverflow, InvalidData, InvalidPointer };

class Access;

namespace traits {
template <typename T> struct ContainerTraits;
template <typename T> struct TextTraits;
template <typename Ext, typename T> struct ExtensionTraits;

template <typename T, bool Resizable, bool Contiguous>
struct StdContainer {
    using TValue = typename T::value_type;
    static constexpr bool isResizable = Resizable;
    static constexpr bool isContiguous = Contiguous;
    static std::size_t size(const T& c) { return c.size(); }
    static void resize(T& c, std::size_t n) {
        if constexpr (requires { c.resize(n); }) c.resize(n);
    }
};
}

namespace detail {
template <class S, class T, class = void> struct HasMember : std::false_type {};
template <class S, class T>
struct HasMember<S, T, std::void_t<decltype(std::declval<T&>().serialize(std::declval<S&>()))>> : std::true_type {};
}

class Access {
public:
    template <class S, class T>
    static auto member(S& s, T& v, int) -> decltype(v.serialize(s), void()) { v.serialize(s); }
    template <class S, class T>
    static void member(S& s, T& v, long) { serialize(s, v); }  // found by ADL through S
    template <class S, class T>
    static void call(S& s, T& v) {
        if constexpr (std::is_arithmetic_v<T>) s.template valueN<sizeof(T)>(v);
        else member(s, v, 0);
    }
};

template <class Adapter>
class Serializer {
    Adapter a_;
public:
    static constexpr bool IsReader = false;
    template <class... A> explicit Serializer(A&&... a) : a_(std::forward<A>(a)...) {}
    Adapter& adapter() { return a_; }

    template <std::size_t N, class T> void valueN(const T& v) {
        static_assert(sizeof(T) == N, "value size");
        a_.write(reinterpret_cast<const char*>(&v), N);
    }
    template <class T> void value1b(const T& v) { valueN<1>(v); }
    template <class T> void value2b(const T& v) { valueN<2>(v); }
    template <class T> void value4b(const T& v) { valueN<4>(v); }
    template <class T> void value8b(const T& v) { valueN<8>(v); }

    void size_(std::size_t n) {
        if (n < 0x80u) { uint8_t b = (uint8_t)n; a_.write((const char*)&b, 1); }
        else if (n < 0x4000u) { uint8_t b[2] = {(uint8_t)((n >> 8) | 0x80u), (uint8_t)n}; a_.write((const char*)b, 2); }
        else { uint8_t b[4] = {(uint8_t)((n >> 24) | 0xC0u), (uint8_t)(n >> 16), (uint8_t)(n >> 8), (uint8_t)n};
               a_.write((const char*)b, 4); }
    }
    template <class T> void text1b(const T& v, std::size_t /*max*/) {
        size_(v.size());
        a_.write(v.data(), v.size());
    }
    template <class T> void text1b(const T& v) { text1b(v, ~std::size_t(0)); }
    template <class T> void object(const T& v) { Access::call(*this, const_cast<T&>(v)); }
    template <class T, class F> void container(const T& c, std::size_t, F&& f) {
        size_(c.size());
        for (auto& e : c) call(f, const_cast<typename T::value_type&>(e));
    }
    template <class T> void container(const T& c, std::size_t) {
        size_(c.size());
        for (auto& e : c) object(e);
    }
    template <std::size_t N, class T> void containerN(const T& c) {
        size_(c.size());
        for (auto& e : c) valueN<N>(e);
    }
    template <class T> void container1b(const T& c, std::size_t) { containerN<1>(c); }
    template <class T> void container2b(const T& c, std::size_t) { containerN<2>(c); }
    template <class T> void container4b(const T& c, std::size_t) { containerN<4>(c); }
    template <class T> void container8b(const T& c, std::size_t) { containerN<8>(c); }
    template <class T, class E> void ext(const T& v, const E& e) {
        using V = typename traits::ExtensionTraits<E, T>::TValue;
        e.serialize(*this, v, [](auto& s, V& x) { Access::call(s, x); });
    }
    template <class F, class V> void call(F& f, V& v) {
        if constexpr (std::is_invocable_v<F&, Serializer&, V&>) f(*this, v); else f(v);
    }
};

template <class Adapter>
class Deserializer {
    Adapter a_;
public:
    static constexpr bool IsReader = true;
    template <class... A> explicit Deserializer(A&&... a) : a_(std::forward<A>(a)...) {}
    Adapter& adapter() { return a_; }

    template <std::size_t N, class T> void valueN(T& v) {
        static_assert(sizeof(T) == N, "value size");
        a_.read(reinterpret_cast<char*>(&v), N);
    }
    template <class T> void value1b(T& v) { valueN<1>(v); }
    template <class T> void value2b(T& v) { valueN<2>(v); }
    template <class T> void value4b(T& v) { valueN<4>(v); }
    template <class T> void value8b(T& v) { valueN<8>(v); }

    std::size_t size_(std::size_t max) {
        uint8_t h = 0;
        a_.read((char*)&h, 1);
        std::size_t n = 0;
        if (h < 0x80u) n = h;
        else if (h < 0xC0u) { uint8_t l = 0; a_.read((char*)&l, 1); n = (std::size_t(h & 0x7F) << 8) | l; }
        else { uint8_t b[3] = {0, 0, 0}; a_.read((char*)b, 3);
               n = (std::size_t(h & 0x3F) << 24) | (std::size_t(b[0]) << 16) | (std::size_t(b[1]) << 8) | b[2]; }
        if (n > max) { a_.error(ReaderError::InvalidData); n = 0; }
        return n;
    }
    template <class T> void text1b(T& v, std::size_t max) {
        auto n = size_(max);
        if (n > a_.remainingHint()) { a_.error(ReaderError::DataOverflow); n = 0; }
        v.resize(n);
        if (n) a_.read(v.data(), n);
    }
    template <class T> void text1b(T& v) { text1b(v, ~std::size_t(0)); }
    template <class T> void object(T& v) { Access::call(*this, v); }
    template <class T, class F> void container(T& c, std::size_t max, F&& f) {
        auto n = size_(max);
        if (a_.error() != ReaderError::NoError) n = 0;
        if (n > a_.remainingHint()) { a_.error(ReaderError::DataOverflow); n = 0; }
        c.resize(n);
        for (auto& e : c) call(f, e);
    }
    template <class T> void container(T& c, std::size_t max) {
        auto n = size_(max);
        if (n > a_.remainingHint()) { a_.error(ReaderError::DataOverflow); n = 0; }
        c.resize(n);
        for (auto& e : c) object(e);
    }
    template <std::size_t N, class T> void containerN(T& c, std::size_t max) {
        auto n = size_(max);
        if (n > a_.remainingHint()) { a_.error(ReaderError::DataOverflow); n = 0; }
        c.resize(n);
        for (auto& e : c) valueN<N>(e);
    }
    template <class T> void container1b(T& c, std::size_t m) { containerN<1>(c, m); }
    template <class T> void container2b(T& c, std::size_t m) { containerN<2>(c, m); }
    template <class T> void container4b(T& c, std::size_t m) { containerN<4>(c, m); }
    template <class T> void container8b(T& c, std::size_t m) { containerN<8>(c, m); }
    template <class T, class E> void ext(T& v, const E& e) {
        using V = typename traits::ExtensionTraits<E, T>::TValue;
        e.deserialize(*this, v, [](auto& s, V& x) { Access::call(s, x); });
    }
    template <class F, class V> void call(F& f, V& v) {
        if constexpr (std::is_invocable_v<F&, Deserializer&, V&>) f(*this, v); else f(v);
    }
};


template <class OutAdapter, class T>
std::size_t quickSerialization(typename OutAdapter::Target& buf, const T& v) {
    Serializer<OutAdapter> s(buf);
    s.object(v);
    return s.adapter().writtenBytesCount();
}
}
