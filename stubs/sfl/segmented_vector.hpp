// Stand-in for sfl::segmented_vector (dependency not installed here): a sequence
// container with stable references under push_back/resize-up.  Only the interface
// /repo uses.  Backed by std::deque, which gives the same reference stability.
#pragma once
#include <cstddef>
#include <deque>
#include <memory>
namespace sfl {
template <class T, std::size_t N, class Alloc = std::allocator<T>>
class segmented_vector : public std::deque<T, Alloc> {
public:
    using base = std::deque<T, Alloc>;
    using base::base;
    void reserve(std::size_t) {}
    std::size_t capacity() const { return this->size(); }
};
}
