// Stand-in for sfl::small_vector (dependency not installed here).
#pragma once
#include <cstddef>
#include <vector>
namespace sfl {
template <class T, std::size_t N, class Alloc = std::allocator<T>>
class small_vector : public std::vector<T, Alloc> {
public:
    using std::vector<T, Alloc>::vector;
};
}
