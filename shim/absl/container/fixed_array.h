#pragma once
#include <vector>
#include <cstddef>
namespace absl {
template <typename T, size_t N = 0, typename A = std::allocator<T>>
class FixedArray : public std::vector<T, A> { public: using std::vector<T, A>::vector; };
}
