// Stand-in for the (absent) blaze library, so that the benchmark's sources compile. No simulated
// run multiplies with it.
#pragma once
#include <cstddef>
#include <stdexcept>

namespace blaze {

enum Alignment { unaligned, aligned };
enum Padding { unpadded, padded };
enum Order { rowMajor, columnMajor };

template <class A, class B> struct Product { A const& a; B const& b; };
template <class T, Alignment, Padding, Order> struct CustomMatrix {
    typedef T Element;
    CustomMatrix(T*, std::size_t, std::size_t, std::size_t) {}
    template <class P> CustomMatrix& operator=(P const&) { throw std::logic_error("blaze is not available"); }
};
template <class T, Alignment X, Padding Y, Order Z, class U> Product<CustomMatrix<T, X, Y, Z>, CustomMatrix<U, X, Y, Z>> operator*(CustomMatrix<T, X, Y, Z> const& a, CustomMatrix<U, X, Y, Z> const& b) { return {a, b}; }

} // namespace blaze
