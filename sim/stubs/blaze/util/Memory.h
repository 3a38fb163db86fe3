// Stand-in for blaze::allocate / blaze::deallocate (the package is not available offline).
// Same contract: aligned memory, std::bad_alloc on failure, class types default-constructed
// with their count kept in a header, deallocate(nullptr) is a no-op.
// sim_alloc / sim_free are the simulator's allocator seam.
#pragma once
#include <cstddef>
#include <cstdint>
#include <limits>
#include <new>
#include <type_traits>

extern "C" void* sim_aligned_alloc(std::size_t bytes); // throws std::bad_alloc
extern "C" void sim_aligned_free(void* p);

namespace blaze {

template <class T> T* allocate(std::size_t size)
{
    if (size > (std::numeric_limits<std::size_t>::max() - 64) / sizeof(T)) throw std::bad_alloc();
    if constexpr (std::is_trivially_default_constructible<T>::value && std::is_trivially_destructible<T>::value) {
        return static_cast<T*>(sim_aligned_alloc(size * sizeof(T)));
    } else {
        constexpr std::size_t head = 32;
        char* raw = static_cast<char*>(sim_aligned_alloc(size * sizeof(T) + head));
        *reinterpret_cast<std::size_t*>(raw) = size;
        T* a = reinterpret_cast<T*>(raw + head);
        std::size_t i = 0;
        try { for (; i < size; ++i) ::new (static_cast<void*>(a + i)) T(); }
        catch (...) { while (i) a[--i].~T(); sim_aligned_free(raw); throw; }
        return a;
    }
}

template <class T> void deallocate(T* p) noexcept
{
    if (!p) return;
    if constexpr (std::is_trivially_default_constructible<T>::value && std::is_trivially_destructible<T>::value) {
        sim_aligned_free(p);
    } else {
        constexpr std::size_t head = 32;
        char* raw = reinterpret_cast<char*>(p) - head;
        std::size_t n = *reinterpret_cast<std::size_t*>(raw);
        for (std::size_t i = 0; i < n; ++i) p[i].~T();
        sim_aligned_free(raw);
    }
}

} // namespace blaze
