// Opaque element type: every special member and operator is only declared, so
// the verifier knows nothing about it but its contract (lvc/externs.py).
#pragma once
#include <new>
#include <cstddef>
struct E {
    unsigned long v;
    E();
    E(const E&);
    E(E&&) noexcept;
    ~E();
    E& operator=(const E&);
    E& operator=(E&&) noexcept;
};
bool operator==(const E&, const E&);
bool operator!=(const E&, const E&);
bool operator<(const E&, const E&);
bool operator>(const E&, const E&);
bool operator<=(const E&, const E&);
bool operator>=(const E&, const E&);
