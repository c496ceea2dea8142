// Definitions of library functions that live outside the analysed sources.
#include <cstddef>
namespace std { inline namespace __1 {
size_t __next_prime(size_t n) {
  if (n <= 2) return 2;
  for (n |= 1;; n += 2) { bool p = true; for (size_t i = 3; i * i <= n; i += 2) if (n % i == 0) { p = false; break; } if (p) return n; }
}
}}
