// clang does not accept libstdc++'s std::pow in a constant expression; the repository uses it in one (GCC extension).
#ifdef __clang__
namespace std { constexpr double pow(int b, unsigned long e) { double r = 1; for (; e; --e) r *= b; return r; } }
#endif
