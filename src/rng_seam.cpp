#include "rng_seam.h"
namespace std {
template <> mt19937::result_type mt19937::operator()() { return mc::engine_word(0, 0xffffffffull); }
template <> mt19937_64::result_type mt19937_64::operator()() { return mc::engine_word(0, ~0ull); }
template <> minstd_rand0::result_type minstd_rand0::operator()() { return mc::engine_word(min(), max()); }
template <> minstd_rand::result_type minstd_rand::operator()() { return mc::engine_word(min(), max()); }
}
