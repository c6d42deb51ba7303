// Forced into the compilation of the library: the standard engines deliver what the check decides.
#pragma once
#include <random>
namespace mc { uint64_t engine_word(uint64_t lo, uint64_t hi); }
namespace std {
template <> mt19937::result_type mt19937::operator()();
template <> mt19937_64::result_type mt19937_64::operator()();
template <> minstd_rand0::result_type minstd_rand0::operator()();
template <> minstd_rand::result_type minstd_rand::operator()();
}
