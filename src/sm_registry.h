// Uniform access to the Standard Model process classes.
#pragma once
#include <cmath>
#include <complex>
#include <cstdlib>
#include <functional>
#include <iostream>
#include <stdexcept>
#include <string>
#include <type_traits>
#include <vector>
#include "types.h"
#include "utilities.h"
#include "cmatrix.h"
#include "cvector.h"
#include "particle.h"
#include "sproduct.h"
#include "propagator.h"
#include "process.h"

namespace sm {

enum { E, GS, SW, VEV, MW, MH, ME, MMU, MTAU, MU, MD, MS, MC, MT, MB, WW, WZ, WH, NPAR };
struct Par {
  ldouble v[NPAR];
  ldouble operator[](int i) const { return v[i]; }
  ldouble& operator[](int i) { return v[i]; }
};

// copies, of classes that can be copied
template <class T> T* copied(const T* x, std::true_type) { return new T(*x); }
template <class T> T* copied(const T*, std::false_type) { return 0; }
template <class T> T* copied(const T* x) { return copied(x, std::is_copy_constructible<T>()); }
template <class T> bool assigned(T* x, const T* y, std::true_type) { *x = *y; return true; }
template <class T> bool assigned(T*, const T*, std::false_type) { return false; }
template <class T> bool assigned(T* x, const T* y) { return assigned(x, y, std::is_copy_assignable<T>()); }

struct Info;
struct Proc {
  const Info& info;
  Proc(const Info& i) : info(i) {}
  virtual ~Proc() {}
  virtual void set_masses(const Par&) { abort(); }
  virtual void set_v(const Par&) { abort(); }
  virtual void set_momenta(const ldouble q[4][4]) = 0;
  virtual Proc* clone() = 0;                           // 0 if the class cannot be copied
  virtual bool assign(Proc*) = 0;
  virtual spinas::process* base() = 0;
  virtual ldouble amp2() = 0;
  virtual cdouble amp(int k, const int d[4]) = 0;
  virtual ldouble pol(int k) = 0;
  virtual ldouble amp2_of(const ldouble q[4][4]) { abort(); }
};

struct Pol { std::string name; int fix[4]; };          // doubled spin of a fixed leg, 0 = summed
struct Info {
  std::string name;
  std::string legs[4];
  std::vector<int> ctor, masses, labelled;             // labelled: legs whose spin amp() takes
  std::vector<std::string> amps;
  std::vector<Pol> pols;
  bool has_masses, has_v, has_mom, qed;
  std::function<Proc*(const Info&, const Par&)> make;
  bool uses(int p) const { for (int c : ctor) if (c == p) return true; return false; }
};

void register_0(std::vector<Info>&);
void register_1(std::vector<Info>&);
void register_2(std::vector<Info>&);
void register_3(std::vector<Info>&);
void register_4(std::vector<Info>&);
void register_5(std::vector<Info>&);

inline const std::vector<Info>& registry() {
  static std::vector<Info> r = [] {
    std::vector<Info> x;
    register_0(x); register_1(x); register_2(x); register_3(x); register_4(x); register_5(x);
    return x;
  }();
  return r;
}
inline const Info* find(const std::string& n) {
  for (const Info& i : registry()) if (i.name == n) return &i;
  return 0;
}
}
