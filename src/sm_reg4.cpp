// Written by gen_registry.py.
#include "sm_registry.h"
#include "include/AWAW.h"
#include "include/AZee.h"
#include "include/AuZu.h"
#include "include/ZWZW.h"
#include "include/dAdh.h"
#include "include/ddAh.h"
#include "include/ddee.h"
#include "include/dggd.h"
#include "include/eWWe.h"
#include "include/eeWW.h"
#include "include/eehh.h"
#include "include/emem.h"
#include "include/gAdd.h"
#include "include/ggdd.h"
#include "include/hWWh.h"
#include "include/hhhh.h"
#include "include/nZnh.h"
#include "include/nnZZ.h"
#include "include/uZuh.h"
#include "include/udnl.h"
#include "include/uhuh.h"
#include "include/uuWW.h"
#include "include/uuhh.h"

namespace sm {

struct P_AWAW : Proc {
  spinas::AWAW* x;
  P_AWAW(const Info& i, const Par& p) : Proc(i), x(new spinas::AWAW(p[E],p[MW],p[SW],p[WW])) {}
  P_AWAW(const Info& i, spinas::AWAW* y) : Proc(i), x(y) {}
  Proc* clone() { spinas::AWAW* y = copied(x); return y ? new P_AWAW(info,y) : 0; }
  bool assign(Proc* o) { return assigned(x,static_cast<P_AWAW*>(o)->x); }
  ~P_AWAW() { delete x; }
  void set_masses(const Par& p) { x->set_masses(p[MW]); }
  void set_momenta(const ldouble q[4][4]) { x->set_momenta(q[0],q[1],q[2],q[3]); }
  spinas::process* base() { return x; }
  ldouble amp2() { return x->amp2(); }
  cdouble amp(int k, const int d[4]) { switch (k) { case 0: return x->amp(d[0],d[1],d[2],d[3]); } abort(); }
  ldouble pol(int k) { switch (k) { case 0: return x->amp2_Aplus(); case 1: return x->amp2_Aminus(); } abort(); }
};
struct P_AZee : Proc {
  spinas::AZee* x;
  P_AZee(const Info& i, const Par& p) : Proc(i), x(new spinas::AZee(p[E],p[ME],p[MW],p[SW])) {}
  P_AZee(const Info& i, spinas::AZee* y) : Proc(i), x(y) {}
  Proc* clone() { spinas::AZee* y = copied(x); return y ? new P_AZee(info,y) : 0; }
  bool assign(Proc* o) { return assigned(x,static_cast<P_AZee*>(o)->x); }
  ~P_AZee() { delete x; }
  void set_masses(const Par& p) { x->set_masses(p[ME],p[MW]); }
  void set_momenta(const ldouble q[4][4]) { x->set_momenta(q[0],q[1],q[2],q[3]); }
  spinas::process* base() { return x; }
  ldouble amp2() { return x->amp2(); }
  cdouble amp(int k, const int d[4]) { switch (k) { case 0: return x->amp(d[0],d[1],d[2],d[3]); } abort(); }
  ldouble pol(int k) { switch (k) { case 0: return x->amp2_Aplus(); case 1: return x->amp2_Aminus(); } abort(); }
};
struct P_AuZu : Proc {
  spinas::AuZu* x;
  P_AuZu(const Info& i, const Par& p) : Proc(i), x(new spinas::AuZu(p[E],p[MU],p[MW],p[SW])) {}
  P_AuZu(const Info& i, spinas::AuZu* y) : Proc(i), x(y) {}
  Proc* clone() { spinas::AuZu* y = copied(x); return y ? new P_AuZu(info,y) : 0; }
  bool assign(Proc* o) { return assigned(x,static_cast<P_AuZu*>(o)->x); }
  ~P_AuZu() { delete x; }
  void set_masses(const Par& p) { x->set_masses(p[MU],p[MW]); }
  void set_momenta(const ldouble q[4][4]) { x->set_momenta(q[0],q[1],q[2],q[3]); }
  spinas::process* base() { return x; }
  ldouble amp2() { return x->amp2(); }
  cdouble amp(int k, const int d[4]) { switch (k) { case 0: return x->amp(d[0],d[1],d[2],d[3]); } abort(); }
  ldouble pol(int k) { switch (k) { case 0: return x->amp2_Aplus(); case 1: return x->amp2_Aminus(); } abort(); }
};
struct P_ZWZW : Proc {
  spinas::ZWZW* x;
  P_ZWZW(const Info& i, const Par& p) : Proc(i), x(new spinas::ZWZW(p[E],p[MH],p[WH],p[MW],p[WW],p[SW])) {}
  P_ZWZW(const Info& i, spinas::ZWZW* y) : Proc(i), x(y) {}
  Proc* clone() { spinas::ZWZW* y = copied(x); return y ? new P_ZWZW(info,y) : 0; }
  bool assign(Proc* o) { return assigned(x,static_cast<P_ZWZW*>(o)->x); }
  ~P_ZWZW() { delete x; }
  void set_masses(const Par& p) { x->set_masses(p[MH],p[MW]); }
  void set_momenta(const ldouble q[4][4]) { x->set_momenta(q[0],q[1],q[2],q[3]); }
  spinas::process* base() { return x; }
  ldouble amp2() { return x->amp2(); }
  cdouble amp(int k, const int d[4]) { switch (k) { case 0: return x->amp(d[0],d[1],d[2],d[3]); } abort(); }
  ldouble pol(int k) { switch (k) { } abort(); }
};
struct P_dAdh : Proc {
  spinas::dAdh* x;
  P_dAdh(const Info& i, const Par& p) : Proc(i), x(new spinas::dAdh(p[E],p[MD],p[MH],p[MW],p[SW])) {}
  P_dAdh(const Info& i, spinas::dAdh* y) : Proc(i), x(y) {}
  Proc* clone() { spinas::dAdh* y = copied(x); return y ? new P_dAdh(info,y) : 0; }
  bool assign(Proc* o) { return assigned(x,static_cast<P_dAdh*>(o)->x); }
  ~P_dAdh() { delete x; }
  void set_masses(const Par& p) { x->set_masses(p[MD],p[MH],p[MW]); }
  void set_momenta(const ldouble q[4][4]) { x->set_momenta(q[0],q[1],q[2],q[3]); }
  spinas::process* base() { return x; }
  ldouble amp2() { return x->amp2(); }
  cdouble amp(int k, const int d[4]) { switch (k) { case 0: return x->amp(d[0],d[1],d[2]); } abort(); }
  ldouble pol(int k) { switch (k) { case 0: return x->amp2_Aplus(); } abort(); }
};
struct P_ddAh : Proc {
  spinas::ddAh* x;
  P_ddAh(const Info& i, const Par& p) : Proc(i), x(new spinas::ddAh(p[E],p[MD],p[MH],p[MW],p[SW])) {}
  P_ddAh(const Info& i, spinas::ddAh* y) : Proc(i), x(y) {}
  Proc* clone() { spinas::ddAh* y = copied(x); return y ? new P_ddAh(info,y) : 0; }
  bool assign(Proc* o) { return assigned(x,static_cast<P_ddAh*>(o)->x); }
  ~P_ddAh() { delete x; }
  void set_masses(const Par& p) { x->set_masses(p[MD],p[MH],p[MW]); }
  void set_momenta(const ldouble q[4][4]) { x->set_momenta(q[0],q[1],q[2],q[3]); }
  spinas::process* base() { return x; }
  ldouble amp2() { return x->amp2(); }
  cdouble amp(int k, const int d[4]) { switch (k) { case 0: return x->amp(d[0],d[1],d[2]); } abort(); }
  ldouble pol(int k) { switch (k) { } abort(); }
};
struct P_ddee : Proc {
  spinas::ddee* x;
  P_ddee(const Info& i, const Par& p) : Proc(i), x(new spinas::ddee(p[E],p[MD],p[ME],p[MH],p[WH],p[MW],p[SW],p[WZ])) {}
  P_ddee(const Info& i, spinas::ddee* y) : Proc(i), x(y) {}
  Proc* clone() { spinas::ddee* y = copied(x); return y ? new P_ddee(info,y) : 0; }
  bool assign(Proc* o) { return assigned(x,static_cast<P_ddee*>(o)->x); }
  ~P_ddee() { delete x; }
  void set_masses(const Par& p) { x->set_masses(p[MD],p[ME],p[MH],p[MW]); }
  void set_momenta(const ldouble q[4][4]) { x->set_momenta(q[0],q[1],q[2],q[3]); }
  spinas::process* base() { return x; }
  ldouble amp2() { return x->amp2(); }
  cdouble amp(int k, const int d[4]) { switch (k) { case 0: return x->amp(d[0],d[1],d[2],d[3]); } abort(); }
  ldouble pol(int k) { switch (k) { } abort(); }
};
struct P_dggd : Proc {
  spinas::dggd* x;
  P_dggd(const Info& i, const Par& p) : Proc(i), x(new spinas::dggd(p[GS],p[MD])) {}
  P_dggd(const Info& i, spinas::dggd* y) : Proc(i), x(y) {}
  Proc* clone() { spinas::dggd* y = copied(x); return y ? new P_dggd(info,y) : 0; }
  bool assign(Proc* o) { return assigned(x,static_cast<P_dggd*>(o)->x); }
  ~P_dggd() { delete x; }
  void set_masses(const Par& p) { x->set_masses(p[MD]); }
  void set_momenta(const ldouble q[4][4]) { x->set_momenta(q[0],q[1],q[2],q[3]); }
  spinas::process* base() { return x; }
  ldouble amp2() { return x->amp2(); }
  cdouble amp(int k, const int d[4]) { switch (k) { case 0: return x->amp_Num(d[0],d[1],d[2],d[3]); } abort(); }
  ldouble pol(int k) { switch (k) { case 0: return x->amp2_gplus(); case 1: return x->amp2_gminus(); } abort(); }
};
struct P_eWWe : Proc {
  spinas::eWWe* x;
  P_eWWe(const Info& i, const Par& p) : Proc(i), x(new spinas::eWWe(p[E],p[ME],p[MH],p[WH],p[MW],p[SW],p[WZ])) {}
  P_eWWe(const Info& i, spinas::eWWe* y) : Proc(i), x(y) {}
  Proc* clone() { spinas::eWWe* y = copied(x); return y ? new P_eWWe(info,y) : 0; }
  bool assign(Proc* o) { return assigned(x,static_cast<P_eWWe*>(o)->x); }
  ~P_eWWe() { delete x; }
  void set_masses(const Par& p) { x->set_masses(p[ME],p[MH],p[MW]); }
  void set_momenta(const ldouble q[4][4]) { x->set_momenta(q[0],q[1],q[2],q[3]); }
  spinas::process* base() { return x; }
  ldouble amp2() { return x->amp2(); }
  cdouble amp(int k, const int d[4]) { switch (k) { case 0: return x->amp(d[0],d[1],d[2],d[3]); } abort(); }
  ldouble pol(int k) { switch (k) { } abort(); }
};
struct P_eeWW : Proc {
  spinas::eeWW* x;
  P_eeWW(const Info& i, const Par& p) : Proc(i), x(new spinas::eeWW(p[E],p[ME],p[MH],p[WH],p[MW],p[SW],p[WZ])) {}
  P_eeWW(const Info& i, spinas::eeWW* y) : Proc(i), x(y) {}
  Proc* clone() { spinas::eeWW* y = copied(x); return y ? new P_eeWW(info,y) : 0; }
  bool assign(Proc* o) { return assigned(x,static_cast<P_eeWW*>(o)->x); }
  ~P_eeWW() { delete x; }
  void set_masses(const Par& p) { x->set_masses(p[ME],p[MH],p[MW]); }
  void set_momenta(const ldouble q[4][4]) { x->set_momenta(q[0],q[1],q[2],q[3]); }
  spinas::process* base() { return x; }
  ldouble amp2() { return x->amp2(); }
  cdouble amp(int k, const int d[4]) { switch (k) { case 0: return x->amp(d[0],d[1],d[2],d[3]); } abort(); }
  ldouble pol(int k) { switch (k) { } abort(); }
};
struct P_eehh : Proc {
  spinas::eehh* x;
  P_eehh(const Info& i, const Par& p) : Proc(i), x(new spinas::eehh(p[E],p[ME],p[MH],p[WH],p[MW],p[SW])) {}
  P_eehh(const Info& i, spinas::eehh* y) : Proc(i), x(y) {}
  Proc* clone() { spinas::eehh* y = copied(x); return y ? new P_eehh(info,y) : 0; }
  bool assign(Proc* o) { return assigned(x,static_cast<P_eehh*>(o)->x); }
  ~P_eehh() { delete x; }
  void set_masses(const Par& p) { x->set_masses(p[ME],p[MH],p[MW]); }
  void set_momenta(const ldouble q[4][4]) { x->set_momenta(q[0],q[1],q[2],q[3]); }
  spinas::process* base() { return x; }
  ldouble amp2() { return x->amp2(); }
  cdouble amp(int k, const int d[4]) { switch (k) { case 0: return x->amp(d[0],d[1]); } abort(); }
  ldouble pol(int k) { switch (k) { } abort(); }
};
struct P_emem : Proc {
  spinas::emem* x;
  P_emem(const Info& i, const Par& p) : Proc(i), x(new spinas::emem(p[E],p[ME],p[MMU],p[MH],p[WH],p[MW],p[SW],p[WZ])) {}
  P_emem(const Info& i, spinas::emem* y) : Proc(i), x(y) {}
  Proc* clone() { spinas::emem* y = copied(x); return y ? new P_emem(info,y) : 0; }
  bool assign(Proc* o) { return assigned(x,static_cast<P_emem*>(o)->x); }
  ~P_emem() { delete x; }
  void set_masses(const Par& p) { x->set_masses(p[ME],p[MMU],p[MH],p[MW]); }
  void set_momenta(const ldouble q[4][4]) { x->set_momenta(q[0],q[1],q[2],q[3]); }
  spinas::process* base() { return x; }
  ldouble amp2() { return x->amp2(); }
  cdouble amp(int k, const int d[4]) { switch (k) { case 0: return x->amp(d[0],d[1],d[2],d[3]); } abort(); }
  ldouble pol(int k) { switch (k) { } abort(); }
};
struct P_gAdd : Proc {
  spinas::gAdd* x;
  P_gAdd(const Info& i, const Par& p) : Proc(i), x(new spinas::gAdd(p[E],p[GS],p[MD])) {}
  P_gAdd(const Info& i, spinas::gAdd* y) : Proc(i), x(y) {}
  Proc* clone() { spinas::gAdd* y = copied(x); return y ? new P_gAdd(info,y) : 0; }
  bool assign(Proc* o) { return assigned(x,static_cast<P_gAdd*>(o)->x); }
  ~P_gAdd() { delete x; }
  void set_masses(const Par& p) { x->set_masses(p[MD]); }
  void set_momenta(const ldouble q[4][4]) { x->set_momenta(q[0],q[1],q[2],q[3]); }
  spinas::process* base() { return x; }
  ldouble amp2() { return x->amp2(); }
  cdouble amp(int k, const int d[4]) { switch (k) { case 0: return x->amp(d[0],d[1],d[2],d[3]); } abort(); }
  ldouble pol(int k) { switch (k) { case 0: return x->amp2_gplus_Aplus(); case 1: return x->amp2_gplus_Aminus(); } abort(); }
};
struct P_ggdd : Proc {
  spinas::ggdd* x;
  P_ggdd(const Info& i, const Par& p) : Proc(i), x(new spinas::ggdd(p[GS],p[MD])) {}
  P_ggdd(const Info& i, spinas::ggdd* y) : Proc(i), x(y) {}
  Proc* clone() { spinas::ggdd* y = copied(x); return y ? new P_ggdd(info,y) : 0; }
  bool assign(Proc* o) { return assigned(x,static_cast<P_ggdd*>(o)->x); }
  ~P_ggdd() { delete x; }
  void set_masses(const Par& p) { x->set_masses(p[MD]); }
  void set_momenta(const ldouble q[4][4]) { x->set_momenta(q[0],q[1],q[2],q[3]); }
  spinas::process* base() { return x; }
  ldouble amp2() { return x->amp2(); }
  cdouble amp(int k, const int d[4]) { switch (k) { case 0: return x->amp_Num(d[0],d[1],d[2],d[3]); } abort(); }
  ldouble pol(int k) { switch (k) { case 0: return x->amp2_Feynman(); case 1: return x->amp2_gplus_gplus(); case 2: return x->amp2_gplus_gminus(); } abort(); }
};
struct P_hWWh : Proc {
  spinas::hWWh* x;
  P_hWWh(const Info& i, const Par& p) : Proc(i), x(new spinas::hWWh(p[E],p[MH],p[WH],p[MW],p[SW],p[WW])) {}
  P_hWWh(const Info& i, spinas::hWWh* y) : Proc(i), x(y) {}
  Proc* clone() { spinas::hWWh* y = copied(x); return y ? new P_hWWh(info,y) : 0; }
  bool assign(Proc* o) { return assigned(x,static_cast<P_hWWh*>(o)->x); }
  ~P_hWWh() { delete x; }
  void set_masses(const Par& p) { x->set_masses(p[MH],p[MW]); }
  void set_momenta(const ldouble q[4][4]) { x->set_momenta(q[0],q[1],q[2],q[3]); }
  spinas::process* base() { return x; }
  ldouble amp2() { return x->amp2(); }
  cdouble amp(int k, const int d[4]) { switch (k) { case 0: return x->amp(d[1],d[2]); } abort(); }
  ldouble pol(int k) { switch (k) { } abort(); }
};
struct P_hhhh : Proc {
  spinas::hhhh* x;
  P_hhhh(const Info& i, const Par& p) : Proc(i), x(new spinas::hhhh(p[E],p[MH],p[WH],p[MW],p[SW])) {}
  P_hhhh(const Info& i, spinas::hhhh* y) : Proc(i), x(y) {}
  Proc* clone() { spinas::hhhh* y = copied(x); return y ? new P_hhhh(info,y) : 0; }
  bool assign(Proc* o) { return assigned(x,static_cast<P_hhhh*>(o)->x); }
  ~P_hhhh() { delete x; }
  void set_masses(const Par& p) { x->set_masses(p[MH],p[MW]); }
  void set_momenta(const ldouble q[4][4]) { x->set_momenta(q[0],q[1],q[2],q[3]); }
  spinas::process* base() { return x; }
  ldouble amp2() { return x->amp2(); }
  cdouble amp(int k, const int d[4]) { switch (k) { case 0: return x->amp(); } abort(); }
  ldouble pol(int k) { switch (k) { } abort(); }
};
struct P_nZnh : Proc {
  spinas::nZnh* x;
  P_nZnh(const Info& i, const Par& p) : Proc(i), x(new spinas::nZnh(p[E],p[MH],p[MW],p[SW],p[WZ])) {}
  P_nZnh(const Info& i, spinas::nZnh* y) : Proc(i), x(y) {}
  Proc* clone() { spinas::nZnh* y = copied(x); return y ? new P_nZnh(info,y) : 0; }
  bool assign(Proc* o) { return assigned(x,static_cast<P_nZnh*>(o)->x); }
  ~P_nZnh() { delete x; }
  void set_masses(const Par& p) { x->set_masses(p[MH],p[MW]); }
  void set_momenta(const ldouble q[4][4]) { x->set_momenta(q[0],q[1],q[2],q[3]); }
  spinas::process* base() { return x; }
  ldouble amp2() { return x->amp2(); }
  cdouble amp(int k, const int d[4]) { switch (k) { case 0: return x->amp(d[1]); } abort(); }
  ldouble pol(int k) { switch (k) { } abort(); }
};
struct P_nnZZ : Proc {
  spinas::nnZZ* x;
  P_nnZZ(const Info& i, const Par& p) : Proc(i), x(new spinas::nnZZ(p[E],p[MW],p[SW],p[WZ])) {}
  P_nnZZ(const Info& i, spinas::nnZZ* y) : Proc(i), x(y) {}
  Proc* clone() { spinas::nnZZ* y = copied(x); return y ? new P_nnZZ(info,y) : 0; }
  bool assign(Proc* o) { return assigned(x,static_cast<P_nnZZ*>(o)->x); }
  ~P_nnZZ() { delete x; }
  void set_masses(const Par& p) { x->set_masses(p[MW]); }
  void set_momenta(const ldouble q[4][4]) { x->set_momenta(q[0],q[1],q[2],q[3]); }
  spinas::process* base() { return x; }
  ldouble amp2() { return x->amp2(); }
  cdouble amp(int k, const int d[4]) { switch (k) { case 0: return x->amp(d[2],d[3]); } abort(); }
  ldouble pol(int k) { switch (k) { } abort(); }
};
struct P_uZuh : Proc {
  spinas::uZuh* x;
  P_uZuh(const Info& i, const Par& p) : Proc(i), x(new spinas::uZuh(p[E],p[MU],p[MH],p[WH],p[MW],p[SW],p[WZ])) {}
  P_uZuh(const Info& i, spinas::uZuh* y) : Proc(i), x(y) {}
  Proc* clone() { spinas::uZuh* y = copied(x); return y ? new P_uZuh(info,y) : 0; }
  bool assign(Proc* o) { return assigned(x,static_cast<P_uZuh*>(o)->x); }
  ~P_uZuh() { delete x; }
  void set_masses(const Par& p) { x->set_masses(p[MU],p[MH],p[MW]); }
  void set_momenta(const ldouble q[4][4]) { x->set_momenta(q[0],q[1],q[2],q[3]); }
  spinas::process* base() { return x; }
  ldouble amp2() { return x->amp2(); }
  cdouble amp(int k, const int d[4]) { switch (k) { case 0: return x->amp(d[0],d[1],d[2]); } abort(); }
  ldouble pol(int k) { switch (k) { } abort(); }
};
struct P_udnl : Proc {
  spinas::udnl* x;
  P_udnl(const Info& i, const Par& p) : Proc(i), x(new spinas::udnl(p[E],p[MU],p[MD],p[MTAU],p[MW],p[WW],p[SW])) {}
  P_udnl(const Info& i, spinas::udnl* y) : Proc(i), x(y) {}
  Proc* clone() { spinas::udnl* y = copied(x); return y ? new P_udnl(info,y) : 0; }
  bool assign(Proc* o) { return assigned(x,static_cast<P_udnl*>(o)->x); }
  ~P_udnl() { delete x; }
  void set_masses(const Par& p) { x->set_masses(p[MU],p[MD],p[MTAU],p[MW]); }
  void set_momenta(const ldouble q[4][4]) { x->set_momenta(q[0],q[1],q[2],q[3]); }
  spinas::process* base() { return x; }
  ldouble amp2() { return x->amp2(); }
  cdouble amp(int k, const int d[4]) { switch (k) { case 0: return x->amp(d[0],d[1],d[3]); } abort(); }
  ldouble pol(int k) { switch (k) { } abort(); }
};
struct P_uhuh : Proc {
  spinas::uhuh* x;
  P_uhuh(const Info& i, const Par& p) : Proc(i), x(new spinas::uhuh(p[E],p[MU],p[MH],p[WH],p[MW],p[SW])) {}
  P_uhuh(const Info& i, spinas::uhuh* y) : Proc(i), x(y) {}
  Proc* clone() { spinas::uhuh* y = copied(x); return y ? new P_uhuh(info,y) : 0; }
  bool assign(Proc* o) { return assigned(x,static_cast<P_uhuh*>(o)->x); }
  ~P_uhuh() { delete x; }
  void set_masses(const Par& p) { x->set_masses(p[MU],p[MH],p[MW]); }
  void set_momenta(const ldouble q[4][4]) { x->set_momenta(q[0],q[1],q[2],q[3]); }
  spinas::process* base() { return x; }
  ldouble amp2() { return x->amp2(); }
  cdouble amp(int k, const int d[4]) { switch (k) { case 0: return x->amp(d[0],d[2]); } abort(); }
  ldouble pol(int k) { switch (k) { } abort(); }
};
struct P_uuWW : Proc {
  spinas::uuWW* x;
  P_uuWW(const Info& i, const Par& p) : Proc(i), x(new spinas::uuWW(p[E],p[MU],p[MD],p[MH],p[WH],p[MW],p[SW],p[WZ])) {}
  P_uuWW(const Info& i, spinas::uuWW* y) : Proc(i), x(y) {}
  Proc* clone() { spinas::uuWW* y = copied(x); return y ? new P_uuWW(info,y) : 0; }
  bool assign(Proc* o) { return assigned(x,static_cast<P_uuWW*>(o)->x); }
  ~P_uuWW() { delete x; }
  void set_masses(const Par& p) { x->set_masses(p[MU],p[MD],p[MH],p[MW]); }
  void set_momenta(const ldouble q[4][4]) { x->set_momenta(q[0],q[1],q[2],q[3]); }
  spinas::process* base() { return x; }
  ldouble amp2() { return x->amp2(); }
  cdouble amp(int k, const int d[4]) { switch (k) { case 0: return x->amp(d[0],d[1],d[2],d[3]); } abort(); }
  ldouble pol(int k) { switch (k) { } abort(); }
};
struct P_uuhh : Proc {
  spinas::uuhh* x;
  P_uuhh(const Info& i, const Par& p) : Proc(i), x(new spinas::uuhh(p[E],p[MU],p[MH],p[WH],p[MW],p[SW])) {}
  P_uuhh(const Info& i, spinas::uuhh* y) : Proc(i), x(y) {}
  Proc* clone() { spinas::uuhh* y = copied(x); return y ? new P_uuhh(info,y) : 0; }
  bool assign(Proc* o) { return assigned(x,static_cast<P_uuhh*>(o)->x); }
  ~P_uuhh() { delete x; }
  void set_masses(const Par& p) { x->set_masses(p[MU],p[MH],p[MW]); }
  void set_momenta(const ldouble q[4][4]) { x->set_momenta(q[0],q[1],q[2],q[3]); }
  spinas::process* base() { return x; }
  ldouble amp2() { return x->amp2(); }
  cdouble amp(int k, const int d[4]) { switch (k) { case 0: return x->amp(d[0],d[1]); } abort(); }
  ldouble pol(int k) { switch (k) { } abort(); }
};

void register_4(std::vector<Info>& r) {
  r.push_back(Info{"AWAW",{"A","W+","A","W+"},{E,MW,SW,WW},{MW},{0,1,2,3},{"amp"},{{"amp2_Aplus",{2,0,0,0}},{"amp2_Aminus",{-2,0,0,0}}},1,0,0,0,[](const Info& i, const Par& p) -> Proc* { return new P_AWAW(i,p); }});
  r.push_back(Info{"AZee",{"A","Z","e","E"},{E,ME,MW,SW},{ME,MW},{0,1,2,3},{"amp"},{{"amp2_Aplus",{2,0,0,0}},{"amp2_Aminus",{-2,0,0,0}}},1,0,0,0,[](const Info& i, const Par& p) -> Proc* { return new P_AZee(i,p); }});
  r.push_back(Info{"AuZu",{"A","u","Z","u"},{E,MU,MW,SW},{MU,MW},{0,1,2,3},{"amp"},{{"amp2_Aplus",{2,0,0,0}},{"amp2_Aminus",{-2,0,0,0}}},1,0,0,0,[](const Info& i, const Par& p) -> Proc* { return new P_AuZu(i,p); }});
  r.push_back(Info{"ZWZW",{"Z","W+","Z","W+"},{E,MH,WH,MW,WW,SW},{MH,MW},{0,1,2,3},{"amp"},{},1,0,0,0,[](const Info& i, const Par& p) -> Proc* { return new P_ZWZW(i,p); }});
  r.push_back(Info{"dAdh",{"d","A","d","h"},{E,MD,MH,MW,SW},{MD,MH,MW},{0,1,2},{"amp"},{{"amp2_Aplus",{0,2,0,0}}},1,0,0,0,[](const Info& i, const Par& p) -> Proc* { return new P_dAdh(i,p); }});
  r.push_back(Info{"ddAh",{"d","D","A","h"},{E,MD,MH,MW,SW},{MD,MH,MW},{0,1,2},{"amp"},{},1,0,0,0,[](const Info& i, const Par& p) -> Proc* { return new P_ddAh(i,p); }});
  r.push_back(Info{"ddee",{"d","D","e","E"},{E,MD,ME,MH,WH,MW,SW,WZ},{MD,ME,MH,MW},{0,1,2,3},{"amp"},{},1,0,0,0,[](const Info& i, const Par& p) -> Proc* { return new P_ddee(i,p); }});
  r.push_back(Info{"dggd",{"D","g","g","D"},{GS,MD},{MD},{0,1,2,3},{"amp_Num"},{{"amp2_gplus",{0,2,0,0}},{"amp2_gminus",{0,-2,0,0}}},1,0,0,0,[](const Info& i, const Par& p) -> Proc* { return new P_dggd(i,p); }});
  r.push_back(Info{"eWWe",{"e","W+","W+","e"},{E,ME,MH,WH,MW,SW,WZ},{ME,MH,MW},{0,1,2,3},{"amp"},{},1,0,0,0,[](const Info& i, const Par& p) -> Proc* { return new P_eWWe(i,p); }});
  r.push_back(Info{"eeWW",{"e","E","W+","W-"},{E,ME,MH,WH,MW,SW,WZ},{ME,MH,MW},{0,1,2,3},{"amp"},{},1,0,0,0,[](const Info& i, const Par& p) -> Proc* { return new P_eeWW(i,p); }});
  r.push_back(Info{"eehh",{"e","E","h","h"},{E,ME,MH,WH,MW,SW},{ME,MH,MW},{0,1},{"amp"},{},1,0,0,0,[](const Info& i, const Par& p) -> Proc* { return new P_eehh(i,p); }});
  r.push_back(Info{"emem",{"e","m","e","m"},{E,ME,MMU,MH,WH,MW,SW,WZ},{ME,MMU,MH,MW},{0,1,2,3},{"amp"},{},1,0,0,0,[](const Info& i, const Par& p) -> Proc* { return new P_emem(i,p); }});
  r.push_back(Info{"gAdd",{"g","A","d","D"},{E,GS,MD},{MD},{0,1,2,3},{"amp"},{{"amp2_gplus_Aplus",{2,2,0,0}},{"amp2_gplus_Aminus",{2,-2,0,0}}},1,0,0,0,[](const Info& i, const Par& p) -> Proc* { return new P_gAdd(i,p); }});
  r.push_back(Info{"ggdd",{"g","g","d","D"},{GS,MD},{MD},{0,1,2,3},{"amp_Num"},{{"amp2_Feynman",{0,0,0,0}},{"amp2_gplus_gplus",{2,2,0,0}},{"amp2_gplus_gminus",{2,-2,0,0}}},1,0,0,0,[](const Info& i, const Par& p) -> Proc* { return new P_ggdd(i,p); }});
  r.push_back(Info{"hWWh",{"h","W+","W+","h"},{E,MH,WH,MW,SW,WW},{MH,MW},{1,2},{"amp"},{},1,0,0,0,[](const Info& i, const Par& p) -> Proc* { return new P_hWWh(i,p); }});
  r.push_back(Info{"hhhh",{"h","h","h","h"},{E,MH,WH,MW,SW},{MH,MW},{},{"amp"},{},1,0,0,0,[](const Info& i, const Par& p) -> Proc* { return new P_hhhh(i,p); }});
  r.push_back(Info{"nZnh",{"ne","Z","ne","h"},{E,MH,MW,SW,WZ},{MH,MW},{1},{"amp"},{},1,0,0,0,[](const Info& i, const Par& p) -> Proc* { return new P_nZnh(i,p); }});
  r.push_back(Info{"nnZZ",{"ne","Ne","Z","Z"},{E,MW,SW,WZ},{MW},{2,3},{"amp"},{},1,0,0,0,[](const Info& i, const Par& p) -> Proc* { return new P_nnZZ(i,p); }});
  r.push_back(Info{"uZuh",{"u","Z","u","h"},{E,MU,MH,WH,MW,SW,WZ},{MU,MH,MW},{0,1,2},{"amp"},{},1,0,0,0,[](const Info& i, const Par& p) -> Proc* { return new P_uZuh(i,p); }});
  r.push_back(Info{"udnl",{"U","d","Nl","l"},{E,MU,MD,MTAU,MW,WW,SW},{MU,MD,MTAU,MW},{0,1,3},{"amp"},{},1,0,0,0,[](const Info& i, const Par& p) -> Proc* { return new P_udnl(i,p); }});
  r.push_back(Info{"uhuh",{"u","h","u","h"},{E,MU,MH,WH,MW,SW},{MU,MH,MW},{0,2},{"amp"},{},1,0,0,0,[](const Info& i, const Par& p) -> Proc* { return new P_uhuh(i,p); }});
  r.push_back(Info{"uuWW",{"u","U","W+","W-"},{E,MU,MD,MH,WH,MW,SW,WZ},{MU,MD,MH,MW},{0,1,2,3},{"amp"},{},1,0,0,0,[](const Info& i, const Par& p) -> Proc* { return new P_uuWW(i,p); }});
  r.push_back(Info{"uuhh",{"u","U","h","h"},{E,MU,MH,WH,MW,SW},{MU,MH,MW},{0,1},{"amp"},{},1,0,0,0,[](const Info& i, const Par& p) -> Proc* { return new P_uuhh(i,p); }});
}

}
