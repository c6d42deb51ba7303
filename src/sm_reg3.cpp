// Written by gen_registry.py.
#include "sm_registry.h"
#include "include/AAuu.h"
#include "include/AZdd.h"
#include "include/AnWe.h"
#include "include/ZWWh.h"
#include "include/dAAd.h"
#include "include/ddAA.h"
#include "include/dddd2.h"
#include "include/dgdh.h"
#include "include/eAeh.h"
#include "include/eeAh.h"
#include "include/eeeeQED.h"
#include "include/eheh.h"
#include "include/enmenm.h"
#include "include/gdZd.h"
#include "include/gugu.h"
#include "include/hhZZ.h"
#include "include/nZZn.h"
#include "include/nnWW.h"
#include "include/uZZu.h"
#include "include/udZW.h"
#include "include/uhWd.h"
#include "include/uuAh.h"
#include "include/uuee.h"
#include "../user-dir/include/eemm.h"

namespace sm {

struct P_AAuu : Proc {
  spinas::AAuu* x;
  P_AAuu(const Info& i, const Par& p) : Proc(i), x(new spinas::AAuu(p[E],p[MU])) {}
  P_AAuu(const Info& i, spinas::AAuu* y) : Proc(i), x(y) {}
  Proc* clone() { spinas::AAuu* y = copied(x); return y ? new P_AAuu(info,y) : 0; }
  bool assign(Proc* o) { return assigned(x,static_cast<P_AAuu*>(o)->x); }
  ~P_AAuu() { delete x; }
  void set_masses(const Par& p) { x->set_masses(p[MU]); }
  void set_momenta(const ldouble q[4][4]) { x->set_momenta(q[0],q[1],q[2],q[3]); }
  spinas::process* base() { return x; }
  ldouble amp2() { return x->amp2(); }
  cdouble amp(int k, const int d[4]) { switch (k) { case 0: return x->amp(d[0],d[1],d[2],d[3]); } abort(); }
  ldouble pol(int k) { switch (k) { case 0: return x->amp2_Aplus_Aplus(); case 1: return x->amp2_Aplus_Aminus(); } abort(); }
};
struct P_AZdd : Proc {
  spinas::AZdd* x;
  P_AZdd(const Info& i, const Par& p) : Proc(i), x(new spinas::AZdd(p[E],p[MD],p[MW],p[SW])) {}
  P_AZdd(const Info& i, spinas::AZdd* y) : Proc(i), x(y) {}
  Proc* clone() { spinas::AZdd* y = copied(x); return y ? new P_AZdd(info,y) : 0; }
  bool assign(Proc* o) { return assigned(x,static_cast<P_AZdd*>(o)->x); }
  ~P_AZdd() { delete x; }
  void set_masses(const Par& p) { x->set_masses(p[MD],p[MW]); }
  void set_momenta(const ldouble q[4][4]) { x->set_momenta(q[0],q[1],q[2],q[3]); }
  spinas::process* base() { return x; }
  ldouble amp2() { return x->amp2(); }
  cdouble amp(int k, const int d[4]) { switch (k) { case 0: return x->amp(d[0],d[1],d[2],d[3]); } abort(); }
  ldouble pol(int k) { switch (k) { case 0: return x->amp2_Aplus(); case 1: return x->amp2_Aminus(); } abort(); }
};
struct P_AnWe : Proc {
  spinas::AnWe* x;
  P_AnWe(const Info& i, const Par& p) : Proc(i), x(new spinas::AnWe(p[E],p[ME],p[MW],p[SW],p[WW])) {}
  P_AnWe(const Info& i, spinas::AnWe* y) : Proc(i), x(y) {}
  Proc* clone() { spinas::AnWe* y = copied(x); return y ? new P_AnWe(info,y) : 0; }
  bool assign(Proc* o) { return assigned(x,static_cast<P_AnWe*>(o)->x); }
  ~P_AnWe() { delete x; }
  void set_masses(const Par& p) { x->set_masses(p[ME],p[MW]); }
  void set_momenta(const ldouble q[4][4]) { x->set_momenta(q[0],q[1],q[2],q[3]); }
  spinas::process* base() { return x; }
  ldouble amp2() { return x->amp2(); }
  cdouble amp(int k, const int d[4]) { switch (k) { case 0: return x->amp(d[0],d[2],d[3]); } abort(); }
  ldouble pol(int k) { switch (k) { case 0: return x->amp2_Aplus(); } abort(); }
};
struct P_ZWWh : Proc {
  spinas::ZWWh* x;
  P_ZWWh(const Info& i, const Par& p) : Proc(i), x(new spinas::ZWWh(p[E],p[MH],p[MW],p[SW],p[WW],p[WZ])) {}
  P_ZWWh(const Info& i, spinas::ZWWh* y) : Proc(i), x(y) {}
  Proc* clone() { spinas::ZWWh* y = copied(x); return y ? new P_ZWWh(info,y) : 0; }
  bool assign(Proc* o) { return assigned(x,static_cast<P_ZWWh*>(o)->x); }
  ~P_ZWWh() { delete x; }
  void set_masses(const Par& p) { x->set_masses(p[MH],p[MW]); }
  void set_momenta(const ldouble q[4][4]) { x->set_momenta(q[0],q[1],q[2],q[3]); }
  spinas::process* base() { return x; }
  ldouble amp2() { return x->amp2(); }
  cdouble amp(int k, const int d[4]) { switch (k) { case 0: return x->amp(d[0],d[1],d[2]); } abort(); }
  ldouble pol(int k) { switch (k) { } abort(); }
};
struct P_dAAd : Proc {
  spinas::dAAd* x;
  P_dAAd(const Info& i, const Par& p) : Proc(i), x(new spinas::dAAd(p[E],p[MD])) {}
  P_dAAd(const Info& i, spinas::dAAd* y) : Proc(i), x(y) {}
  Proc* clone() { spinas::dAAd* y = copied(x); return y ? new P_dAAd(info,y) : 0; }
  bool assign(Proc* o) { return assigned(x,static_cast<P_dAAd*>(o)->x); }
  ~P_dAAd() { delete x; }
  void set_masses(const Par& p) { x->set_masses(p[MD]); }
  void set_momenta(const ldouble q[4][4]) { x->set_momenta(q[0],q[1],q[2],q[3]); }
  spinas::process* base() { return x; }
  ldouble amp2() { return x->amp2(); }
  cdouble amp(int k, const int d[4]) { switch (k) { case 0: return x->amp(d[0],d[1],d[2],d[3]); } abort(); }
  ldouble pol(int k) { switch (k) { case 0: return x->amp2_Aplus(); case 1: return x->amp2_Aminus(); } abort(); }
};
struct P_ddAA : Proc {
  spinas::ddAA* x;
  P_ddAA(const Info& i, const Par& p) : Proc(i), x(new spinas::ddAA(p[E],p[MD])) {}
  P_ddAA(const Info& i, spinas::ddAA* y) : Proc(i), x(y) {}
  Proc* clone() { spinas::ddAA* y = copied(x); return y ? new P_ddAA(info,y) : 0; }
  bool assign(Proc* o) { return assigned(x,static_cast<P_ddAA*>(o)->x); }
  ~P_ddAA() { delete x; }
  void set_masses(const Par& p) { x->set_masses(p[MD]); }
  void set_momenta(const ldouble q[4][4]) { x->set_momenta(q[0],q[1],q[2],q[3]); }
  spinas::process* base() { return x; }
  ldouble amp2() { return x->amp2(); }
  cdouble amp(int k, const int d[4]) { switch (k) { case 0: return x->amp(d[0],d[1],d[2],d[3]); } abort(); }
  ldouble pol(int k) { switch (k) { } abort(); }
};
struct P_dddd2 : Proc {
  spinas::dddd2* x;
  P_dddd2(const Info& i, const Par& p) : Proc(i), x(new spinas::dddd2(p[E],p[GS],p[MD],p[MH],p[WH],p[MW],p[SW],p[WZ])) {}
  P_dddd2(const Info& i, spinas::dddd2* y) : Proc(i), x(y) {}
  Proc* clone() { spinas::dddd2* y = copied(x); return y ? new P_dddd2(info,y) : 0; }
  bool assign(Proc* o) { return assigned(x,static_cast<P_dddd2*>(o)->x); }
  ~P_dddd2() { delete x; }
  void set_masses(const Par& p) { x->set_masses(p[MD],p[MH],p[MW]); }
  void set_momenta(const ldouble q[4][4]) { x->set_momenta(q[0],q[1],q[2],q[3]); }
  spinas::process* base() { return x; }
  ldouble amp2() { return x->amp2(); }
  cdouble amp(int k, const int d[4]) { switch (k) { case 0: return x->amp_gluon_T(d[0],d[1],d[2],d[3]); case 1: return x->amp_gluon_U(d[0],d[1],d[2],d[3]); case 2: return x->amp_rest_T(d[0],d[1],d[2],d[3]); case 3: return x->amp_rest_U(d[0],d[1],d[2],d[3]); } abort(); }
  ldouble pol(int k) { switch (k) { } abort(); }
};
struct P_dgdh : Proc {
  spinas::dgdh* x;
  P_dgdh(const Info& i, const Par& p) : Proc(i), x(new spinas::dgdh(p[E],p[GS],p[MD],p[MH],p[MW],p[SW])) {}
  P_dgdh(const Info& i, spinas::dgdh* y) : Proc(i), x(y) {}
  Proc* clone() { spinas::dgdh* y = copied(x); return y ? new P_dgdh(info,y) : 0; }
  bool assign(Proc* o) { return assigned(x,static_cast<P_dgdh*>(o)->x); }
  ~P_dgdh() { delete x; }
  void set_masses(const Par& p) { x->set_masses(p[MD],p[MH],p[MW]); }
  void set_momenta(const ldouble q[4][4]) { x->set_momenta(q[0],q[1],q[2],q[3]); }
  spinas::process* base() { return x; }
  ldouble amp2() { return x->amp2(); }
  cdouble amp(int k, const int d[4]) { switch (k) { case 0: return x->amp(d[0],d[1],d[2]); } abort(); }
  ldouble pol(int k) { switch (k) { case 0: return x->amp2_gplus(); } abort(); }
};
struct P_eAeh : Proc {
  spinas::eAeh* x;
  P_eAeh(const Info& i, const Par& p) : Proc(i), x(new spinas::eAeh(p[E],p[ME],p[MH],p[VEV])) {}
  P_eAeh(const Info& i, spinas::eAeh* y) : Proc(i), x(y) {}
  Proc* clone() { spinas::eAeh* y = copied(x); return y ? new P_eAeh(info,y) : 0; }
  bool assign(Proc* o) { return assigned(x,static_cast<P_eAeh*>(o)->x); }
  ~P_eAeh() { delete x; }
  void set_masses(const Par& p) { x->set_masses(p[ME],p[MH]); }
  void set_v(const Par& p) { x->set_v(p[VEV]); }
  void set_momenta(const ldouble q[4][4]) { x->set_momenta(q[0],q[1],q[2],q[3]); }
  spinas::process* base() { return x; }
  ldouble amp2() { return x->amp2(); }
  cdouble amp(int k, const int d[4]) { switch (k) { case 0: return x->amp(d[0],d[1],d[2]); } abort(); }
  ldouble pol(int k) { switch (k) { case 0: return x->amp2_Aplus(); } abort(); }
  ldouble amp2_of(const ldouble q[4][4]) { return x->amp2(q[0],q[1],q[2],q[3]); }
};
struct P_eeAh : Proc {
  spinas::eeAh* x;
  P_eeAh(const Info& i, const Par& p) : Proc(i), x(new spinas::eeAh(p[E],p[ME],p[MH],p[VEV])) {}
  P_eeAh(const Info& i, spinas::eeAh* y) : Proc(i), x(y) {}
  Proc* clone() { spinas::eeAh* y = copied(x); return y ? new P_eeAh(info,y) : 0; }
  bool assign(Proc* o) { return assigned(x,static_cast<P_eeAh*>(o)->x); }
  ~P_eeAh() { delete x; }
  void set_masses(const Par& p) { x->set_masses(p[ME],p[MH]); }
  void set_v(const Par& p) { x->set_v(p[VEV]); }
  void set_momenta(const ldouble q[4][4]) { x->set_momenta(q[0],q[1],q[2],q[3]); }
  spinas::process* base() { return x; }
  ldouble amp2() { return x->amp2(); }
  cdouble amp(int k, const int d[4]) { switch (k) { case 0: return x->amp(d[0],d[1],d[2]); } abort(); }
  ldouble pol(int k) { switch (k) { } abort(); }
};
struct P_eeeeQED : Proc {
  spinas::eeeeQED* x;
  P_eeeeQED(const Info& i, const Par& p) : Proc(i), x(new spinas::eeeeQED(p[E],p[ME])) {}
  P_eeeeQED(const Info& i, spinas::eeeeQED* y) : Proc(i), x(y) {}
  Proc* clone() { spinas::eeeeQED* y = copied(x); return y ? new P_eeeeQED(info,y) : 0; }
  bool assign(Proc* o) { return assigned(x,static_cast<P_eeeeQED*>(o)->x); }
  ~P_eeeeQED() { delete x; }
  void set_masses(const Par& p) { x->set_masses(p[ME]); }
  void set_momenta(const ldouble q[4][4]) { x->set_momenta(q[0],q[1],q[2],q[3]); }
  spinas::process* base() { return x; }
  ldouble amp2() { return x->amp2(); }
  cdouble amp(int k, const int d[4]) { switch (k) { case 0: return x->amp(d[0],d[1],d[2],d[3]); } abort(); }
  ldouble pol(int k) { switch (k) { } abort(); }
  ldouble amp2_of(const ldouble q[4][4]) { return x->amp2(q[0],q[1],q[2],q[3]); }
};
struct P_eheh : Proc {
  spinas::eheh* x;
  P_eheh(const Info& i, const Par& p) : Proc(i), x(new spinas::eheh(p[E],p[ME],p[MH],p[WH],p[MW],p[SW])) {}
  P_eheh(const Info& i, spinas::eheh* y) : Proc(i), x(y) {}
  Proc* clone() { spinas::eheh* y = copied(x); return y ? new P_eheh(info,y) : 0; }
  bool assign(Proc* o) { return assigned(x,static_cast<P_eheh*>(o)->x); }
  ~P_eheh() { delete x; }
  void set_masses(const Par& p) { x->set_masses(p[ME],p[MH],p[MW]); }
  void set_momenta(const ldouble q[4][4]) { x->set_momenta(q[0],q[1],q[2],q[3]); }
  spinas::process* base() { return x; }
  ldouble amp2() { return x->amp2(); }
  cdouble amp(int k, const int d[4]) { switch (k) { case 0: return x->amp(d[0],d[2]); } abort(); }
  ldouble pol(int k) { switch (k) { } abort(); }
};
struct P_enmenm : Proc {
  spinas::enmenm* x;
  P_enmenm(const Info& i, const Par& p) : Proc(i), x(new spinas::enmenm(p[E],p[ME],p[MW],p[SW],p[WZ])) {}
  P_enmenm(const Info& i, spinas::enmenm* y) : Proc(i), x(y) {}
  Proc* clone() { spinas::enmenm* y = copied(x); return y ? new P_enmenm(info,y) : 0; }
  bool assign(Proc* o) { return assigned(x,static_cast<P_enmenm*>(o)->x); }
  ~P_enmenm() { delete x; }
  void set_masses(const Par& p) { x->set_masses(p[ME],p[MW]); }
  void set_momenta(const ldouble q[4][4]) { x->set_momenta(q[0],q[1],q[2],q[3]); }
  spinas::process* base() { return x; }
  ldouble amp2() { return x->amp2(); }
  cdouble amp(int k, const int d[4]) { switch (k) { case 0: return x->amp(d[0],d[2]); } abort(); }
  ldouble pol(int k) { switch (k) { } abort(); }
};
struct P_gdZd : Proc {
  spinas::gdZd* x;
  P_gdZd(const Info& i, const Par& p) : Proc(i), x(new spinas::gdZd(p[E],p[GS],p[MD],p[MW],p[SW])) {}
  P_gdZd(const Info& i, spinas::gdZd* y) : Proc(i), x(y) {}
  Proc* clone() { spinas::gdZd* y = copied(x); return y ? new P_gdZd(info,y) : 0; }
  bool assign(Proc* o) { return assigned(x,static_cast<P_gdZd*>(o)->x); }
  ~P_gdZd() { delete x; }
  void set_masses(const Par& p) { x->set_masses(p[MD],p[MW]); }
  void set_momenta(const ldouble q[4][4]) { x->set_momenta(q[0],q[1],q[2],q[3]); }
  spinas::process* base() { return x; }
  ldouble amp2() { return x->amp2(); }
  cdouble amp(int k, const int d[4]) { switch (k) { case 0: return x->amp(d[0],d[1],d[2],d[3]); } abort(); }
  ldouble pol(int k) { switch (k) { case 0: return x->amp2_gplus(); case 1: return x->amp2_gminus(); } abort(); }
};
struct P_gugu : Proc {
  spinas::gugu* x;
  P_gugu(const Info& i, const Par& p) : Proc(i), x(new spinas::gugu(p[GS],p[MU])) {}
  P_gugu(const Info& i, spinas::gugu* y) : Proc(i), x(y) {}
  Proc* clone() { spinas::gugu* y = copied(x); return y ? new P_gugu(info,y) : 0; }
  bool assign(Proc* o) { return assigned(x,static_cast<P_gugu*>(o)->x); }
  ~P_gugu() { delete x; }
  void set_masses(const Par& p) { x->set_masses(p[MU]); }
  void set_momenta(const ldouble q[4][4]) { x->set_momenta(q[0],q[1],q[2],q[3]); }
  spinas::process* base() { return x; }
  ldouble amp2() { return x->amp2(); }
  cdouble amp(int k, const int d[4]) { switch (k) { case 0: return x->amp_Num(d[0],d[1],d[2],d[3]); } abort(); }
  ldouble pol(int k) { switch (k) { case 0: return x->amp2_gplus(); case 1: return x->amp2_gminus(); } abort(); }
};
struct P_hhZZ : Proc {
  spinas::hhZZ* x;
  P_hhZZ(const Info& i, const Par& p) : Proc(i), x(new spinas::hhZZ(p[E],p[MH],p[WH],p[MW],p[SW],p[WZ])) {}
  P_hhZZ(const Info& i, spinas::hhZZ* y) : Proc(i), x(y) {}
  Proc* clone() { spinas::hhZZ* y = copied(x); return y ? new P_hhZZ(info,y) : 0; }
  bool assign(Proc* o) { return assigned(x,static_cast<P_hhZZ*>(o)->x); }
  ~P_hhZZ() { delete x; }
  void set_masses(const Par& p) { x->set_masses(p[MH],p[MW]); }
  void set_momenta(const ldouble q[4][4]) { x->set_momenta(q[0],q[1],q[2],q[3]); }
  spinas::process* base() { return x; }
  ldouble amp2() { return x->amp2(); }
  cdouble amp(int k, const int d[4]) { switch (k) { case 0: return x->amp(d[2],d[3]); } abort(); }
  ldouble pol(int k) { switch (k) { } abort(); }
};
struct P_nZZn : Proc {
  spinas::nZZn* x;
  P_nZZn(const Info& i, const Par& p) : Proc(i), x(new spinas::nZZn(p[E],p[MW],p[SW],p[WZ])) {}
  P_nZZn(const Info& i, spinas::nZZn* y) : Proc(i), x(y) {}
  Proc* clone() { spinas::nZZn* y = copied(x); return y ? new P_nZZn(info,y) : 0; }
  bool assign(Proc* o) { return assigned(x,static_cast<P_nZZn*>(o)->x); }
  ~P_nZZn() { delete x; }
  void set_masses(const Par& p) { x->set_masses(p[MW]); }
  void set_momenta(const ldouble q[4][4]) { x->set_momenta(q[0],q[1],q[2],q[3]); }
  spinas::process* base() { return x; }
  ldouble amp2() { return x->amp2(); }
  cdouble amp(int k, const int d[4]) { switch (k) { case 0: return x->amp(d[1],d[2]); } abort(); }
  ldouble pol(int k) { switch (k) { } abort(); }
};
struct P_nnWW : Proc {
  spinas::nnWW* x;
  P_nnWW(const Info& i, const Par& p) : Proc(i), x(new spinas::nnWW(p[E],p[ME],p[MW],p[SW],p[WZ])) {}
  P_nnWW(const Info& i, spinas::nnWW* y) : Proc(i), x(y) {}
  Proc* clone() { spinas::nnWW* y = copied(x); return y ? new P_nnWW(info,y) : 0; }
  bool assign(Proc* o) { return assigned(x,static_cast<P_nnWW*>(o)->x); }
  ~P_nnWW() { delete x; }
  void set_masses(const Par& p) { x->set_masses(p[ME],p[MW]); }
  void set_momenta(const ldouble q[4][4]) { x->set_momenta(q[0],q[1],q[2],q[3]); }
  spinas::process* base() { return x; }
  ldouble amp2() { return x->amp2(); }
  cdouble amp(int k, const int d[4]) { switch (k) { case 0: return x->amp(d[2],d[3]); } abort(); }
  ldouble pol(int k) { switch (k) { } abort(); }
};
struct P_uZZu : Proc {
  spinas::uZZu* x;
  P_uZZu(const Info& i, const Par& p) : Proc(i), x(new spinas::uZZu(p[E],p[MU],p[MH],p[WH],p[MW],p[SW],p[WZ])) {}
  P_uZZu(const Info& i, spinas::uZZu* y) : Proc(i), x(y) {}
  Proc* clone() { spinas::uZZu* y = copied(x); return y ? new P_uZZu(info,y) : 0; }
  bool assign(Proc* o) { return assigned(x,static_cast<P_uZZu*>(o)->x); }
  ~P_uZZu() { delete x; }
  void set_masses(const Par& p) { x->set_masses(p[MU],p[MH],p[MW]); }
  void set_momenta(const ldouble q[4][4]) { x->set_momenta(q[0],q[1],q[2],q[3]); }
  spinas::process* base() { return x; }
  ldouble amp2() { return x->amp2(); }
  cdouble amp(int k, const int d[4]) { switch (k) { case 0: return x->amp(d[0],d[1],d[2],d[3]); } abort(); }
  ldouble pol(int k) { switch (k) { } abort(); }
};
struct P_udZW : Proc {
  spinas::udZW* x;
  P_udZW(const Info& i, const Par& p) : Proc(i), x(new spinas::udZW(p[E],p[MU],p[MD],p[MW],p[SW],p[WW])) {}
  P_udZW(const Info& i, spinas::udZW* y) : Proc(i), x(y) {}
  Proc* clone() { spinas::udZW* y = copied(x); return y ? new P_udZW(info,y) : 0; }
  bool assign(Proc* o) { return assigned(x,static_cast<P_udZW*>(o)->x); }
  ~P_udZW() { delete x; }
  void set_masses(const Par& p) { x->set_masses(p[MU],p[MD],p[MW]); }
  void set_momenta(const ldouble q[4][4]) { x->set_momenta(q[0],q[1],q[2],q[3]); }
  spinas::process* base() { return x; }
  ldouble amp2() { return x->amp2(); }
  cdouble amp(int k, const int d[4]) { switch (k) { case 0: return x->amp(d[0],d[1],d[2],d[3]); } abort(); }
  ldouble pol(int k) { switch (k) { } abort(); }
};
struct P_uhWd : Proc {
  spinas::uhWd* x;
  P_uhWd(const Info& i, const Par& p) : Proc(i), x(new spinas::uhWd(p[E],p[MU],p[MD],p[MH],p[MW],p[WW],p[SW])) {}
  P_uhWd(const Info& i, spinas::uhWd* y) : Proc(i), x(y) {}
  Proc* clone() { spinas::uhWd* y = copied(x); return y ? new P_uhWd(info,y) : 0; }
  bool assign(Proc* o) { return assigned(x,static_cast<P_uhWd*>(o)->x); }
  ~P_uhWd() { delete x; }
  void set_masses(const Par& p) { x->set_masses(p[MU],p[MD],p[MH],p[MW]); }
  void set_momenta(const ldouble q[4][4]) { x->set_momenta(q[0],q[1],q[2],q[3]); }
  spinas::process* base() { return x; }
  ldouble amp2() { return x->amp2(); }
  cdouble amp(int k, const int d[4]) { switch (k) { case 0: return x->amp(d[0],d[2],d[3]); } abort(); }
  ldouble pol(int k) { switch (k) { } abort(); }
};
struct P_uuAh : Proc {
  spinas::uuAh* x;
  P_uuAh(const Info& i, const Par& p) : Proc(i), x(new spinas::uuAh(p[E],p[MU],p[MH],p[MW],p[SW])) {}
  P_uuAh(const Info& i, spinas::uuAh* y) : Proc(i), x(y) {}
  Proc* clone() { spinas::uuAh* y = copied(x); return y ? new P_uuAh(info,y) : 0; }
  bool assign(Proc* o) { return assigned(x,static_cast<P_uuAh*>(o)->x); }
  ~P_uuAh() { delete x; }
  void set_masses(const Par& p) { x->set_masses(p[MU],p[MH],p[MW]); }
  void set_momenta(const ldouble q[4][4]) { x->set_momenta(q[0],q[1],q[2],q[3]); }
  spinas::process* base() { return x; }
  ldouble amp2() { return x->amp2(); }
  cdouble amp(int k, const int d[4]) { switch (k) { case 0: return x->amp(d[0],d[1],d[2]); } abort(); }
  ldouble pol(int k) { switch (k) { } abort(); }
};
struct P_uuee : Proc {
  spinas::uuee* x;
  P_uuee(const Info& i, const Par& p) : Proc(i), x(new spinas::uuee(p[E],p[MU],p[ME],p[MH],p[WH],p[MW],p[SW],p[WZ])) {}
  P_uuee(const Info& i, spinas::uuee* y) : Proc(i), x(y) {}
  Proc* clone() { spinas::uuee* y = copied(x); return y ? new P_uuee(info,y) : 0; }
  bool assign(Proc* o) { return assigned(x,static_cast<P_uuee*>(o)->x); }
  ~P_uuee() { delete x; }
  void set_masses(const Par& p) { x->set_masses(p[MU],p[ME],p[MH],p[MW]); }
  void set_momenta(const ldouble q[4][4]) { x->set_momenta(q[0],q[1],q[2],q[3]); }
  spinas::process* base() { return x; }
  ldouble amp2() { return x->amp2(); }
  cdouble amp(int k, const int d[4]) { switch (k) { case 0: return x->amp(d[0],d[1],d[2],d[3]); } abort(); }
  ldouble pol(int k) { switch (k) { } abort(); }
};
struct P_user_eemm : Proc {
  ::eemm* x;
  P_user_eemm(const Info& i, const Par& p) : Proc(i), x(new ::eemm(p[E],p[ME],p[MMU])) {}
  P_user_eemm(const Info& i, ::eemm* y) : Proc(i), x(y) {}
  Proc* clone() { ::eemm* y = copied(x); return y ? new P_user_eemm(info,y) : 0; }
  bool assign(Proc* o) { return assigned(x,static_cast<P_user_eemm*>(o)->x); }
  ~P_user_eemm() { delete x; }
  void set_masses(const Par& p) { x->set_masses(p[ME],p[MMU]); }
  void set_momenta(const ldouble q[4][4]) { x->set_momenta(q[0],q[1],q[2],q[3]); }
  spinas::process* base() { return x; }
  ldouble amp2() { return x->amp2(); }
  cdouble amp(int k, const int d[4]) { switch (k) { case 0: return x->amp(d[0],d[1],d[2],d[3]); } abort(); }
  ldouble pol(int k) { switch (k) { } abort(); }
};

void register_3(std::vector<Info>& r) {
  r.push_back(Info{"AAuu",{"A","A","u","U"},{E,MU},{MU},{0,1,2,3},{"amp"},{{"amp2_Aplus_Aplus",{2,2,0,0}},{"amp2_Aplus_Aminus",{2,-2,0,0}}},1,0,0,0,[](const Info& i, const Par& p) -> Proc* { return new P_AAuu(i,p); }});
  r.push_back(Info{"AZdd",{"A","Z","d","D"},{E,MD,MW,SW},{MD,MW},{0,1,2,3},{"amp"},{{"amp2_Aplus",{2,0,0,0}},{"amp2_Aminus",{-2,0,0,0}}},1,0,0,0,[](const Info& i, const Par& p) -> Proc* { return new P_AZdd(i,p); }});
  r.push_back(Info{"AnWe",{"A","ne","W+","e"},{E,ME,MW,SW,WW},{ME,MW},{0,2,3},{"amp"},{{"amp2_Aplus",{2,0,0,0}}},1,0,0,0,[](const Info& i, const Par& p) -> Proc* { return new P_AnWe(i,p); }});
  r.push_back(Info{"ZWWh",{"Z","W+","W+","h"},{E,MH,MW,SW,WW,WZ},{MH,MW},{0,1,2},{"amp"},{},1,0,0,0,[](const Info& i, const Par& p) -> Proc* { return new P_ZWWh(i,p); }});
  r.push_back(Info{"dAAd",{"d","A","A","d"},{E,MD},{MD},{0,1,2,3},{"amp"},{{"amp2_Aplus",{0,2,0,0}},{"amp2_Aminus",{0,-2,0,0}}},1,0,0,0,[](const Info& i, const Par& p) -> Proc* { return new P_dAAd(i,p); }});
  r.push_back(Info{"ddAA",{"d","D","A","A"},{E,MD},{MD},{0,1,2,3},{"amp"},{},1,0,0,0,[](const Info& i, const Par& p) -> Proc* { return new P_ddAA(i,p); }});
  r.push_back(Info{"dddd2",{"d","d","d","d"},{E,GS,MD,MH,WH,MW,SW,WZ},{MD,MH,MW},{0,1,2,3},{"amp_gluon_T","amp_gluon_U","amp_rest_T","amp_rest_U"},{},1,0,0,0,[](const Info& i, const Par& p) -> Proc* { return new P_dddd2(i,p); }});
  r.push_back(Info{"dgdh",{"d","g","d","h"},{E,GS,MD,MH,MW,SW},{MD,MH,MW},{0,1,2},{"amp"},{{"amp2_gplus",{0,2,0,0}}},1,0,0,0,[](const Info& i, const Par& p) -> Proc* { return new P_dgdh(i,p); }});
  r.push_back(Info{"eAeh",{"e","A","e","h"},{E,ME,MH,VEV},{ME,MH},{0,1,2},{"amp"},{{"amp2_Aplus",{0,2,0,0}}},1,1,1,0,[](const Info& i, const Par& p) -> Proc* { return new P_eAeh(i,p); }});
  r.push_back(Info{"eeAh",{"e","E","A","h"},{E,ME,MH,VEV},{ME,MH},{0,1,2},{"amp"},{},1,1,0,0,[](const Info& i, const Par& p) -> Proc* { return new P_eeAh(i,p); }});
  r.push_back(Info{"eeeeQED",{"e","E","e","E"},{E,ME},{ME},{0,1,2,3},{"amp"},{},1,0,1,1,[](const Info& i, const Par& p) -> Proc* { return new P_eeeeQED(i,p); }});
  r.push_back(Info{"eheh",{"e","h","e","h"},{E,ME,MH,WH,MW,SW},{ME,MH,MW},{0,2},{"amp"},{},1,0,0,0,[](const Info& i, const Par& p) -> Proc* { return new P_eheh(i,p); }});
  r.push_back(Info{"enmenm",{"e","nm","e","nm"},{E,ME,MW,SW,WZ},{ME,MW},{0,2},{"amp"},{},1,0,0,0,[](const Info& i, const Par& p) -> Proc* { return new P_enmenm(i,p); }});
  r.push_back(Info{"gdZd",{"g","d","Z","d"},{E,GS,MD,MW,SW},{MD,MW},{0,1,2,3},{"amp"},{{"amp2_gplus",{2,0,0,0}},{"amp2_gminus",{-2,0,0,0}}},1,0,0,0,[](const Info& i, const Par& p) -> Proc* { return new P_gdZd(i,p); }});
  r.push_back(Info{"gugu",{"g","u","g","u"},{GS,MU},{MU},{0,1,2,3},{"amp_Num"},{{"amp2_gplus",{2,0,0,0}},{"amp2_gminus",{-2,0,0,0}}},1,0,0,0,[](const Info& i, const Par& p) -> Proc* { return new P_gugu(i,p); }});
  r.push_back(Info{"hhZZ",{"h","h","Z","Z"},{E,MH,WH,MW,SW,WZ},{MH,MW},{2,3},{"amp"},{},1,0,0,0,[](const Info& i, const Par& p) -> Proc* { return new P_hhZZ(i,p); }});
  r.push_back(Info{"nZZn",{"ne","Z","Z","ne"},{E,MW,SW,WZ},{MW},{1,2},{"amp"},{},1,0,0,0,[](const Info& i, const Par& p) -> Proc* { return new P_nZZn(i,p); }});
  r.push_back(Info{"nnWW",{"ne","Ne","W+","W-"},{E,ME,MW,SW,WZ},{ME,MW},{2,3},{"amp"},{},1,0,0,0,[](const Info& i, const Par& p) -> Proc* { return new P_nnWW(i,p); }});
  r.push_back(Info{"uZZu",{"u","Z","Z","u"},{E,MU,MH,WH,MW,SW,WZ},{MU,MH,MW},{0,1,2,3},{"amp"},{},1,0,0,0,[](const Info& i, const Par& p) -> Proc* { return new P_uZZu(i,p); }});
  r.push_back(Info{"udZW",{"U","d","Z","W-"},{E,MU,MD,MW,SW,WW},{MU,MD,MW},{0,1,2,3},{"amp"},{},1,0,0,0,[](const Info& i, const Par& p) -> Proc* { return new P_udZW(i,p); }});
  r.push_back(Info{"uhWd",{"u","h","W+","d"},{E,MU,MD,MH,MW,WW,SW},{MU,MD,MH,MW},{0,2,3},{"amp"},{},1,0,0,0,[](const Info& i, const Par& p) -> Proc* { return new P_uhWd(i,p); }});
  r.push_back(Info{"uuAh",{"u","U","A","h"},{E,MU,MH,MW,SW},{MU,MH,MW},{0,1,2},{"amp"},{},1,0,0,0,[](const Info& i, const Par& p) -> Proc* { return new P_uuAh(i,p); }});
  r.push_back(Info{"uuee",{"u","U","e","E"},{E,MU,ME,MH,WH,MW,SW,WZ},{MU,ME,MH,MW},{0,1,2,3},{"amp"},{},1,0,0,0,[](const Info& i, const Par& p) -> Proc* { return new P_uuee(i,p); }});
  r.push_back(Info{"user_eemm",{"e","E","m","M"},{E,ME,MMU},{ME,MMU},{0,1,2,3},{"amp"},{},1,0,0,1,[](const Info& i, const Par& p) -> Proc* { return new P_user_eemm(i,p); }});
}

}
