// Written by gen_registry.py.
#include "sm_registry.h"
#include "include/AAee.h"
#include "include/AZWW.h"
#include "include/AhWW.h"
#include "include/WdZu.h"
#include "include/ZnWe.h"
#include "include/dZdh.h"
#include "include/dddd.h"
#include "include/deed.h"
#include "include/eAAe.h"
#include "include/eeAZ.h"
#include "include/eeee2.h"
#include "include/eenmnm.h"
#include "include/enenee.h"
#include "include/gZuu.h"
#include "include/guZu.h"
#include "include/hhWW.h"
#include "include/nWWn.h"
#include "include/nenmnenm.h"
#include "include/uWWu.h"
#include "include/udWh.h"
#include "include/uguh.h"
#include "include/uuAA.h"
#include "include/uudd.h"
#include "include/uuuu2.h"

namespace sm {

struct P_AAee : Proc {
  spinas::AAee* x;
  P_AAee(const Info& i, const Par& p) : Proc(i), x(new spinas::AAee(p[E],p[ME])) {}
  P_AAee(const Info& i, spinas::AAee* y) : Proc(i), x(y) {}
  Proc* clone() { spinas::AAee* y = copied(x); return y ? new P_AAee(info,y) : 0; }
  bool assign(Proc* o) { return assigned(x,static_cast<P_AAee*>(o)->x); }
  ~P_AAee() { delete x; }
  void set_masses(const Par& p) { x->set_masses(p[ME]); }
  void set_momenta(const ldouble q[4][4]) { x->set_momenta(q[0],q[1],q[2],q[3]); }
  spinas::process* base() { return x; }
  ldouble amp2() { return x->amp2(); }
  cdouble amp(int k, const int d[4]) { switch (k) { case 0: return x->amp(d[0],d[1],d[2],d[3]); } abort(); }
  ldouble pol(int k) { switch (k) { case 0: return x->amp2_Aplus_Aplus(); case 1: return x->amp2_Aplus_Aminus(); } abort(); }
};
struct P_AZWW : Proc {
  spinas::AZWW* x;
  P_AZWW(const Info& i, const Par& p) : Proc(i), x(new spinas::AZWW(p[E],p[MW],p[SW],p[WW])) {}
  P_AZWW(const Info& i, spinas::AZWW* y) : Proc(i), x(y) {}
  Proc* clone() { spinas::AZWW* y = copied(x); return y ? new P_AZWW(info,y) : 0; }
  bool assign(Proc* o) { return assigned(x,static_cast<P_AZWW*>(o)->x); }
  ~P_AZWW() { delete x; }
  void set_masses(const Par& p) { x->set_masses(p[MW]); }
  void set_momenta(const ldouble q[4][4]) { x->set_momenta(q[0],q[1],q[2],q[3]); }
  spinas::process* base() { return x; }
  ldouble amp2() { return x->amp2(); }
  cdouble amp(int k, const int d[4]) { switch (k) { case 0: return x->amp(d[0],d[1],d[2],d[3]); } abort(); }
  ldouble pol(int k) { switch (k) { case 0: return x->amp2_Aplus(); } abort(); }
};
struct P_AhWW : Proc {
  spinas::AhWW* x;
  P_AhWW(const Info& i, const Par& p) : Proc(i), x(new spinas::AhWW(p[E],p[MH],p[MW],p[SW],p[WW])) {}
  P_AhWW(const Info& i, spinas::AhWW* y) : Proc(i), x(y) {}
  Proc* clone() { spinas::AhWW* y = copied(x); return y ? new P_AhWW(info,y) : 0; }
  bool assign(Proc* o) { return assigned(x,static_cast<P_AhWW*>(o)->x); }
  ~P_AhWW() { delete x; }
  void set_masses(const Par& p) { x->set_masses(p[MH],p[MW]); }
  void set_momenta(const ldouble q[4][4]) { x->set_momenta(q[0],q[1],q[2],q[3]); }
  spinas::process* base() { return x; }
  ldouble amp2() { return x->amp2(); }
  cdouble amp(int k, const int d[4]) { switch (k) { case 0: return x->amp(d[0],d[2],d[3]); } abort(); }
  ldouble pol(int k) { switch (k) { case 0: return x->amp2_Aplus(); } abort(); }
};
struct P_WdZu : Proc {
  spinas::WdZu* x;
  P_WdZu(const Info& i, const Par& p) : Proc(i), x(new spinas::WdZu(p[E],p[MU],p[MD],p[MW],p[SW],p[WW])) {}
  P_WdZu(const Info& i, spinas::WdZu* y) : Proc(i), x(y) {}
  Proc* clone() { spinas::WdZu* y = copied(x); return y ? new P_WdZu(info,y) : 0; }
  bool assign(Proc* o) { return assigned(x,static_cast<P_WdZu*>(o)->x); }
  ~P_WdZu() { delete x; }
  void set_masses(const Par& p) { x->set_masses(p[MU],p[MD],p[MW]); }
  void set_momenta(const ldouble q[4][4]) { x->set_momenta(q[0],q[1],q[2],q[3]); }
  spinas::process* base() { return x; }
  ldouble amp2() { return x->amp2(); }
  cdouble amp(int k, const int d[4]) { switch (k) { case 0: return x->amp(d[0],d[1],d[2],d[3]); } abort(); }
  ldouble pol(int k) { switch (k) { } abort(); }
};
struct P_ZnWe : Proc {
  spinas::ZnWe* x;
  P_ZnWe(const Info& i, const Par& p) : Proc(i), x(new spinas::ZnWe(p[E],p[ME],p[MW],p[SW],p[WW])) {}
  P_ZnWe(const Info& i, spinas::ZnWe* y) : Proc(i), x(y) {}
  Proc* clone() { spinas::ZnWe* y = copied(x); return y ? new P_ZnWe(info,y) : 0; }
  bool assign(Proc* o) { return assigned(x,static_cast<P_ZnWe*>(o)->x); }
  ~P_ZnWe() { delete x; }
  void set_masses(const Par& p) { x->set_masses(p[ME],p[MW]); }
  void set_momenta(const ldouble q[4][4]) { x->set_momenta(q[0],q[1],q[2],q[3]); }
  spinas::process* base() { return x; }
  ldouble amp2() { return x->amp2(); }
  cdouble amp(int k, const int d[4]) { switch (k) { case 0: return x->amp(d[0],d[2],d[3]); } abort(); }
  ldouble pol(int k) { switch (k) { } abort(); }
};
struct P_dZdh : Proc {
  spinas::dZdh* x;
  P_dZdh(const Info& i, const Par& p) : Proc(i), x(new spinas::dZdh(p[E],p[MD],p[MH],p[WH],p[MW],p[SW],p[WZ])) {}
  P_dZdh(const Info& i, spinas::dZdh* y) : Proc(i), x(y) {}
  Proc* clone() { spinas::dZdh* y = copied(x); return y ? new P_dZdh(info,y) : 0; }
  bool assign(Proc* o) { return assigned(x,static_cast<P_dZdh*>(o)->x); }
  ~P_dZdh() { delete x; }
  void set_masses(const Par& p) { x->set_masses(p[MD],p[MH],p[MW]); }
  void set_momenta(const ldouble q[4][4]) { x->set_momenta(q[0],q[1],q[2],q[3]); }
  spinas::process* base() { return x; }
  ldouble amp2() { return x->amp2(); }
  cdouble amp(int k, const int d[4]) { switch (k) { case 0: return x->amp(d[0],d[1],d[2]); } abort(); }
  ldouble pol(int k) { switch (k) { } abort(); }
};
struct P_dddd : Proc {
  spinas::dddd* x;
  P_dddd(const Info& i, const Par& p) : Proc(i), x(new spinas::dddd(p[E],p[GS],p[MD],p[MH],p[WH],p[MW],p[SW],p[WZ])) {}
  P_dddd(const Info& i, spinas::dddd* y) : Proc(i), x(y) {}
  Proc* clone() { spinas::dddd* y = copied(x); return y ? new P_dddd(info,y) : 0; }
  bool assign(Proc* o) { return assigned(x,static_cast<P_dddd*>(o)->x); }
  ~P_dddd() { delete x; }
  void set_masses(const Par& p) { x->set_masses(p[MD],p[MH],p[MW]); }
  void set_momenta(const ldouble q[4][4]) { x->set_momenta(q[0],q[1],q[2],q[3]); }
  spinas::process* base() { return x; }
  ldouble amp2() { return x->amp2(); }
  cdouble amp(int k, const int d[4]) { switch (k) { case 0: return x->amp_gluon_S(d[0],d[1],d[2],d[3]); case 1: return x->amp_gluon_T(d[0],d[1],d[2],d[3]); case 2: return x->amp_rest_S(d[0],d[1],d[2],d[3]); case 3: return x->amp_rest_T(d[0],d[1],d[2],d[3]); } abort(); }
  ldouble pol(int k) { switch (k) { } abort(); }
};
struct P_deed : Proc {
  spinas::deed* x;
  P_deed(const Info& i, const Par& p) : Proc(i), x(new spinas::deed(p[E],p[MD],p[ME],p[MH],p[WH],p[MW],p[SW],p[WZ])) {}
  P_deed(const Info& i, spinas::deed* y) : Proc(i), x(y) {}
  Proc* clone() { spinas::deed* y = copied(x); return y ? new P_deed(info,y) : 0; }
  bool assign(Proc* o) { return assigned(x,static_cast<P_deed*>(o)->x); }
  ~P_deed() { delete x; }
  void set_masses(const Par& p) { x->set_masses(p[MD],p[ME],p[MH],p[MW]); }
  void set_momenta(const ldouble q[4][4]) { x->set_momenta(q[0],q[1],q[2],q[3]); }
  spinas::process* base() { return x; }
  ldouble amp2() { return x->amp2(); }
  cdouble amp(int k, const int d[4]) { switch (k) { case 0: return x->amp(d[0],d[1],d[2],d[3]); } abort(); }
  ldouble pol(int k) { switch (k) { } abort(); }
};
struct P_eAAe : Proc {
  spinas::eAAe* x;
  P_eAAe(const Info& i, const Par& p) : Proc(i), x(new spinas::eAAe(p[E],p[ME])) {}
  P_eAAe(const Info& i, spinas::eAAe* y) : Proc(i), x(y) {}
  Proc* clone() { spinas::eAAe* y = copied(x); return y ? new P_eAAe(info,y) : 0; }
  bool assign(Proc* o) { return assigned(x,static_cast<P_eAAe*>(o)->x); }
  ~P_eAAe() { delete x; }
  void set_masses(const Par& p) { x->set_masses(p[ME]); }
  void set_momenta(const ldouble q[4][4]) { x->set_momenta(q[0],q[1],q[2],q[3]); }
  spinas::process* base() { return x; }
  ldouble amp2() { return x->amp2(); }
  cdouble amp(int k, const int d[4]) { switch (k) { case 0: return x->amp(d[0],d[1],d[2],d[3]); } abort(); }
  ldouble pol(int k) { switch (k) { case 0: return x->amp2_Aplus(); } abort(); }
};
struct P_eeAZ : Proc {
  spinas::eeAZ* x;
  P_eeAZ(const Info& i, const Par& p) : Proc(i), x(new spinas::eeAZ(p[E],p[ME],p[MW],p[SW])) {}
  P_eeAZ(const Info& i, spinas::eeAZ* y) : Proc(i), x(y) {}
  Proc* clone() { spinas::eeAZ* y = copied(x); return y ? new P_eeAZ(info,y) : 0; }
  bool assign(Proc* o) { return assigned(x,static_cast<P_eeAZ*>(o)->x); }
  ~P_eeAZ() { delete x; }
  void set_masses(const Par& p) { x->set_masses(p[ME],p[MW]); }
  void set_momenta(const ldouble q[4][4]) { x->set_momenta(q[0],q[1],q[2],q[3]); }
  spinas::process* base() { return x; }
  ldouble amp2() { return x->amp2(); }
  cdouble amp(int k, const int d[4]) { switch (k) { case 0: return x->amp(d[0],d[1],d[2],d[3]); } abort(); }
  ldouble pol(int k) { switch (k) { } abort(); }
};
struct P_eeee2 : Proc {
  spinas::eeee2* x;
  P_eeee2(const Info& i, const Par& p) : Proc(i), x(new spinas::eeee2(p[E],p[ME],p[MH],p[WH],p[MW],p[SW],p[WZ])) {}
  P_eeee2(const Info& i, spinas::eeee2* y) : Proc(i), x(y) {}
  Proc* clone() { spinas::eeee2* y = copied(x); return y ? new P_eeee2(info,y) : 0; }
  bool assign(Proc* o) { return assigned(x,static_cast<P_eeee2*>(o)->x); }
  ~P_eeee2() { delete x; }
  void set_masses(const Par& p) { x->set_masses(p[ME],p[MH],p[MW]); }
  void set_momenta(const ldouble q[4][4]) { x->set_momenta(q[0],q[1],q[2],q[3]); }
  spinas::process* base() { return x; }
  ldouble amp2() { return x->amp2(); }
  cdouble amp(int k, const int d[4]) { switch (k) { case 0: return x->amp(d[0],d[1],d[2],d[3]); } abort(); }
  ldouble pol(int k) { switch (k) { } abort(); }
};
struct P_eenmnm : Proc {
  spinas::eenmnm* x;
  P_eenmnm(const Info& i, const Par& p) : Proc(i), x(new spinas::eenmnm(p[E],p[ME],p[MW],p[SW],p[WZ])) {}
  P_eenmnm(const Info& i, spinas::eenmnm* y) : Proc(i), x(y) {}
  Proc* clone() { spinas::eenmnm* y = copied(x); return y ? new P_eenmnm(info,y) : 0; }
  bool assign(Proc* o) { return assigned(x,static_cast<P_eenmnm*>(o)->x); }
  ~P_eenmnm() { delete x; }
  void set_masses(const Par& p) { x->set_masses(p[ME],p[MW]); }
  void set_momenta(const ldouble q[4][4]) { x->set_momenta(q[0],q[1],q[2],q[3]); }
  spinas::process* base() { return x; }
  ldouble amp2() { return x->amp2(); }
  cdouble amp(int k, const int d[4]) { switch (k) { case 0: return x->amp(d[0],d[1]); } abort(); }
  ldouble pol(int k) { switch (k) { } abort(); }
};
struct P_enenee : Proc {
  spinas::enenee* x;
  P_enenee(const Info& i, const Par& p) : Proc(i), x(new spinas::enenee(p[E],p[ME],p[MW],p[WW],p[SW],p[WZ])) {}
  P_enenee(const Info& i, spinas::enenee* y) : Proc(i), x(y) {}
  Proc* clone() { spinas::enenee* y = copied(x); return y ? new P_enenee(info,y) : 0; }
  bool assign(Proc* o) { return assigned(x,static_cast<P_enenee*>(o)->x); }
  ~P_enenee() { delete x; }
  void set_masses(const Par& p) { x->set_masses(p[ME],p[MW]); }
  void set_momenta(const ldouble q[4][4]) { x->set_momenta(q[0],q[1],q[2],q[3]); }
  spinas::process* base() { return x; }
  ldouble amp2() { return x->amp2(); }
  cdouble amp(int k, const int d[4]) { switch (k) { case 0: return x->amp(d[0],d[3]); } abort(); }
  ldouble pol(int k) { switch (k) { } abort(); }
};
struct P_gZuu : Proc {
  spinas::gZuu* x;
  P_gZuu(const Info& i, const Par& p) : Proc(i), x(new spinas::gZuu(p[E],p[GS],p[MU],p[MW],p[SW])) {}
  P_gZuu(const Info& i, spinas::gZuu* y) : Proc(i), x(y) {}
  Proc* clone() { spinas::gZuu* y = copied(x); return y ? new P_gZuu(info,y) : 0; }
  bool assign(Proc* o) { return assigned(x,static_cast<P_gZuu*>(o)->x); }
  ~P_gZuu() { delete x; }
  void set_masses(const Par& p) { x->set_masses(p[MU],p[MW]); }
  void set_momenta(const ldouble q[4][4]) { x->set_momenta(q[0],q[1],q[2],q[3]); }
  spinas::process* base() { return x; }
  ldouble amp2() { return x->amp2(); }
  cdouble amp(int k, const int d[4]) { switch (k) { case 0: return x->amp(d[0],d[1],d[2],d[3]); } abort(); }
  ldouble pol(int k) { switch (k) { case 0: return x->amp2_gplus(); case 1: return x->amp2_gminus(); } abort(); }
};
struct P_guZu : Proc {
  spinas::guZu* x;
  P_guZu(const Info& i, const Par& p) : Proc(i), x(new spinas::guZu(p[E],p[GS],p[MU],p[MW],p[SW])) {}
  P_guZu(const Info& i, spinas::guZu* y) : Proc(i), x(y) {}
  Proc* clone() { spinas::guZu* y = copied(x); return y ? new P_guZu(info,y) : 0; }
  bool assign(Proc* o) { return assigned(x,static_cast<P_guZu*>(o)->x); }
  ~P_guZu() { delete x; }
  void set_masses(const Par& p) { x->set_masses(p[MU],p[MW]); }
  void set_momenta(const ldouble q[4][4]) { x->set_momenta(q[0],q[1],q[2],q[3]); }
  spinas::process* base() { return x; }
  ldouble amp2() { return x->amp2(); }
  cdouble amp(int k, const int d[4]) { switch (k) { case 0: return x->amp(d[0],d[1],d[2],d[3]); } abort(); }
  ldouble pol(int k) { switch (k) { case 0: return x->amp2_gplus(); case 1: return x->amp2_gminus(); } abort(); }
};
struct P_hhWW : Proc {
  spinas::hhWW* x;
  P_hhWW(const Info& i, const Par& p) : Proc(i), x(new spinas::hhWW(p[E],p[MH],p[WH],p[MW],p[SW],p[WW])) {}
  P_hhWW(const Info& i, spinas::hhWW* y) : Proc(i), x(y) {}
  Proc* clone() { spinas::hhWW* y = copied(x); return y ? new P_hhWW(info,y) : 0; }
  bool assign(Proc* o) { return assigned(x,static_cast<P_hhWW*>(o)->x); }
  ~P_hhWW() { delete x; }
  void set_masses(const Par& p) { x->set_masses(p[MH],p[MW]); }
  void set_momenta(const ldouble q[4][4]) { x->set_momenta(q[0],q[1],q[2],q[3]); }
  spinas::process* base() { return x; }
  ldouble amp2() { return x->amp2(); }
  cdouble amp(int k, const int d[4]) { switch (k) { case 0: return x->amp(d[2],d[3]); } abort(); }
  ldouble pol(int k) { switch (k) { } abort(); }
};
struct P_nWWn : Proc {
  spinas::nWWn* x;
  P_nWWn(const Info& i, const Par& p) : Proc(i), x(new spinas::nWWn(p[E],p[ME],p[MW],p[SW],p[WZ])) {}
  P_nWWn(const Info& i, spinas::nWWn* y) : Proc(i), x(y) {}
  Proc* clone() { spinas::nWWn* y = copied(x); return y ? new P_nWWn(info,y) : 0; }
  bool assign(Proc* o) { return assigned(x,static_cast<P_nWWn*>(o)->x); }
  ~P_nWWn() { delete x; }
  void set_masses(const Par& p) { x->set_masses(p[ME],p[MW]); }
  void set_momenta(const ldouble q[4][4]) { x->set_momenta(q[0],q[1],q[2],q[3]); }
  spinas::process* base() { return x; }
  ldouble amp2() { return x->amp2(); }
  cdouble amp(int k, const int d[4]) { switch (k) { case 0: return x->amp(d[2],d[1]); } abort(); }
  ldouble pol(int k) { switch (k) { } abort(); }
};
struct P_nenmnenm : Proc {
  spinas::nenmnenm* x;
  P_nenmnenm(const Info& i, const Par& p) : Proc(i), x(new spinas::nenmnenm(p[E],p[MW],p[SW],p[WZ])) {}
  P_nenmnenm(const Info& i, spinas::nenmnenm* y) : Proc(i), x(y) {}
  Proc* clone() { spinas::nenmnenm* y = copied(x); return y ? new P_nenmnenm(info,y) : 0; }
  bool assign(Proc* o) { return assigned(x,static_cast<P_nenmnenm*>(o)->x); }
  ~P_nenmnenm() { delete x; }
  void set_masses(const Par& p) { x->set_masses(p[MW]); }
  void set_momenta(const ldouble q[4][4]) { x->set_momenta(q[0],q[1],q[2],q[3]); }
  spinas::process* base() { return x; }
  ldouble amp2() { return x->amp2(); }
  cdouble amp(int k, const int d[4]) { switch (k) { case 0: return x->amp(); } abort(); }
  ldouble pol(int k) { switch (k) { } abort(); }
};
struct P_uWWu : Proc {
  spinas::uWWu* x;
  P_uWWu(const Info& i, const Par& p) : Proc(i), x(new spinas::uWWu(p[E],p[MU],p[MD],p[MH],p[WH],p[MW],p[SW],p[WZ])) {}
  P_uWWu(const Info& i, spinas::uWWu* y) : Proc(i), x(y) {}
  Proc* clone() { spinas::uWWu* y = copied(x); return y ? new P_uWWu(info,y) : 0; }
  bool assign(Proc* o) { return assigned(x,static_cast<P_uWWu*>(o)->x); }
  ~P_uWWu() { delete x; }
  void set_masses(const Par& p) { x->set_masses(p[MU],p[MD],p[MH],p[MW]); }
  void set_momenta(const ldouble q[4][4]) { x->set_momenta(q[0],q[1],q[2],q[3]); }
  spinas::process* base() { return x; }
  ldouble amp2() { return x->amp2(); }
  cdouble amp(int k, const int d[4]) { switch (k) { case 0: return x->amp(d[0],d[1],d[2],d[3]); } abort(); }
  ldouble pol(int k) { switch (k) { } abort(); }
};
struct P_udWh : Proc {
  spinas::udWh* x;
  P_udWh(const Info& i, const Par& p) : Proc(i), x(new spinas::udWh(p[E],p[MU],p[MD],p[MH],p[MW],p[WW],p[SW])) {}
  P_udWh(const Info& i, spinas::udWh* y) : Proc(i), x(y) {}
  Proc* clone() { spinas::udWh* y = copied(x); return y ? new P_udWh(info,y) : 0; }
  bool assign(Proc* o) { return assigned(x,static_cast<P_udWh*>(o)->x); }
  ~P_udWh() { delete x; }
  void set_masses(const Par& p) { x->set_masses(p[MU],p[MD],p[MH],p[MW]); }
  void set_momenta(const ldouble q[4][4]) { x->set_momenta(q[0],q[1],q[2],q[3]); }
  spinas::process* base() { return x; }
  ldouble amp2() { return x->amp2(); }
  cdouble amp(int k, const int d[4]) { switch (k) { case 0: return x->amp(d[0],d[1],d[2]); } abort(); }
  ldouble pol(int k) { switch (k) { } abort(); }
};
struct P_uguh : Proc {
  spinas::uguh* x;
  P_uguh(const Info& i, const Par& p) : Proc(i), x(new spinas::uguh(p[E],p[GS],p[MU],p[MH],p[MW],p[SW])) {}
  P_uguh(const Info& i, spinas::uguh* y) : Proc(i), x(y) {}
  Proc* clone() { spinas::uguh* y = copied(x); return y ? new P_uguh(info,y) : 0; }
  bool assign(Proc* o) { return assigned(x,static_cast<P_uguh*>(o)->x); }
  ~P_uguh() { delete x; }
  void set_masses(const Par& p) { x->set_masses(p[MU],p[MH],p[MW]); }
  void set_momenta(const ldouble q[4][4]) { x->set_momenta(q[0],q[1],q[2],q[3]); }
  spinas::process* base() { return x; }
  ldouble amp2() { return x->amp2(); }
  cdouble amp(int k, const int d[4]) { switch (k) { case 0: return x->amp(d[0],d[1],d[2]); } abort(); }
  ldouble pol(int k) { switch (k) { case 0: return x->amp2_gplus(); } abort(); }
};
struct P_uuAA : Proc {
  spinas::uuAA* x;
  P_uuAA(const Info& i, const Par& p) : Proc(i), x(new spinas::uuAA(p[E],p[MU])) {}
  P_uuAA(const Info& i, spinas::uuAA* y) : Proc(i), x(y) {}
  Proc* clone() { spinas::uuAA* y = copied(x); return y ? new P_uuAA(info,y) : 0; }
  bool assign(Proc* o) { return assigned(x,static_cast<P_uuAA*>(o)->x); }
  ~P_uuAA() { delete x; }
  void set_masses(const Par& p) { x->set_masses(p[MU]); }
  void set_momenta(const ldouble q[4][4]) { x->set_momenta(q[0],q[1],q[2],q[3]); }
  spinas::process* base() { return x; }
  ldouble amp2() { return x->amp2(); }
  cdouble amp(int k, const int d[4]) { switch (k) { case 0: return x->amp(d[0],d[1],d[2],d[3]); } abort(); }
  ldouble pol(int k) { switch (k) { } abort(); }
};
struct P_uudd : Proc {
  spinas::uudd* x;
  P_uudd(const Info& i, const Par& p) : Proc(i), x(new spinas::uudd(p[E],p[GS],p[MU],p[MD],p[MH],p[WH],p[MW],p[WW],p[SW],p[WZ])) {}
  P_uudd(const Info& i, spinas::uudd* y) : Proc(i), x(y) {}
  Proc* clone() { spinas::uudd* y = copied(x); return y ? new P_uudd(info,y) : 0; }
  bool assign(Proc* o) { return assigned(x,static_cast<P_uudd*>(o)->x); }
  ~P_uudd() { delete x; }
  void set_masses(const Par& p) { x->set_masses(p[MU],p[MD],p[MH],p[MW]); }
  void set_momenta(const ldouble q[4][4]) { x->set_momenta(q[0],q[1],q[2],q[3]); }
  spinas::process* base() { return x; }
  ldouble amp2() { return x->amp2(); }
  cdouble amp(int k, const int d[4]) { switch (k) { case 0: return x->amp_gluon(d[0],d[1],d[2],d[3]); case 1: return x->amp_rest(d[0],d[1],d[2],d[3]); case 2: return x->amp_W(d[0],d[1],d[2],d[3]); } abort(); }
  ldouble pol(int k) { switch (k) { } abort(); }
};
struct P_uuuu2 : Proc {
  spinas::uuuu2* x;
  P_uuuu2(const Info& i, const Par& p) : Proc(i), x(new spinas::uuuu2(p[E],p[GS],p[MU],p[MH],p[WH],p[MW],p[SW],p[WZ])) {}
  P_uuuu2(const Info& i, spinas::uuuu2* y) : Proc(i), x(y) {}
  Proc* clone() { spinas::uuuu2* y = copied(x); return y ? new P_uuuu2(info,y) : 0; }
  bool assign(Proc* o) { return assigned(x,static_cast<P_uuuu2*>(o)->x); }
  ~P_uuuu2() { delete x; }
  void set_masses(const Par& p) { x->set_masses(p[MU],p[MH],p[MW]); }
  void set_momenta(const ldouble q[4][4]) { x->set_momenta(q[0],q[1],q[2],q[3]); }
  spinas::process* base() { return x; }
  ldouble amp2() { return x->amp2(); }
  cdouble amp(int k, const int d[4]) { switch (k) { case 0: return x->amp_gluon_U(d[0],d[1],d[2],d[3]); case 1: return x->amp_gluon_T(d[0],d[1],d[2],d[3]); case 2: return x->amp_rest_U(d[0],d[1],d[2],d[3]); case 3: return x->amp_rest_T(d[0],d[1],d[2],d[3]); } abort(); }
  ldouble pol(int k) { switch (k) { } abort(); }
};

void register_2(std::vector<Info>& r) {
  r.push_back(Info{"AAee",{"A","A","e","E"},{E,ME},{ME},{0,1,2,3},{"amp"},{{"amp2_Aplus_Aplus",{2,2,0,0}},{"amp2_Aplus_Aminus",{2,-2,0,0}}},1,0,0,0,[](const Info& i, const Par& p) -> Proc* { return new P_AAee(i,p); }});
  r.push_back(Info{"AZWW",{"A","Z","W+","W-"},{E,MW,SW,WW},{MW},{0,1,2,3},{"amp"},{{"amp2_Aplus",{2,0,0,0}}},1,0,0,0,[](const Info& i, const Par& p) -> Proc* { return new P_AZWW(i,p); }});
  r.push_back(Info{"AhWW",{"A","h","W+","W-"},{E,MH,MW,SW,WW},{MH,MW},{0,2,3},{"amp"},{{"amp2_Aplus",{2,0,0,0}}},1,0,0,0,[](const Info& i, const Par& p) -> Proc* { return new P_AhWW(i,p); }});
  r.push_back(Info{"WdZu",{"W+","d","Z","u"},{E,MU,MD,MW,SW,WW},{MU,MD,MW},{0,1,2,3},{"amp"},{},1,0,0,0,[](const Info& i, const Par& p) -> Proc* { return new P_WdZu(i,p); }});
  r.push_back(Info{"ZnWe",{"Z","ne","W+","e"},{E,ME,MW,SW,WW},{ME,MW},{0,2,3},{"amp"},{},1,0,0,0,[](const Info& i, const Par& p) -> Proc* { return new P_ZnWe(i,p); }});
  r.push_back(Info{"dZdh",{"d","Z","d","h"},{E,MD,MH,WH,MW,SW,WZ},{MD,MH,MW},{0,1,2},{"amp"},{},1,0,0,0,[](const Info& i, const Par& p) -> Proc* { return new P_dZdh(i,p); }});
  r.push_back(Info{"dddd",{"d","D","d","D"},{E,GS,MD,MH,WH,MW,SW,WZ},{MD,MH,MW},{0,1,2,3},{"amp_gluon_S","amp_gluon_T","amp_rest_S","amp_rest_T"},{},1,0,0,0,[](const Info& i, const Par& p) -> Proc* { return new P_dddd(i,p); }});
  r.push_back(Info{"deed",{"d","e","e","d"},{E,MD,ME,MH,WH,MW,SW,WZ},{MD,ME,MH,MW},{0,1,2,3},{"amp"},{},1,0,0,0,[](const Info& i, const Par& p) -> Proc* { return new P_deed(i,p); }});
  r.push_back(Info{"eAAe",{"e","A","A","e"},{E,ME},{ME},{0,1,2,3},{"amp"},{{"amp2_Aplus",{0,2,0,0}}},1,0,0,0,[](const Info& i, const Par& p) -> Proc* { return new P_eAAe(i,p); }});
  r.push_back(Info{"eeAZ",{"e","E","A","Z"},{E,ME,MW,SW},{ME,MW},{0,1,2,3},{"amp"},{},1,0,0,0,[](const Info& i, const Par& p) -> Proc* { return new P_eeAZ(i,p); }});
  r.push_back(Info{"eeee2",{"e","e","e","e"},{E,ME,MH,WH,MW,SW,WZ},{ME,MH,MW},{0,1,2,3},{"amp"},{},1,0,0,0,[](const Info& i, const Par& p) -> Proc* { return new P_eeee2(i,p); }});
  r.push_back(Info{"eenmnm",{"e","E","nm","Nm"},{E,ME,MW,SW,WZ},{ME,MW},{0,1},{"amp"},{},1,0,0,0,[](const Info& i, const Par& p) -> Proc* { return new P_eenmnm(i,p); }});
  r.push_back(Info{"enenee",{"e","ne","ne","e"},{E,ME,MW,WW,SW,WZ},{ME,MW},{0,3},{"amp"},{},1,0,0,0,[](const Info& i, const Par& p) -> Proc* { return new P_enenee(i,p); }});
  r.push_back(Info{"gZuu",{"g","Z","u","U"},{E,GS,MU,MW,SW},{MU,MW},{0,1,2,3},{"amp"},{{"amp2_gplus",{2,0,0,0}},{"amp2_gminus",{-2,0,0,0}}},1,0,0,0,[](const Info& i, const Par& p) -> Proc* { return new P_gZuu(i,p); }});
  r.push_back(Info{"guZu",{"g","u","Z","u"},{E,GS,MU,MW,SW},{MU,MW},{0,1,2,3},{"amp"},{{"amp2_gplus",{2,0,0,0}},{"amp2_gminus",{-2,0,0,0}}},1,0,0,0,[](const Info& i, const Par& p) -> Proc* { return new P_guZu(i,p); }});
  r.push_back(Info{"hhWW",{"h","h","W+","W-"},{E,MH,WH,MW,SW,WW},{MH,MW},{2,3},{"amp"},{},1,0,0,0,[](const Info& i, const Par& p) -> Proc* { return new P_hhWW(i,p); }});
  r.push_back(Info{"nWWn",{"ne","W+","W+","ne"},{E,ME,MW,SW,WZ},{ME,MW},{1,2},{"amp"},{},1,0,0,0,[](const Info& i, const Par& p) -> Proc* { return new P_nWWn(i,p); }});
  r.push_back(Info{"nenmnenm",{"ne","nm","ne","nm"},{E,MW,SW,WZ},{MW},{},{"amp"},{},1,0,0,0,[](const Info& i, const Par& p) -> Proc* { return new P_nenmnenm(i,p); }});
  r.push_back(Info{"uWWu",{"u","W+","W+","u"},{E,MU,MD,MH,WH,MW,SW,WZ},{MU,MD,MH,MW},{0,1,2,3},{"amp"},{},1,0,0,0,[](const Info& i, const Par& p) -> Proc* { return new P_uWWu(i,p); }});
  r.push_back(Info{"udWh",{"u","D","W+","h"},{E,MU,MD,MH,MW,WW,SW},{MU,MD,MH,MW},{0,1,2},{"amp"},{},1,0,0,0,[](const Info& i, const Par& p) -> Proc* { return new P_udWh(i,p); }});
  r.push_back(Info{"uguh",{"u","g","u","h"},{E,GS,MU,MH,MW,SW},{MU,MH,MW},{0,1,2},{"amp"},{{"amp2_gplus",{0,2,0,0}}},1,0,0,0,[](const Info& i, const Par& p) -> Proc* { return new P_uguh(i,p); }});
  r.push_back(Info{"uuAA",{"u","U","A","A"},{E,MU},{MU},{0,1,2,3},{"amp"},{},1,0,0,0,[](const Info& i, const Par& p) -> Proc* { return new P_uuAA(i,p); }});
  r.push_back(Info{"uudd",{"u","U","d","D"},{E,GS,MU,MD,MH,WH,MW,WW,SW,WZ},{MU,MD,MH,MW},{0,1,2,3},{"amp_gluon","amp_rest","amp_W"},{},1,0,0,0,[](const Info& i, const Par& p) -> Proc* { return new P_uudd(i,p); }});
  r.push_back(Info{"uuuu2",{"u","u","u","u"},{E,GS,MU,MH,WH,MW,SW,WZ},{MU,MH,MW},{0,1,2,3},{"amp_gluon_U","amp_gluon_T","amp_rest_U","amp_rest_T"},{},1,0,0,0,[](const Info& i, const Par& p) -> Proc* { return new P_uuuu2(i,p); }});
}

}
