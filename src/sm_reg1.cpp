// Written by gen_registry.py.
#include "sm_registry.h"
#include "include/AAdd.h"
#include "include/AWud.h"
#include "include/AeZe.h"
#include "include/WdWd.h"
#include "include/ZhWW.h"
#include "include/dZZd.h"
#include "include/ddZh.h"
#include "include/ddss.h"
#include "include/dsds.h"
#include "include/eeAA.h"
#include "include/eeee.h"
#include "include/eenene.h"
#include "include/enZW.h"
#include "include/gZdd.h"
#include "include/guAu.h"
#include "include/hguu.h"
#include "include/mnen.h"
#include "include/nenenmnm.h"
#include "include/uAuh.h"
#include "include/udAW.h"
#include "include/ueeu.h"
#include "include/usus.h"
#include "include/uucc.h"
#include "include/uuuu.h"

namespace sm {

struct P_AAdd : Proc {
  spinas::AAdd* x;
  P_AAdd(const Info& i, const Par& p) : Proc(i), x(new spinas::AAdd(p[E],p[MD])) {}
  P_AAdd(const Info& i, spinas::AAdd* y) : Proc(i), x(y) {}
  Proc* clone() { spinas::AAdd* y = copied(x); return y ? new P_AAdd(info,y) : 0; }
  bool assign(Proc* o) { return assigned(x,static_cast<P_AAdd*>(o)->x); }
  ~P_AAdd() { delete x; }
  void set_masses(const Par& p) { x->set_masses(p[MD]); }
  void set_momenta(const ldouble q[4][4]) { x->set_momenta(q[0],q[1],q[2],q[3]); }
  spinas::process* base() { return x; }
  ldouble amp2() { return x->amp2(); }
  cdouble amp(int k, const int d[4]) { switch (k) { case 0: return x->amp(d[0],d[1],d[2],d[3]); } abort(); }
  ldouble pol(int k) { switch (k) { case 0: return x->amp2_Aplus_Aplus(); case 1: return x->amp2_Aplus_Aminus(); } abort(); }
};
struct P_AWud : Proc {
  spinas::AWud* x;
  P_AWud(const Info& i, const Par& p) : Proc(i), x(new spinas::AWud(p[E],p[MU],p[MD],p[MW],p[SW],p[WW])) {}
  P_AWud(const Info& i, spinas::AWud* y) : Proc(i), x(y) {}
  Proc* clone() { spinas::AWud* y = copied(x); return y ? new P_AWud(info,y) : 0; }
  bool assign(Proc* o) { return assigned(x,static_cast<P_AWud*>(o)->x); }
  ~P_AWud() { delete x; }
  void set_masses(const Par& p) { x->set_masses(p[MU],p[MD],p[MW]); }
  void set_momenta(const ldouble q[4][4]) { x->set_momenta(q[0],q[1],q[2],q[3]); }
  spinas::process* base() { return x; }
  ldouble amp2() { return x->amp2(); }
  cdouble amp(int k, const int d[4]) { switch (k) { case 0: return x->amp(d[0],d[1],d[2],d[3]); } abort(); }
  ldouble pol(int k) { switch (k) { case 0: return x->amp2_Aplus(); } abort(); }
};
struct P_AeZe : Proc {
  spinas::AeZe* x;
  P_AeZe(const Info& i, const Par& p) : Proc(i), x(new spinas::AeZe(p[E],p[ME],p[MW],p[SW])) {}
  P_AeZe(const Info& i, spinas::AeZe* y) : Proc(i), x(y) {}
  Proc* clone() { spinas::AeZe* y = copied(x); return y ? new P_AeZe(info,y) : 0; }
  bool assign(Proc* o) { return assigned(x,static_cast<P_AeZe*>(o)->x); }
  ~P_AeZe() { delete x; }
  void set_masses(const Par& p) { x->set_masses(p[ME],p[MW]); }
  void set_momenta(const ldouble q[4][4]) { x->set_momenta(q[0],q[1],q[2],q[3]); }
  spinas::process* base() { return x; }
  ldouble amp2() { return x->amp2(); }
  cdouble amp(int k, const int d[4]) { switch (k) { case 0: return x->amp(d[0],d[1],d[2],d[3]); } abort(); }
  ldouble pol(int k) { switch (k) { case 0: return x->amp2_Aplus(); case 1: return x->amp2_Aminus(); } abort(); }
};
struct P_WdWd : Proc {
  spinas::WdWd* x;
  P_WdWd(const Info& i, const Par& p) : Proc(i), x(new spinas::WdWd(p[E],p[MD],p[MU],p[MH],p[WH],p[MW],p[SW],p[WZ])) {}
  P_WdWd(const Info& i, spinas::WdWd* y) : Proc(i), x(y) {}
  Proc* clone() { spinas::WdWd* y = copied(x); return y ? new P_WdWd(info,y) : 0; }
  bool assign(Proc* o) { return assigned(x,static_cast<P_WdWd*>(o)->x); }
  ~P_WdWd() { delete x; }
  void set_masses(const Par& p) { x->set_masses(p[MD],p[MU],p[MH],p[MW]); }
  void set_momenta(const ldouble q[4][4]) { x->set_momenta(q[0],q[1],q[2],q[3]); }
  spinas::process* base() { return x; }
  ldouble amp2() { return x->amp2(); }
  cdouble amp(int k, const int d[4]) { switch (k) { case 0: return x->amp(d[0],d[1],d[2],d[3]); } abort(); }
  ldouble pol(int k) { switch (k) { } abort(); }
};
struct P_ZhWW : Proc {
  spinas::ZhWW* x;
  P_ZhWW(const Info& i, const Par& p) : Proc(i), x(new spinas::ZhWW(p[E],p[MH],p[MW],p[SW],p[WW],p[WZ])) {}
  P_ZhWW(const Info& i, spinas::ZhWW* y) : Proc(i), x(y) {}
  Proc* clone() { spinas::ZhWW* y = copied(x); return y ? new P_ZhWW(info,y) : 0; }
  bool assign(Proc* o) { return assigned(x,static_cast<P_ZhWW*>(o)->x); }
  ~P_ZhWW() { delete x; }
  void set_masses(const Par& p) { x->set_masses(p[MH],p[MW]); }
  void set_momenta(const ldouble q[4][4]) { x->set_momenta(q[0],q[1],q[2],q[3]); }
  spinas::process* base() { return x; }
  ldouble amp2() { return x->amp2(); }
  cdouble amp(int k, const int d[4]) { switch (k) { case 0: return x->amp(d[0],d[2],d[3]); } abort(); }
  ldouble pol(int k) { switch (k) { } abort(); }
};
struct P_dZZd : Proc {
  spinas::dZZd* x;
  P_dZZd(const Info& i, const Par& p) : Proc(i), x(new spinas::dZZd(p[E],p[MD],p[MH],p[WH],p[MW],p[SW],p[WZ])) {}
  P_dZZd(const Info& i, spinas::dZZd* y) : Proc(i), x(y) {}
  Proc* clone() { spinas::dZZd* y = copied(x); return y ? new P_dZZd(info,y) : 0; }
  bool assign(Proc* o) { return assigned(x,static_cast<P_dZZd*>(o)->x); }
  ~P_dZZd() { delete x; }
  void set_masses(const Par& p) { x->set_masses(p[MD],p[MH],p[MW]); }
  void set_momenta(const ldouble q[4][4]) { x->set_momenta(q[0],q[1],q[2],q[3]); }
  spinas::process* base() { return x; }
  ldouble amp2() { return x->amp2(); }
  cdouble amp(int k, const int d[4]) { switch (k) { case 0: return x->amp(d[0],d[1],d[2],d[3]); } abort(); }
  ldouble pol(int k) { switch (k) { } abort(); }
};
struct P_ddZh : Proc {
  spinas::ddZh* x;
  P_ddZh(const Info& i, const Par& p) : Proc(i), x(new spinas::ddZh(p[E],p[MD],p[MH],p[WH],p[MW],p[SW],p[WZ])) {}
  P_ddZh(const Info& i, spinas::ddZh* y) : Proc(i), x(y) {}
  Proc* clone() { spinas::ddZh* y = copied(x); return y ? new P_ddZh(info,y) : 0; }
  bool assign(Proc* o) { return assigned(x,static_cast<P_ddZh*>(o)->x); }
  ~P_ddZh() { delete x; }
  void set_masses(const Par& p) { x->set_masses(p[MD],p[MH],p[MW]); }
  void set_momenta(const ldouble q[4][4]) { x->set_momenta(q[0],q[1],q[2],q[3]); }
  spinas::process* base() { return x; }
  ldouble amp2() { return x->amp2(); }
  cdouble amp(int k, const int d[4]) { switch (k) { case 0: return x->amp(d[0],d[1],d[2]); } abort(); }
  ldouble pol(int k) { switch (k) { } abort(); }
};
struct P_ddss : Proc {
  spinas::ddss* x;
  P_ddss(const Info& i, const Par& p) : Proc(i), x(new spinas::ddss(p[E],p[GS],p[MD],p[MS],p[MH],p[WH],p[MW],p[SW],p[WZ])) {}
  P_ddss(const Info& i, spinas::ddss* y) : Proc(i), x(y) {}
  Proc* clone() { spinas::ddss* y = copied(x); return y ? new P_ddss(info,y) : 0; }
  bool assign(Proc* o) { return assigned(x,static_cast<P_ddss*>(o)->x); }
  ~P_ddss() { delete x; }
  void set_masses(const Par& p) { x->set_masses(p[MD],p[MS],p[MH],p[MW]); }
  void set_momenta(const ldouble q[4][4]) { x->set_momenta(q[0],q[1],q[2],q[3]); }
  spinas::process* base() { return x; }
  ldouble amp2() { return x->amp2(); }
  cdouble amp(int k, const int d[4]) { switch (k) { case 0: return x->amp_gluon(d[0],d[1],d[2],d[3]); case 1: return x->amp_rest(d[0],d[1],d[2],d[3]); } abort(); }
  ldouble pol(int k) { switch (k) { } abort(); }
};
struct P_dsds : Proc {
  spinas::dsds* x;
  P_dsds(const Info& i, const Par& p) : Proc(i), x(new spinas::dsds(p[E],p[GS],p[MD],p[MS],p[MH],p[WH],p[MW],p[SW],p[WZ])) {}
  P_dsds(const Info& i, spinas::dsds* y) : Proc(i), x(y) {}
  Proc* clone() { spinas::dsds* y = copied(x); return y ? new P_dsds(info,y) : 0; }
  bool assign(Proc* o) { return assigned(x,static_cast<P_dsds*>(o)->x); }
  ~P_dsds() { delete x; }
  void set_masses(const Par& p) { x->set_masses(p[MD],p[MS],p[MH],p[MW]); }
  void set_momenta(const ldouble q[4][4]) { x->set_momenta(q[0],q[1],q[2],q[3]); }
  spinas::process* base() { return x; }
  ldouble amp2() { return x->amp2(); }
  cdouble amp(int k, const int d[4]) { switch (k) { case 0: return x->amp_gluon(d[0],d[1],d[2],d[3]); case 1: return x->amp_rest(d[0],d[1],d[2],d[3]); } abort(); }
  ldouble pol(int k) { switch (k) { } abort(); }
};
struct P_eeAA : Proc {
  spinas::eeAA* x;
  P_eeAA(const Info& i, const Par& p) : Proc(i), x(new spinas::eeAA(p[E],p[ME])) {}
  P_eeAA(const Info& i, spinas::eeAA* y) : Proc(i), x(y) {}
  Proc* clone() { spinas::eeAA* y = copied(x); return y ? new P_eeAA(info,y) : 0; }
  bool assign(Proc* o) { return assigned(x,static_cast<P_eeAA*>(o)->x); }
  ~P_eeAA() { delete x; }
  void set_masses(const Par& p) { x->set_masses(p[ME]); }
  void set_momenta(const ldouble q[4][4]) { x->set_momenta(q[0],q[1],q[2],q[3]); }
  spinas::process* base() { return x; }
  ldouble amp2() { return x->amp2(); }
  cdouble amp(int k, const int d[4]) { switch (k) { case 0: return x->amp(d[0],d[1],d[2],d[3]); } abort(); }
  ldouble pol(int k) { switch (k) { } abort(); }
  ldouble amp2_of(const ldouble q[4][4]) { return x->amp2(q[0],q[1],q[2],q[3]); }
};
struct P_eeee : Proc {
  spinas::eeee* x;
  P_eeee(const Info& i, const Par& p) : Proc(i), x(new spinas::eeee(p[E],p[ME],p[MH],p[WH],p[MW],p[SW],p[WZ])) {}
  P_eeee(const Info& i, spinas::eeee* y) : Proc(i), x(y) {}
  Proc* clone() { spinas::eeee* y = copied(x); return y ? new P_eeee(info,y) : 0; }
  bool assign(Proc* o) { return assigned(x,static_cast<P_eeee*>(o)->x); }
  ~P_eeee() { delete x; }
  void set_masses(const Par& p) { x->set_masses(p[ME],p[MH],p[MW]); }
  void set_momenta(const ldouble q[4][4]) { x->set_momenta(q[0],q[1],q[2],q[3]); }
  spinas::process* base() { return x; }
  ldouble amp2() { return x->amp2(); }
  cdouble amp(int k, const int d[4]) { switch (k) { case 0: return x->amp(d[0],d[1],d[2],d[3]); } abort(); }
  ldouble pol(int k) { switch (k) { } abort(); }
};
struct P_eenene : Proc {
  spinas::eenene* x;
  P_eenene(const Info& i, const Par& p) : Proc(i), x(new spinas::eenene(p[E],p[ME],p[MW],p[WW],p[SW],p[WZ])) {}
  P_eenene(const Info& i, spinas::eenene* y) : Proc(i), x(y) {}
  Proc* clone() { spinas::eenene* y = copied(x); return y ? new P_eenene(info,y) : 0; }
  bool assign(Proc* o) { return assigned(x,static_cast<P_eenene*>(o)->x); }
  ~P_eenene() { delete x; }
  void set_masses(const Par& p) { x->set_masses(p[ME],p[MW]); }
  void set_momenta(const ldouble q[4][4]) { x->set_momenta(q[0],q[1],q[2],q[3]); }
  spinas::process* base() { return x; }
  ldouble amp2() { return x->amp2(); }
  cdouble amp(int k, const int d[4]) { switch (k) { case 0: return x->amp(d[0],d[1]); } abort(); }
  ldouble pol(int k) { switch (k) { } abort(); }
};
struct P_enZW : Proc {
  spinas::enZW* x;
  P_enZW(const Info& i, const Par& p) : Proc(i), x(new spinas::enZW(p[E],p[ME],p[MW],p[SW],p[WW])) {}
  P_enZW(const Info& i, spinas::enZW* y) : Proc(i), x(y) {}
  Proc* clone() { spinas::enZW* y = copied(x); return y ? new P_enZW(info,y) : 0; }
  bool assign(Proc* o) { return assigned(x,static_cast<P_enZW*>(o)->x); }
  ~P_enZW() { delete x; }
  void set_masses(const Par& p) { x->set_masses(p[ME],p[MW]); }
  void set_momenta(const ldouble q[4][4]) { x->set_momenta(q[0],q[1],q[2],q[3]); }
  spinas::process* base() { return x; }
  ldouble amp2() { return x->amp2(); }
  cdouble amp(int k, const int d[4]) { switch (k) { case 0: return x->amp(d[0],d[2],d[3]); } abort(); }
  ldouble pol(int k) { switch (k) { } abort(); }
};
struct P_gZdd : Proc {
  spinas::gZdd* x;
  P_gZdd(const Info& i, const Par& p) : Proc(i), x(new spinas::gZdd(p[E],p[GS],p[MD],p[MW],p[SW])) {}
  P_gZdd(const Info& i, spinas::gZdd* y) : Proc(i), x(y) {}
  Proc* clone() { spinas::gZdd* y = copied(x); return y ? new P_gZdd(info,y) : 0; }
  bool assign(Proc* o) { return assigned(x,static_cast<P_gZdd*>(o)->x); }
  ~P_gZdd() { delete x; }
  void set_masses(const Par& p) { x->set_masses(p[MD],p[MW]); }
  void set_momenta(const ldouble q[4][4]) { x->set_momenta(q[0],q[1],q[2],q[3]); }
  spinas::process* base() { return x; }
  ldouble amp2() { return x->amp2(); }
  cdouble amp(int k, const int d[4]) { switch (k) { case 0: return x->amp(d[0],d[1],d[2],d[3]); } abort(); }
  ldouble pol(int k) { switch (k) { case 0: return x->amp2_gplus(); case 1: return x->amp2_gminus(); } abort(); }
};
struct P_guAu : Proc {
  spinas::guAu* x;
  P_guAu(const Info& i, const Par& p) : Proc(i), x(new spinas::guAu(p[E],p[GS],p[MU])) {}
  P_guAu(const Info& i, spinas::guAu* y) : Proc(i), x(y) {}
  Proc* clone() { spinas::guAu* y = copied(x); return y ? new P_guAu(info,y) : 0; }
  bool assign(Proc* o) { return assigned(x,static_cast<P_guAu*>(o)->x); }
  ~P_guAu() { delete x; }
  void set_masses(const Par& p) { x->set_masses(p[MU]); }
  void set_momenta(const ldouble q[4][4]) { x->set_momenta(q[0],q[1],q[2],q[3]); }
  spinas::process* base() { return x; }
  ldouble amp2() { return x->amp2(); }
  cdouble amp(int k, const int d[4]) { switch (k) { case 0: return x->amp(d[0],d[1],d[2],d[3]); } abort(); }
  ldouble pol(int k) { switch (k) { case 0: return x->amp2_gplus(); case 1: return x->amp2_gminus(); } abort(); }
};
struct P_hguu : Proc {
  spinas::hguu* x;
  P_hguu(const Info& i, const Par& p) : Proc(i), x(new spinas::hguu(p[E],p[GS],p[MU],p[MH],p[MW],p[SW])) {}
  P_hguu(const Info& i, spinas::hguu* y) : Proc(i), x(y) {}
  Proc* clone() { spinas::hguu* y = copied(x); return y ? new P_hguu(info,y) : 0; }
  bool assign(Proc* o) { return assigned(x,static_cast<P_hguu*>(o)->x); }
  ~P_hguu() { delete x; }
  void set_masses(const Par& p) { x->set_masses(p[MU],p[MH],p[MW]); }
  void set_momenta(const ldouble q[4][4]) { x->set_momenta(q[0],q[1],q[2],q[3]); }
  spinas::process* base() { return x; }
  ldouble amp2() { return x->amp2(); }
  cdouble amp(int k, const int d[4]) { switch (k) { case 0: return x->amp(d[1],d[2],d[3]); } abort(); }
  ldouble pol(int k) { switch (k) { case 0: return x->amp2_gplus(); } abort(); }
};
struct P_mnen : Proc {
  spinas::mnen* x;
  P_mnen(const Info& i, const Par& p) : Proc(i), x(new spinas::mnen(p[E],p[ME],p[MMU],p[MW],p[WW],p[SW])) {}
  P_mnen(const Info& i, spinas::mnen* y) : Proc(i), x(y) {}
  Proc* clone() { spinas::mnen* y = copied(x); return y ? new P_mnen(info,y) : 0; }
  bool assign(Proc* o) { return assigned(x,static_cast<P_mnen*>(o)->x); }
  ~P_mnen() { delete x; }
  void set_masses(const Par& p) { x->set_masses(p[ME],p[MMU],p[MW]); }
  void set_momenta(const ldouble q[4][4]) { x->set_momenta(q[0],q[1],q[2],q[3]); }
  spinas::process* base() { return x; }
  ldouble amp2() { return x->amp2(); }
  cdouble amp(int k, const int d[4]) { switch (k) { case 0: return x->amp(d[0],d[2]); } abort(); }
  ldouble pol(int k) { switch (k) { } abort(); }
};
struct P_nenenmnm : Proc {
  spinas::nenenmnm* x;
  P_nenenmnm(const Info& i, const Par& p) : Proc(i), x(new spinas::nenenmnm(p[E],p[MW],p[SW],p[WZ])) {}
  P_nenenmnm(const Info& i, spinas::nenenmnm* y) : Proc(i), x(y) {}
  Proc* clone() { spinas::nenenmnm* y = copied(x); return y ? new P_nenenmnm(info,y) : 0; }
  bool assign(Proc* o) { return assigned(x,static_cast<P_nenenmnm*>(o)->x); }
  ~P_nenenmnm() { delete x; }
  void set_masses(const Par& p) { x->set_masses(p[MW]); }
  void set_momenta(const ldouble q[4][4]) { x->set_momenta(q[0],q[1],q[2],q[3]); }
  spinas::process* base() { return x; }
  ldouble amp2() { return x->amp2(); }
  cdouble amp(int k, const int d[4]) { switch (k) { case 0: return x->amp(); } abort(); }
  ldouble pol(int k) { switch (k) { } abort(); }
};
struct P_uAuh : Proc {
  spinas::uAuh* x;
  P_uAuh(const Info& i, const Par& p) : Proc(i), x(new spinas::uAuh(p[E],p[MU],p[MH],p[MW],p[SW])) {}
  P_uAuh(const Info& i, spinas::uAuh* y) : Proc(i), x(y) {}
  Proc* clone() { spinas::uAuh* y = copied(x); return y ? new P_uAuh(info,y) : 0; }
  bool assign(Proc* o) { return assigned(x,static_cast<P_uAuh*>(o)->x); }
  ~P_uAuh() { delete x; }
  void set_masses(const Par& p) { x->set_masses(p[MU],p[MH],p[MW]); }
  void set_momenta(const ldouble q[4][4]) { x->set_momenta(q[0],q[1],q[2],q[3]); }
  spinas::process* base() { return x; }
  ldouble amp2() { return x->amp2(); }
  cdouble amp(int k, const int d[4]) { switch (k) { case 0: return x->amp(d[0],d[1],d[2]); } abort(); }
  ldouble pol(int k) { switch (k) { case 0: return x->amp2_Aplus(); } abort(); }
};
struct P_udAW : Proc {
  spinas::udAW* x;
  P_udAW(const Info& i, const Par& p) : Proc(i), x(new spinas::udAW(p[E],p[MU],p[MD],p[MW],p[SW],p[WW])) {}
  P_udAW(const Info& i, spinas::udAW* y) : Proc(i), x(y) {}
  Proc* clone() { spinas::udAW* y = copied(x); return y ? new P_udAW(info,y) : 0; }
  bool assign(Proc* o) { return assigned(x,static_cast<P_udAW*>(o)->x); }
  ~P_udAW() { delete x; }
  void set_masses(const Par& p) { x->set_masses(p[MU],p[MD],p[MW]); }
  void set_momenta(const ldouble q[4][4]) { x->set_momenta(q[0],q[1],q[2],q[3]); }
  spinas::process* base() { return x; }
  ldouble amp2() { return x->amp2(); }
  cdouble amp(int k, const int d[4]) { switch (k) { case 0: return x->amp(d[0],d[1],d[2],d[3]); } abort(); }
  ldouble pol(int k) { switch (k) { } abort(); }
};
struct P_ueeu : Proc {
  spinas::ueeu* x;
  P_ueeu(const Info& i, const Par& p) : Proc(i), x(new spinas::ueeu(p[E],p[MU],p[ME],p[MH],p[WH],p[MW],p[SW],p[WZ])) {}
  P_ueeu(const Info& i, spinas::ueeu* y) : Proc(i), x(y) {}
  Proc* clone() { spinas::ueeu* y = copied(x); return y ? new P_ueeu(info,y) : 0; }
  bool assign(Proc* o) { return assigned(x,static_cast<P_ueeu*>(o)->x); }
  ~P_ueeu() { delete x; }
  void set_masses(const Par& p) { x->set_masses(p[MU],p[ME],p[MH],p[MW]); }
  void set_momenta(const ldouble q[4][4]) { x->set_momenta(q[0],q[1],q[2],q[3]); }
  spinas::process* base() { return x; }
  ldouble amp2() { return x->amp2(); }
  cdouble amp(int k, const int d[4]) { switch (k) { case 0: return x->amp(d[0],d[1],d[2],d[3]); } abort(); }
  ldouble pol(int k) { switch (k) { } abort(); }
};
struct P_usus : Proc {
  spinas::usus* x;
  P_usus(const Info& i, const Par& p) : Proc(i), x(new spinas::usus(p[E],p[GS],p[MU],p[MS],p[MH],p[WH],p[MW],p[SW],p[WZ])) {}
  P_usus(const Info& i, spinas::usus* y) : Proc(i), x(y) {}
  Proc* clone() { spinas::usus* y = copied(x); return y ? new P_usus(info,y) : 0; }
  bool assign(Proc* o) { return assigned(x,static_cast<P_usus*>(o)->x); }
  ~P_usus() { delete x; }
  void set_masses(const Par& p) { x->set_masses(p[MU],p[MS],p[MH],p[MW]); }
  void set_momenta(const ldouble q[4][4]) { x->set_momenta(q[0],q[1],q[2],q[3]); }
  spinas::process* base() { return x; }
  ldouble amp2() { return x->amp2(); }
  cdouble amp(int k, const int d[4]) { switch (k) { case 0: return x->amp_gluon(d[0],d[1],d[2],d[3]); case 1: return x->amp_rest(d[0],d[1],d[2],d[3]); } abort(); }
  ldouble pol(int k) { switch (k) { } abort(); }
};
struct P_uucc : Proc {
  spinas::uucc* x;
  P_uucc(const Info& i, const Par& p) : Proc(i), x(new spinas::uucc(p[E],p[GS],p[MU],p[MC],p[MH],p[WH],p[MW],p[SW],p[WZ])) {}
  P_uucc(const Info& i, spinas::uucc* y) : Proc(i), x(y) {}
  Proc* clone() { spinas::uucc* y = copied(x); return y ? new P_uucc(info,y) : 0; }
  bool assign(Proc* o) { return assigned(x,static_cast<P_uucc*>(o)->x); }
  ~P_uucc() { delete x; }
  void set_masses(const Par& p) { x->set_masses(p[MU],p[MC],p[MH],p[MW]); }
  void set_momenta(const ldouble q[4][4]) { x->set_momenta(q[0],q[1],q[2],q[3]); }
  spinas::process* base() { return x; }
  ldouble amp2() { return x->amp2(); }
  cdouble amp(int k, const int d[4]) { switch (k) { case 0: return x->amp_gluon(d[0],d[1],d[2],d[3]); case 1: return x->amp_rest(d[0],d[1],d[2],d[3]); } abort(); }
  ldouble pol(int k) { switch (k) { } abort(); }
};
struct P_uuuu : Proc {
  spinas::uuuu* x;
  P_uuuu(const Info& i, const Par& p) : Proc(i), x(new spinas::uuuu(p[E],p[GS],p[MU],p[MH],p[WH],p[MW],p[SW],p[WZ])) {}
  P_uuuu(const Info& i, spinas::uuuu* y) : Proc(i), x(y) {}
  Proc* clone() { spinas::uuuu* y = copied(x); return y ? new P_uuuu(info,y) : 0; }
  bool assign(Proc* o) { return assigned(x,static_cast<P_uuuu*>(o)->x); }
  ~P_uuuu() { delete x; }
  void set_masses(const Par& p) { x->set_masses(p[MU],p[MH],p[MW]); }
  void set_momenta(const ldouble q[4][4]) { x->set_momenta(q[0],q[1],q[2],q[3]); }
  spinas::process* base() { return x; }
  ldouble amp2() { return x->amp2(); }
  cdouble amp(int k, const int d[4]) { switch (k) { case 0: return x->amp_gluon_S(d[0],d[1],d[2],d[3]); case 1: return x->amp_gluon_T(d[0],d[1],d[2],d[3]); case 2: return x->amp_rest_S(d[0],d[1],d[2],d[3]); case 3: return x->amp_rest_T(d[0],d[1],d[2],d[3]); } abort(); }
  ldouble pol(int k) { switch (k) { } abort(); }
};

void register_1(std::vector<Info>& r) {
  r.push_back(Info{"AAdd",{"A","A","d","D"},{E,MD},{MD},{0,1,2,3},{"amp"},{{"amp2_Aplus_Aplus",{2,2,0,0}},{"amp2_Aplus_Aminus",{2,-2,0,0}}},1,0,0,0,[](const Info& i, const Par& p) -> Proc* { return new P_AAdd(i,p); }});
  r.push_back(Info{"AWud",{"A","W+","u","D"},{E,MU,MD,MW,SW,WW},{MU,MD,MW},{0,1,2,3},{"amp"},{{"amp2_Aplus",{2,0,0,0}}},1,0,0,0,[](const Info& i, const Par& p) -> Proc* { return new P_AWud(i,p); }});
  r.push_back(Info{"AeZe",{"A","e","Z","e"},{E,ME,MW,SW},{ME,MW},{0,1,2,3},{"amp"},{{"amp2_Aplus",{2,0,0,0}},{"amp2_Aminus",{-2,0,0,0}}},1,0,0,0,[](const Info& i, const Par& p) -> Proc* { return new P_AeZe(i,p); }});
  r.push_back(Info{"WdWd",{"W-","D","W-","D"},{E,MD,MU,MH,WH,MW,SW,WZ},{MD,MU,MH,MW},{0,1,2,3},{"amp"},{},1,0,0,0,[](const Info& i, const Par& p) -> Proc* { return new P_WdWd(i,p); }});
  r.push_back(Info{"ZhWW",{"Z","h","W+","W-"},{E,MH,MW,SW,WW,WZ},{MH,MW},{0,2,3},{"amp"},{},1,0,0,0,[](const Info& i, const Par& p) -> Proc* { return new P_ZhWW(i,p); }});
  r.push_back(Info{"dZZd",{"d","Z","Z","d"},{E,MD,MH,WH,MW,SW,WZ},{MD,MH,MW},{0,1,2,3},{"amp"},{},1,0,0,0,[](const Info& i, const Par& p) -> Proc* { return new P_dZZd(i,p); }});
  r.push_back(Info{"ddZh",{"d","D","Z","h"},{E,MD,MH,WH,MW,SW,WZ},{MD,MH,MW},{0,1,2},{"amp"},{},1,0,0,0,[](const Info& i, const Par& p) -> Proc* { return new P_ddZh(i,p); }});
  r.push_back(Info{"ddss",{"d","D","s","S"},{E,GS,MD,MS,MH,WH,MW,SW,WZ},{MD,MS,MH,MW},{0,1,2,3},{"amp_gluon","amp_rest"},{},1,0,0,0,[](const Info& i, const Par& p) -> Proc* { return new P_ddss(i,p); }});
  r.push_back(Info{"dsds",{"d","s","d","s"},{E,GS,MD,MS,MH,WH,MW,SW,WZ},{MD,MS,MH,MW},{0,1,2,3},{"amp_gluon","amp_rest"},{},1,0,0,0,[](const Info& i, const Par& p) -> Proc* { return new P_dsds(i,p); }});
  r.push_back(Info{"eeAA",{"e","E","A","A"},{E,ME},{ME},{0,1,2,3},{"amp"},{},1,0,1,0,[](const Info& i, const Par& p) -> Proc* { return new P_eeAA(i,p); }});
  r.push_back(Info{"eeee",{"e","E","e","E"},{E,ME,MH,WH,MW,SW,WZ},{ME,MH,MW},{0,1,2,3},{"amp"},{},1,0,0,0,[](const Info& i, const Par& p) -> Proc* { return new P_eeee(i,p); }});
  r.push_back(Info{"eenene",{"e","E","ne","Ne"},{E,ME,MW,WW,SW,WZ},{ME,MW},{0,1},{"amp"},{},1,0,0,0,[](const Info& i, const Par& p) -> Proc* { return new P_eenene(i,p); }});
  r.push_back(Info{"enZW",{"E","ne","Z","W+"},{E,ME,MW,SW,WW},{ME,MW},{0,2,3},{"amp"},{},1,0,0,0,[](const Info& i, const Par& p) -> Proc* { return new P_enZW(i,p); }});
  r.push_back(Info{"gZdd",{"g","Z","d","D"},{E,GS,MD,MW,SW},{MD,MW},{0,1,2,3},{"amp"},{{"amp2_gplus",{2,0,0,0}},{"amp2_gminus",{-2,0,0,0}}},1,0,0,0,[](const Info& i, const Par& p) -> Proc* { return new P_gZdd(i,p); }});
  r.push_back(Info{"guAu",{"g","u","A","u"},{E,GS,MU},{MU},{0,1,2,3},{"amp"},{{"amp2_gplus",{2,0,0,0}},{"amp2_gminus",{-2,0,0,0}}},1,0,0,0,[](const Info& i, const Par& p) -> Proc* { return new P_guAu(i,p); }});
  r.push_back(Info{"hguu",{"h","g","u","U"},{E,GS,MU,MH,MW,SW},{MU,MH,MW},{1,2,3},{"amp"},{{"amp2_gplus",{0,2,0,0}}},1,0,0,0,[](const Info& i, const Par& p) -> Proc* { return new P_hguu(i,p); }});
  r.push_back(Info{"mnen",{"m","ne","e","nm"},{E,ME,MMU,MW,WW,SW},{ME,MMU,MW},{0,2},{"amp"},{},1,0,0,0,[](const Info& i, const Par& p) -> Proc* { return new P_mnen(i,p); }});
  r.push_back(Info{"nenenmnm",{"ne","Ne","nm","Nm"},{E,MW,SW,WZ},{MW},{},{"amp"},{},1,0,0,0,[](const Info& i, const Par& p) -> Proc* { return new P_nenenmnm(i,p); }});
  r.push_back(Info{"uAuh",{"u","A","u","h"},{E,MU,MH,MW,SW},{MU,MH,MW},{0,1,2},{"amp"},{{"amp2_Aplus",{0,2,0,0}}},1,0,0,0,[](const Info& i, const Par& p) -> Proc* { return new P_uAuh(i,p); }});
  r.push_back(Info{"udAW",{"U","d","A","W-"},{E,MU,MD,MW,SW,WW},{MU,MD,MW},{0,1,2,3},{"amp"},{},1,0,0,0,[](const Info& i, const Par& p) -> Proc* { return new P_udAW(i,p); }});
  r.push_back(Info{"ueeu",{"u","e","e","u"},{E,MU,ME,MH,WH,MW,SW,WZ},{MU,ME,MH,MW},{0,1,2,3},{"amp"},{},1,0,0,0,[](const Info& i, const Par& p) -> Proc* { return new P_ueeu(i,p); }});
  r.push_back(Info{"usus",{"u","s","u","s"},{E,GS,MU,MS,MH,WH,MW,SW,WZ},{MU,MS,MH,MW},{0,1,2,3},{"amp_gluon","amp_rest"},{},1,0,0,0,[](const Info& i, const Par& p) -> Proc* { return new P_usus(i,p); }});
  r.push_back(Info{"uucc",{"u","U","c","C"},{E,GS,MU,MC,MH,WH,MW,SW,WZ},{MU,MC,MH,MW},{0,1,2,3},{"amp_gluon","amp_rest"},{},1,0,0,0,[](const Info& i, const Par& p) -> Proc* { return new P_uucc(i,p); }});
  r.push_back(Info{"uuuu",{"u","U","u","U"},{E,GS,MU,MH,WH,MW,SW,WZ},{MU,MH,MW},{0,1,2,3},{"amp_gluon_S","amp_gluon_T","amp_rest_S","amp_rest_T"},{},1,0,0,0,[](const Info& i, const Par& p) -> Proc* { return new P_uuuu(i,p); }});
}

}
