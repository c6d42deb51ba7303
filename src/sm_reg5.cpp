// Written by gen_registry.py.
#include "sm_registry.h"
#include "include/AWWh.h"
#include "include/AZuu.h"
#include "include/WWWW.h"
#include "include/ZZWW.h"
#include "include/dAgd.h"
#include "include/ddWW.h"
#include "include/ddhh.h"
#include "include/dhdh.h"
#include "include/eZZe.h"
#include "include/eeZZ.h"
#include "include/eemm.h"
#include "include/enAW.h"
#include "include/gAuu.h"
#include "include/gggg.h"
#include "include/hZZh.h"
#include "include/hnWe.h"
#include "include/nenenene.h"
#include "include/nnZh.h"
#include "include/ubdt.h"
#include "include/udtb.h"
#include "include/ulnd.h"
#include "include/uuZZ.h"
#include "include/uunn.h"

namespace sm {

struct P_AWWh : Proc {
  spinas::AWWh* x;
  P_AWWh(const Info& i, const Par& p) : Proc(i), x(new spinas::AWWh(p[E],p[MH],p[MW],p[SW],p[WW])) {}
  P_AWWh(const Info& i, spinas::AWWh* y) : Proc(i), x(y) {}
  Proc* clone() { spinas::AWWh* y = copied(x); return y ? new P_AWWh(info,y) : 0; }
  bool assign(Proc* o) { return assigned(x,static_cast<P_AWWh*>(o)->x); }
  ~P_AWWh() { delete x; }
  void set_masses(const Par& p) { x->set_masses(p[MH],p[MW]); }
  void set_momenta(const ldouble q[4][4]) { x->set_momenta(q[0],q[1],q[2],q[3]); }
  spinas::process* base() { return x; }
  ldouble amp2() { return x->amp2(); }
  cdouble amp(int k, const int d[4]) { switch (k) { case 0: return x->amp(d[0],d[1],d[2]); } abort(); }
  ldouble pol(int k) { switch (k) { case 0: return x->amp2_Aplus(); } abort(); }
};
struct P_AZuu : Proc {
  spinas::AZuu* x;
  P_AZuu(const Info& i, const Par& p) : Proc(i), x(new spinas::AZuu(p[E],p[MU],p[MW],p[SW])) {}
  P_AZuu(const Info& i, spinas::AZuu* y) : Proc(i), x(y) {}
  Proc* clone() { spinas::AZuu* y = copied(x); return y ? new P_AZuu(info,y) : 0; }
  bool assign(Proc* o) { return assigned(x,static_cast<P_AZuu*>(o)->x); }
  ~P_AZuu() { delete x; }
  void set_masses(const Par& p) { x->set_masses(p[MU],p[MW]); }
  void set_momenta(const ldouble q[4][4]) { x->set_momenta(q[0],q[1],q[2],q[3]); }
  spinas::process* base() { return x; }
  ldouble amp2() { return x->amp2(); }
  cdouble amp(int k, const int d[4]) { switch (k) { case 0: return x->amp(d[0],d[1],d[2],d[3]); } abort(); }
  ldouble pol(int k) { switch (k) { case 0: return x->amp2_Aplus(); case 1: return x->amp2_Aminus(); } abort(); }
};
struct P_WWWW : Proc {
  spinas::WWWW* x;
  P_WWWW(const Info& i, const Par& p) : Proc(i), x(new spinas::WWWW(p[E],p[MH],p[WH],p[MW],p[WZ],p[SW])) {}
  P_WWWW(const Info& i, spinas::WWWW* y) : Proc(i), x(y) {}
  Proc* clone() { spinas::WWWW* y = copied(x); return y ? new P_WWWW(info,y) : 0; }
  bool assign(Proc* o) { return assigned(x,static_cast<P_WWWW*>(o)->x); }
  ~P_WWWW() { delete x; }
  void set_masses(const Par& p) { x->set_masses(p[MH],p[MW]); }
  void set_momenta(const ldouble q[4][4]) { x->set_momenta(q[0],q[1],q[2],q[3]); }
  spinas::process* base() { return x; }
  ldouble amp2() { return x->amp2(); }
  cdouble amp(int k, const int d[4]) { switch (k) { case 0: return x->amp(d[0],d[1],d[2],d[3]); } abort(); }
  ldouble pol(int k) { switch (k) { } abort(); }
};
struct P_ZZWW : Proc {
  spinas::ZZWW* x;
  P_ZZWW(const Info& i, const Par& p) : Proc(i), x(new spinas::ZZWW(p[E],p[MH],p[WH],p[MW],p[WW],p[SW])) {}
  P_ZZWW(const Info& i, spinas::ZZWW* y) : Proc(i), x(y) {}
  Proc* clone() { spinas::ZZWW* y = copied(x); return y ? new P_ZZWW(info,y) : 0; }
  bool assign(Proc* o) { return assigned(x,static_cast<P_ZZWW*>(o)->x); }
  ~P_ZZWW() { delete x; }
  void set_masses(const Par& p) { x->set_masses(p[MH],p[MW]); }
  void set_momenta(const ldouble q[4][4]) { x->set_momenta(q[0],q[1],q[2],q[3]); }
  spinas::process* base() { return x; }
  ldouble amp2() { return x->amp2(); }
  cdouble amp(int k, const int d[4]) { switch (k) { case 0: return x->amp(d[0],d[1],d[2],d[3]); } abort(); }
  ldouble pol(int k) { switch (k) { } abort(); }
};
struct P_dAgd : Proc {
  spinas::dAgd* x;
  P_dAgd(const Info& i, const Par& p) : Proc(i), x(new spinas::dAgd(p[E],p[GS],p[MD])) {}
  P_dAgd(const Info& i, spinas::dAgd* y) : Proc(i), x(y) {}
  Proc* clone() { spinas::dAgd* y = copied(x); return y ? new P_dAgd(info,y) : 0; }
  bool assign(Proc* o) { return assigned(x,static_cast<P_dAgd*>(o)->x); }
  ~P_dAgd() { delete x; }
  void set_masses(const Par& p) { x->set_masses(p[MD]); }
  void set_momenta(const ldouble q[4][4]) { x->set_momenta(q[0],q[1],q[2],q[3]); }
  spinas::process* base() { return x; }
  ldouble amp2() { return x->amp2(); }
  cdouble amp(int k, const int d[4]) { switch (k) { case 0: return x->amp(d[0],d[1],d[2],d[3]); } abort(); }
  ldouble pol(int k) { switch (k) { case 0: return x->amp2_Aplus(); case 1: return x->amp2_Aminus(); } abort(); }
};
struct P_ddWW : Proc {
  spinas::ddWW* x;
  P_ddWW(const Info& i, const Par& p) : Proc(i), x(new spinas::ddWW(p[E],p[MD],p[MU],p[MH],p[WH],p[MW],p[SW],p[WZ])) {}
  P_ddWW(const Info& i, spinas::ddWW* y) : Proc(i), x(y) {}
  Proc* clone() { spinas::ddWW* y = copied(x); return y ? new P_ddWW(info,y) : 0; }
  bool assign(Proc* o) { return assigned(x,static_cast<P_ddWW*>(o)->x); }
  ~P_ddWW() { delete x; }
  void set_masses(const Par& p) { x->set_masses(p[MD],p[MU],p[MH],p[MW]); }
  void set_momenta(const ldouble q[4][4]) { x->set_momenta(q[0],q[1],q[2],q[3]); }
  spinas::process* base() { return x; }
  ldouble amp2() { return x->amp2(); }
  cdouble amp(int k, const int d[4]) { switch (k) { case 0: return x->amp(d[0],d[1],d[2],d[3]); } abort(); }
  ldouble pol(int k) { switch (k) { } abort(); }
};
struct P_ddhh : Proc {
  spinas::ddhh* x;
  P_ddhh(const Info& i, const Par& p) : Proc(i), x(new spinas::ddhh(p[E],p[MD],p[MH],p[WH],p[MW],p[SW])) {}
  P_ddhh(const Info& i, spinas::ddhh* y) : Proc(i), x(y) {}
  Proc* clone() { spinas::ddhh* y = copied(x); return y ? new P_ddhh(info,y) : 0; }
  bool assign(Proc* o) { return assigned(x,static_cast<P_ddhh*>(o)->x); }
  ~P_ddhh() { delete x; }
  void set_masses(const Par& p) { x->set_masses(p[MD],p[MH],p[MW]); }
  void set_momenta(const ldouble q[4][4]) { x->set_momenta(q[0],q[1],q[2],q[3]); }
  spinas::process* base() { return x; }
  ldouble amp2() { return x->amp2(); }
  cdouble amp(int k, const int d[4]) { switch (k) { case 0: return x->amp(d[0],d[1]); } abort(); }
  ldouble pol(int k) { switch (k) { } abort(); }
};
struct P_dhdh : Proc {
  spinas::dhdh* x;
  P_dhdh(const Info& i, const Par& p) : Proc(i), x(new spinas::dhdh(p[E],p[MD],p[MH],p[WH],p[MW],p[SW])) {}
  P_dhdh(const Info& i, spinas::dhdh* y) : Proc(i), x(y) {}
  Proc* clone() { spinas::dhdh* y = copied(x); return y ? new P_dhdh(info,y) : 0; }
  bool assign(Proc* o) { return assigned(x,static_cast<P_dhdh*>(o)->x); }
  ~P_dhdh() { delete x; }
  void set_masses(const Par& p) { x->set_masses(p[MD],p[MH],p[MW]); }
  void set_momenta(const ldouble q[4][4]) { x->set_momenta(q[0],q[1],q[2],q[3]); }
  spinas::process* base() { return x; }
  ldouble amp2() { return x->amp2(); }
  cdouble amp(int k, const int d[4]) { switch (k) { case 0: return x->amp(d[0],d[2]); } abort(); }
  ldouble pol(int k) { switch (k) { } abort(); }
};
struct P_eZZe : Proc {
  spinas::eZZe* x;
  P_eZZe(const Info& i, const Par& p) : Proc(i), x(new spinas::eZZe(p[E],p[ME],p[MH],p[WH],p[MW],p[SW],p[WZ])) {}
  P_eZZe(const Info& i, spinas::eZZe* y) : Proc(i), x(y) {}
  Proc* clone() { spinas::eZZe* y = copied(x); return y ? new P_eZZe(info,y) : 0; }
  bool assign(Proc* o) { return assigned(x,static_cast<P_eZZe*>(o)->x); }
  ~P_eZZe() { delete x; }
  void set_masses(const Par& p) { x->set_masses(p[ME],p[MH],p[MW]); }
  void set_momenta(const ldouble q[4][4]) { x->set_momenta(q[0],q[1],q[2],q[3]); }
  spinas::process* base() { return x; }
  ldouble amp2() { return x->amp2(); }
  cdouble amp(int k, const int d[4]) { switch (k) { case 0: return x->amp(d[0],d[1],d[2],d[3]); } abort(); }
  ldouble pol(int k) { switch (k) { } abort(); }
};
struct P_eeZZ : Proc {
  spinas::eeZZ* x;
  P_eeZZ(const Info& i, const Par& p) : Proc(i), x(new spinas::eeZZ(p[E],p[ME],p[MH],p[WH],p[MW],p[SW],p[WZ])) {}
  P_eeZZ(const Info& i, spinas::eeZZ* y) : Proc(i), x(y) {}
  Proc* clone() { spinas::eeZZ* y = copied(x); return y ? new P_eeZZ(info,y) : 0; }
  bool assign(Proc* o) { return assigned(x,static_cast<P_eeZZ*>(o)->x); }
  ~P_eeZZ() { delete x; }
  void set_masses(const Par& p) { x->set_masses(p[ME],p[MH],p[MW]); }
  void set_momenta(const ldouble q[4][4]) { x->set_momenta(q[0],q[1],q[2],q[3]); }
  spinas::process* base() { return x; }
  ldouble amp2() { return x->amp2(); }
  cdouble amp(int k, const int d[4]) { switch (k) { case 0: return x->amp(d[0],d[1],d[2],d[3]); } abort(); }
  ldouble pol(int k) { switch (k) { } abort(); }
};
struct P_eemm : Proc {
  spinas::eemm* x;
  P_eemm(const Info& i, const Par& p) : Proc(i), x(new spinas::eemm(p[E],p[ME],p[MMU],p[MH],p[WH],p[MW],p[SW],p[WZ])) {}
  P_eemm(const Info& i, spinas::eemm* y) : Proc(i), x(y) {}
  Proc* clone() { spinas::eemm* y = copied(x); return y ? new P_eemm(info,y) : 0; }
  bool assign(Proc* o) { return assigned(x,static_cast<P_eemm*>(o)->x); }
  ~P_eemm() { delete x; }
  void set_masses(const Par& p) { x->set_masses(p[ME],p[MMU],p[MH],p[MW]); }
  void set_momenta(const ldouble q[4][4]) { x->set_momenta(q[0],q[1],q[2],q[3]); }
  spinas::process* base() { return x; }
  ldouble amp2() { return x->amp2(); }
  cdouble amp(int k, const int d[4]) { switch (k) { case 0: return x->amp(d[0],d[1],d[2],d[3]); } abort(); }
  ldouble pol(int k) { switch (k) { } abort(); }
};
struct P_enAW : Proc {
  spinas::enAW* x;
  P_enAW(const Info& i, const Par& p) : Proc(i), x(new spinas::enAW(p[E],p[ME],p[MW],p[SW],p[WW])) {}
  P_enAW(const Info& i, spinas::enAW* y) : Proc(i), x(y) {}
  Proc* clone() { spinas::enAW* y = copied(x); return y ? new P_enAW(info,y) : 0; }
  bool assign(Proc* o) { return assigned(x,static_cast<P_enAW*>(o)->x); }
  ~P_enAW() { delete x; }
  void set_masses(const Par& p) { x->set_masses(p[ME],p[MW]); }
  void set_momenta(const ldouble q[4][4]) { x->set_momenta(q[0],q[1],q[2],q[3]); }
  spinas::process* base() { return x; }
  ldouble amp2() { return x->amp2(); }
  cdouble amp(int k, const int d[4]) { switch (k) { case 0: return x->amp(d[0],d[2],d[3]); } abort(); }
  ldouble pol(int k) { switch (k) { } abort(); }
};
struct P_gAuu : Proc {
  spinas::gAuu* x;
  P_gAuu(const Info& i, const Par& p) : Proc(i), x(new spinas::gAuu(p[E],p[GS],p[MU])) {}
  P_gAuu(const Info& i, spinas::gAuu* y) : Proc(i), x(y) {}
  Proc* clone() { spinas::gAuu* y = copied(x); return y ? new P_gAuu(info,y) : 0; }
  bool assign(Proc* o) { return assigned(x,static_cast<P_gAuu*>(o)->x); }
  ~P_gAuu() { delete x; }
  void set_masses(const Par& p) { x->set_masses(p[MU]); }
  void set_momenta(const ldouble q[4][4]) { x->set_momenta(q[0],q[1],q[2],q[3]); }
  spinas::process* base() { return x; }
  ldouble amp2() { return x->amp2(); }
  cdouble amp(int k, const int d[4]) { switch (k) { case 0: return x->amp(d[0],d[1],d[2],d[3]); } abort(); }
  ldouble pol(int k) { switch (k) { case 0: return x->amp2_gplus_Aplus(); case 1: return x->amp2_gplus_Aminus(); } abort(); }
};
struct P_gggg : Proc {
  spinas::gggg* x;
  P_gggg(const Info& i, const Par& p) : Proc(i), x(new spinas::gggg(p[GS])) {}
  P_gggg(const Info& i, spinas::gggg* y) : Proc(i), x(y) {}
  Proc* clone() { spinas::gggg* y = copied(x); return y ? new P_gggg(info,y) : 0; }
  bool assign(Proc* o) { return assigned(x,static_cast<P_gggg*>(o)->x); }
  ~P_gggg() { delete x; }
  void set_momenta(const ldouble q[4][4]) { x->set_momenta(q[0],q[1],q[2],q[3]); }
  spinas::process* base() { return x; }
  ldouble amp2() { return x->amp2(); }
  cdouble amp(int k, const int d[4]) { switch (k) { case 0: return x->amp(d[0],d[1],d[2],d[3]); } abort(); }
  ldouble pol(int k) { switch (k) { case 0: return x->amp2_Feynman(); case 1: return x->amp2_gplus_gplus(); case 2: return x->amp2_gplus_gminus(); case 3: return x->amp2_gminus_gplus(); case 4: return x->amp2_gminus_gminus(); } abort(); }
};
struct P_hZZh : Proc {
  spinas::hZZh* x;
  P_hZZh(const Info& i, const Par& p) : Proc(i), x(new spinas::hZZh(p[E],p[MH],p[WH],p[MW],p[SW],p[WZ])) {}
  P_hZZh(const Info& i, spinas::hZZh* y) : Proc(i), x(y) {}
  Proc* clone() { spinas::hZZh* y = copied(x); return y ? new P_hZZh(info,y) : 0; }
  bool assign(Proc* o) { return assigned(x,static_cast<P_hZZh*>(o)->x); }
  ~P_hZZh() { delete x; }
  void set_masses(const Par& p) { x->set_masses(p[MH],p[MW]); }
  void set_momenta(const ldouble q[4][4]) { x->set_momenta(q[0],q[1],q[2],q[3]); }
  spinas::process* base() { return x; }
  ldouble amp2() { return x->amp2(); }
  cdouble amp(int k, const int d[4]) { switch (k) { case 0: return x->amp(d[1],d[2]); } abort(); }
  ldouble pol(int k) { switch (k) { } abort(); }
};
struct P_hnWe : Proc {
  spinas::hnWe* x;
  P_hnWe(const Info& i, const Par& p) : Proc(i), x(new spinas::hnWe(p[E],p[ME],p[MH],p[MW],p[WW],p[SW])) {}
  P_hnWe(const Info& i, spinas::hnWe* y) : Proc(i), x(y) {}
  Proc* clone() { spinas::hnWe* y = copied(x); return y ? new P_hnWe(info,y) : 0; }
  bool assign(Proc* o) { return assigned(x,static_cast<P_hnWe*>(o)->x); }
  ~P_hnWe() { delete x; }
  void set_masses(const Par& p) { x->set_masses(p[ME],p[MH],p[MW]); }
  void set_momenta(const ldouble q[4][4]) { x->set_momenta(q[0],q[1],q[2],q[3]); }
  spinas::process* base() { return x; }
  ldouble amp2() { return x->amp2(); }
  cdouble amp(int k, const int d[4]) { switch (k) { case 0: return x->amp(d[2],d[3]); } abort(); }
  ldouble pol(int k) { switch (k) { } abort(); }
};
struct P_nenenene : Proc {
  spinas::nenenene* x;
  P_nenenene(const Info& i, const Par& p) : Proc(i), x(new spinas::nenenene(p[E],p[MW],p[SW],p[WZ])) {}
  P_nenenene(const Info& i, spinas::nenenene* y) : Proc(i), x(y) {}
  Proc* clone() { spinas::nenenene* y = copied(x); return y ? new P_nenenene(info,y) : 0; }
  bool assign(Proc* o) { return assigned(x,static_cast<P_nenenene*>(o)->x); }
  ~P_nenenene() { delete x; }
  void set_masses(const Par& p) { x->set_masses(p[MW]); }
  void set_momenta(const ldouble q[4][4]) { x->set_momenta(q[0],q[1],q[2],q[3]); }
  spinas::process* base() { return x; }
  ldouble amp2() { return x->amp2(); }
  cdouble amp(int k, const int d[4]) { switch (k) { case 0: return x->amp(); } abort(); }
  ldouble pol(int k) { switch (k) { } abort(); }
};
struct P_nnZh : Proc {
  spinas::nnZh* x;
  P_nnZh(const Info& i, const Par& p) : Proc(i), x(new spinas::nnZh(p[E],p[MH],p[MW],p[SW],p[WZ])) {}
  P_nnZh(const Info& i, spinas::nnZh* y) : Proc(i), x(y) {}
  Proc* clone() { spinas::nnZh* y = copied(x); return y ? new P_nnZh(info,y) : 0; }
  bool assign(Proc* o) { return assigned(x,static_cast<P_nnZh*>(o)->x); }
  ~P_nnZh() { delete x; }
  void set_masses(const Par& p) { x->set_masses(p[MH],p[MW]); }
  void set_momenta(const ldouble q[4][4]) { x->set_momenta(q[0],q[1],q[2],q[3]); }
  spinas::process* base() { return x; }
  ldouble amp2() { return x->amp2(); }
  cdouble amp(int k, const int d[4]) { switch (k) { case 0: return x->amp(d[2]); } abort(); }
  ldouble pol(int k) { switch (k) { } abort(); }
};
struct P_ubdt : Proc {
  spinas::ubdt* x;
  P_ubdt(const Info& i, const Par& p) : Proc(i), x(new spinas::ubdt(p[E],p[MU],p[MD],p[MT],p[MB],p[MW],p[WW],p[SW])) {}
  P_ubdt(const Info& i, spinas::ubdt* y) : Proc(i), x(y) {}
  Proc* clone() { spinas::ubdt* y = copied(x); return y ? new P_ubdt(info,y) : 0; }
  bool assign(Proc* o) { return assigned(x,static_cast<P_ubdt*>(o)->x); }
  ~P_ubdt() { delete x; }
  void set_masses(const Par& p) { x->set_masses(p[MU],p[MD],p[MT],p[MB],p[MW]); }
  void set_momenta(const ldouble q[4][4]) { x->set_momenta(q[0],q[1],q[2],q[3]); }
  spinas::process* base() { return x; }
  ldouble amp2() { return x->amp2(); }
  cdouble amp(int k, const int d[4]) { switch (k) { case 0: return x->amp(d[0],d[1],d[2],d[3]); } abort(); }
  ldouble pol(int k) { switch (k) { } abort(); }
};
struct P_udtb : Proc {
  spinas::udtb* x;
  P_udtb(const Info& i, const Par& p) : Proc(i), x(new spinas::udtb(p[E],p[MU],p[MD],p[MT],p[MB],p[MW],p[WW],p[SW])) {}
  P_udtb(const Info& i, spinas::udtb* y) : Proc(i), x(y) {}
  Proc* clone() { spinas::udtb* y = copied(x); return y ? new P_udtb(info,y) : 0; }
  bool assign(Proc* o) { return assigned(x,static_cast<P_udtb*>(o)->x); }
  ~P_udtb() { delete x; }
  void set_masses(const Par& p) { x->set_masses(p[MU],p[MD],p[MT],p[MB],p[MW]); }
  void set_momenta(const ldouble q[4][4]) { x->set_momenta(q[0],q[1],q[2],q[3]); }
  spinas::process* base() { return x; }
  ldouble amp2() { return x->amp2(); }
  cdouble amp(int k, const int d[4]) { switch (k) { case 0: return x->amp(d[0],d[1],d[2],d[3]); } abort(); }
  ldouble pol(int k) { switch (k) { } abort(); }
};
struct P_ulnd : Proc {
  spinas::ulnd* x;
  P_ulnd(const Info& i, const Par& p) : Proc(i), x(new spinas::ulnd(p[E],p[MU],p[MD],p[MTAU],p[MW],p[WW],p[SW])) {}
  P_ulnd(const Info& i, spinas::ulnd* y) : Proc(i), x(y) {}
  Proc* clone() { spinas::ulnd* y = copied(x); return y ? new P_ulnd(info,y) : 0; }
  bool assign(Proc* o) { return assigned(x,static_cast<P_ulnd*>(o)->x); }
  ~P_ulnd() { delete x; }
  void set_masses(const Par& p) { x->set_masses(p[MU],p[MD],p[MTAU],p[MW]); }
  void set_momenta(const ldouble q[4][4]) { x->set_momenta(q[0],q[1],q[2],q[3]); }
  spinas::process* base() { return x; }
  ldouble amp2() { return x->amp2(); }
  cdouble amp(int k, const int d[4]) { switch (k) { case 0: return x->amp(d[0],d[1],d[3]); } abort(); }
  ldouble pol(int k) { switch (k) { } abort(); }
};
struct P_uuZZ : Proc {
  spinas::uuZZ* x;
  P_uuZZ(const Info& i, const Par& p) : Proc(i), x(new spinas::uuZZ(p[E],p[MU],p[MH],p[WH],p[MW],p[SW],p[WZ])) {}
  P_uuZZ(const Info& i, spinas::uuZZ* y) : Proc(i), x(y) {}
  Proc* clone() { spinas::uuZZ* y = copied(x); return y ? new P_uuZZ(info,y) : 0; }
  bool assign(Proc* o) { return assigned(x,static_cast<P_uuZZ*>(o)->x); }
  ~P_uuZZ() { delete x; }
  void set_masses(const Par& p) { x->set_masses(p[MU],p[MH],p[MW]); }
  void set_momenta(const ldouble q[4][4]) { x->set_momenta(q[0],q[1],q[2],q[3]); }
  spinas::process* base() { return x; }
  ldouble amp2() { return x->amp2(); }
  cdouble amp(int k, const int d[4]) { switch (k) { case 0: return x->amp(d[0],d[1],d[2],d[3]); } abort(); }
  ldouble pol(int k) { switch (k) { } abort(); }
};
struct P_uunn : Proc {
  spinas::uunn* x;
  P_uunn(const Info& i, const Par& p) : Proc(i), x(new spinas::uunn(p[E],p[MU],p[MW],p[SW],p[WZ])) {}
  P_uunn(const Info& i, spinas::uunn* y) : Proc(i), x(y) {}
  Proc* clone() { spinas::uunn* y = copied(x); return y ? new P_uunn(info,y) : 0; }
  bool assign(Proc* o) { return assigned(x,static_cast<P_uunn*>(o)->x); }
  ~P_uunn() { delete x; }
  void set_masses(const Par& p) { x->set_masses(p[MU],p[MW]); }
  void set_momenta(const ldouble q[4][4]) { x->set_momenta(q[0],q[1],q[2],q[3]); }
  spinas::process* base() { return x; }
  ldouble amp2() { return x->amp2(); }
  cdouble amp(int k, const int d[4]) { switch (k) { case 0: return x->amp(d[0],d[1]); } abort(); }
  ldouble pol(int k) { switch (k) { } abort(); }
};

void register_5(std::vector<Info>& r) {
  r.push_back(Info{"AWWh",{"A","W+","W+","h"},{E,MH,MW,SW,WW},{MH,MW},{0,1,2},{"amp"},{{"amp2_Aplus",{2,0,0,0}}},1,0,0,0,[](const Info& i, const Par& p) -> Proc* { return new P_AWWh(i,p); }});
  r.push_back(Info{"AZuu",{"A","Z","u","U"},{E,MU,MW,SW},{MU,MW},{0,1,2,3},{"amp"},{{"amp2_Aplus",{2,0,0,0}},{"amp2_Aminus",{-2,0,0,0}}},1,0,0,0,[](const Info& i, const Par& p) -> Proc* { return new P_AZuu(i,p); }});
  r.push_back(Info{"WWWW",{"W+","W+","W+","W+"},{E,MH,WH,MW,WZ,SW},{MH,MW},{0,1,2,3},{"amp"},{},1,0,0,0,[](const Info& i, const Par& p) -> Proc* { return new P_WWWW(i,p); }});
  r.push_back(Info{"ZZWW",{"Z","Z","W+","W-"},{E,MH,WH,MW,WW,SW},{MH,MW},{0,1,2,3},{"amp"},{},1,0,0,0,[](const Info& i, const Par& p) -> Proc* { return new P_ZZWW(i,p); }});
  r.push_back(Info{"dAgd",{"d","A","g","d"},{E,GS,MD},{MD},{0,1,2,3},{"amp"},{{"amp2_Aplus",{0,2,0,0}},{"amp2_Aminus",{0,-2,0,0}}},1,0,0,0,[](const Info& i, const Par& p) -> Proc* { return new P_dAgd(i,p); }});
  r.push_back(Info{"ddWW",{"D","d","W+","W-"},{E,MD,MU,MH,WH,MW,SW,WZ},{MD,MU,MH,MW},{0,1,2,3},{"amp"},{},1,0,0,0,[](const Info& i, const Par& p) -> Proc* { return new P_ddWW(i,p); }});
  r.push_back(Info{"ddhh",{"d","D","h","h"},{E,MD,MH,WH,MW,SW},{MD,MH,MW},{0,1},{"amp"},{},1,0,0,0,[](const Info& i, const Par& p) -> Proc* { return new P_ddhh(i,p); }});
  r.push_back(Info{"dhdh",{"d","h","d","h"},{E,MD,MH,WH,MW,SW},{MD,MH,MW},{0,2},{"amp"},{},1,0,0,0,[](const Info& i, const Par& p) -> Proc* { return new P_dhdh(i,p); }});
  r.push_back(Info{"eZZe",{"e","Z","Z","e"},{E,ME,MH,WH,MW,SW,WZ},{ME,MH,MW},{0,1,2,3},{"amp"},{},1,0,0,0,[](const Info& i, const Par& p) -> Proc* { return new P_eZZe(i,p); }});
  r.push_back(Info{"eeZZ",{"e","E","Z","Z"},{E,ME,MH,WH,MW,SW,WZ},{ME,MH,MW},{0,1,2,3},{"amp"},{},1,0,0,0,[](const Info& i, const Par& p) -> Proc* { return new P_eeZZ(i,p); }});
  r.push_back(Info{"eemm",{"e","E","m","M"},{E,ME,MMU,MH,WH,MW,SW,WZ},{ME,MMU,MH,MW},{0,1,2,3},{"amp"},{},1,0,0,0,[](const Info& i, const Par& p) -> Proc* { return new P_eemm(i,p); }});
  r.push_back(Info{"enAW",{"E","ne","A","W+"},{E,ME,MW,SW,WW},{ME,MW},{0,2,3},{"amp"},{},1,0,0,0,[](const Info& i, const Par& p) -> Proc* { return new P_enAW(i,p); }});
  r.push_back(Info{"gAuu",{"g","A","u","U"},{E,GS,MU},{MU},{0,1,2,3},{"amp"},{{"amp2_gplus_Aplus",{2,2,0,0}},{"amp2_gplus_Aminus",{2,-2,0,0}}},1,0,0,0,[](const Info& i, const Par& p) -> Proc* { return new P_gAuu(i,p); }});
  r.push_back(Info{"gggg",{"g","g","g","g"},{GS},{},{0,1,2,3},{"amp"},{{"amp2_Feynman",{0,0,0,0}},{"amp2_gplus_gplus",{2,2,0,0}},{"amp2_gplus_gminus",{2,-2,0,0}},{"amp2_gminus_gplus",{-2,2,0,0}},{"amp2_gminus_gminus",{-2,-2,0,0}}},0,0,0,0,[](const Info& i, const Par& p) -> Proc* { return new P_gggg(i,p); }});
  r.push_back(Info{"hZZh",{"h","Z","Z","h"},{E,MH,WH,MW,SW,WZ},{MH,MW},{1,2},{"amp"},{},1,0,0,0,[](const Info& i, const Par& p) -> Proc* { return new P_hZZh(i,p); }});
  r.push_back(Info{"hnWe",{"h","ne","W+","e"},{E,ME,MH,MW,WW,SW},{ME,MH,MW},{2,3},{"amp"},{},1,0,0,0,[](const Info& i, const Par& p) -> Proc* { return new P_hnWe(i,p); }});
  r.push_back(Info{"nenenene",{"ne","Ne","ne","Ne"},{E,MW,SW,WZ},{MW},{},{"amp"},{},1,0,0,0,[](const Info& i, const Par& p) -> Proc* { return new P_nenenene(i,p); }});
  r.push_back(Info{"nnZh",{"ne","Ne","Z","h"},{E,MH,MW,SW,WZ},{MH,MW},{2},{"amp"},{},1,0,0,0,[](const Info& i, const Par& p) -> Proc* { return new P_nnZh(i,p); }});
  r.push_back(Info{"ubdt",{"u","b","d","t"},{E,MU,MD,MT,MB,MW,WW,SW},{MU,MD,MT,MB,MW},{0,1,2,3},{"amp"},{},1,0,0,0,[](const Info& i, const Par& p) -> Proc* { return new P_ubdt(i,p); }});
  r.push_back(Info{"udtb",{"u","D","t","B"},{E,MU,MD,MT,MB,MW,WW,SW},{MU,MD,MT,MB,MW},{0,1,2,3},{"amp"},{},1,0,0,0,[](const Info& i, const Par& p) -> Proc* { return new P_udtb(i,p); }});
  r.push_back(Info{"ulnd",{"U","L","Nl","D"},{E,MU,MD,MTAU,MW,WW,SW},{MU,MD,MTAU,MW},{0,1,3},{"amp"},{},1,0,0,0,[](const Info& i, const Par& p) -> Proc* { return new P_ulnd(i,p); }});
  r.push_back(Info{"uuZZ",{"u","U","Z","Z"},{E,MU,MH,WH,MW,SW,WZ},{MU,MH,MW},{0,1,2,3},{"amp"},{},1,0,0,0,[](const Info& i, const Par& p) -> Proc* { return new P_uuZZ(i,p); }});
  r.push_back(Info{"uunn",{"u","U","ne","Ne"},{E,MU,MW,SW,WZ},{MU,MW},{0,1},{"amp"},{},1,0,0,0,[](const Info& i, const Par& p) -> Proc* { return new P_uunn(i,p); }});
}

}
