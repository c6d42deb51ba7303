// Written by gen_registry.py.
#include "sm_registry.h"
#include "include/AAWW.h"
#include "include/AWZW.h"
#include "include/AdZd.h"
#include "include/WWWW2.h"
#include "include/ZZZZ.h"
#include "include/dWgu.h"
#include "include/ddZZ.h"
#include "include/ddnn.h"
#include "include/dnnd.h"
#include "include/eZeh.h"
#include "include/eeZh.h"
#include "include/eemmQED.h"
#include "include/enWh.h"
#include "include/gWud.h"
#include "include/gguu.h"
#include "include/hgdd.h"
#include "include/menn.h"
#include "include/nenenene2.h"
#include "include/uAAu.h"
#include "include/ucuc.h"
#include "include/udud.h"
#include "include/unnu.h"
#include "include/uuZh.h"
#include "include/uuss.h"

namespace sm {

struct P_AAWW : Proc {
  spinas::AAWW* x;
  P_AAWW(const Info& i, const Par& p) : Proc(i), x(new spinas::AAWW(p[E],p[MW],p[SW],p[WW])) {}
  P_AAWW(const Info& i, spinas::AAWW* y) : Proc(i), x(y) {}
  Proc* clone() { spinas::AAWW* y = copied(x); return y ? new P_AAWW(info,y) : 0; }
  bool assign(Proc* o) { return assigned(x,static_cast<P_AAWW*>(o)->x); }
  ~P_AAWW() { delete x; }
  void set_masses(const Par& p) { x->set_masses(p[MW]); }
  void set_momenta(const ldouble q[4][4]) { x->set_momenta(q[0],q[1],q[2],q[3]); }
  spinas::process* base() { return x; }
  ldouble amp2() { return x->amp2(); }
  cdouble amp(int k, const int d[4]) { switch (k) { case 0: return x->amp(d[0],d[1],d[2],d[3]); } abort(); }
  ldouble pol(int k) { switch (k) { case 0: return x->amp2_Aplus_Aplus(); case 1: return x->amp2_Aplus_Aminus(); } abort(); }
};
struct P_AWZW : Proc {
  spinas::AWZW* x;
  P_AWZW(const Info& i, const Par& p) : Proc(i), x(new spinas::AWZW(p[E],p[MW],p[SW],p[WW])) {}
  P_AWZW(const Info& i, spinas::AWZW* y) : Proc(i), x(y) {}
  Proc* clone() { spinas::AWZW* y = copied(x); return y ? new P_AWZW(info,y) : 0; }
  bool assign(Proc* o) { return assigned(x,static_cast<P_AWZW*>(o)->x); }
  ~P_AWZW() { delete x; }
  void set_masses(const Par& p) { x->set_masses(p[MW]); }
  void set_momenta(const ldouble q[4][4]) { x->set_momenta(q[0],q[1],q[2],q[3]); }
  spinas::process* base() { return x; }
  ldouble amp2() { return x->amp2(); }
  cdouble amp(int k, const int d[4]) { switch (k) { case 0: return x->amp(d[0],d[1],d[2],d[3]); } abort(); }
  ldouble pol(int k) { switch (k) { case 0: return x->amp2_Aplus(); } abort(); }
};
struct P_AdZd : Proc {
  spinas::AdZd* x;
  P_AdZd(const Info& i, const Par& p) : Proc(i), x(new spinas::AdZd(p[E],p[MD],p[MW],p[SW])) {}
  P_AdZd(const Info& i, spinas::AdZd* y) : Proc(i), x(y) {}
  Proc* clone() { spinas::AdZd* y = copied(x); return y ? new P_AdZd(info,y) : 0; }
  bool assign(Proc* o) { return assigned(x,static_cast<P_AdZd*>(o)->x); }
  ~P_AdZd() { delete x; }
  void set_masses(const Par& p) { x->set_masses(p[MD],p[MW]); }
  void set_momenta(const ldouble q[4][4]) { x->set_momenta(q[0],q[1],q[2],q[3]); }
  spinas::process* base() { return x; }
  ldouble amp2() { return x->amp2(); }
  cdouble amp(int k, const int d[4]) { switch (k) { case 0: return x->amp(d[0],d[1],d[2],d[3]); } abort(); }
  ldouble pol(int k) { switch (k) { case 0: return x->amp2_Aplus(); case 1: return x->amp2_Aminus(); } abort(); }
};
struct P_WWWW2 : Proc {
  spinas::WWWW2* x;
  P_WWWW2(const Info& i, const Par& p) : Proc(i), x(new spinas::WWWW2(p[E],p[MH],p[WH],p[MW],p[WZ],p[SW])) {}
  P_WWWW2(const Info& i, spinas::WWWW2* y) : Proc(i), x(y) {}
  Proc* clone() { spinas::WWWW2* y = copied(x); return y ? new P_WWWW2(info,y) : 0; }
  bool assign(Proc* o) { return assigned(x,static_cast<P_WWWW2*>(o)->x); }
  ~P_WWWW2() { delete x; }
  void set_masses(const Par& p) { x->set_masses(p[MH],p[MW]); }
  void set_momenta(const ldouble q[4][4]) { x->set_momenta(q[0],q[1],q[2],q[3]); }
  spinas::process* base() { return x; }
  ldouble amp2() { return x->amp2(); }
  cdouble amp(int k, const int d[4]) { switch (k) { case 0: return x->amp(d[0],d[1],d[2],d[3]); } abort(); }
  ldouble pol(int k) { switch (k) { } abort(); }
};
struct P_ZZZZ : Proc {
  spinas::ZZZZ* x;
  P_ZZZZ(const Info& i, const Par& p) : Proc(i), x(new spinas::ZZZZ(p[E],p[MH],p[WH],p[MW],p[SW])) {}
  P_ZZZZ(const Info& i, spinas::ZZZZ* y) : Proc(i), x(y) {}
  Proc* clone() { spinas::ZZZZ* y = copied(x); return y ? new P_ZZZZ(info,y) : 0; }
  bool assign(Proc* o) { return assigned(x,static_cast<P_ZZZZ*>(o)->x); }
  ~P_ZZZZ() { delete x; }
  void set_masses(const Par& p) { x->set_masses(p[MH],p[MW]); }
  void set_momenta(const ldouble q[4][4]) { x->set_momenta(q[0],q[1],q[2],q[3]); }
  spinas::process* base() { return x; }
  ldouble amp2() { return x->amp2(); }
  cdouble amp(int k, const int d[4]) { switch (k) { case 0: return x->amp(d[0],d[1],d[2],d[3]); } abort(); }
  ldouble pol(int k) { switch (k) { } abort(); }
};
struct P_dWgu : Proc {
  spinas::dWgu* x;
  P_dWgu(const Info& i, const Par& p) : Proc(i), x(new spinas::dWgu(p[E],p[GS],p[MU],p[MD],p[MW],p[SW])) {}
  P_dWgu(const Info& i, spinas::dWgu* y) : Proc(i), x(y) {}
  Proc* clone() { spinas::dWgu* y = copied(x); return y ? new P_dWgu(info,y) : 0; }
  bool assign(Proc* o) { return assigned(x,static_cast<P_dWgu*>(o)->x); }
  ~P_dWgu() { delete x; }
  void set_masses(const Par& p) { x->set_masses(p[MU],p[MD],p[MW]); }
  void set_momenta(const ldouble q[4][4]) { x->set_momenta(q[0],q[1],q[2],q[3]); }
  spinas::process* base() { return x; }
  ldouble amp2() { return x->amp2(); }
  cdouble amp(int k, const int d[4]) { switch (k) { case 0: return x->amp(d[0],d[1],d[2],d[3]); } abort(); }
  ldouble pol(int k) { switch (k) { } abort(); }
};
struct P_ddZZ : Proc {
  spinas::ddZZ* x;
  P_ddZZ(const Info& i, const Par& p) : Proc(i), x(new spinas::ddZZ(p[E],p[MD],p[MH],p[WH],p[MW],p[SW],p[WZ])) {}
  P_ddZZ(const Info& i, spinas::ddZZ* y) : Proc(i), x(y) {}
  Proc* clone() { spinas::ddZZ* y = copied(x); return y ? new P_ddZZ(info,y) : 0; }
  bool assign(Proc* o) { return assigned(x,static_cast<P_ddZZ*>(o)->x); }
  ~P_ddZZ() { delete x; }
  void set_masses(const Par& p) { x->set_masses(p[MD],p[MH],p[MW]); }
  void set_momenta(const ldouble q[4][4]) { x->set_momenta(q[0],q[1],q[2],q[3]); }
  spinas::process* base() { return x; }
  ldouble amp2() { return x->amp2(); }
  cdouble amp(int k, const int d[4]) { switch (k) { case 0: return x->amp(d[0],d[1],d[2],d[3]); } abort(); }
  ldouble pol(int k) { switch (k) { } abort(); }
};
struct P_ddnn : Proc {
  spinas::ddnn* x;
  P_ddnn(const Info& i, const Par& p) : Proc(i), x(new spinas::ddnn(p[E],p[MD],p[MW],p[SW],p[WZ])) {}
  P_ddnn(const Info& i, spinas::ddnn* y) : Proc(i), x(y) {}
  Proc* clone() { spinas::ddnn* y = copied(x); return y ? new P_ddnn(info,y) : 0; }
  bool assign(Proc* o) { return assigned(x,static_cast<P_ddnn*>(o)->x); }
  ~P_ddnn() { delete x; }
  void set_masses(const Par& p) { x->set_masses(p[MD],p[MW]); }
  void set_momenta(const ldouble q[4][4]) { x->set_momenta(q[0],q[1],q[2],q[3]); }
  spinas::process* base() { return x; }
  ldouble amp2() { return x->amp2(); }
  cdouble amp(int k, const int d[4]) { switch (k) { case 0: return x->amp(d[0],d[1]); } abort(); }
  ldouble pol(int k) { switch (k) { } abort(); }
};
struct P_dnnd : Proc {
  spinas::dnnd* x;
  P_dnnd(const Info& i, const Par& p) : Proc(i), x(new spinas::dnnd(p[E],p[MD],p[MW],p[SW],p[WZ])) {}
  P_dnnd(const Info& i, spinas::dnnd* y) : Proc(i), x(y) {}
  Proc* clone() { spinas::dnnd* y = copied(x); return y ? new P_dnnd(info,y) : 0; }
  bool assign(Proc* o) { return assigned(x,static_cast<P_dnnd*>(o)->x); }
  ~P_dnnd() { delete x; }
  void set_masses(const Par& p) { x->set_masses(p[MD],p[MW]); }
  void set_momenta(const ldouble q[4][4]) { x->set_momenta(q[0],q[1],q[2],q[3]); }
  spinas::process* base() { return x; }
  ldouble amp2() { return x->amp2(); }
  cdouble amp(int k, const int d[4]) { switch (k) { case 0: return x->amp(d[0],d[3]); } abort(); }
  ldouble pol(int k) { switch (k) { } abort(); }
};
struct P_eZeh : Proc {
  spinas::eZeh* x;
  P_eZeh(const Info& i, const Par& p) : Proc(i), x(new spinas::eZeh(p[E],p[ME],p[MH],p[WH],p[MW],p[SW],p[WZ])) {}
  P_eZeh(const Info& i, spinas::eZeh* y) : Proc(i), x(y) {}
  Proc* clone() { spinas::eZeh* y = copied(x); return y ? new P_eZeh(info,y) : 0; }
  bool assign(Proc* o) { return assigned(x,static_cast<P_eZeh*>(o)->x); }
  ~P_eZeh() { delete x; }
  void set_masses(const Par& p) { x->set_masses(p[ME],p[MH],p[MW]); }
  void set_momenta(const ldouble q[4][4]) { x->set_momenta(q[0],q[1],q[2],q[3]); }
  spinas::process* base() { return x; }
  ldouble amp2() { return x->amp2(); }
  cdouble amp(int k, const int d[4]) { switch (k) { case 0: return x->amp(d[0],d[1],d[2]); } abort(); }
  ldouble pol(int k) { switch (k) { } abort(); }
};
struct P_eeZh : Proc {
  spinas::eeZh* x;
  P_eeZh(const Info& i, const Par& p) : Proc(i), x(new spinas::eeZh(p[E],p[ME],p[MH],p[WH],p[MW],p[SW],p[WZ])) {}
  P_eeZh(const Info& i, spinas::eeZh* y) : Proc(i), x(y) {}
  Proc* clone() { spinas::eeZh* y = copied(x); return y ? new P_eeZh(info,y) : 0; }
  bool assign(Proc* o) { return assigned(x,static_cast<P_eeZh*>(o)->x); }
  ~P_eeZh() { delete x; }
  void set_masses(const Par& p) { x->set_masses(p[ME],p[MH],p[MW]); }
  void set_momenta(const ldouble q[4][4]) { x->set_momenta(q[0],q[1],q[2],q[3]); }
  spinas::process* base() { return x; }
  ldouble amp2() { return x->amp2(); }
  cdouble amp(int k, const int d[4]) { switch (k) { case 0: return x->amp(d[0],d[1],d[2]); } abort(); }
  ldouble pol(int k) { switch (k) { } abort(); }
};
struct P_eemmQED : Proc {
  spinas::eemmQED* x;
  P_eemmQED(const Info& i, const Par& p) : Proc(i), x(new spinas::eemmQED(p[E],p[ME],p[MMU])) {}
  P_eemmQED(const Info& i, spinas::eemmQED* y) : Proc(i), x(y) {}
  Proc* clone() { spinas::eemmQED* y = copied(x); return y ? new P_eemmQED(info,y) : 0; }
  bool assign(Proc* o) { return assigned(x,static_cast<P_eemmQED*>(o)->x); }
  ~P_eemmQED() { delete x; }
  void set_masses(const Par& p) { x->set_masses(p[ME],p[MMU]); }
  void set_momenta(const ldouble q[4][4]) { x->set_momenta(q[0],q[1],q[2],q[3]); }
  spinas::process* base() { return x; }
  ldouble amp2() { return x->amp2(); }
  cdouble amp(int k, const int d[4]) { switch (k) { case 0: return x->amp(d[0],d[1],d[2],d[3]); } abort(); }
  ldouble pol(int k) { switch (k) { } abort(); }
  ldouble amp2_of(const ldouble q[4][4]) { return x->amp2(q[0],q[1],q[2],q[3]); }
};
struct P_enWh : Proc {
  spinas::enWh* x;
  P_enWh(const Info& i, const Par& p) : Proc(i), x(new spinas::enWh(p[E],p[ME],p[MH],p[MW],p[WW],p[SW])) {}
  P_enWh(const Info& i, spinas::enWh* y) : Proc(i), x(y) {}
  Proc* clone() { spinas::enWh* y = copied(x); return y ? new P_enWh(info,y) : 0; }
  bool assign(Proc* o) { return assigned(x,static_cast<P_enWh*>(o)->x); }
  ~P_enWh() { delete x; }
  void set_masses(const Par& p) { x->set_masses(p[ME],p[MH],p[MW]); }
  void set_momenta(const ldouble q[4][4]) { x->set_momenta(q[0],q[1],q[2],q[3]); }
  spinas::process* base() { return x; }
  ldouble amp2() { return x->amp2(); }
  cdouble amp(int k, const int d[4]) { switch (k) { case 0: return x->amp(d[0],d[2]); } abort(); }
  ldouble pol(int k) { switch (k) { } abort(); }
};
struct P_gWud : Proc {
  spinas::gWud* x;
  P_gWud(const Info& i, const Par& p) : Proc(i), x(new spinas::gWud(p[E],p[GS],p[MU],p[MD],p[MW],p[SW])) {}
  P_gWud(const Info& i, spinas::gWud* y) : Proc(i), x(y) {}
  Proc* clone() { spinas::gWud* y = copied(x); return y ? new P_gWud(info,y) : 0; }
  bool assign(Proc* o) { return assigned(x,static_cast<P_gWud*>(o)->x); }
  ~P_gWud() { delete x; }
  void set_masses(const Par& p) { x->set_masses(p[MU],p[MD],p[MW]); }
  void set_momenta(const ldouble q[4][4]) { x->set_momenta(q[0],q[1],q[2],q[3]); }
  spinas::process* base() { return x; }
  ldouble amp2() { return x->amp2(); }
  cdouble amp(int k, const int d[4]) { switch (k) { case 0: return x->amp(d[0],d[1],d[2],d[3]); } abort(); }
  ldouble pol(int k) { switch (k) { case 0: return x->amp2_gplus(); } abort(); }
};
struct P_gguu : Proc {
  spinas::gguu* x;
  P_gguu(const Info& i, const Par& p) : Proc(i), x(new spinas::gguu(p[GS],p[MU])) {}
  P_gguu(const Info& i, spinas::gguu* y) : Proc(i), x(y) {}
  Proc* clone() { spinas::gguu* y = copied(x); return y ? new P_gguu(info,y) : 0; }
  bool assign(Proc* o) { return assigned(x,static_cast<P_gguu*>(o)->x); }
  ~P_gguu() { delete x; }
  void set_masses(const Par& p) { x->set_masses(p[MU]); }
  void set_momenta(const ldouble q[4][4]) { x->set_momenta(q[0],q[1],q[2],q[3]); }
  spinas::process* base() { return x; }
  ldouble amp2() { return x->amp2(); }
  cdouble amp(int k, const int d[4]) { switch (k) { case 0: return x->amp_Num(d[0],d[1],d[2],d[3]); } abort(); }
  ldouble pol(int k) { switch (k) { case 0: return x->amp2_Feynman(); case 1: return x->amp2_gplus_gplus(); case 2: return x->amp2_gplus_gminus(); } abort(); }
};
struct P_hgdd : Proc {
  spinas::hgdd* x;
  P_hgdd(const Info& i, const Par& p) : Proc(i), x(new spinas::hgdd(p[E],p[GS],p[MD],p[MH],p[MW],p[SW])) {}
  P_hgdd(const Info& i, spinas::hgdd* y) : Proc(i), x(y) {}
  Proc* clone() { spinas::hgdd* y = copied(x); return y ? new P_hgdd(info,y) : 0; }
  bool assign(Proc* o) { return assigned(x,static_cast<P_hgdd*>(o)->x); }
  ~P_hgdd() { delete x; }
  void set_masses(const Par& p) { x->set_masses(p[MD],p[MH],p[MW]); }
  void set_momenta(const ldouble q[4][4]) { x->set_momenta(q[0],q[1],q[2],q[3]); }
  spinas::process* base() { return x; }
  ldouble amp2() { return x->amp2(); }
  cdouble amp(int k, const int d[4]) { switch (k) { case 0: return x->amp(d[1],d[2],d[3]); } abort(); }
  ldouble pol(int k) { switch (k) { case 0: return x->amp2_gplus(); } abort(); }
};
struct P_menn : Proc {
  spinas::menn* x;
  P_menn(const Info& i, const Par& p) : Proc(i), x(new spinas::menn(p[E],p[ME],p[MMU],p[MW],p[WW],p[SW])) {}
  P_menn(const Info& i, spinas::menn* y) : Proc(i), x(y) {}
  Proc* clone() { spinas::menn* y = copied(x); return y ? new P_menn(info,y) : 0; }
  bool assign(Proc* o) { return assigned(x,static_cast<P_menn*>(o)->x); }
  ~P_menn() { delete x; }
  void set_masses(const Par& p) { x->set_masses(p[ME],p[MMU],p[MW]); }
  void set_momenta(const ldouble q[4][4]) { x->set_momenta(q[0],q[1],q[2],q[3]); }
  spinas::process* base() { return x; }
  ldouble amp2() { return x->amp2(); }
  cdouble amp(int k, const int d[4]) { switch (k) { case 0: return x->amp(d[0],d[1]); } abort(); }
  ldouble pol(int k) { switch (k) { } abort(); }
};
struct P_nenenene2 : Proc {
  spinas::nenenene2* x;
  P_nenenene2(const Info& i, const Par& p) : Proc(i), x(new spinas::nenenene2(p[E],p[MW],p[SW],p[WZ])) {}
  P_nenenene2(const Info& i, spinas::nenenene2* y) : Proc(i), x(y) {}
  Proc* clone() { spinas::nenenene2* y = copied(x); return y ? new P_nenenene2(info,y) : 0; }
  bool assign(Proc* o) { return assigned(x,static_cast<P_nenenene2*>(o)->x); }
  ~P_nenenene2() { delete x; }
  void set_masses(const Par& p) { x->set_masses(p[MW]); }
  void set_momenta(const ldouble q[4][4]) { x->set_momenta(q[0],q[1],q[2],q[3]); }
  spinas::process* base() { return x; }
  ldouble amp2() { return x->amp2(); }
  cdouble amp(int k, const int d[4]) { switch (k) { case 0: return x->amp(); } abort(); }
  ldouble pol(int k) { switch (k) { } abort(); }
};
struct P_uAAu : Proc {
  spinas::uAAu* x;
  P_uAAu(const Info& i, const Par& p) : Proc(i), x(new spinas::uAAu(p[E],p[MU])) {}
  P_uAAu(const Info& i, spinas::uAAu* y) : Proc(i), x(y) {}
  Proc* clone() { spinas::uAAu* y = copied(x); return y ? new P_uAAu(info,y) : 0; }
  bool assign(Proc* o) { return assigned(x,static_cast<P_uAAu*>(o)->x); }
  ~P_uAAu() { delete x; }
  void set_masses(const Par& p) { x->set_masses(p[MU]); }
  void set_momenta(const ldouble q[4][4]) { x->set_momenta(q[0],q[1],q[2],q[3]); }
  spinas::process* base() { return x; }
  ldouble amp2() { return x->amp2(); }
  cdouble amp(int k, const int d[4]) { switch (k) { case 0: return x->amp(d[0],d[1],d[2],d[3]); } abort(); }
  ldouble pol(int k) { switch (k) { case 0: return x->amp2_Aplus(); case 1: return x->amp2_Aminus(); } abort(); }
};
struct P_ucuc : Proc {
  spinas::ucuc* x;
  P_ucuc(const Info& i, const Par& p) : Proc(i), x(new spinas::ucuc(p[E],p[GS],p[MU],p[MC],p[MH],p[WH],p[MW],p[SW],p[WZ])) {}
  P_ucuc(const Info& i, spinas::ucuc* y) : Proc(i), x(y) {}
  Proc* clone() { spinas::ucuc* y = copied(x); return y ? new P_ucuc(info,y) : 0; }
  bool assign(Proc* o) { return assigned(x,static_cast<P_ucuc*>(o)->x); }
  ~P_ucuc() { delete x; }
  void set_masses(const Par& p) { x->set_masses(p[MU],p[MC],p[MH],p[MW]); }
  void set_momenta(const ldouble q[4][4]) { x->set_momenta(q[0],q[1],q[2],q[3]); }
  spinas::process* base() { return x; }
  ldouble amp2() { return x->amp2(); }
  cdouble amp(int k, const int d[4]) { switch (k) { case 0: return x->amp_gluon(d[0],d[1],d[2],d[3]); case 1: return x->amp_rest(d[0],d[1],d[2],d[3]); } abort(); }
  ldouble pol(int k) { switch (k) { } abort(); }
};
struct P_udud : Proc {
  spinas::udud* x;
  P_udud(const Info& i, const Par& p) : Proc(i), x(new spinas::udud(p[E],p[GS],p[MU],p[MD],p[MH],p[WH],p[MW],p[WW],p[SW],p[WZ])) {}
  P_udud(const Info& i, spinas::udud* y) : Proc(i), x(y) {}
  Proc* clone() { spinas::udud* y = copied(x); return y ? new P_udud(info,y) : 0; }
  bool assign(Proc* o) { return assigned(x,static_cast<P_udud*>(o)->x); }
  ~P_udud() { delete x; }
  void set_masses(const Par& p) { x->set_masses(p[MU],p[MD],p[MH],p[MW]); }
  void set_momenta(const ldouble q[4][4]) { x->set_momenta(q[0],q[1],q[2],q[3]); }
  spinas::process* base() { return x; }
  ldouble amp2() { return x->amp2(); }
  cdouble amp(int k, const int d[4]) { switch (k) { case 0: return x->amp_gluon(d[0],d[1],d[2],d[3]); case 1: return x->amp_rest(d[0],d[1],d[2],d[3]); case 2: return x->amp_W(d[0],d[1],d[2],d[3]); } abort(); }
  ldouble pol(int k) { switch (k) { } abort(); }
};
struct P_unnu : Proc {
  spinas::unnu* x;
  P_unnu(const Info& i, const Par& p) : Proc(i), x(new spinas::unnu(p[E],p[MU],p[MW],p[SW],p[WZ])) {}
  P_unnu(const Info& i, spinas::unnu* y) : Proc(i), x(y) {}
  Proc* clone() { spinas::unnu* y = copied(x); return y ? new P_unnu(info,y) : 0; }
  bool assign(Proc* o) { return assigned(x,static_cast<P_unnu*>(o)->x); }
  ~P_unnu() { delete x; }
  void set_masses(const Par& p) { x->set_masses(p[MU],p[MW]); }
  void set_momenta(const ldouble q[4][4]) { x->set_momenta(q[0],q[1],q[2],q[3]); }
  spinas::process* base() { return x; }
  ldouble amp2() { return x->amp2(); }
  cdouble amp(int k, const int d[4]) { switch (k) { case 0: return x->amp(d[0],d[3]); } abort(); }
  ldouble pol(int k) { switch (k) { } abort(); }
};
struct P_uuZh : Proc {
  spinas::uuZh* x;
  P_uuZh(const Info& i, const Par& p) : Proc(i), x(new spinas::uuZh(p[E],p[MU],p[MH],p[WH],p[MW],p[SW],p[WZ])) {}
  P_uuZh(const Info& i, spinas::uuZh* y) : Proc(i), x(y) {}
  Proc* clone() { spinas::uuZh* y = copied(x); return y ? new P_uuZh(info,y) : 0; }
  bool assign(Proc* o) { return assigned(x,static_cast<P_uuZh*>(o)->x); }
  ~P_uuZh() { delete x; }
  void set_masses(const Par& p) { x->set_masses(p[MU],p[MH],p[MW]); }
  void set_momenta(const ldouble q[4][4]) { x->set_momenta(q[0],q[1],q[2],q[3]); }
  spinas::process* base() { return x; }
  ldouble amp2() { return x->amp2(); }
  cdouble amp(int k, const int d[4]) { switch (k) { case 0: return x->amp(d[0],d[1],d[2]); } abort(); }
  ldouble pol(int k) { switch (k) { } abort(); }
};
struct P_uuss : Proc {
  spinas::uuss* x;
  P_uuss(const Info& i, const Par& p) : Proc(i), x(new spinas::uuss(p[E],p[GS],p[MU],p[MS],p[MH],p[WH],p[MW],p[SW],p[WZ])) {}
  P_uuss(const Info& i, spinas::uuss* y) : Proc(i), x(y) {}
  Proc* clone() { spinas::uuss* y = copied(x); return y ? new P_uuss(info,y) : 0; }
  bool assign(Proc* o) { return assigned(x,static_cast<P_uuss*>(o)->x); }
  ~P_uuss() { delete x; }
  void set_masses(const Par& p) { x->set_masses(p[MU],p[MS],p[MH],p[MW]); }
  void set_momenta(const ldouble q[4][4]) { x->set_momenta(q[0],q[1],q[2],q[3]); }
  spinas::process* base() { return x; }
  ldouble amp2() { return x->amp2(); }
  cdouble amp(int k, const int d[4]) { switch (k) { case 0: return x->amp_gluon(d[0],d[1],d[2],d[3]); case 1: return x->amp_rest(d[0],d[1],d[2],d[3]); } abort(); }
  ldouble pol(int k) { switch (k) { } abort(); }
};

void register_0(std::vector<Info>& r) {
  r.push_back(Info{"AAWW",{"A","A","W+","W-"},{E,MW,SW,WW},{MW},{0,1,2,3},{"amp"},{{"amp2_Aplus_Aplus",{2,2,0,0}},{"amp2_Aplus_Aminus",{2,-2,0,0}}},1,0,0,0,[](const Info& i, const Par& p) -> Proc* { return new P_AAWW(i,p); }});
  r.push_back(Info{"AWZW",{"A","W+","Z","W+"},{E,MW,SW,WW},{MW},{0,1,2,3},{"amp"},{{"amp2_Aplus",{2,0,0,0}}},1,0,0,0,[](const Info& i, const Par& p) -> Proc* { return new P_AWZW(i,p); }});
  r.push_back(Info{"AdZd",{"A","d","Z","d"},{E,MD,MW,SW},{MD,MW},{0,1,2,3},{"amp"},{{"amp2_Aplus",{2,0,0,0}},{"amp2_Aminus",{-2,0,0,0}}},1,0,0,0,[](const Info& i, const Par& p) -> Proc* { return new P_AdZd(i,p); }});
  r.push_back(Info{"WWWW2",{"W+","W-","W+","W-"},{E,MH,WH,MW,WZ,SW},{MH,MW},{0,1,2,3},{"amp"},{},1,0,0,0,[](const Info& i, const Par& p) -> Proc* { return new P_WWWW2(i,p); }});
  r.push_back(Info{"ZZZZ",{"Z","Z","Z","Z"},{E,MH,WH,MW,SW},{MH,MW},{0,1,2,3},{"amp"},{},1,0,0,0,[](const Info& i, const Par& p) -> Proc* { return new P_ZZZZ(i,p); }});
  r.push_back(Info{"dWgu",{"d","W+","g","u"},{E,GS,MU,MD,MW,SW},{MU,MD,MW},{0,1,2,3},{"amp"},{},1,0,0,0,[](const Info& i, const Par& p) -> Proc* { return new P_dWgu(i,p); }});
  r.push_back(Info{"ddZZ",{"d","D","Z","Z"},{E,MD,MH,WH,MW,SW,WZ},{MD,MH,MW},{0,1,2,3},{"amp"},{},1,0,0,0,[](const Info& i, const Par& p) -> Proc* { return new P_ddZZ(i,p); }});
  r.push_back(Info{"ddnn",{"d","D","ne","Ne"},{E,MD,MW,SW,WZ},{MD,MW},{0,1},{"amp"},{},1,0,0,0,[](const Info& i, const Par& p) -> Proc* { return new P_ddnn(i,p); }});
  r.push_back(Info{"dnnd",{"d","nm","nm","d"},{E,MD,MW,SW,WZ},{MD,MW},{0,3},{"amp"},{},1,0,0,0,[](const Info& i, const Par& p) -> Proc* { return new P_dnnd(i,p); }});
  r.push_back(Info{"eZeh",{"e","Z","e","h"},{E,ME,MH,WH,MW,SW,WZ},{ME,MH,MW},{0,1,2},{"amp"},{},1,0,0,0,[](const Info& i, const Par& p) -> Proc* { return new P_eZeh(i,p); }});
  r.push_back(Info{"eeZh",{"e","E","Z","h"},{E,ME,MH,WH,MW,SW,WZ},{ME,MH,MW},{0,1,2},{"amp"},{},1,0,0,0,[](const Info& i, const Par& p) -> Proc* { return new P_eeZh(i,p); }});
  r.push_back(Info{"eemmQED",{"e","E","m","M"},{E,ME,MMU},{ME,MMU},{0,1,2,3},{"amp"},{},1,0,1,1,[](const Info& i, const Par& p) -> Proc* { return new P_eemmQED(i,p); }});
  r.push_back(Info{"enWh",{"E","ne","W+","h"},{E,ME,MH,MW,WW,SW},{ME,MH,MW},{0,2},{"amp"},{},1,0,0,0,[](const Info& i, const Par& p) -> Proc* { return new P_enWh(i,p); }});
  r.push_back(Info{"gWud",{"g","W+","u","D"},{E,GS,MU,MD,MW,SW},{MU,MD,MW},{0,1,2,3},{"amp"},{{"amp2_gplus",{2,0,0,0}}},1,0,0,0,[](const Info& i, const Par& p) -> Proc* { return new P_gWud(i,p); }});
  r.push_back(Info{"gguu",{"g","g","u","U"},{GS,MU},{MU},{0,1,2,3},{"amp_Num"},{{"amp2_Feynman",{0,0,0,0}},{"amp2_gplus_gplus",{2,2,0,0}},{"amp2_gplus_gminus",{2,-2,0,0}}},1,0,0,0,[](const Info& i, const Par& p) -> Proc* { return new P_gguu(i,p); }});
  r.push_back(Info{"hgdd",{"h","g","d","D"},{E,GS,MD,MH,MW,SW},{MD,MH,MW},{1,2,3},{"amp"},{{"amp2_gplus",{0,2,0,0}}},1,0,0,0,[](const Info& i, const Par& p) -> Proc* { return new P_hgdd(i,p); }});
  r.push_back(Info{"menn",{"m","E","Ne","nm"},{E,ME,MMU,MW,WW,SW},{ME,MMU,MW},{0,1},{"amp"},{},1,0,0,0,[](const Info& i, const Par& p) -> Proc* { return new P_menn(i,p); }});
  r.push_back(Info{"nenenene2",{"ne","ne","ne","ne"},{E,MW,SW,WZ},{MW},{},{"amp"},{},1,0,0,0,[](const Info& i, const Par& p) -> Proc* { return new P_nenenene2(i,p); }});
  r.push_back(Info{"uAAu",{"u","A","A","u"},{E,MU},{MU},{0,1,2,3},{"amp"},{{"amp2_Aplus",{0,2,0,0}},{"amp2_Aminus",{0,-2,0,0}}},1,0,0,0,[](const Info& i, const Par& p) -> Proc* { return new P_uAAu(i,p); }});
  r.push_back(Info{"ucuc",{"u","c","u","c"},{E,GS,MU,MC,MH,WH,MW,SW,WZ},{MU,MC,MH,MW},{0,1,2,3},{"amp_gluon","amp_rest"},{},1,0,0,0,[](const Info& i, const Par& p) -> Proc* { return new P_ucuc(i,p); }});
  r.push_back(Info{"udud",{"u","d","u","d"},{E,GS,MU,MD,MH,WH,MW,WW,SW,WZ},{MU,MD,MH,MW},{0,1,2,3},{"amp_gluon","amp_rest","amp_W"},{},1,0,0,0,[](const Info& i, const Par& p) -> Proc* { return new P_udud(i,p); }});
  r.push_back(Info{"unnu",{"u","nm","nm","u"},{E,MU,MW,SW,WZ},{MU,MW},{0,3},{"amp"},{},1,0,0,0,[](const Info& i, const Par& p) -> Proc* { return new P_unnu(i,p); }});
  r.push_back(Info{"uuZh",{"u","U","Z","h"},{E,MU,MH,WH,MW,SW,WZ},{MU,MH,MW},{0,1,2},{"amp"},{},1,0,0,0,[](const Info& i, const Par& p) -> Proc* { return new P_uuZh(i,p); }});
  r.push_back(Info{"uuss",{"u","U","s","S"},{E,GS,MU,MS,MH,WH,MW,SW,WZ},{MU,MS,MH,MW},{0,1,2,3},{"amp_gluon","amp_rest"},{},1,0,0,0,[](const Info& i, const Par& p) -> Proc* { return new P_uuss(i,p); }});
}

}
