// Tree-level 2->2 amplitudes of the Standard Model from Feynman diagrams in unitary gauge.
// Independent of the library: Dirac spinors, polarization vectors, vertices and propagators.
//
// Conventions (Peskin): D = d - i g W^a T^a - i g' Y B - i gs G^a t^a, g = e/sW, MW = g v/2, MZ = MW/cW.
// A vertex "V" below is the Feynman rule divided by i; every leg is a wave with its incoming momentum.
#pragma once
#include <complex>
#include <vector>
#include <string>
#include <cmath>
#include <cstdlib>

namespace feyn {

typedef long double ld;
typedef std::complex<ld> cd;

// flavours: even = upper member of the doublet
enum { U, D, C, S, T, B, NE, E, NM, M, NL, L, NFLAV };
enum { PH, Z, WP, WM, GL, H, NBOS };

struct Model {
  ld e = 0.31L, gs = 1.2L, sw = 0.47L, mW = 80, mh = 125, vev = 0;   // vev = 0: 2 mW sW/e
  ld mf[NFLAV] = {0};
  ld wW = 0, wZ = 0, wh = 0;                                        // widths
  unsigned only = ~0u;                                              // bosons that may be exchanged
  ld cw() const { return std::sqrt(1 - sw*sw); }
  ld g() const { return e/sw; }
  ld v() const { return vev ? vev : 2*mW*sw/e; }
  ld mZ() const { return mW/cw(); }
  ld wb(int b) const { return b==Z ? wZ : b==WP||b==WM ? wW : b==H ? wh : 0; }
  ld mb(int b) const { return b==Z ? mZ() : b==WP||b==WM ? mW : b==H ? mh : 0; }
};

inline ld charge(int f) { return f < 6 ? (f%2 ? -1.L/3 : 2.L/3) : (f%2 ? -1.L : 0.L); }
inline int conj_bos(int b) { return b==WP ? WM : b==WM ? WP : b; }

struct Leg {
  bool fermion = false, anti = false, out = false;
  int id = 0;
  bool neutrino() const { return fermion && id >= 6 && id%2==0; }
  bool quark() const { return fermion && id < 6; }
  bool vector() const { return !fermion && id != H; }
  bool massless_vector() const { return !fermion && (id==PH || id==GL); }
  bool ket() const { return fermion && (anti == out); }               // incoming particle or outgoing antiparticle
  int inbos() const { return out ? conj_bos(id) : id; }
  int colours() const { return quark() ? 3 : (!fermion && id==GL) ? 8 : 1; }
  int nspin() const { return fermion ? 2 : id==H ? 1 : massless_vector() ? 2 : 3; }
  ld mass(const Model& m) const { return fermion ? m.mf[id] : m.mb(id); }
  bool same(const Leg& o) const { return fermion==o.fermion && id==o.id && (!fermion || anti==o.anti); }
};

inline Leg leg(const std::string& s, bool out) {
  static const char* F[] = {"u","d","c","s","t","b","ne","e","nm","m","nl","l"};
  static const char* A[] = {"U","D","C","S","T","B","Ne","E","Nm","M","Nl","L"};
  static const char* Bo[] = {"A","Z","W+","W-","g","h"};
  Leg l; l.out = out;
  for (int i=0;i<NBOS;i++) if (s==Bo[i]) { l.id=i; return l; }
  for (int i=0;i<NFLAV;i++) {
    if (s==F[i]) { l.fermion=true; l.id=i; return l; }
    if (s==A[i]) { l.fermion=true; l.anti=true; l.id=i; return l; }
  }
  abort();
}

enum Kind { KET, BRA, VEC, SCA };
struct Wave {
  Kind k; int id; cd c[4]; ld q[4];
  bool fermion() const { return k==KET || k==BRA; }
};

inline ld dot(const ld* a, const ld* b) { return a[0]*b[0]-a[1]*b[1]-a[2]*b[2]-a[3]*b[3]; }
inline cd dot(const cd* a, const cd* b) { return a[0]*b[0]-a[1]*b[1]-a[2]*b[2]-a[3]*b[3]; }
inline cd dot(const ld* a, const cd* b) { return a[0]*b[0]-a[1]*b[1]-a[2]*b[2]-a[3]*b[3]; }

// two-spinors of helicity +1 and -1 along p
inline void xi(const ld* p, int h, cd x[2]) {
  ld P = std::sqrt(p[1]*p[1]+p[2]*p[2]+p[3]*p[3]);
  cd a, b;                                             // helicity +
  if (P==0) { a = 1; b = 0; }
  else if (p[3] >= 0) { a = std::sqrt((P+p[3])/(2*P)); b = cd(p[1],p[2])/std::sqrt(2*P*(P+p[3])); }
  else { a = cd(p[1],-p[2])/std::sqrt(2*P*(P-p[3])); b = std::sqrt((P-p[3])/(2*P)); }
  if (h > 0) { x[0]=a; x[1]=b; } else { x[0]=-std::conj(b); x[1]=std::conj(a); }
}

// external wave: l the leg, p its physical momentum, h = +-1 for fermions, -1,0,1 for vectors
inline Wave external(const Leg& l, const Model& m, const ld* p, int h) {
  Wave w; w.id = l.id;
  for (int i=0;i<4;i++) { w.q[i] = l.out ? -p[i] : p[i]; w.c[i] = 0; }
  ld P = std::sqrt(p[1]*p[1]+p[2]*p[2]+p[3]*p[3]), mass = l.mass(m);
  if (l.fermion) {
    ld plus = std::sqrt(p[0]+P), minus = mass==0 ? 0 : mass/plus;
    cd x[2], s[4];
    if (!l.anti) {
      xi(p, h, x);
      ld a = h>0 ? minus : plus, b = h>0 ? plus : minus;
      s[0]=a*x[0]; s[1]=a*x[1]; s[2]=b*x[0]; s[3]=b*x[1];
    } else {
      xi(p, -h, x);
      ld a = h>0 ? plus : minus, b = h>0 ? minus : plus;
      s[0]=a*x[0]; s[1]=a*x[1]; s[2]=-b*x[0]; s[3]=-b*x[1];
    }
    if (l.ket()) { w.k = KET; for (int i=0;i<4;i++) w.c[i]=s[i]; }
    else { w.k = BRA; for (int i=0;i<4;i++) w.c[i]=std::conj(s[(i+2)%4]); }
  } else if (l.id==H) {
    w.k = SCA; w.c[0] = 1;
  } else {
    w.k = VEC; w.id = l.inbos();
    if (h==0) {
      w.c[0] = P/mass;
      for (int i=1;i<4;i++) w.c[i] = P==0 ? (i==3 ? 1 : 0) : p[0]*p[i]/P/mass;
    } else {
      ld pt = std::sqrt(p[1]*p[1]+p[2]*p[2]);
      ld cp = pt==0 ? 1 : p[1]/pt, sp = pt==0 ? 0 : p[2]/pt, ct = P==0 ? 1 : p[3]/P, st = P==0 ? 0 : pt/P;
      ld r = 1/std::sqrt(2.L);
      ld et[3] = {ct*cp, ct*sp, -st}, ep[3] = {-sp, cp, 0};
      for (int i=0;i<3;i++) w.c[i+1] = cd(-h*et[i]*r, -ep[i]*r);
    }
    if (l.out) for (int i=0;i<4;i++) w.c[i] = std::conj(w.c[i]);
  }
  return w;
}

// components of a gauge field in isospin space
inline void iso(const Model& m, int b, cd n[3]) {
  ld r = 1/std::sqrt(2.L);
  n[0]=n[1]=n[2]=0;
  if (b==WP) { n[0]=r; n[1]=cd(0,r); }
  if (b==WM) { n[0]=r; n[1]=cd(0,-r); }
  if (b==Z) n[2]=m.cw();
  if (b==PH) n[2]=m.sw;
}
inline cd triple(const cd* a, const cd* b, const cd* c) {
  return a[0]*(b[1]*c[2]-b[2]*c[1]) + a[1]*(b[2]*c[0]-b[0]*c[2]) + a[2]*(b[0]*c[1]-b[1]*c[0]);
}
inline cd cross2(const cd* a, const cd* b, const cd* c, const cd* d) {   // (a x b).(c x d)
  cd ac=0, bd=0, ad=0, bc=0;
  for (int i=0;i<3;i++) { ac+=a[i]*c[i]; bd+=b[i]*d[i]; ad+=a[i]*d[i]; bc+=b[i]*c[i]; }
  return ac*bd - ad*bc;
}

// left and right couplings of bra f1, ket f2 with incoming boson b; false if there is no such vertex
inline bool ff_coupling(const Model& m, int f1, int f2, int b, ld& gl, ld& gr) {
  gl = gr = 0;
  if (b==WP || b==WM) {
    if (f1/2 != f2/2 || f1==f2) return false;
    if ((b==WP) != (f1%2==0)) return false;           // W+ raises
    gl = m.g()/std::sqrt(2.L);
    return true;
  }
  if (f1 != f2) return false;
  ld q = charge(f1), t3 = f1%2 ? -0.5L : 0.5L;
  if (b==PH) { gl = gr = m.e*q; return q != 0; }
  if (b==GL) { gl = gr = m.gs; return f1 < 6; }
  if (b==Z) { gl = m.g()/m.cw()*(t3-q*m.sw*m.sw); gr = -m.g()/m.cw()*q*m.sw*m.sw; return true; }
  return false;
}

inline bool exists3(const Model& m, Kind k1, int i1, Kind k2, int i2, Kind k3, int i3) {
  Kind k[3] = {k1,k2,k3}; int id[3] = {i1,i2,i3};
  int nb=0, nk=0, nv=0, ns=0, b=-1, t=-1, x=-1, v[3];
  for (int i=0;i<3;i++) {
    if (k[i]==BRA) { nb++; b=id[i]; }
    if (k[i]==KET) { nk++; t=id[i]; }
    if (k[i]==VEC) { v[nv++]=id[i]; x=id[i]; }
    if (k[i]==SCA) ns++;
  }
  if (nb==1 && nk==1) {
    if (ns) return b==t && m.mf[b]!=0;
    ld l, r; return ff_coupling(m,b,t,x,l,r);
  }
  if (nb || nk) return false;
  if (ns==3) return true;
  if (ns==1 && nv==2) return (v[0]==Z && v[1]==Z) || (v[0]==WP && v[1]==WM) || (v[0]==WM && v[1]==WP);
  if (nv==3) {
    int g=0; for (int i=0;i<3;i++) g += v[i]==GL;
    if (g) return g==3;
    cd n[3][3]; for (int i=0;i<3;i++) iso(m,v[i],n[i]);
    return std::abs(triple(n[0],n[1],n[2])) > 0;
  }
  return false;
}

inline cd vertex3(const Model& m, const Wave& a, const Wave& b, const Wave& c) {
  const Wave* w[3] = {&a,&b,&c};
  const Wave *bra=0, *ket=0, *v[3], *s=0; int nv=0, ns=0;
  for (int i=0;i<3;i++) {
    if (w[i]->k==BRA) bra=w[i];
    else if (w[i]->k==KET) ket=w[i];
    else if (w[i]->k==VEC) v[nv++]=w[i];
    else { s=w[i]; ns++; }
  }
  if (bra) {
    if (ns) {
      cd r=0; for (int i=0;i<4;i++) r += bra->c[i]*ket->c[i];
      return -m.mf[bra->id]/m.v()*s->c[0]*r;
    }
    ld gl, gr; ff_coupling(m,bra->id,ket->id,v[0]->id,gl,gr);
    const cd *V=v[0]->c, *u=ket->c; const cd I(0,1);
    cd up0 = gr*((V[0]-V[3])*u[2] - (V[1]-I*V[2])*u[3]);
    cd up1 = gr*(-(V[1]+I*V[2])*u[2] + (V[0]+V[3])*u[3]);
    cd lo0 = gl*((V[0]+V[3])*u[0] + (V[1]-I*V[2])*u[1]);
    cd lo1 = gl*((V[1]+I*V[2])*u[0] + (V[0]-V[3])*u[1]);
    return bra->c[0]*up0 + bra->c[1]*up1 + bra->c[2]*lo0 + bra->c[3]*lo1;
  }
  if (ns==3) return -3*m.mh*m.mh/m.v()*a.c[0]*b.c[0]*c.c[0];
  if (ns==1) { ld M=m.mb(v[0]->id); return 2*M*M/m.v()*s->c[0]*dot(v[0]->c,v[1]->c); }
  cd f = m.gs;
  if (a.id != GL) {
    cd n[3][3]; for (int i=0;i<3;i++) iso(m,w[i]->id,n[i]);
    f = m.g()*triple(n[0],n[1],n[2]);
  }
  ld d12[4], d23[4], d31[4];
  for (int i=0;i<4;i++) { d12[i]=a.q[i]-b.q[i]; d23[i]=b.q[i]-c.q[i]; d31[i]=c.q[i]-a.q[i]; }
  return cd(0,-1)*f*(dot(a.c,b.c)*dot(d12,c.c) + dot(b.c,c.c)*dot(d23,a.c) + dot(c.c,a.c)*dot(d31,b.c));
}

// One diagram: an exchange of field X between the pairs, or a contact term.
struct Diagram {
  int a,b,c,d;                // (a,b) -> X -> (c,d)
  Kind k1; int id1;           // X as seen by (a,b)
  Kind k2; int id2;           // X as seen by (c,d)
  int contact;                // 0: exchange; 1..3: four-vector structures; 4: VVSS; 5: SSSS
  int colour;                 // index of the colour tensor
  int sign;
};

struct Process {
  Leg l[4];
  std::vector<Diagram> dia;
  std::vector<std::vector<std::complex<double>>> col;     // colour tensors over all external colours
  std::vector<std::vector<std::complex<double>>> C;       // their inner products
  int dim[4];

  static std::complex<double> gell(int a, int i, int j) {   // t^a_ij
    typedef std::complex<double> c;
    static const double s3 = 1/std::sqrt(3.0);
    c m[3][3] = {};
    switch (a) {
      case 0: m[0][1]=m[1][0]=1; break;
      case 1: m[0][1]=c(0,-1); m[1][0]=c(0,1); break;
      case 2: m[0][0]=1; m[1][1]=-1; break;
      case 3: m[0][2]=m[2][0]=1; break;
      case 4: m[0][2]=c(0,-1); m[2][0]=c(0,1); break;
      case 5: m[1][2]=m[2][1]=1; break;
      case 6: m[1][2]=c(0,-1); m[2][1]=c(0,1); break;
      default: m[0][0]=m[1][1]=s3; m[2][2]=-2*s3;
    }
    return m[i][j]/2.0;
  }
  static double fabc(int a, int b, int c) {                 // -2i Tr([ta,tb]tc)
    static double* tab = 0;
    if (!tab) {
      double* t = new double[512];
      for (int x=0;x<8;x++) for (int y=0;y<8;y++) for (int z=0;z<8;z++) {
        std::complex<double> s=0;
        for (int i=0;i<3;i++) for (int j=0;j<3;j++) for (int k=0;k<3;k++)
          s += (gell(x,i,j)*gell(y,j,k)-gell(y,i,j)*gell(x,j,k))*gell(z,k,i);
        t[x*64+y*8+z] = std::real(std::complex<double>(0,-2)*s);
      }
      tab = t;
    }
    return tab[a*64+b*8+c];
  }
  Kind kind(int i) const { return l[i].fermion ? (l[i].ket() ? KET : BRA) : l[i].id==H ? SCA : VEC; }
  int id(int i) const { return l[i].fermion ? l[i].id : l[i].inbos(); }

  static bool coloured(Kind k, int id) { return k==VEC ? id==GL : k==SCA ? false : id<6; }
  // colour factor of a three-vertex
  static std::complex<double> cvert(Kind k1,int i1,int c1, Kind k2,int i2,int c2, Kind k3,int i3,int c3) {
    Kind k[3]={k1,k2,k3}; int id[3]={i1,i2,i3}, c[3]={c1,c2,c3};
    int b=-1,t=-1,x=-1,g=0;
    for (int i=0;i<3;i++) { if (k[i]==BRA) b=i; else if (k[i]==KET) t=i; else { x=i; if (k[i]==VEC && id[i]==GL) g++; } }
    if (b>=0) {
      if (id[b]>=6) return 1;
      if (g) return gell(c[x],c[b],c[t]);
      return c[b]==c[t] ? 1 : 0;
    }
    if (g==3) return fabc(c1,c2,c3);
    return 1;
  }

  void build(const Model& m, const std::string legs[4]) {
    for (int i=0;i<4;i++) { l[i]=leg(legs[i], i>=2); dim[i]=l[i].colours(); }
    static const int ch[3][4] = {{0,1,2,3},{0,2,1,3},{0,3,1,2}};
    dia.clear(); col.clear();
    for (int k=0;k<3;k++) {
      const int* p=ch[k];
      // bosons
      for (int b=0;b<NBOS;b++) {
        if (!(m.only>>b & 1)) continue;
        Kind kk = b==H ? SCA : VEC; int bb = conj_bos(b);
        if (exists3(m,kind(p[0]),id(p[0]),kind(p[1]),id(p[1]),kk,b) && exists3(m,kind(p[2]),id(p[2]),kind(p[3]),id(p[3]),kk,bb))
          add(p,kk,b,kk,bb);
      }
      // fermions: (a,b) holds the ket and gives a bra slot, or the other way round
      for (int f=0;f<NFLAV;f++) for (int dir=0;dir<2;dir++) {
        Kind x1 = dir ? KET : BRA, x2 = dir ? BRA : KET;
        if (exists3(m,kind(p[0]),id(p[0]),kind(p[1]),id(p[1]),x1,f) && exists3(m,kind(p[2]),id(p[2]),kind(p[3]),id(p[3]),x2,f))
          add(p,x1,f,x2,f);
      }
    }
    contacts();
    C.assign(col.size(), std::vector<std::complex<double>>(col.size()));
    for (size_t i=0;i<col.size();i++) for (size_t j=0;j<col.size();j++) {
      std::complex<double> s=0;
      for (size_t x=0;x<col[i].size();x++) s += col[i][x]*std::conj(col[j][x]);
      C[i][j] = s;
    }
  }

  int tensor(const std::vector<std::complex<double>>& t) {
    for (size_t i=0;i<col.size();i++) {
      double d=0; for (size_t x=0;x<t.size();x++) d += std::abs(t[x]-col[i][x]);
      if (d < 1e-9) return i;
    }
    col.push_back(t);
    return col.size()-1;
  }

  void add(const int* p, Kind k1, int i1, Kind k2, int i2) {
    Diagram D; D.a=p[0]; D.b=p[1]; D.c=p[2]; D.d=p[3]; D.k1=k1; D.id1=i1; D.k2=k2; D.id2=i2; D.contact=0;
    // the sign of a four-fermion diagram: which bra meets which ket
    D.sign = 1;
    int bras[2], kets[2], nb=0, nk=0;
    for (int i=0;i<4;i++) { if (kind(i)==BRA) bras[nb++]=i; if (kind(i)==KET) kets[nk++]=i; }
    if (nb==2) {
      int mate = p[0]==bras[0] ? p[1] : p[1]==bras[0] ? p[0] : p[2]==bras[0] ? p[3] : p[2];
      if (mate==kets[1]) D.sign=-1;
    }
    int nx = !coloured(k1,i1) ? 1 : k1==VEC ? 8 : 3;
    std::vector<std::complex<double>> t;
    int c[4];
    for (c[0]=0;c[0]<dim[0];c[0]++) for (c[1]=0;c[1]<dim[1];c[1]++) for (c[2]=0;c[2]<dim[2];c[2]++) for (c[3]=0;c[3]<dim[3];c[3]++) {
      std::complex<double> s=0;
      for (int x=0;x<nx;x++)
        s += cvert(kind(p[0]),id(p[0]),c[p[0]], kind(p[1]),id(p[1]),c[p[1]], k1,i1,x)
           * cvert(kind(p[2]),id(p[2]),c[p[2]], kind(p[3]),id(p[3]),c[p[3]], k2,i2,x);
      t.push_back(s);
    }
    D.colour = tensor(t);
    dia.push_back(D);
  }

  void contacts() {
    int nv=0, ns=0, ng=0;
    for (int i=0;i<4;i++) { if (kind(i)==VEC) { nv++; ng += id(i)==GL; } if (kind(i)==SCA) ns++; }
    Diagram D; D.a=0; D.b=1; D.c=2; D.d=3; D.k1=D.k2=SCA; D.id1=D.id2=H; D.sign=1; D.colour=0;
    std::vector<std::complex<double>> one(dim[0]*dim[1]*dim[2]*dim[3], 1.0);
    if (nv==4 && ng==4) {
      static const int pr[3][4] = {{0,1,2,3},{0,2,1,3},{0,3,1,2}};
      for (int k=0;k<3;k++) {
        std::vector<std::complex<double>> t; int c[4];
        for (c[0]=0;c[0]<8;c[0]++) for (c[1]=0;c[1]<8;c[1]++) for (c[2]=0;c[2]<8;c[2]++) for (c[3]=0;c[3]<8;c[3]++) {
          double s=0;
          for (int x=0;x<8;x++) s += fabc(c[pr[k][0]],c[pr[k][1]],x)*fabc(c[pr[k][2]],c[pr[k][3]],x);
          t.push_back(s);
        }
        D.contact=k+1; D.colour=tensor(t); dia.push_back(D);
      }
    } else if (nv==4 && ng==0) {
      D.colour = tensor(one);
      for (int k=0;k<3;k++) { D.contact=k+1; dia.push_back(D); }
    } else if (nv==2 && ns==2) { D.contact=4; D.colour=tensor(one); dia.push_back(D); }
    else if (ns==4) { D.contact=5; D.colour=tensor(one); dia.push_back(D); }
  }

  static cd contact(const Model& m, int kind, const Wave w[4]) {
    if (kind==5) return -3*m.mh*m.mh/(m.v()*m.v());
    if (kind==4) {
      const Wave* v[2]; int n=0;
      for (int i=0;i<4;i++) if (w[i].k==VEC) v[n++]=&w[i];
      bool ok = (v[0]->id==Z && v[1]->id==Z) || (v[0]->id==WP && v[1]->id==WM) || (v[0]->id==WM && v[1]->id==WP);
      ld M = m.mb(v[0]->id);
      return ok ? 2*M*M/(m.v()*m.v())*dot(v[0]->c,v[1]->c) : cd(0);
    }
    cd g2 = m.gs*m.gs;
    if (w[0].id != GL) {
      cd n[4][3]; for (int i=0;i<4;i++) iso(m,w[i].id,n[i]);
      g2 = m.g()*m.g()*(kind==1 ? cross2(n[0],n[1],n[2],n[3]) : kind==2 ? cross2(n[0],n[2],n[1],n[3]) : cross2(n[0],n[3],n[1],n[2]));
    }
    cd a=dot(w[0].c,w[1].c)*dot(w[2].c,w[3].c), b=dot(w[0].c,w[2].c)*dot(w[1].c,w[3].c), c=dot(w[0].c,w[3].c)*dot(w[1].c,w[2].c);
    return -g2*(kind==1 ? b-c : kind==2 ? a-c : a-b);
  }

  cd value(const Model& m, const Diagram& D, const Wave w[4]) const {
    if (D.contact) return contact(m,D.contact,w);
    Wave x, y; x.k=D.k1; x.id=D.id1; y.k=D.k2; y.id=D.id2;
    for (int i=0;i<4;i++) { x.q[i] = -(w[D.a].q[i]+w[D.b].q[i]); y.q[i] = -(w[D.c].q[i]+w[D.d].q[i]); }
    // momentum through X (from (a,b) to (c,d))
    ld q[4]; for (int i=0;i<4;i++) q[i] = -x.q[i];
    int n = D.k1==SCA ? 1 : 4;
    cd va[4], vb[4];
    for (int i=0;i<n;i++) {
      for (int j=0;j<4;j++) x.c[j]=y.c[j]=(i==j);
      va[i]=vertex3(m,w[D.a],w[D.b],x); vb[i]=vertex3(m,w[D.c],w[D.d],y);
    }
    ld M = D.k1==VEC || D.k1==SCA ? m.mb(D.id1) : m.mf[D.id1];
    cd den(dot(q,q)-M*M, D.k1==VEC || D.k1==SCA ? -M*m.wb(D.id1) : 0);
    cd r;
    if (D.k1==SCA) r = va[0]*vb[0];
    else if (D.k1==VEC) {
      r = -(va[0]*vb[0]-va[1]*vb[1]-va[2]*vb[2]-va[3]*vb[3]);
      if (M != 0) {
        cd a=0, b=0; for (int i=0;i<4;i++) { a+=q[i]*va[i]; b+=q[i]*vb[i]; }
        r += a*b/(M*M);
      }
    } else {
      const cd *u, *ub; ld k[4];
      if (D.k1==BRA) { u=va; ub=vb; for (int i=0;i<4;i++) k[i]=q[i]; }       // (a,b) holds the ket
      else { u=vb; ub=va; for (int i=0;i<4;i++) k[i]=-q[i]; }
      const cd I(0,1);
      cd s0 = M*u[0] + (k[0]-k[3])*u[2] - (k[1]-I*k[2])*u[3];
      cd s1 = M*u[1] - (k[1]+I*k[2])*u[2] + (k[0]+k[3])*u[3];
      cd s2 = M*u[2] + (k[0]+k[3])*u[0] + (k[1]-I*k[2])*u[1];
      cd s3 = M*u[3] + (k[1]+I*k[2])*u[0] + (k[0]-k[3])*u[1];
      r = ub[0]*s0 + ub[1]*s1 + ub[2]*s2 + ub[3]*s3;
    }
    return -ld(D.sign)*r/den;
  }

  // colour-summed |M|^2 of one helicity configuration; big receives the largest |diagram|^2
  ld hel2(const Model& m, const Wave w[4], ld& big) const {
    std::vector<cd> A(col.size());
    for (size_t i=0;i<dia.size();i++) {
      cd v = value(m,dia[i],w);
      A[dia[i].colour] += v;
      ld n = std::norm(v)*std::abs(C[dia[i].colour][dia[i].colour]);
      if (n > big) big = n;
    }
    ld s=0;
    for (size_t i=0;i<A.size();i++) for (size_t j=0;j<A.size();j++) s += std::real(cd(C[i][j].real(),C[i][j].imag())*A[i]*std::conj(A[j]));
    return s;
  }

  // helicities (doubled spins as in the library: +-1 for fermions, -2,0,2 or -2,2 for vectors, 0 for scalars)
  std::vector<int> spins(int i) const {
    if (l[i].fermion) return {-1,1};
    if (l[i].id==H) return {0};
    if (l[i].massless_vector()) return {-2,2};
    return {-2,0,2};
  }
  int initial_average() const {
    int a=1;
    for (int i=0;i<2;i++) a *= (l[i].neutrino() ? 1 : l[i].nspin())*dim[i];
    return a;
  }
  int identical() const { return l[2].same(l[3]) ? 2 : 1; }
};

}
