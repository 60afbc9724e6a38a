// Seeded histories of mesh operations on the real AMRmesh, with an independent model of the mesh:
// the gathered set of leaves plus a dense map "finest grid position -> leaf".
#pragma once
#include <mpi.h>
#include <map>
#include <set>
#include <array>
#include <memory>
#include <algorithm>
#include <iostream>
#include "amr/AMRmesh.h"
#include "vp_dump.h"

namespace vp {

struct Leaf { int lev; int64_t c[3]; int rank; uint32_t local;
  bool same(const Leaf& o) const { return lev==o.lev && c[0]==o.c[0] && c[1]==o.c[1] && c[2]==o.c[2]; } };
using Key = std::array<int64_t,4>;
inline Key key(const Leaf& l){ return {l.lev,l.c[0],l.c[1],l.c[2]}; }

struct Report { // observations and violations, printed by rank 0 in a form lib/vplib.py parses
  int rank; std::map<std::string,uint64_t> n; std::set<std::string> kinds; std::vector<std::pair<std::string,std::string>> v; std::string where;
  void viol(const std::string& key, const std::string& text){ if(v.size()<20) v.push_back({key, where+": "+text}); }
  template<class F> bool check(bool ok, const char* key, F text){ n[std::string("checks_")+std::string(key,0,3)]++; if(!ok) viol(key,text()); return ok; }
  // collective: whether any process saw a violation (later states of that history mean nothing)
  bool bad() const { int b=!v.empty(), a=0; MPI_Allreduce(&b,&a,1,MPI_INT,MPI_MAX,MPI_COMM_WORLD); return a; }
  void finish()
  {
    int size; MPI_Comm_size(MPI_COMM_WORLD,&size); MPI_Comm_rank(MPI_COMM_WORLD,&rank);
    std::ostringstream s;
    for(auto& x:v) s << "VP_VIOLATION\t" << x.first << "\t[rank " << rank << "] " << x.second << "\n";
    for(auto& x:n) s << "VP_STAT\t" << x.first << "\t" << x.second << "\n";
    for(auto& x:kinds) s << "VP_KIND\t" << x << "\n";
    std::string t=s.str(); std::FILE* f=nullptr;
    if(rank==0){ f=std::fopen("vp_report.txt","w"); if(!f) std::abort(); }
    for(int r=0;r<size;r++)
    {
      if(rank==0)
      {
        std::string q=t;
        if(r>0){ MPI_Status st; MPI_Probe(r,99,MPI_COMM_WORLD,&st); int c; MPI_Get_count(&st,MPI_CHAR,&c); q.resize(c); MPI_Recv(&q[0],c,MPI_CHAR,r,99,MPI_COMM_WORLD,MPI_STATUS_IGNORE); }
        std::fwrite(q.data(),1,q.size(),f);
        for(size_t p=0;(p=q.find("VP_VIOLATION",p))!=std::string::npos;p++) std::cerr << q.substr(p,q.find("\n",p)-p) << std::endl;
      }
      else if(rank==r) MPI_Send(t.data(),(int)t.size(),MPI_CHAR,0,99,MPI_COMM_WORLD);
    }
    if(rank==0){ std::fwrite("VP_DONE\n",1,8,f); std::fclose(f); }
  }
};

template<class... A> std::string str(const A&... a){ std::ostringstream s; s.precision(17); (void)std::initializer_list<int>{(s<<a,0)...}; return s.str(); }
inline std::string lstr(const Leaf& l){ return str("L",l.lev,"(",l.c[0],",",l.c[1],",",l.c[2],")@",l.rank); }

struct MeshParams { int ndim; std::array<bool,3> per; int lmin,lmax; uint32_t cg[3]; };

struct Model
{
  int ndim; bool per[3]; int lmin,lmax; int64_t cg[3]; // cg: leaves at level lmin
  std::vector<Leaf> L; std::map<Key,int> idx;
  int F; int64_t n[3]; std::vector<int> dense; // finest grid: level F
  std::string err; bool deep=false; // deep: too many finest positions for a dense map
  int64_t count(int a,int lev) const { return (a==2&&ndim==2)?1:(cg[a]<<(lev-lmin)); }
  void build()
  {
    err.clear(); idx.clear();
    F=lmin; for(auto& l:L) F=std::max(F,l.lev);
    for(int a=0;a<3;a++) n[a]=count(a,F);
    deep = (double)n[0]*n[1]*n[2]>3e7;
    if(deep){ build_deep(); return; }
    dense.assign(n[0]*n[1]*n[2],-1);
    for(size_t i=0;i<L.size();i++)
    {
      auto& l=L[i]; int64_t s=1<<(F-l.lev); int64_t sz=ndim==3?s:1;
      if(l.lev<lmin||l.lev>lmax){ err=str("level outside the range: ",lstr(l)); return; }
      for(int a=0;a<3;a++) if(l.c[a]<0||l.c[a]>=count(a,l.lev)){ err=str("outside the domain: ",lstr(l)); return; }
      if(idx.count(key(l))){ err=str("held twice: ",lstr(l)," and ",lstr(L[idx[key(l)]])); return; }
      idx[key(l)]=i;
      for(int64_t z=0;z<sz;z++) for(int64_t y=0;y<s;y++) for(int64_t x=0;x<s;x++)
      { int& d=at(l.c[0]*s+x,l.c[1]*s+y,l.c[2]*sz+z); if(d!=-1){ err=str("overlap: ",lstr(l)," and ",lstr(L[d])); return; } d=i; }
    }
    for(size_t i=0;i<dense.size();i++) if(dense[i]<0){ err=str("hole at finest position ",i%n[0],",",(i/n[0])%n[1],",",i/(n[0]*n[1])," of level ",F); return; }
  }
  // the same by volume and ancestry: no leaf lies within another, and the volumes add up to the domain
  void build_deep()
  {
    unsigned __int128 vol=0, tot=(unsigned __int128)n[0]*n[1]*n[2];
    for(size_t i=0;i<L.size();i++)
    {
      auto& l=L[i];
      if(l.lev<lmin||l.lev>lmax){ err=str("level outside the range: ",lstr(l)); return; }
      for(int a=0;a<3;a++) if(l.c[a]<0||l.c[a]>=count(a,l.lev)){ err=str("outside the domain: ",lstr(l)); return; }
      if(idx.count(key(l))){ err=str("held twice: ",lstr(l)," and ",lstr(L[idx[key(l)]])); return; }
      idx[key(l)]=i; vol+=(unsigned __int128)1<<(ndim*(F-l.lev));
    }
    for(auto& l:L) for(int v=l.lev-1;v>=lmin;v--){ int d=l.lev-v; auto it=idx.find({v,l.c[0]>>d,l.c[1]>>d,l.c[2]>>d}); if(it!=idx.end()){ err=str("overlap: ",lstr(l)," and ",lstr(L[it->second])); return; } }
    if(vol!=tot) err="the leaves do not fill the domain";
  }
  int covering(int lev, int64_t x, int64_t y, int64_t z) const // the leaf covering this place of level lev, -1 if there are smaller ones
  {
    for(int v=lev;v>=lmin;v--){ int d=lev-v; auto it=idx.find({v,x>>d,y>>d,z>>d}); if(it!=idx.end()) return it->second; }
    return -1;
  }
  void adjacent_deep(int i, const int d[3], std::set<int>& out) const
  {
    auto& l=L[i]; int64_t p[3];
    for(int a=0;a<3;a++){ int64_t c=count(a,l.lev); p[a]=l.c[a]+d[a]; if(p[a]<0||p[a]>=c){ if(!per[a]) return; p[a]=(p[a]+c)%c; } }
    int f=covering(l.lev,p[0],p[1],p[2]); if(f>=0){ out.insert(f); return; }
    descend(l.lev,p[0],p[1],p[2],d,out);
  }
  void descend(int lev,int64_t x,int64_t y,int64_t z,const int d[3],std::set<int>& out) const
  {
    if(lev>=F) return;
    for(int k=0;k<(1<<ndim);k++)
    {
      bool t=true; for(int a=0;a<ndim;a++) t = t && (d[a]==0 || ((k>>a)&1)==(d[a]<0));
      if(!t) continue;
      int64_t q[3]={2*x+(k&1),2*y+((k>>1)&1),ndim==3?2*z+((k>>2)&1):0};
      auto it=idx.find({lev+1,q[0],q[1],q[2]});
      if(it!=idx.end()) out.insert(it->second); else descend(lev+1,q[0],q[1],q[2],d,out);
    }
  }
  int& at(int64_t x,int64_t y,int64_t z){ return dense[x+n[0]*(y+n[1]*z)]; }
  // leaf covering a finest position, -1 outside (wrapped when periodic)
  int find(int64_t x,int64_t y,int64_t z) const
  {
    int64_t p[3]={x,y,z};
    for(int a=0;a<3;a++) if(p[a]<0||p[a]>=n[a]){ if(!per[a]) return -1; p[a]=((p[a]%n[a])+n[a])%n[a]; }
    if(deep) return covering(F,p[0],p[1],p[2]);
    return dense[p[0]+n[0]*(p[1]+n[1]*p[2])];
  }
  // leaves touching leaf i in direction d (whole adjacent layer in the zero components)
  void adjacent(int i, const int d[3], std::set<int>& out) const
  {
    if(deep){ adjacent_deep(i,d,out); return; }
    auto& l=L[i]; int64_t s=1<<(F-l.lev); int64_t lo[3],hi[3];
    for(int a=0;a<3;a++)
    {
      int64_t sa=(a==2&&ndim==2)?1:s;
      if(d[a]==0){ lo[a]=l.c[a]*sa; hi[a]=lo[a]+sa; }
      else if(d[a]<0){ lo[a]=l.c[a]*sa-1; hi[a]=lo[a]+1; }
      else { lo[a]=(l.c[a]+1)*sa; hi[a]=lo[a]+1; }
    }
    for(int64_t z=lo[2];z<hi[2];z++) for(int64_t y=lo[1];y<hi[1];y++) for(int64_t x=lo[0];x<hi[0];x++)
    { int f=find(x,y,z); if(f>=0) out.insert(f); }
  }
  std::vector<std::set<int>> all_adjacent() const
  {
    std::vector<std::set<int>> r(L.size());
    for(size_t i=0;i<L.size();i++)
      for(int dz=(ndim==3?-1:0);dz<=(ndim==3?1:0);dz++) for(int dy=-1;dy<=1;dy++) for(int dx=-1;dx<=1;dx++)
        if(dx||dy||dz){ int d[3]={dx,dy,dz}; adjacent(i,d,r[i]); }
    return r;
  }
  // The adaptation the marks ask for: least change of the marks that keeps 2:1 and complete sibling groups
  std::set<Key> adapted(const std::vector<int>& marks) const
  {
    std::vector<int> t(L.size());
    for(size_t i=0;i<L.size();i++) t[i]=L[i].lev+marks[i];
    auto adj=all_adjacent();
    std::map<Key,std::vector<int>> groups;
    for(size_t i=0;i<L.size();i++){ auto& l=L[i]; groups[{l.lev-1,l.c[0]/2,l.c[1]/2,l.c[2]/2}].push_back(i); }
    bool ch=true;
    while(ch)
    {
      ch=false;
      for(auto& g:groups)
      {
        bool all = (int)g.second.size()==(1<<ndim);
        for(int i:g.second) all = all && t[i]==L[i].lev-1;
        if(!all) for(int i:g.second) if(t[i]==L[i].lev-1){ t[i]=L[i].lev; ch=true; }
      }
      for(size_t i=0;i<L.size();i++) for(int j:adj[i]) if(t[i]<t[j]-1){ t[i]=t[j]-1; ch=true; }
    }
    std::set<Key> r;
    for(size_t i=0;i<L.size();i++)
    {
      auto& l=L[i];
      if(t[i]==l.lev) r.insert(key(l));
      else if(t[i]==l.lev-1) r.insert({l.lev-1,l.c[0]/2,l.c[1]/2,l.c[2]/2});
      else for(int k=0;k<(1<<ndim);k++) r.insert({l.lev+1,l.c[0]*2+(k&1),l.c[1]*2+((k>>1)&1),l.c[2]*2+((k>>2)&1)});
    }
    return r;
  }
};

// 3-way Morton order of leaves (independent of the code's keys): compares by the most significant differing bit
inline bool morton_less(const Leaf& a, const Leaf& b, int F)
{
  uint64_t p[3],q[3]; for(int k=0;k<3;k++){ p[k]=(uint64_t)a.c[k]<<(F-a.lev); q[k]=(uint64_t)b.c[k]<<(F-b.lev); }
  int best=0; uint64_t bx=0;
  for(int k=2;k>=0;k--){ uint64_t x=p[k]^q[k]; if(bx<x && bx<(bx^x)){ best=k; bx=x; } if(k==2) best=2; }
  return p[best]<q[best];
}

inline Model gather(AMRmesh& m, const MeshParams& mp)
{
  Model M; M.ndim=mp.ndim; for(int a=0;a<3;a++){ M.per[a]=mp.per[a]; M.cg[a]=mp.cg[a]; } M.lmin=mp.lmin; M.lmax=mp.lmax;
  const LightOctree& lm=m.getLightOctree();
  int rank,size; MPI_Comm_rank(MPI_COMM_WORLD,&rank); MPI_Comm_size(MPI_COMM_WORLD,&size);
  std::vector<uint64_t> o; for(uint32_t i=0;i<lm.getNumOctants();i++) oct_logical(lm,{i,false},o);
  int c=(int)o.size(); std::vector<int> cs(size),ds(size); MPI_Allgather(&c,1,MPI_INT,cs.data(),1,MPI_INT,MPI_COMM_WORLD);
  int tot=0; for(int r=0;r<size;r++){ ds[r]=tot; tot+=cs[r]; }
  std::vector<uint64_t> g(tot); MPI_Allgatherv(o.data(),c,MPI_UINT64_T,g.data(),cs.data(),ds.data(),MPI_UINT64_T,MPI_COMM_WORLD);
  for(int r=0;r<size;r++) for(int i=0;i<cs[r]/4;i++){ auto p=&g[ds[r]+4*i]; M.L.push_back({(int)p[3],{(int64_t)p[0],(int64_t)p[1],(int64_t)p[2]},r,(uint32_t)i}); }
  M.build();
  return M;
}

// a mesh of many levels, refined around points only
inline MeshParams deep_params(Rng& R, int ndim, int size, int top)
{
  MeshParams p; p.ndim=ndim;
  for(int a=0;a<3;a++) p.per[a]=R.i(2);
  p.lmin = ndim==2 ? 2+R.i(2) : 2; uint32_t w=1u<<p.lmin; p.cg[0]=p.cg[1]=p.cg[2]=w;
  if(R.i(2)) p.cg[R.i(ndim)]=w/2+1;
  if(ndim==2) p.cg[2]=1;
  p.lmax = 12+R.i(10); if(top) p.lmax = top; // keys have 21 bits per direction, in 2D as well
  return p;
}
inline MeshParams random_params(Rng& R, int ndim, int size, bool cell_levels)
{
  MeshParams p; p.ndim=ndim;
  for(int a=0;a<3;a++) p.per[a]=R.i(2);
  if(R.i(4)==0) p.per={true,true,true};
  if(ndim==2) p.per[2]=R.i(2);
  p.lmin = ndim==2 ? 1+R.i(3) : 1+R.i(2);
  uint32_t w=1u<<p.lmin; p.cg[0]=p.cg[1]=p.cg[2]=w;
  if(R.i(2)) // not cubic: the largest side decides the level
  { for(int a=0;a<ndim;a++) p.cg[a]=1+R.i(w); int b=R.i(ndim); p.cg[b]=w/2+1+R.i(w/2); }
  if(ndim==2) p.cg[2]=1;
  // enough leaves for every process
  while((int)(p.cg[0]*p.cg[1]*p.cg[2])<2*size){ if(p.cg[0]<w) p.cg[0]++; else if(p.cg[1]<w) p.cg[1]++; else if(ndim==3&&p.cg[2]<w) p.cg[2]++; else { p.lmin++; w*=2; } 
    while(p.cg[0]*2<=w && p.cg[1]*2<=w && (ndim==2||p.cg[2]*2<=w)) p.cg[R.i(ndim)]=w; }
  p.lmax = p.lmin + (ndim==2 ? 1+R.i(4) : 1+R.i(2));
  if(ndim==3 && p.lmax>4) p.lmax=std::max(p.lmin,4);
  return p;
}

// marks of one adaptation, a function of the (global) position of each leaf only
inline std::vector<int> random_marks(Rng R, const Model& M, std::string& kind, size_t limit)
{
  std::vector<int> mk(M.L.size(),0);
  int k=R.i(6); uint64_t s=R.next();
  if(M.L.size()>limit && (k==3||k==0)) k=2;
  double p[3]={R.u(),R.u(),R.u()}; double rad=R.u(0.02,0.3);
  static const char* names[]={"sparse","ball","coarsen","refine_all","mixed","corner"};
  kind=names[k];
  if(k==5) for(int a=0;a<3;a++) p[a]=R.i(2)?0.999:0.001;
  for(size_t i=0;i<mk.size();i++)
  {
    auto& l=M.L[i]; double u=u01(hashv({s,(uint64_t)l.lev,(uint64_t)l.c[0],(uint64_t)l.c[1],(uint64_t)l.c[2]})), d2=0;
    double ug=u01(hashv({s,9,(uint64_t)l.lev,(uint64_t)l.c[0]/2,(uint64_t)l.c[1]/2,(uint64_t)l.c[2]/2}));
    bool in=true;
    for(int a=0;a<M.ndim;a++){ double n=M.count(a,l.lev), x=(l.c[a]+0.5)/n; d2+=(x-p[a])*(x-p[a]); in = in && l.c[a]/n<=p[a] && p[a]<(l.c[a]+1)/n; }
    int m=0;
    if(k==0) m = u<0.15 ? 1 : u<0.25 ? -1 : 0;
    else if(k==1) m = (in || d2<rad*rad*0.1) ? 1 : d2>rad*rad ? -1 : 0;
    else if(k==2) m = ug<0.8 ? -1 : 0;
    else if(k==3) m = 1;
    else if(k==4) m = ug<0.5 ? -1 : u>0.8 ? 1 : 0;
    else m = in ? 1 : (u<0.5?-1:0);
    if(m>0 && l.lev>=M.lmax) m=0;
    if(m<0 && l.lev<=M.lmin) m=0;
    mk[i]=m;
  }
  return mk;
}
} // namespace vp
