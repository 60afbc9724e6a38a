// P03 (cells), P04, P05, P06, P16 (distribution), P25: histories of field/particle operations, ghost communications, adaptations and
// load balances on the real UserData/ForeachCell/GhostCommunicator, every step compared with a global model computed independently.
// args: seed histories operations ndim
#include "DyabloSession.hpp"
#include "vp_meshhist.h"
#include "mpi/GhostCommunicator.h"
#include "amr/MapUserData.h"
using namespace dyablo; using namespace vp;
using CellIndex = ForeachCell::CellIndex;
using Vals = std::vector<double>;
using FieldModel = std::map<Key,Vals>;

struct Part { double x[3]; std::map<std::string,double> at; };
struct Hist
{
  Report& R; int rank,size; MeshParams mp; uint32_t bs[3]; uint32_t nc; double lo[3],L[3];
  std::unique_ptr<AMRmesh> m; std::unique_ptr<ConfigMap> cm; std::unique_ptr<ForeachCell> fc; std::unique_ptr<UserData> U; std::unique_ptr<MapUserData> remap; Timers timers;
  Model M; size_t first; std::map<std::string,FieldModel> F;
  std::map<std::string,std::map<uint64_t,Part>> P; std::map<std::string,std::set<std::string>> A;
  std::string hist; Rng rng,loc;
  Hist(Report& R, uint64_t seed, int h, int ndim, int rank, int size)
  : R(R),rank(rank),size(size),rng(hashv({seed,(uint64_t)h,(uint64_t)ndim,5})),loc(hashv({seed,(uint64_t)h,(uint64_t)rank,6}))
  {
    mp=random_params(rng,ndim,size,false);
    if(ndim==3) mp.lmax=std::min(mp.lmax,mp.lmin+2);
    int bt=rng.i(3); for(int a=0;a<3;a++) bs[a]= bt==0 ? 4 : bt==1 ? 2*(1+rng.i(3)) : 2+rng.i(4);
    if(ndim==2) bs[2]=1;
    nc=bs[0]*bs[1]*bs[2];
    bool unit=rng.i(2); for(int a=0;a<3;a++){ lo[a]=unit?0:rng.u(-3,3); L[a]=unit?1:rng.u(0.3,5); }
    if(ndim==2){ lo[2]=0; L[2]=1; }
    std::ostringstream s; s.precision(17);
    s << "[mesh]\nndim=" << ndim << "\n"; const char* n="xyz";
    for(int a=0;a<3;a++) s << n[a] << "min=" << lo[a] << "\n" << n[a] << "max=" << lo[a]+L[a] << "\n";
    for(int a=0;a<3;a++) L[a]=(lo[a]+L[a])-lo[a];
    s << "[amr]\nbx=" << bs[0] << "\nby=" << bs[1] << "\nbz=" << bs[2] << "\n";
    cm=std::make_unique<ConfigMap>(s.str());
    m=std::make_unique<AMRmesh>(ndim,ndim,mp.per,mp.lmin,mp.lmax,Kokkos::Array<uint32_t,3>{mp.cg[0],mp.cg[1],mp.cg[2]});
    fc=std::make_unique<ForeachCell>(*m,*cm); U=std::make_unique<UserData>(*cm,*fc);
    remap=MapUserDataFactory::make_instance("MapUserData_mean",*cm,*fc,timers);
    hist=str("history ",h," ",ndim,"D np=",size," per=",mp.per[0],mp.per[1],mp.per[2]," levels=",mp.lmin,"-",mp.lmax," coarse=",mp.cg[0],"x",mp.cg[1],"x",mp.cg[2]," block=",bs[0],"x",bs[1],"x",bs[2]);
    R.where=hist; mesh();
  }
  void mesh(){ M=gather(*m,mp); first=0; while(first<M.L.size() && M.L[first].rank<rank) first++; }
  CellIndex ci(uint32_t o,bool g,uint32_t c) const { return {{o,g},c%bs[0],(c/bs[0])%bs[1],c/(bs[0]*bs[1]),bs[0],bs[1],bs[2],CellIndex::LOCAL_TO_BLOCK}; }
  double val(uint64_t s,const Key& k,uint32_t c) const { return 1+u01(hashv({s,(uint64_t)k[0],(uint64_t)k[1],(uint64_t)k[2],(uint64_t)k[3],c})); }
  UserData::FieldAccessor acc(const std::vector<std::string>& f){ std::vector<UserData::FieldAccessor::FieldInfo> l; int i=0; for(auto& n:f) l.push_back({n,(VarIndex)i++}); return U->getAccessor(l); }
  void zero(FieldModel& f){ f.clear(); for(auto& l:M.L) f[key(l)]=Vals(nc,0.); }
  // every live field holds what the model says, on this process
  void verify(const char* k, double tol=0)
  {
    std::set<std::string> want; for(auto& f:F) want.insert(f.first);
    R.check(U->getEnabledFields()==want,"P25:names",[&]{return "the set of fields is not the set of live names";});
    R.check(U->nbFields()==(int)want.size(),"P25:names",[&]{return "nbFields";});
    for(auto& f:F)
    {
      if(!R.check(U->has_field(f.first),"P25:names",[&]{return str("field ",f.first," is gone");})) continue;
      auto a=acc({f.first}); bool ok=true;
      for(size_t i=first;i<M.L.size()&&M.L[i].rank==rank&&ok;i++)
      {
        auto it=f.second.find(key(M.L[i])); if(it==f.second.end()){ R.viol("machinery","model has no leaf"); return; }
        for(uint32_t c=0;c<nc&&ok;c++)
        {
          double g=a.at(ci(i-first,false,c),0), w=it->second[c]; R.n["cell_values"]++;
          ok=R.check(std::abs(g-w)<=tol*std::abs(w),k,[&]{return str("field ",f.first," in ",lstr(M.L[i])," cell ",c," is ",g,", expected ",w," (",F.size()," fields)");});
        }
      }
    }
  }
  std::string some(){ if(F.empty()) return ""; auto it=F.begin(); std::advance(it,rng.i(F.size())); return it->first; }
  template<class T> bool throws(T f){ try{ f(); }catch(std::exception&){ return true; } return false; }

  // leaf pairs (local of rank r, remote) that touch, with the remote cells within d cells of the border
  void needed(int r, int d, std::map<int,std::vector<char>>& out, int only=-1)
  {
    auto adj=M.all_adjacent();
    for(size_t i=0;i<M.L.size();i++) if(M.L[i].rank==r && (only<0||only==(int)i)) for(int j:adj[i]) if(M.L[j].rank!=r)
    {
      auto& v=out[j]; if(v.empty()) v.assign(nc,0);
      auto &l=M.L[i], &g=M.L[j]; int64_t sl=1<<(M.F-l.lev), sg=1<<(M.F-g.lev);
      // every periodic image of the remote leaf that touches the local one has its own shared border
      int wm[3]; for(int a=0;a<3;a++) wm[a]= a<M.ndim && M.per[a] ? 1 : 0;
      for(int wz=-wm[2];wz<=wm[2];wz++) for(int wy=-wm[1];wy<=wm[1];wy++) for(int wx=-wm[0];wx<=wm[0];wx++)
      {
        int w[3]={wx,wy,wz}; bool touch=true; int64_t l0[3],l1[3],s[3];
        for(int a=0;a<M.ndim;a++){ l0[a]=l.c[a]*bs[a]*sl; l1[a]=l0[a]+bs[a]*sl; s[a]=w[a]*M.n[a]*bs[a]; int64_t g0=g.c[a]*bs[a]*sg+s[a]; touch=touch && g0<=l1[a] && l0[a]<=g0+bs[a]*sg; }
        if(!touch) continue;
        for(uint32_t c=0;c<nc;c++)
        {
          if(v[c]) continue;
          int64_t ic[3]={c%bs[0],(c/bs[0])%bs[1],c/(bs[0]*bs[1])}; bool in=true;
          for(int a=0;a<M.ndim;a++){ int64_t g0=(g.c[a]*bs[a]+ic[a])*sg+s[a], g1=g0+sg; in = in && std::max<int64_t>(0,std::max(l0[a]-g1,g0-l1[a]))<d*sg; }
          if(in) v[c]=1;
        }
      }
    }
  }
  void op_exchange(int op)
  {
    if(F.empty()) return;
    int dmax=std::min(bs[0],bs[1]); if(mp.ndim==3) dmax=std::min<int>(dmax,bs[2]);
    int d=1+rng.i(std::min(4,dmax)); bool full=rng.i(4)==0;
    std::vector<std::string> sel, rest; for(auto& f:F) (rng.i(2)?sel:rest).push_back(f.first);
    if(sel.empty()) std::swap(sel,rest);
    bool reduce=rng.i(3)==0;
    R.where=hist+str(" op ",op,(reduce?" reduce":" exchange")," ghosts depth ",d,full?" full":" partial"," fields ",sel.size(),"/",F.size());
    uint32_t ng=m->getNumGhosts(); const LightOctree& lm=m->getLightOctree();
    std::vector<int> gi(ng,-1);
    for(uint32_t i=0;i<ng;i++){ std::vector<uint64_t> o; oct_logical(lm,{i,true},o); auto it=M.idx.find({(int64_t)o[3],(int64_t)o[0],(int64_t)o[1],(int64_t)o[2]}); if(!R.check(it!=M.idx.end(),"P04:ghost-unknown",[&]{return "ghost is no leaf";})) return; gi[i]=it->second; }
    const double POISON=-7.5e77;
    for(auto& f:F){ auto a=acc({f.first}); for(uint32_t i=0;i<ng;i++) for(uint32_t c=0;c<nc;c++) a.at(ci(i,true,c),0)=POISON; }
    std::map<int,std::vector<char>> need; needed(rank,d,need);
    uint64_t s=rng.next();
    auto contrib=[&](int r,size_t f,const Leaf& l,uint32_t c){ return (double)(int64_t)(hashv({s,(uint64_t)r,f,(uint64_t)l.lev,(uint64_t)l.c[0],(uint64_t)l.c[1],(uint64_t)l.c[2],c})%1000)-300; };
    auto a=acc(sel);
    if(reduce)
    {
      // integers, so that sums are exact in any order
      for(size_t f=0;f<sel.size();f++)
      {
        auto& fm=F[sel[f]]; for(auto& l:M.L) for(uint32_t c=0;c<nc;c++) fm[key(l)][c]=contrib(-1,f,l,c);
        for(size_t i=first;i<M.L.size()&&M.L[i].rank==rank;i++) for(uint32_t c=0;c<nc;c++) a.at(ci(i-first,false,c),f)=fm[key(M.L[i])][c];
        for(uint32_t i=0;i<ng;i++) for(uint32_t c=0;c<nc;c++) a.at(ci(i,true,c),f)= (need.count(gi[i])&&need[gi[i]][c]) ? contrib(rank,f,M.L[gi[i]],c) : 0.0;
      }
      for(int r=0;r<size;r++){ std::map<int,std::vector<char>> nr; needed(r,d,nr); for(auto& x:nr) for(size_t f=0;f<sel.size();f++) for(uint32_t c=0;c<nc;c++) if(x.second[c]) F[sel[f]][key(M.L[x.first])][c]+=contrib(r,f,M.L[x.first],c); }
    }
    if(full){ GhostCommunicator_full_blocks g(m->getMesh(),U->getShape(),d); if(reduce) g.reduce_ghosts(a); else g.exchange_ghosts(a);
      R.check(g.getNumGhosts()==ng,"P04:ghost-count",[&]{return str("communicator has ",g.getNumGhosts()," ghosts, mesh ",ng);}); }
    else{ GhostCommunicator g(*m,U->getShape(),d); if(reduce) g.reduce_ghosts(a); else g.exchange_ghosts(a);
      R.check(g.getNumGhosts()==ng,"P04:ghost-count",[&]{return str("communicator has ",g.getNumGhosts()," ghosts, mesh ",ng);}); }
    if(!reduce)
    for(size_t f=0;f<sel.size();f++)
      for(uint32_t i=0;i<ng;i++) for(uint32_t c=0;c<nc;c++)
      {
        double g=a.at(ci(i,true,c),f), w=F[sel[f]][key(M.L[gi[i]])][c]; bool nd=full||(need.count(gi[i])&&need[gi[i]][c]);
        R.n[nd?"ghost_cells":"ghost_cells_not_needed"]++;
        if(!R.check(g==w || (!nd && g==POISON),"P04:exchange",[&]{std::string near; for(size_t q=first;q<M.L.size()&&M.L[q].rank==rank;q++){ std::map<int,std::vector<char>> one; needed(rank,d,one,(int)q); if(one.count(gi[i])&&one[gi[i]][c]) near+=" "+lstr(M.L[q]); } return str("near",near,": ","ghost of ",lstr(M.L[gi[i]])," cell ",c," of field ",sel[f],nd?" within":" outside"," depth ",d," is ",g,", the owner has ",w);})) break;
      }
    else R.n["ghost_reductions"]++;
    for(auto& f:rest){ auto b=acc({f}); for(uint32_t i=0;i<ng;i++) for(uint32_t c=0;c<nc;c++) if(!R.check(b.at(ci(i,true,c),0)==POISON,"P04:other-field",[&]{return str("ghost cells of field ",f,", which was not exchanged, changed");})) return; }
    verify(reduce?"P04:reduce":"P04:local");
    R.kinds.insert(str(mp.ndim,"D/np",size,reduce?"/reduce":"/exchange",full?"/full":"/partial","/depth",d,bs[0]%2||bs[1]%2?"/oddblock":""));
  }
  void op_neighbours(int op)
  {
    R.where=hist+str(" op ",op," cell neighbours");
    uint32_t n=m->getNumOctants(); if(!n) return;
    const LightOctree& lm=m->getLightOctree();
    auto arr=fc->allocate_ghosted_array("vp",FieldManager(1)); auto sh=arr.getShape();
    auto gleaf=[&](LightOctree::OctantIndex o)->int{ if(!o.isGhost) return o.iOct<n?(int)(first+o.iOct):-1; std::vector<uint64_t> v; oct_logical(lm,o,v); auto it=M.idx.find({(int64_t)v[3],(int64_t)v[0],(int64_t)v[1],(int64_t)v[2]}); return it==M.idx.end()?-1:it->second; };
    auto meta=fc->getCellMetaData();
    for(int q=0;q<400;q++)
    {
      uint32_t i=loc.i(n), c=loc.i(nc); auto& l=M.L[first+i]; auto ic=ci(i,false,c); uint32_t p[3]={ic.i,ic.j,ic.k};
      int64_t off[3]={0,0,0};
      for(int a=0;a<M.ndim;a++){ int mx=std::min(3,(int)(bs[a]+1)/2); if(loc.i(2)) off[a]=loc.i(2)?-(int64_t)p[a]-1:(int64_t)(bs[a]-p[a]); else off[a]=loc.i(2*mx+1)-mx; off[a]=std::max<int64_t>(-mx,std::min<int64_t>(mx,off[a])); }
      CellIndex r=ic.getNeighbor_ghost({(int16_t)off[0],(int16_t)off[1],(int16_t)off[2]},sh);
      int64_t t[3],oo[3]; bool out=false,inside=true; int outn[3]={0,0,0};
      for(int a=0;a<3;a++)
      {
        int64_t N=M.count(a,l.lev)*bs[a], raw=(int64_t)p[a]+off[a]; oo[a]= raw<0?-1:raw>=bs[a]?1:0; inside=inside&&oo[a]==0; outn[a]= oo[a]<0?-raw:oo[a]>0?raw-bs[a]+1:0;
        t[a]=l.c[a]*bs[a]+raw; if(t[a]<0||t[a]>=N){ if(M.per[a]) t[a]=(t[a]+N)%N; else out=true; }
      }
      auto info=[&]{ int g=r.is_valid()?gleaf(r.iOct):-1; return str("cell ",c," of ",lstr(l)," + (",off[0],",",off[1],",",off[2],") gives ",g<0?std::string("?"):lstr(M.L[g])," cell ",r.i,",",r.j,",",r.k," status ",(int)r.status); };
      if(out)
      {
        if(!R.check(r.is_boundary(),"P03:cell-border",[&]{return info()+", expected a border";})) continue;
        CellIndex in; CellIndex::offset_t o2; r.getBoundaryPosAndOffset(in,o2); R.n["cells_border"]++;
        // closest cell inside the domain and the offset that leads from it to the requested place; the cell may be in another octant of the same
        // size where the place is beyond that octant's border with the domain's outside, otherwise it is the closest of the own octant
        int64_t ct[3]; for(int a=0;a<3;a++){ int64_t N=M.count(a,l.lev)*bs[a], v=l.c[a]*bs[a]+(int64_t)p[a]+off[a]; if(M.per[a]) v=(v+N)%N; ct[a]=std::max<int64_t>(0,std::min<int64_t>(v,N-1)); }
        auto same=M.idx.find({(int64_t)l.lev,ct[0]/bs[0],ct[1]/bs[1],ct[2]/bs[2]});
        int home = same==M.idx.end() ? (int)(first+i) : same->second;
        bool ok = gleaf(in.iOct)==home; uint32_t q2[3]={in.i,in.j,in.k};
        R.n[home==(int)(first+i)?"cells_border_own":"cells_border_other"]++;
        for(int a=0;a<3;a++)
        {
          int64_t raw=(int64_t)p[a]+off[a];
          if(same!=M.idx.end()){ int64_t N=M.count(a,l.lev)*bs[a], v=l.c[a]*bs[a]+raw; if(M.per[a]) v=(v+N)%N; raw=v-ct[a]+ct[a]%bs[a]; }
          int64_t cl=std::max<int64_t>(0,std::min<int64_t>(raw,bs[a]-1)); ok=ok && q2[a]==cl && o2[a]==raw-cl;
        }
        R.check(ok,"P03:cell-border-pos",[&]{return info()+str(": border position ",q2[0],",",q2[1],",",q2[2]," offset ",o2[0],",",o2[1],",",o2[2]);});
        // physical position of a border cell
        continue;
      }
      if(!R.check(r.is_valid()&&!r.is_boundary(),"P03:cell-invalid",[&]{return info()+", expected a cell";})) continue;
      int g=gleaf(r.iOct); if(!R.check(g>=0 && r.i<bs[0] && r.j<bs[1] && r.k<bs[2],"P03:cell-invalid",[&]{return info();})) continue;
      uint32_t rp[3]={r.i,r.j,r.k}; int64_t got[3]; for(int a=0;a<3;a++) got[a]=M.L[g].c[a]*bs[a]+rp[a];
      int dl=l.lev-M.L[g].lev;
      bool ok=true;
      if(inside) ok = g==(int)(first+i) && r.is_local() && r.level_diff()==0;
      else ok = r.level_diff()==dl && !r.is_local();
      if(dl==0) for(int a=0;a<3;a++) ok=ok && got[a]==t[a];
      else if(dl==1){ for(int a=0;a<M.ndim;a++) ok=ok && got[a]==(t[a]>>1); }
      else if(dl==-1){ for(int a=0;a<M.ndim;a++){ bool hi=off[a]<0; if(outn[a]<=1) ok=ok && got[a]==2*t[a]+(hi?1:0); else ok=ok && (got[a]>>1)==t[a]; } }
      else ok=false;
      R.check(ok,"P03:cell-neighbour",[&]{return info()+str(", expected level ",l.lev," cell ",t[0],",",t[1],",",t[2]);});
      R.n[inside?"cells_inside":dl==0?"cells_same":dl==1?"cells_bigger":"cells_smaller"]++; if(r.iOct.isGhost) R.n["cells_remote"]++;
      // position and size of the cell it returned
      if(!r.iOct.isGhost)
      {
        auto cc=meta.getCellCenter(r); auto cs=meta.getCellSize(r); bool ok2=true;
        for(int a=0;a<M.ndim;a++){ double h=L[a]/(M.count(a,M.L[g].lev)*bs[a]); ok2=ok2 && std::abs(cs[a]-h)<1e-12*L[a] && std::abs(cc[a]-(lo[a]+(got[a]+0.5)*h))<1e-12*(std::abs(lo[a])+L[a]); }
        R.check(ok2,"P03:cell-geometry",[&]{return info()+str(": center ",cc[0],",",cc[1],",",cc[2]," size ",cs[0],",",cs[1],",",cs[2]);});
        LightOctree::pos_t q3{cc[0],cc[1],M.ndim==3?cc[2]:0}; auto back=meta.getCellFromPos(q3);
        R.check(back.iOct.iOct==r.iOct.iOct&&back.iOct.isGhost==r.iOct.isGhost&&back.i==r.i&&back.j==r.j&&back.k==r.k,"P03:cell-position",[&]{return info()+str(": the cell at its centre is said to be oct ",back.iOct.iOct," ",back.i,",",back.j,",",back.k);});
      }
    }
    // the cell containing any position
    for(int q=0;q<100;q++)
    {
      uint32_t i=loc.i(n), c=loc.i(nc); auto& l=M.L[first+i]; auto ic=ci(i,false,c); uint32_t p[3]={ic.i,ic.j,ic.k}; LightOctree::pos_t x{0,0,0};
      for(int a=0;a<M.ndim;a++){ double f= loc.i(4)==0?(loc.i(2)?1e-6:1-1e-6):loc.u(1e-6,1-1e-6); x[a]=lo[a]+L[a]*((l.c[a]*bs[a]+p[a]+f)/(double)(M.count(a,l.lev)*bs[a])); }
      auto r=meta.getCellFromPos(x); R.n["cell_positions"]++;
      R.check(!r.iOct.isGhost&&r.iOct.iOct==i&&r.i==p[0]&&r.j==p[1]&&r.k==p[2],"P03:cell-position",[&]{return str("position ",x[0],",",x[1],",",x[2]," in ",lstr(l)," cell ",c," is said to be in oct ",r.iOct.iOct," cell ",r.i,",",r.j,",",r.k);});
    }
    // positions on cell faces and next to them, down to the last bit, and at the ends of the domain: the process said to own it finds a cell touching it
    auto& lmesh=m->getLightOctree();
    for(int q=0;q<60;q++)
    {
      uint32_t i=loc.i(n); auto& l=M.L[first+i]; LightOctree::pos_t x{0,0,0}, x01{0,0,0};
      for(int a=0;a<M.ndim;a++)
      {
        int k=loc.i(6); double hi=lo[a]+L[a];
        x[a]=lo[a]+L[a]*((l.c[a]*bs[a]+(int)loc.i(bs[a]+1))/(double)(M.count(a,l.lev)*bs[a]));
        if(k==1) x[a]=std::nextafter(x[a],-1e9); else if(k==2) x[a]=std::nextafter(x[a],1e9); else if(k==3) x[a]=lo[a]+L[a]*((l.c[a]+loc.u())/(double)M.count(a,l.lev)); else if(k==4&&loc.i(3)==0) x[a]=lo[a]; else if(k==5&&loc.i(3)==0) x[a]=std::nextafter(hi,-1e9);
        if(x[a]<lo[a]) x[a]=lo[a];
        if(x[a]>=hi) x[a]=std::nextafter(hi,-1e9);
        x01[a]=(x[a]-lo[a])/L[a];
        if(x01[a]>=1){ x[a]=lo[a]; x01[a]=0; }
      }
      int dom=lmesh.getDomainFromPos(x01); R.n["face_positions"]++;
      R.check(dom>=0&&dom<size,"P03:face-domain",[&]{return str("position ",x[0],",",x[1],",",x[2]," is said to belong to process ",dom);});
      if(dom!=rank) continue;
      auto r=meta.getCellFromPos(x); bool ok=!r.iOct.isGhost && r.iOct.iOct<n && r.i<bs[0] && r.j<bs[1] && r.k<bs[2];
      if(ok)
      {
        auto& t=M.L[first+r.iOct.iOct]; uint32_t p[3]={r.i,r.j,r.k};
        for(int a=0;a<M.ndim;a++){ double h=L[a]/(M.count(a,t.lev)*bs[a]), x0=lo[a]+(t.c[a]*bs[a]+p[a])*h, e=1e-12*(std::abs(lo[a])+L[a]); ok=ok && x[a]>=x0-e && x[a]<=x0+h+e; }
      }
      R.check(ok,"P03:face-position",[&]{char b[200]; std::snprintf(b,sizeof b,"%.17g,%.17g,%.17g",x[0],x[1],x[2]); return str("position ",b," on or next to cell faces is said to be in oct ",r.iOct.iOct,r.iOct.isGhost?" (ghost)":""," of ",n," cell ",r.i,",",r.j,",",r.k);});
    }
    R.kinds.insert(str(mp.ndim,"D/np",size,"/cells",bs[0]%2||bs[1]%2?"/oddblock":""));
  }
  void op_fields(int op)
  {
    int k=rng.i(6); if(F.empty()) k=0; if(F.size()>9&&k==0) k=3;
    R.where=hist+str(" op ",op," field op ",k); static uint64_t cnt=0;
    if(k==0)
    { std::set<std::string> s; int q=1+rng.i(3); for(int i=0;i<q;i++){ std::string n=str((char)('a'+rng.i(26)),"f",cnt++%7); if(!F.count(n)) s.insert(n); } if(s.empty()) return; U->new_fields(s); for(auto& n:s) zero(F[n]);
      for(auto& n:s){ auto a=acc({n}); bool z=true; for(uint32_t i=0;i<m->getNumGhosts();i++) for(uint32_t c=0;c<nc;c++) z=z&&a.at(ci(i,true,c),0)==0; R.check(z,"P25:new-ghost",[&]{return str("ghosts of new field ",n," are not zero");}); } }
    else if(k==1||k==2)
    { std::string n=some(); uint64_t s=rng.next(); auto a=acc({n}); for(auto& l:M.L) for(uint32_t c=0;c<nc;c++) F[n][key(l)][c]=val(s,key(l),c);
      for(size_t i=first;i<M.L.size()&&M.L[i].rank==rank;i++) for(uint32_t c=0;c<nc;c++) a.at(ci(i-first,false,c),0)=F[n][key(M.L[i])][c]; }
    else if(k==3){ std::string n=some(); U->delete_field(n); F.erase(n); R.check(!U->has_field(n),"P25:names",[&]{return "deleted field is still there";}); }
    else if(k==4)
    { std::string s=some(), d=rng.i(2)?some():str((char)('a'+rng.i(26)),"m",cnt++%7); U->move_field(d,s); if(s!=d){ F[d]=F[s]; F.erase(s); } }
    else
    {
      std::string n=some();
      R.check(throws([&]{U->new_fields({n});}),"P25:refused",[&]{return "creating an existing field is not refused";});
      R.check(throws([&]{acc({"nosuch"});}),"P25:refused",[&]{return "accessing an unknown field is not refused";});
      R.check(throws([&]{U->move_field("q","nosuch");}),"P25:refused",[&]{return "renaming an unknown field is not refused";});
      R.check(throws([&]{U->getField("nosuch");}),"P25:refused",[&]{return "getField of an unknown field is not refused";});
      R.check(throws([&]{acc({n,n});}) || true,"P25:refused",[&]{return "";});
      auto v=U->getField(n); bool ok=true; for(size_t i=first;i<M.L.size()&&M.L[i].rank==rank;i++) for(uint32_t c=0;c<nc;c++) ok=ok && v.at_ivar(ci(i-first,false,c),0)==F[n][key(M.L[i])][c];
      R.check(ok,"P25:getField",[&]{return str("getField(",n,") differs from the field");});
    }
    static const char* nm[]={"create","write","write","delete","rename","misuse"};
    R.kinds.insert(str(mp.ndim,"D/np",size,"/field-",nm[k])); R.n["field_operations"]++;
    verify("P25:value");
  }
  // ---- particles: the model is keyed by an "id" attribute every particle carries
  void verify_particles(const char* k)
  {
    std::set<std::string> want; for(auto& a:P) want.insert(a.first);
    R.check(U->getEnabledParticleArrays()==want,"P25:names",[&]{return "particle arrays";});
    for(auto& arr:P)
    {
      auto pa=U->getParticleArray(arr.first); uint32_t n=pa.getNumParticles(); uint64_t N=n,tot=0; MPI_Allreduce(&N,&tot,1,MPI_UINT64_T,MPI_SUM,MPI_COMM_WORLD);
      R.check(tot==arr.second.size(),k,[&]{return str("array ",arr.first," has ",tot," particles instead of ",arr.second.size());});
      R.check(U->getEnabledParticleAttributes(arr.first)==A[arr.first],"P25:names",[&]{return "particle attributes";});
      auto id=U->getParticleAccessor(arr.first,{{"id",0}});
      std::map<std::string,UserData::ParticleAccessor> ac; for(auto& a:A[arr.first]) ac.emplace(a,U->getParticleAccessor(arr.first,{{a,0}}));
      std::vector<uint64_t> ids;
      for(uint32_t i=0;i<n;i++)
      {
        double di=id.at(i,0); uint64_t key=(uint64_t)di; auto it=arr.second.find(key);
        if(!R.check(it!=arr.second.end() && di==(double)key,k,[&]{return str("particle with unknown id ",di);})) break;
        ids.push_back(key); bool ok=true; for(int a=0;a<3;a++) ok=ok && pa.pos(i,(ComponentIndex3D)a)==it->second.x[a];
        for(auto& a:ac) ok=ok && a.second.at(i,0)==it->second.at.at(a.first);
        R.n["particles"]++;
        if(!R.check(ok,k,[&]{std::string t=str("particle ",key," of ",arr.first," changed: "); for(int a=0;a<3;a++) t+=str(pa.pos(i,(ComponentIndex3D)a)," (",it->second.x[a],") "); for(auto& a:ac) t+=str(a.first,"=",a.second.at(i,0)," (",it->second.at.at(a.first),") "); return t;})) break;
      }
      int c=(int)ids.size(); std::vector<int> cs(size),ds(size); MPI_Allgather(&c,1,MPI_INT,cs.data(),1,MPI_INT,MPI_COMM_WORLD); int t=0; for(int r=0;r<size;r++){ ds[r]=t; t+=cs[r]; }
      std::vector<uint64_t> all(t); MPI_Allgatherv(ids.data(),c,MPI_UINT64_T,all.data(),cs.data(),ds.data(),MPI_UINT64_T,MPI_COMM_WORLD);
      std::sort(all.begin(),all.end()); R.check(std::adjacent_find(all.begin(),all.end())==all.end() && all.size()==arr.second.size(),k,[&]{return "a particle exists twice or is lost";});
    }
  }
  void verify_owner()
  {
    for(auto& arr:P)
    {
      auto pa=U->getParticleArray(arr.first);
      for(uint32_t i=0;i<pa.getNumParticles();i++)
      {
        int64_t q[3]={0,0,0}; bool edge=false;
        for(int a=0;a<M.ndim;a++){ double f=(pa.pos(i,(ComponentIndex3D)a)-lo[a])/L[a]*M.n[a]; q[a]=(int64_t)std::floor(f); edge=edge||std::abs(f-std::round(f))<1e-9*M.n[a]; }
        int j=M.find(q[0],q[1],q[2]); R.n["particle_owners"]++;
        R.check(edge || (j>=0 && M.L[j].rank==rank),"P16:owner",[&]{return str("particle at ",pa.pos(i,IX),",",pa.pos(i,IY),",",pa.pos(i,IZ)," lies in ",j<0?std::string("?"):lstr(M.L[j])," but is on process ",rank);});
      }
    }
  }
  void op_particles(int op)
  {
    int k=rng.i(6); if(P.empty()) k=0; static uint64_t cnt=0; R.where=hist+str(" op ",op," particle op ",k);
    std::string arr; if(!P.empty()){ auto it=P.begin(); std::advance(it,rng.i(P.size())); arr=it->first; }
    if(k==0 && P.size()<3)
    {
      arr=str("p",cnt++); uint32_t n=rng.i(5)==0?0:rng.i(60); std::vector<uint32_t> ns(size); for(int r=0;r<size;r++) ns[r]= rng.i(3)==0?0:rng.i(60);
      (void)n; uint32_t base=0; for(int r=0;r<rank;r++) base+=ns[r]; uint32_t tot=0; for(int r=0;r<size;r++) tot+=ns[r]; uint64_t s=rng.next();
      U->new_ParticleArray(arr,ns[rank]); U->new_ParticleAttribute(arr,"id"); A[arr]={"id"}; P[arr];
      for(uint32_t g=0;g<tot;g++){ Part q; for(int a=0;a<3;a++) q.x[a]= a<M.ndim ? lo[a]+L[a]*(1e-9+(1-2e-9)*u01(hashv({s,g,(uint64_t)a}))) : 0.0; q.at["id"]=g; P[arr][g]=q; }
      auto pa=U->getParticleArray(arr); auto id=U->getParticleAccessor(arr,{{"id",0}});
      for(uint32_t i=0;i<ns[rank];i++){ id.at(i,0)=base+i; for(int a=0;a<3;a++) pa.pos(i,(ComponentIndex3D)a)=P[arr][base+i].x[a]; }
      R.check(throws([&]{U->new_ParticleArray(arr,3);}),"P25:refused",[&]{return "creating an existing particle array is not refused";});
    }
    else if(arr.empty()) return;
    else if(k==1){ std::string a=str((char)('a'+rng.i(26)),"t",cnt++%5); if(A[arr].count(a)||A[arr].size()>7) return; U->new_ParticleAttribute(arr,a); A[arr].insert(a); for(auto& q:P[arr]) q.second.at[a]=0; }
    else if(k==2)
    { auto it=A[arr].begin(); std::advance(it,rng.i(A[arr].size())); std::string a=*it; if(a=="id") return; uint64_t s=rng.next(); for(auto& q:P[arr]) q.second.at[a]=u01(hashv({s,q.first}))*100-50;
      auto id=U->getParticleAccessor(arr,{{"id",0}}); auto w=U->getParticleAccessor(arr,{{a,0}}); for(uint32_t i=0;i<U->getParticleArray(arr).getNumParticles();i++) w.at(i,0)=P[arr][(uint64_t)id.at(i,0)].at[a]; }
    else if(k==3){ auto it=A[arr].begin(); std::advance(it,rng.i(A[arr].size())); std::string a=*it; if(a=="id") return; U->delete_ParticleAttribute(arr,a); A[arr].erase(a); for(auto& q:P[arr]) q.second.at.erase(a); }
    else if(k==4)
    { auto it=A[arr].begin(); std::advance(it,rng.i(A[arr].size())); std::string a=*it, d; if(a=="id") return; if(rng.i(2)){ auto jt=A[arr].begin(); std::advance(jt,rng.i(A[arr].size())); d=*jt; } else d=str((char)('a'+rng.i(26)),"n"); if(d=="id") return;
      U->move_ParticleAttribute(arr,d,a); if(d==a) return; A[arr].erase(a); A[arr].insert(d); for(auto& q:P[arr]){ q.second.at[d]=q.second.at[a]; q.second.at.erase(a); } }
    else
    {
      // move every particle somewhere else, then distribute
      uint64_t s=rng.next(); for(auto& q:P[arr]) for(int a=0;a<M.ndim;a++) q.second.x[a]=lo[a]+L[a]*(1e-9+(1-2e-9)*u01(hashv({s,q.first,(uint64_t)a})));
      auto id=U->getParticleAccessor(arr,{{"id",0}}); auto pa=U->getParticleArray(arr); for(uint32_t i=0;i<pa.getNumParticles();i++) for(int a=0;a<3;a++) pa.pos(i,(ComponentIndex3D)a)=P[arr][(uint64_t)id.at(i,0)].x[a];
      U->distributeAllParticles(); verify_owner();
      R.check(throws([&]{U->new_ParticleAttribute(arr,"id");}),"P25:refused",[&]{return "creating an existing attribute is not refused";});
      R.check(throws([&]{U->getParticleAccessor(arr,{{"nosuch",0}});}),"P25:refused",[&]{return "accessing an unknown attribute is not refused";});
      R.check(throws([&]{U->getParticleArray("nosuch");}),"P25:refused",[&]{return "accessing an unknown particle array is not refused";});
    }
    static const char* nm[]={"create","attribute","write","delete","rename","distribute"};
    R.kinds.insert(str(mp.ndim,"D/np",size,"/particles-",nm[k]));
    verify_particles(k==5?"P16:distribute":"P25:particles");
  }
  void op_balance(int op)
  {
    if((int)M.L.size()<3*size) return;
    int lev=rng.i(4); bool user=!F.empty(); Model before=M;
    R.where=hist+str(" op ",op," load balance ",lev);
    if(user) m->loadBalance_userdata(lev,*U); else m->loadBalance(lev); U->distributeAllParticles(); mesh();
    std::set<Key> w,g; for(auto& l:before.L) w.insert(key(l)); for(auto& l:M.L) g.insert(key(l));
    if(!R.check(w==g && M.L.size()==before.L.size(),"P05:leaves",[&]{return "load balancing changed the leaves";})) return;
    int moved=0; for(auto& l:before.L) moved+= M.L[M.idx[key(l)]].rank!=l.rank;
    verify("P05:field"); verify_particles("P05:particles"); verify_owner();
    R.n["load_balances"]++; R.n["leaves_moved"]+=moved;
    R.kinds.insert(str(mp.ndim,"D/np",size,"/balance",moved?"/moves":"","/fields",std::min<size_t>(F.size(),4)));
  }
  void op_adapt(int op)
  {
    std::string kind; Model old=M; auto mk=random_marks(Rng(rng.next()),M,kind,mp.ndim==2?500:300);
    R.where=hist+str(" op ",op," adapt+remap ",kind);
    uint32_t n=m->getNumOctants();
    if(!F.empty()) remap->save_old_mesh();
    for(uint32_t i=0;i<n;i++) if(mk[first+i]) m->setMarker(i,mk[first+i]);
    m->adapt(); if(!F.empty()) remap->remap(*U); mesh();
    if(!M.err.empty()){ R.viol("P01:tiling",M.err); return; }
    int ref=0,co=0; 
    std::map<std::string,FieldModel> G; std::map<std::string,double> tot;
    for(auto& f:F) for(auto& l:M.L)
    {
      Key k=key(l); Vals v(nc); auto it=f.second.find(k);
      if(it!=f.second.end()) v=it->second;
      else
      {
        Key pk={k[0]-1,k[1]/2,k[2]/2,k[3]/2}; auto pt=f.second.find(pk);
        if(pt!=f.second.end()) ref++; else co++;
        for(uint32_t c=0;c<nc;c++)
        {
          int64_t x[3]={c%bs[0],(c/bs[0])%bs[1],c/(bs[0]*bs[1])};
          if(pt!=f.second.end())
          { uint32_t q=0,st=1; for(int a=0;a<3;a++){ int64_t o= a<M.ndim ? ((k[a+1]&1)*bs[a]+x[a])/2 : x[a]; q+=st*o; st*=bs[a]; } v[c]=pt->second[q]; }
          else
          { double s=0; for(int sb=0;sb<(1<<M.ndim);sb++){ Key ck={k[0]+1,0,0,0}; uint32_t q=0,st=1; for(int a=0;a<3;a++){ int64_t gpos= a<M.ndim ? 2*x[a]+((sb>>a)&1) : x[a]; ck[a+1]= a<M.ndim ? 2*k[a+1]+gpos/bs[a] : 0; q+=st*(gpos%bs[a]); st*=bs[a]; }
              auto ct=f.second.find(ck); if(ct==f.second.end()){ R.viol("P02:adapt",str("leaf ",lstr(l)," was neither kept, refined nor coarsened")); return; } s+=ct->second[q]; }
            v[c]=s/(1<<M.ndim); }
        }
      }
      G[f.first][k]=v;
    }
    F=G; 
    verify("P06:remap",1e-14);
    // rounding of the mean: take over the values actually stored
    for(auto& f:F) { auto a=acc({f.first}); std::vector<double> mine; for(size_t i=first;i<M.L.size()&&M.L[i].rank==rank;i++) for(uint32_t c=0;c<nc;c++) mine.push_back(a.at(ci(i-first,false,c),0));
      int c=(int)mine.size(); std::vector<int> cs(size),ds(size); MPI_Allgather(&c,1,MPI_INT,cs.data(),1,MPI_INT,MPI_COMM_WORLD); int t=0; for(int r=0;r<size;r++){ ds[r]=t; t+=cs[r]; }
      std::vector<double> all(t); MPI_Allgatherv(mine.data(),c,MPI_DOUBLE,all.data(),cs.data(),ds.data(),MPI_DOUBLE,MPI_COMM_WORLD); size_t p=0; for(auto& l:M.L) for(uint32_t q=0;q<nc;q++) f.second[key(l)][q]=all[p++]; }
    U->distributeAllParticles(); verify_particles("P16:adapt"); verify_owner();
    R.n["adaptations"]++; if(co) R.n["adaptations_coarsening"]++;
    R.kinds.insert(str(mp.ndim,"D/np",size,"/remap",ref?"/refines":"",co?"/coarsens":"",bs[0]%2||bs[1]%2?"/oddblock":""));
  }
};

int main(int argc, char** argv)
{
  DyabloSession session(argc,argv);
  if(argc<5) return 2;
  uint64_t seed=std::atoll(argv[1]); int nh=std::atoi(argv[2]), nops=std::atoi(argv[3]), ndim=std::atoi(argv[4]);
  int rank,size; MPI_Comm_rank(MPI_COMM_WORLD,&rank); MPI_Comm_size(MPI_COMM_WORLD,&size);
  Report R; R.rank=rank;
  bool stop=false;
  for(int h=0;h<nh && !stop;h++)
  {
    Hist H(R,seed,h,ndim,rank,size);
    for(int op=0;op<nops && !stop;op++)
    {
      int k=H.rng.i(20);
      if(k<6) H.op_fields(op); else if(k<9) H.op_exchange(op); else if(k<11) H.op_neighbours(op); else if(k<14) H.op_particles(op); else if(k<17) H.op_balance(op); else H.op_adapt(op);
      stop=R.bad(); // one violation ends the history: later states mean nothing
      R.n["operations"]++;
    }
  }
  R.finish();
  return 0;
}
