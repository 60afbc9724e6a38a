// P01/P02/P03/P04: histories of adaptation and load balancing on AMRmesh, judged after every operation against the brute-force model.
// args: seed histories operations ndim ['deep' level: meshes of 12 to 21 levels, refined around points]
#include "DyabloSession.hpp"
#include "vp_meshhist.h"
using namespace dyablo; using namespace vp;

static void check_state(AMRmesh& m, const MeshParams& mp, Model& M, Report& R, Rng& rng)
{
  const LightOctree& lm=m.getLightOctree();
  int rank,size; MPI_Comm_rank(MPI_COMM_WORLD,&rank); MPI_Comm_size(MPI_COMM_WORLD,&size);
  uint32_t n=lm.getNumOctants(), ng=lm.getNumGhosts();
  // ---- P01
  if(!R.check(M.err.empty(),"P01:tiling",[&]{return M.err;})) return;
  for(size_t i=1;i<M.L.size();i++) if(!R.check(morton_less(M.L[i-1],M.L[i],M.F),"P01:order",[&]{return str("not in curve order: ",lstr(M.L[i-1])," then ",lstr(M.L[i]));})) break;
  size_t first=0; while(first<M.L.size() && M.L[first].rank<rank) first++;
  R.check(m.getGlobalNumOctants()==M.L.size(),"P01:count",[&]{return str("global count ",m.getGlobalNumOctants()," but there are ",M.L.size());});
  R.check(m.getNumOctants()==n && m.getNumGhosts()==ng,"P01:count",[&]{return str("counts of mesh and light octree differ");});
  if(n){ R.check(m.getGlobalIdx(0)==first && m.getGlobalIdx(n-1)==first+n-1,"P01:globalidx",[&]{return str("first global index ",m.getGlobalIdx(0)," expected ",first);}); }
  auto geom=[&](auto c, auto ce, auto s, int lev, const Leaf& l, const char* what)
  {
    bool ok = lev==l.lev;
    for(int a=0;a<M.ndim;a++){ double h=1.0/M.count(a,l.lev); ok = ok && std::abs(c[a]-l.c[a]*h)<1e-14 && std::abs(ce[a]-(l.c[a]+0.5)*h)<1e-14 && std::abs(s[a]-h)<1e-15 && std::abs(s[a]-h)<1e-9*h; }
    R.check(ok,"P01:geometry",[&]{return str(what," geometry of ",lstr(l)," reported as corner ",c[0],",",c[1],",",c[2]," size ",s[0],",",s[1],",",s[2]," level ",lev);});
  };
  for(uint32_t i=0;i<n;i++)
  { geom(lm.getCorner({i,false}),lm.getCenter({i,false}),lm.getSize({i,false}),lm.getLevel({i,false}),M.L[first+i],"light octree");
    geom(m.getCoordinates(i),m.getCenter(i),m.getSize(i),m.getLevel(i),M.L[first+i],"mesh"); }
  // ---- P02: 2:1
  auto adj=M.all_adjacent();
  for(size_t i=0;i<M.L.size();i++) for(int j:adj[i]) if(!R.check(std::abs(M.L[i].lev-M.L[j].lev)<=1,"P02:balance",[&]{return str("2:1 broken: ",lstr(M.L[i])," ",lstr(M.L[j]));})) break;
  // ---- P04: ghosts
  std::vector<int> gidx(ng,-1); std::set<int> gs;
  for(uint32_t i=0;i<ng;i++)
  {
    std::vector<uint64_t> o; oct_logical(lm,{i,true},o);
    auto it=M.idx.find({(int64_t)o[3],(int64_t)o[0],(int64_t)o[1],(int64_t)o[2]});
    if(!R.check(it!=M.idx.end(),"P04:ghost-unknown",[&]{return str("ghost ",i," L",o[3],"(",o[0],",",o[1],",",o[2],") is not a leaf of any process");})) continue;
    gidx[i]=it->second;
    R.check(M.L[it->second].rank!=rank,"P04:ghost-local",[&]{return str("ghost of an own leaf ",lstr(M.L[it->second]));});
    R.check(gs.insert(it->second).second,"P04:ghost-twice",[&]{return str("ghost present twice ",lstr(M.L[it->second]));});
    geom(m.getCoordinatesGhost(i),m.getCenterGhost(i),m.getSizeGhost(i),m.getLevelGhost(i),M.L[it->second],"ghost");
  }
  for(uint32_t i=0;i<n;i++) for(int j:adj[first+i]) if(M.L[j].rank!=rank)
    R.check(gs.count(j),"P04:ghost-missing",[&]{return str("remote leaf ",lstr(M.L[j])," touches ",lstr(M.L[first+i])," but is no ghost");});
  // ---- P03: neighbours
  auto gl=[&](LightOctree::OctantIndex o)->int{ if(o.isGhost) return o.iOct<ng?gidx[o.iOct]:-2; return o.iOct<n?(int)(first+o.iOct):-2; };
  for(uint32_t i=0;i<n;i++)
    for(int dz=(M.ndim==3?-1:0);dz<=(M.ndim==3?1:0);dz++) for(int dy=-1;dy<=1;dy++) for(int dx=-1;dx<=1;dx++)
    {
      int d[3]={dx,dy,dz}; std::set<int> want; std::multiset<int> got;
      if(dx||dy||dz) M.adjacent(first+i,d,want); else want.insert(first+i);
      auto ns=lm.findNeighbors({i,false},{(int8_t)dx,(int8_t)dy,(int8_t)dz});
      for(int k=0;k<(int)ns.size();k++) got.insert(gl(ns[k]));
      bool ok = got.size()==want.size() && std::equal(want.begin(),want.end(),got.begin());
      R.check(ok,"P03:neighbours",[&]{ std::string t=str("neighbours of ",lstr(M.L[first+i])," towards (",dx,",",dy,",",dz,"): got"); for(int g:got) t+=" "+(g<0?str("?"):lstr(M.L[g])); t+=" expected"; for(int g:want) t+=" "+lstr(M.L[g]); return t; });
      if(want.size()>1) R.n["neighbours_smaller"]++; else if(want.empty()) R.n["neighbours_border"]++; else { int j=*want.begin(); R.n[M.L[j].lev<M.L[first+i].lev?"neighbours_bigger":"neighbours_same"]++; if(M.L[j].rank!=rank) R.n["neighbours_remote"]++; }
      if(dx||dy||dz) R.check(lm.isBoundary({i,false},{(int8_t)dx,(int8_t)dy,(int8_t)dz})==want.empty(),"P03:isBoundary",[&]{return str("isBoundary of ",lstr(M.L[first+i])," (",dx,",",dy,",",dz,")");});
    }
  // ---- P03: positions: anywhere for the owner, in own leaves for the leaf
  auto pos_of=[&](const Leaf& l, const double f[3], LightOctree::pos_t& p){ for(int a=0;a<3;a++) p[a] = (a<M.ndim)? (l.c[a]+f[a])/(double)M.count(a,l.lev) : 0; };
  double edge = M.F>12 ? 1e-6 : 1e-9;
  for(int q=0;q<40;q++)
  {
    int j=rng.i(M.L.size()); double f[3]; for(int a=0;a<3;a++) f[a]= rng.i(4)==0 ? (rng.i(2)?edge:1-edge) : rng.u(1e-6,1-1e-6);
    LightOctree::pos_t p; pos_of(M.L[j],f,p);
    int dom=lm.getDomainFromPos(p);
    R.check(dom==M.L[j].rank,"P03:domain",[&]{return str("position ",p[0],",",p[1],",",p[2]," in ",lstr(M.L[j])," is said to belong to process ",dom);});
    R.n["position_queries"]++;
  }
  for(int q=0;q<40&&n;q++)
  {
    uint32_t i=rng.i(n); auto& l=M.L[first+i]; double f[3]; for(int a=0;a<3;a++) f[a]= rng.i(4)==0 ? (rng.i(2)?edge:1-edge) : rng.u(1e-6,1-1e-6);
    LightOctree::pos_t p; pos_of(l,f,p); int g=gl(lm.getiOctFromPos(p));
    R.check(g==(int)(first+i),"P03:position",[&]{return str("position ",p[0],",",p[1],",",p[2]," in ",lstr(l)," is said to be in ",g<0?str("?"):lstr(M.L[g]));});
  }
}

int main(int argc, char** argv)
{
  DyabloSession session(argc,argv);
  if(argc<5) return 2;
  uint64_t seed=std::atoll(argv[1]); int nh=std::atoi(argv[2]), nops=std::atoi(argv[3]), ndim=std::atoi(argv[4]);
  int rank,size; MPI_Comm_rank(MPI_COMM_WORLD,&rank); MPI_Comm_size(MPI_COMM_WORLD,&size);
  Report R; R.rank=rank;
  bool stop=false;
  for(int h=0;h<nh && !stop;h++)
  {
    Rng rng(hashv({seed,(uint64_t)h,(uint64_t)ndim})); Rng loc(hashv({seed,(uint64_t)h,1000+(uint64_t)rank}));
    bool deep=argc>5; int top=argc>6?std::stoi(argv[6]):0;
    MeshParams mp=deep?deep_params(rng,ndim,size,top):random_params(rng,ndim,size,false);
    std::string hist=str("history ",h," ndim=",ndim," np=",size," per=",mp.per[0],mp.per[1],mp.per[2]," levels=",mp.lmin,"-",mp.lmax," coarse=",mp.cg[0],"x",mp.cg[1],"x",mp.cg[2]);
    R.where=hist;
    AMRmesh m(ndim,ndim,mp.per,mp.lmin,mp.lmax,{mp.cg[0],mp.cg[1],mp.cg[2]});
    Model M=gather(m,mp); check_state(m,mp,M,R,loc);
    size_t limit = deep?3000:ndim==2?1500:1200; double spot[3]; for(auto& x:spot) x = rng.i(3)==0 ? (rng.i(2)?1-1e-12:1e-12) : rng.u();
    stop=R.bad();
    for(int op=0;op<nops && !stop;op++)
    {
      std::string kind; Model before=M;
      if(rng.i(10)<7)
      {
        if(!deep && rng.i(12)==0 && M.F<mp.lmax && M.L.size()<limit/4)
        {
          kind="adaptGlobalRefine"; m.adaptGlobalRefine(); M=gather(m,mp);
          std::set<Key> w=before.adapted(std::vector<int>(before.L.size(),1)), g; for(auto& l:M.L) g.insert(key(l));
          R.where=hist+str(" op ",op," ",kind);
          R.check(w==g,"P02:globalrefine",[&]{return str("global refinement gave ",g.size()," leaves instead of ",w.size());});
        }
        else
        {
          auto mk=random_marks(Rng(rng.next()),M,kind,limit);
          if(deep) // dig at a point; now and then fill up again behind it and dig elsewhere
          {
            bool up=M.L.size()>limit || (M.F>=mp.lmax && rng.i(3)==0); kind=up?"deep_fill":"deep_dig";
            if(up) for(auto& x:spot) x = rng.i(3)==0 ? (rng.i(2)?1-1e-12:1e-12) : rng.u();
            for(size_t i=0;i<mk.size();i++){ auto& l=M.L[i]; bool in=true; for(int a=0;a<M.ndim;a++){ double c=M.count(a,l.lev); in=in && l.c[a]==std::min<int64_t>(spot[a]*c,c-1); } mk[i] = in&&l.lev<mp.lmax ? 1 : up&&l.lev>mp.lmin&&(l.lev*7919+l.c[0]/2+3*(l.c[1]/2))%5 ? -1 : 0; }
          }
          uint32_t n=m.getNumOctants(); size_t first=0; while(first<M.L.size() && M.L[first].rank<rank) first++;
          if(rng.i(2)){ Kokkos::View<int*> v("marks",n); for(uint32_t i=0;i<n;i++) v(i)=mk[first+i]; m.setMarkers(v); }
          else for(uint32_t i=0;i<n;i++) if(mk[first+i]) m.setMarker(i,mk[first+i]);
          m.adapt(); M=gather(m,mp);
          R.where=hist+str(" op ",op," adapt ",kind);
          std::set<Key> w=before.adapted(mk), g; for(auto& l:M.L) g.insert(key(l));
          R.check(w==g,"P02:adapt",[&]{
            std::string t=str("adaptation of ",before.L.size()," leaves: "); int c=0;
            for(auto& k:w) if(!g.count(k)&&c++<3) t+=str("missing L",k[0],"(",k[1],",",k[2],",",k[3],") ");
            c=0; for(auto& k:g) if(!w.count(k)&&c++<3) t+=str("unexpected L",k[0],"(",k[1],",",k[2],",",k[3],") "); return t; });
          int ref=0,co=0; for(auto& k:w){ if(!before.idx.count(k)){ if(before.idx.count({k[0]-1,k[1]/2,k[2]/2,k[3]/2})) ref++; else co++; } }
          R.n["leaves_refined"]+=ref>>ndim; R.n["leaves_coarsened"]+=co; 
          R.kinds.insert(str(ndim,"D/np",size,"/adapt_",kind,deep?str("_to_level_",M.F):str(),ref?"/refines":"",co?"/coarsens":"",mp.cg[0]==mp.cg[1]?"":"/noncubic"));
          // sibling groups held by several processes before coarsening
          if(co) for(auto& k:w) if(!before.idx.count(k) && !before.idx.count({k[0]-1,k[1]/2,k[2]/2,k[3]/2})){
            std::set<int> rs; for(int q=0;q<(1<<ndim);q++){ auto it=before.idx.find({k[0]+1,k[1]*2+(q&1),k[2]*2+((q>>1)&1),k[3]*2+((q>>2)&1)}); if(it!=before.idx.end()) rs.insert(before.L[it->second].rank);} if(rs.size()>1) R.n["coarsened_across_processes"]++; }
        }
      }
      else
      {
        int lev=rng.i(4); kind=str("loadBalance ",lev);
        if((int)M.L.size()<3*size) continue;
        m.loadBalance(lev); M=gather(m,mp);
        R.where=hist+str(" op ",op," ",kind);
        std::set<Key> w,g; for(auto& l:before.L) w.insert(key(l)); for(auto& l:M.L) g.insert(key(l));
        R.check(w==g && M.L.size()==before.L.size(),"P01:loadbalance",[&]{return str("load balancing changed the leaves: ",before.L.size()," -> ",M.L.size());});
        // each process starts at most one group of siblings before its even share
        std::vector<size_t> start(size+1,M.L.size()); for(size_t i=M.L.size();i-->0;) start[M.L[i].rank]=i;
        for(int r=1;r<size;r++)
        {
          size_t even=M.L.size()*r/size; auto& e=M.L[even];
          int keep=mp.lmax-lev; Leaf a=e; // ancestor of the even split at level lmax-lev
          size_t lo=even; int64_t sh=std::max(0,e.lev-keep);
          while(lo>0 && sh>0){ auto& q=M.L[lo-1]; if(q.lev<keep) break; int d=q.lev-keep; bool in=true; for(int k=0;k<3;k++) in=in && (q.c[k]>>d)==(a.c[k]>>sh); if(!in) break; lo--; }
          R.check(start[r]<=even && start[r]>=lo,"P05:balance",[&]{return str("process ",r," of ",size," starts at leaf ",start[r]," of ",M.L.size(),", expected between ",lo," and ",even," (compact levels ",lev,")");});
        }
        R.kinds.insert(str(ndim,"D/np",size,"/balance",lev,mp.cg[0]==mp.cg[1]?"":"/noncubic"));
        R.n["load_balances"]++;
      }
      if(!deep || rng.i(3)==0 || op==nops-1) check_state(m,mp,M,R,loc);
      else R.check(M.err.empty(),"P01:tiling",[&]{return M.err;});
      R.n["states"]++; R.n["max_leaves"]=std::max<uint64_t>(R.n["max_leaves"],M.L.size()); stop=R.bad();
    }
  }
  R.finish();
  return 0;
}
