// Workload generators and probes plugged into the real DyabloTimeLoop through dyablo's own factories:
//  - vp_ic              initial conditions: seeded smooth/discontinuous state on a seeded AMR tree, seeded particles
//  - vp_refine          refinement criterion: pseudo-random marks, a function of position, level and iteration only
//  - vp_probe           "dt kernel" that never limits dt; records the state at the start of every step
//  - vpwrap_<updater>   hydro kernels with a recorder before (ghosts exchanged) and after the update
//  - vpwrap_remap       MapUserData_mean with a recorder after the remap
//  - IOManager_vp       recorder in place of an output backend
// [vp] section: see members below.
#pragma once
#include "vp_dump.h"
#include <csignal>
#include <map>
#include "DyabloTimeLoop.h"
#include "RiemannSolvers.h"

namespace vp {

inline int& seq(){ static int s=0; return s; }
// [vp] sigint=tag:n:rank,... : the process of that rank sends itself SIGINT at the n-th passage through that point
inline std::map<std::string,int>& passages(){ static std::map<std::string,int> m; return m; }
struct Tracer {
  std::vector<std::string> sig;
  void interrupt(const std::string& tag)
  {
    if(sig.empty()||sig[0]=="none") return;
    int rank; MPI_Comm_rank(MPI_COMM_WORLD,&rank);
    std::string me = tag+":"+std::to_string(++passages()[tag])+":"+std::to_string(rank);
    for(auto& s : sig) if(s==me) std::raise(SIGINT);
  }
  std::string dir; std::set<std::string> tags; int every; bool geometry;
  explicit Tracer(ConfigMap& c)
  : dir(c.getValue<std::string>("vp","trace_dir",".")), every(c.getValue<int>("vp","trace_every",1)), geometry(c.getValue<bool>("vp","trace_geometry",false))
  { for(auto& t : c.getValue<std::vector<std::string>>("vp","trace",{"none"})) tags.insert(t); sig = c.getValue<std::vector<std::string>>("vp","sigint",{"none"}); }
  void operator()(const std::string& tag, const UserData& U, ForeachCell& fc, ScalarSimulationData* sd, bool ghosts)
  {
    interrupt(tag);
    if(!tags.count(tag)) return;
    int it = 0;
    if(sd) it = sd->get<int>("iter");
    if(it % every) return;
    char b[64]; std::snprintf(b,sizeof b,"/%06d_%s", seq()++, tag.c_str());
    dump_state(dir+b, tag, U, fc, sd, ghosts, geometry);
  }
};

// Maps physical unit coordinates to base coordinates: base axis a is physical axis P[a], sign F[a], shift S[a]
struct Frame {
  // mirror >= 0: the domain is twice as long along that axis; the base domain is its upper (mirror_side=0) or lower (1) half, the other half its mirror image
  int P[3]; double F[3], S[3]; int ndim; double lo[3], L[3]; int mir, mir_side;
  explicit Frame(ConfigMap& c, int ndim) : ndim(ndim), mir(c.getValue<int>("vp","mirror",-1)), mir_side(c.getValue<int>("vp","mirror_side",0))
  {
    auto p = c.getValue<std::vector<int>>("vp","perm",{0,1,2});
    auto f = c.getValue<std::vector<int>>("vp","flip",{1,1,1});
    auto s = c.getValue<std::vector<double>>("vp","shift",{0.,0.,0.});
    for(int a=0;a<3;a++){ P[a]=p[a]; F[a]=f[a]; S[a]=s[a]; }
    const char* n[3]={"x","y","z"};
    for(int a=0;a<3;a++){ lo[a]=c.getValue<double>("mesh",std::string(n[a])+"min",0.0); L[a]=c.getValue<double>("mesh",std::string(n[a])+"max",1.0)-lo[a]; }
  }
  void unit_to_base(const double* u, double* b) const
  { for(int a=0;a<ndim;a++){ double v=F[a]*(u[P[a]]-S[a]); v -= std::floor(v); b[a]=v; } if(ndim==2) b[2]=0;
    if(mir>=0) b[mir] = mir_side==0 ? std::abs(2*b[mir]-1) : 1-std::abs(2*b[mir]-1); }
  bool in_image(const double* x) const { return mir>=0 && ((x[mir]-lo[mir])/L[mir] < 0.5) == (mir_side==0); }
  void to_base(const double* x, double* b) const
  { double u[3]; for(int a=0;a<3;a++) u[a]=(x[a]-lo[a])/L[a]; unit_to_base(u,b); }
  void vec_to_phys(const double* vb, double* v) const
  { for(int a=0;a<3;a++) v[a]=vb[a]; for(int a=0;a<ndim;a++) v[P[a]] = F[a]*vb[a]; }
};

// Logical position of an octant in the base frame
inline void base_index(const Frame& fr, const LightOctree& lmesh, LightOctree::OctantIndex o, uint64_t* idx)
{
  auto c = lmesh.getCenter(o); auto s = lmesh.getSize(o);
  double u[3]={c[0],c[1],c[2]}, b[3]; fr.unit_to_base(u,b);
  for(int a=0;a<3;a++) idx[a] = (a<fr.ndim)? (uint64_t)std::floor(b[a]/(s[fr.P[a]]*(a==fr.mir?2:1))) : 0;
}

struct Waves { // sum of integer Fourier modes: periodic, smooth, seeded
  struct M { double k[3], ph, a; }; std::vector<M> m;
  Waves(uint64_t seed, int ndim, int n, int kmax, int dead_axis=-1)
  { Rng r(seed); double tot=0;
    for(int i=0;i<n;i++){ M w{}; for(int a=0;a<ndim;a++) w.k[a] = (a==dead_axis)?0:(r.i(2*kmax+1)-kmax); w.ph=r.u(0,6.283185307179586); w.a=r.u(0.3,1); tot+=w.a; m.push_back(w);}  
    for(auto& w:m) w.a/=tot; }
  double operator()(const double* b) const { double s=0; for(auto& w:m) s+=w.a*std::cos(6.283185307179586*(w.k[0]*b[0]+w.k[1]*b[1]+w.k[2]*b[2])+w.ph); return s; }
};

class InitialConditions_vp : public InitialConditions {
  ForeachCell& fc; ConfigMap& c; Tracer trace;
public:
  InitialConditions_vp(ConfigMap& c, ForeachCell& fc, Timers&) : fc(fc), c(c), trace(c) {}
  void init(UserData& U) override
  {
    AMRmesh& pmesh = fc.get_amr_mesh();
    int ndim = fc.getDim();
    uint64_t seed = c.getValue<int>("vp","seed",1);
    Frame fr(c, ndim);
    double prob = c.getValue<double>("vp","refine_prob",0.3);
    bool lb = c.getValue<bool>("vp","ic_loadbalance",true);
    bool uniform_max = c.getValue<bool>("vp","refine_all",false);
    for(int level=pmesh.get_level_min(); level<pmesh.get_level_max(); level++)
    {
      const LightOctree& lmesh = pmesh.getLightOctree();
      uint32_t n = lmesh.getNumOctants();
      std::vector<int> mk(n,0);
      for(uint32_t i=0;i<n;i++)
      {
        if((int)lmesh.getLevel({i,false})!=level) continue;
        uint64_t id[3]; base_index(fr,lmesh,{i,false},id);
        mk[i] = uniform_max || u01(hashv({seed,77,(uint64_t)level,id[0],id[1],id[2]})) < prob;
      }
      for(uint32_t i=0;i<n;i++) if(mk[i]) pmesh.setMarker(i,1);
      pmesh.adapt();
      if(lb) pmesh.loadBalance();
    }
    std::string upd = c.getValue<std::string>("hydro","update","HydroUpdate_hancock");
    bool mhd = upd.find("MHD")!=std::string::npos, glm = upd.find("GLM")!=std::string::npos;
    std::set<std::string> names{"rho","e_tot","rho_vx","rho_vy","rho_vz"};
    if(mhd) for(auto s:{"Bx","By","Bz"}) names.insert(s);
    if(glm) names.insert("psi");
    U.new_fields(names);
    double gamma = c.getValue<double>("hydro","gamma0",1.4);
    double amp = c.getValue<double>("vp","amp",0.3), vamp=c.getValue<double>("vp","vamp",0.5), bamp=c.getValue<double>("vp","bamp",0.5), jump=c.getValue<double>("vp","jump",1.0);
    double rho0=c.getValue<double>("vp","rho0",1.0), p0=c.getValue<double>("vp","p0",1.0);
    auto v0=c.getValue<std::vector<double>>("vp","v0",{0.,0.,0.}), b0=c.getValue<std::vector<double>>("vp","b0",{0.,0.,0.});
    int kmax=c.getValue<int>("vp","kmax",2), nw=c.getValue<int>("vp","nwaves",4);
    Waves wr(seed*10+1,ndim,nw,kmax), wp(seed*10+2,ndim,nw,kmax), wj(seed*10+6,ndim,3,1);
    std::vector<Waves> wv, wb; for(int a=0;a<3;a++){ wv.emplace_back(seed*10+3+a*100,ndim,nw,kmax); wb.emplace_back(seed*10+7+a*100,ndim,nw,kmax,a); }
    auto meta = fc.getCellMetaData();
    auto A = U.getAccessor({{"rho",0},{"e_tot",1},{"rho_vx",2},{"rho_vy",3},{"rho_vz",4}});
    UserData::FieldAccessor B; if(mhd) B = U.getAccessor({{"Bx",0},{"By",1},{"Bz",2}});
    bool vz2d = c.getValue<bool>("vp","vz2d",false);
    double noise = c.getValue<double>("vp","noise",0.0);   // relative density change from cell to cell, a function of the place only
    fc.foreach_cell("vp_ic", U.getShape(), [=](const ForeachCell::CellIndex& ic)
    {
      auto cc = meta.getCellCenter(ic); double x[3]={cc[0],cc[1],cc[2]}, b[3]; fr.to_base(x,b);
      double j = (jump!=1.0 && wj(b)>0) ? jump : 1.0;
      double rho = rho0*(1+amp*wr(b))*j, p = p0*(1+amp*wp(b))*j, vb[3], v[3], Bb[3]={0,0,0}, Bp[3]={0,0,0};
      if(noise!=0.0) rho *= 1+noise*Rng(hashv({seed,557,(uint64_t)std::llround(b[0]*1048576),(uint64_t)std::llround(b[1]*1048576),(uint64_t)std::llround(b[2]*1048576)})).u(-1,1);
      for(int a=0;a<3;a++) vb[a] = ((a<ndim||vz2d||mhd)? vamp*wv[a](b) + v0[a] : 0.0);
      fr.vec_to_phys(vb,v);
      if(fr.in_image(x)) v[fr.mir] = -v[fr.mir];
      double e = p/(gamma-1) + 0.5*rho*(v[0]*v[0]+v[1]*v[1]+v[2]*v[2]);
      if(mhd){ for(int a=0;a<3;a++) Bb[a]=bamp*wb[a](b)+b0[a]; fr.vec_to_phys(Bb,Bp); e += 0.5*(Bp[0]*Bp[0]+Bp[1]*Bp[1]+Bp[2]*Bp[2]); for(int a=0;a<3;a++) B.at(ic,a)=Bp[a]; }
      A.at(ic,0)=rho; A.at(ic,1)=e; A.at(ic,2)=rho*v[0]; A.at(ic,3)=rho*v[1]; A.at(ic,4)=rho*v[2];
    });
    int npart = c.getValue<int>("vp","npart",0);
    if(npart>0)
    {
      double pv = c.getValue<double>("vp","pvel",1.0);
      // (parameters are read on every process: the program records them from all of them)
      bool edge = c.getValue<bool>("vp","pedge",false);
      double cluster = c.getValue<double>("vp","pcluster",0.0); // share of the particles put together in one place
      double pm = c.getValue<double>("vp","pmass",1.0);
      int sites = c.getValue<int>("vp","psites",0); // >0: all particles crowd around that many random places
      bool r0 = pmesh.getRank()==0;
      U.new_ParticleArray("particles", r0?npart:0);
      for(auto a : {"vx","vy","vz","mass","id"}) U.new_ParticleAttribute("particles",a);
      if(r0)
      {
        auto P = U.getParticleArray("particles");
        auto D = U.getParticleAccessor("particles",{{"vx",0},{"vy",1},{"vz",2},{"mass",3},{"id",4}});
        for(int i=0;i<npart;i++)
        {
          Rng r(hashv({seed,991,(uint64_t)i}));
          double b[3], vb[3], v[3], u[3]={0.5,0.5,0.5};
          for(int a=0;a<3;a++){ b[a]=r.u(); if(edge && r.i(3)==0) b[a]=r.i(64)/64.0; vb[a]=pv*r.u(-1,1); }
          if(ndim==2) vb[2]=0;
          if(cluster>0 && r.u()<cluster) for(int a=0;a<3;a++){ b[a]=0.305+0.004*r.u(); vb[a]*=0.05; }
          if(sites>0){ Rng q(hashv({seed,993,(uint64_t)(i%sites)})); for(int a=0;a<3;a++) b[a]=q.u()+1e-3*r.u(); }
          for(int a=0;a<ndim;a++){ double q=fr.F[a]*b[a]+fr.S[a]; q-=std::floor(q); if(q>=1) q=0; u[fr.P[a]]=q; }
          fr.vec_to_phys(vb,v);
          for(int a=0;a<3;a++){ double q = fr.lo[a]+u[a]*fr.L[a]; if(ndim==2&&a==2) q = fr.lo[2]; P.pos(i,(ComponentIndex3D)a)=q; D.at(i,a)=v[a]; }
          D.at(i,3)=pm*r.u(0.1,1); D.at(i,4)=i;
        }
      }
      U.distributeParticles("particles");
    }
    trace("init",U,fc,nullptr,false);
  }
};

// Exact solutions at time 0 on a seeded mesh: [vp] flow = wave | jump | vortex, states given as rho,p,u,v,w,Bx,By,Bz,psi
class InitialConditions_vpflow : public InitialConditions {
  ForeachCell& fc; ConfigMap& c;
public:
  InitialConditions_vpflow(ConfigMap& c, ForeachCell& fc, Timers&) : fc(fc), c(c) {}
  void init(UserData& U) override
  {
    AMRmesh& pmesh = fc.get_amr_mesh();
    int ndim = fc.getDim();
    uint64_t seed = c.getValue<int>("vp","seed",1);
    Frame fr(c, ndim);
    double prob = c.getValue<double>("vp","refine_prob",0.0);
    for(int level=pmesh.get_level_min(); level<pmesh.get_level_max(); level++)
    {
      const LightOctree& lmesh = pmesh.getLightOctree();
      uint32_t n = lmesh.getNumOctants();
      std::vector<int> mk(n,0);
      for(uint32_t i=0;i<n;i++)
      {
        if((int)lmesh.getLevel({i,false})!=level) continue;
        uint64_t id[3]; base_index(fr,lmesh,{i,false},id);
        mk[i] = u01(hashv({seed,77,(uint64_t)level,id[0],id[1],id[2]})) < prob;
      }
      for(uint32_t i=0;i<n;i++) if(mk[i]) pmesh.setMarker(i,1);
      pmesh.adapt();
      pmesh.loadBalance();
    }
    std::string upd = c.getValue<std::string>("hydro","update","HydroUpdate_hancock");
    bool mhd = upd.find("MHD")!=std::string::npos, glm = upd.find("GLM")!=std::string::npos;
    std::set<std::string> names{"rho","e_tot","rho_vx","rho_vy","rho_vz"};
    if(mhd) for(auto s:{"Bx","By","Bz"}) names.insert(s);
    if(glm) names.insert("psi");
    U.new_fields(names);
    double gamma = c.getValue<double>("hydro","gamma0",1.4), eps = c.getValue<double>("vp","eps",0.1), x0 = c.getValue<double>("vp","x0",0.5), R = c.getValue<double>("vp","radius",0.1);
    int axis = c.getValue<int>("vp","axis",0);
    std::string flow = c.getValue<std::string>("vp","flow","wave");
    std::vector<double> z9(9,0.0), z3(3,0.0);
    auto q0=c.getValue<std::vector<double>>("vp","q0",z9), qa=c.getValue<std::vector<double>>("vp","qre",z9), qb=c.getValue<std::vector<double>>("vp","qim",z9), k=c.getValue<std::vector<double>>("vp","k",z3);
    int kind = flow=="jump" ? 1 : flow=="vortex" ? 2 : 0;
    auto meta = fc.getCellMetaData();
    auto A = U.getAccessor({{"rho",0},{"e_tot",1},{"rho_vx",2},{"rho_vy",3},{"rho_vz",4}});
    UserData::FieldAccessor B, S; if(mhd) B = U.getAccessor({{"Bx",0},{"By",1},{"Bz",2}}); if(glm) S = U.getAccessor({{"psi",0}});
    fc.foreach_cell("vp_flow", U.getShape(), [=](const ForeachCell::CellIndex& ic)
    {
      auto cc = meta.getCellCenter(ic); double x[3]; for(int a=0;a<3;a++) x[a] = a<ndim ? (cc[a]-fr.lo[a])/fr.L[a] : 0;
      double q[9];
      if(kind==1) for(int i=0;i<9;i++) q[i] = x[axis]<x0 ? q0[i] : qa[i];
      else if(kind==0){ double ph = 6.283185307179586*(k[0]*x[0]+k[1]*x[1]+k[2]*x[2]), C=std::cos(ph), D=std::sin(ph); for(int i=0;i<9;i++) q[i]=q0[i]+eps*(qa[i]*C-qb[i]*D); }
      else
      { // isentropic vortex of radius R in the plane normal to axis, centre in the middle of the domain
        int a=(axis+1)%3, b=(axis+2)%3;
        double u=(x[a]-0.5)*fr.L[a]/R, v=(x[b]-0.5)*fr.L[b]/R, e=std::exp(0.5*(1-u*u-v*v));
        for(int i=0;i<9;i++) q[i]=q0[i];
        double T = 1-(gamma-1)*eps*eps/(2*gamma)*e*e*q0[0]/q0[1]*1.0;
        q[0]=q0[0]*std::pow(T,1/(gamma-1)); q[1]=q0[1]*std::pow(T,gamma/(gamma-1));
        q[2+a]-=eps*e*v; q[2+b]+=eps*e*u;
      }
      double e = q[1]/(gamma-1)+0.5*q[0]*(q[2]*q[2]+q[3]*q[3]+q[4]*q[4]);
      if(mhd){ e+=0.5*(q[5]*q[5]+q[6]*q[6]+q[7]*q[7]); for(int a=0;a<3;a++) B.at(ic,a)=q[5+a]; }
      if(glm) S.at(ic,0)=q[8];
      A.at(ic,0)=q[0]; A.at(ic,1)=e; for(int a=0;a<3;a++) A.at(ic,2+a)=q[0]*q[2+a];
    });
  }
};

class RefineCondition_vp : public RefineCondition {
  ForeachCell& fc; Frame fr; uint64_t seed; double pr, pc; int period; Tracer trace; std::unique_ptr<RefineCondition> inner;
public:
  RefineCondition_vp(ConfigMap& c, ForeachCell& fc, Timers& t)
  : fc(fc), fr(c,fc.getDim()), seed(c.getValue<int>("vp","seed",1)), pr(c.getValue<double>("vp","mark_refine",0.1)), pc(c.getValue<double>("vp","mark_coarsen",0.3)),
    period(c.getValue<int>("vp","mark_period",1)), trace(c)
  { inner = RefineConditionFactory::make_instance(c.getValue<std::string>("vp","inner_refine","none"), c, fc, t); }
  void mark_cells(UserData& U, ScalarSimulationData& sd) override
  {
    trace("preamr",U,fc,&sd,false);
    if(inner){ inner->mark_cells(U,sd); return; }
    AMRmesh& pmesh = fc.get_amr_mesh();
    const LightOctree& lmesh = pmesh.getLightOctree();
    uint32_t n = lmesh.getNumOctants();
    uint64_t it = sd.get<int>("iter")/period;
    Kokkos::View<int*> mk("vp_markers", n);
    for(uint32_t i=0;i<n;i++)
    {
      uint64_t id[3], L=lmesh.getLevel({i,false}); base_index(fr,lmesh,{i,false},id);
      int m=0;
      if((int)L>pmesh.get_level_min() && u01(hashv({seed,5,it,L-1,id[0]/2,id[1]/2,id[2]/2}))<pc) m=-1;
      else if((int)L<pmesh.get_level_max() && u01(hashv({seed,6,it,L,id[0],id[1],id[2]}))<pr) m=1;
      mk(i)=m;
    }
    pmesh.setMarkers(mk);
  }
};

class Compute_dt_vp : public Compute_dt {
  ForeachCell& fc; Tracer trace; double fixed;
public:
  Compute_dt_vp(ConfigMap& c, ForeachCell& fc, Timers&) : fc(fc), trace(c), fixed(c.getValue<double>("vp","fixed_dt",-1.0)) {}
  void compute_dt(const UserData& U, ScalarSimulationData& sd) override
  { trace("step",U,fc,&sd,false); sd.set<real_t>("dt", fixed>0? fixed : std::numeric_limits<real_t>::max()); }
};

template<int I> struct WrapName;
template<int I> class HydroUpdate_wrap : public HydroUpdate {
  ForeachCell& fc; Tracer trace; std::unique_ptr<HydroUpdate> inner;
public:
  HydroUpdate_wrap(ConfigMap& c, ForeachCell& fc, Timers& t) : fc(fc), trace(c), inner(HydroUpdateFactory::make_instance(WrapName<I>::inner(), c, fc, t)) {}
  void update(UserData& U, ScalarSimulationData& sd) override
  { trace("pre",U,fc,&sd,true); inner->update(U,sd); trace("post",U,fc,&sd,false); }
};

class MapUserData_wrap : public MapUserData {
  ForeachCell& fc; Tracer trace; std::unique_ptr<MapUserData> inner;
public:
  MapUserData_wrap(ConfigMap& c, ForeachCell& fc, Timers& t) : fc(fc), trace(c), inner(MapUserDataFactory::make_instance("MapUserData_mean",c,fc,t)) {}
  void save_old_mesh() override { inner->save_old_mesh(); }
  void remap(UserData& U) override { inner->remap(U); trace("postamr",U,fc,nullptr,false); }
};

// particle kernels with a recorder before and after
template<int I> struct PWrapName;
template<int I> class ParticleUpdate_wrap : public ParticleUpdate {
  ForeachCell& fc; Tracer trace; std::unique_ptr<ParticleUpdate> inner;
public:
  ParticleUpdate_wrap(ConfigMap& c, ForeachCell& fc, Timers& t) : fc(fc), trace(c), inner(ParticleUpdateFactory::make_instance(PWrapName<I>::inner(), c, fc, t)) {}
  void update(UserData& U, ScalarSimulationData& sd) override
  { std::string k = I<3 ? "move" : "proj"; trace("pre"+k,U,fc,&sd,false); inner->update(U,sd); trace("post"+k,U,fc,&sd,false); }
};

// gravity kernels with a recorder after the solve (the density then is the one the solver saw)
template<int I> struct GWrapName;
template<int I> class GravitySolver_wrap : public GravitySolver {
  ForeachCell& fc; Tracer trace; std::unique_ptr<GravitySolver> inner;
public:
  GravitySolver_wrap(ConfigMap& c, ForeachCell& fc, Timers& t) : fc(fc), trace(c), inner(GravitySolverFactory::make_instance(GWrapName<I>::inner(), c, fc, t)) {}
  void update_gravity_field(UserData& U, ScalarSimulationData& sd) override { inner->update_gravity_field(U,sd); trace("grav",U,fc,&sd,false); }
};

class IOManager_vp : public IOManager {
  ForeachCell& fc; Tracer trace;
public:
  IOManager_vp(ConfigMap& c, ForeachCell& fc, Timers&) : fc(fc), trace(c) {}
  void save_snapshot(const UserData& U, ScalarSimulationData& sd) override { trace("out",U,fc,&sd,false); }
};

// checkpoint backend that delegates to the real one and records the state it was given
class IOManager_ckvp : public IOManager {
  ForeachCell& fc; Tracer trace; std::unique_ptr<IOManager> inner;
public:
  IOManager_ckvp(ConfigMap& c, ForeachCell& fc, Timers& t) : fc(fc), trace(c), inner(IOManagerFactory::make_instance("IOManager_checkpoint",c,fc,t)) {}
  void save_snapshot(const UserData& U, ScalarSimulationData& sd) override { trace("ckpt",U,fc,&sd,false); inner->save_snapshot(U,sd); }
};
class IOManager_h5vp : public IOManager {
  ForeachCell& fc; Tracer trace; std::unique_ptr<IOManager> inner;
public:
  IOManager_h5vp(ConfigMap& c, ForeachCell& fc, Timers& t) : fc(fc), trace(c), inner(IOManagerFactory::make_instance("IOManager_hdf5",c,fc,t)) {}
  void save_snapshot(const UserData& U, ScalarSimulationData& sd) override { trace("out",U,fc,&sd,false); inner->save_snapshot(U,sd); }
};

#define VP_WRAP(N,NAME) template<> struct WrapName<N>{ static const char* inner(){ return NAME; } };
VP_WRAP(0,"HydroUpdate_hancock") VP_WRAP(1,"HydroUpdate_hancock_oneneighbor") VP_WRAP(2,"HydroUpdate_euler") VP_WRAP(3,"HydroUpdate_RK2") VP_WRAP(4,"HydroUpdate_legacy")
VP_WRAP(5,"MHDUpdate_hancock") VP_WRAP(6,"MHDUpdate_hancock_oneneighbor") VP_WRAP(7,"MHDUpdate_euler") VP_WRAP(8,"MHDUpdate_RK2") VP_WRAP(9,"GLMMHDUpdate_euler") VP_WRAP(10,"GLMMHDUpdate_RK2")

#define VP_PWRAP(N,NAME) template<> struct PWrapName<N>{ static const char* inner(){ return NAME; } };
VP_PWRAP(0,"ParticleUpdate_NGP_move") VP_PWRAP(1,"ParticleUpdate_CIC_move") VP_PWRAP(2,"ParticleUpdate_tracers_move") VP_PWRAP(3,"ParticleUpdate_NGP_density") VP_PWRAP(4,"ParticleUpdate_CIC_density")
#define VP_GWRAP(N,NAME) template<> struct GWrapName<N>{ static const char* inner(){ return NAME; } };
VP_GWRAP(0,"GravitySolver_constant") VP_GWRAP(1,"GravitySolver_point_mass") VP_GWRAP(2,"GravitySolver_cg")

inline void register_plugins()
{
#define VP_PREG(N) ParticleUpdateFactory::register_class<ParticleUpdate_wrap<N>>(std::string("vpwrap_")+PWrapName<N>::inner());
  VP_PREG(0) VP_PREG(1) VP_PREG(2) VP_PREG(3) VP_PREG(4)
#define VP_GREG(N) GravitySolverFactory::register_class<GravitySolver_wrap<N>>(std::string("vpwrap_")+GWrapName<N>::inner());
  VP_GREG(0) VP_GREG(1) VP_GREG(2)
  InitialConditionsFactory::register_class<InitialConditions_vp>("vp_ic");
  InitialConditionsFactory::register_class<InitialConditions_vpflow>("vp_flow");
  RefineConditionFactory::register_class<RefineCondition_vp>("vp_refine");
  Compute_dtFactory::register_class<Compute_dt_vp>("vp_probe");
  MapUserDataFactory::register_class<MapUserData_wrap>("vpwrap_remap");
  IOManagerFactory::register_class<IOManager_vp>("IOManager_vp");
  IOManagerFactory::register_class<IOManager_ckvp>("IOManager_ckvp");
  IOManagerFactory::register_class<IOManager_h5vp>("IOManager_h5vp");
#define VP_REG(N) HydroUpdateFactory::register_class<HydroUpdate_wrap<N>>(std::string("vpwrap_")+WrapName<N>::inner());
  VP_REG(0) VP_REG(1) VP_REG(2) VP_REG(3) VP_REG(4) VP_REG(5) VP_REG(6) VP_REG(7) VP_REG(8) VP_REG(9) VP_REG(10)
}
} // namespace vp
