// Event-log recorder shared by the monitors: writes the complete observable state of a running
// simulation (leaves, cell fields, ghosts, particles, scalars) into one binary record file per MPI rank.
// Only uses the interfaces every dyablo kernel uses (ForeachCell, LightOctree, UserData).
#pragma once
#include <cstdio>
#include <cmath>
#include <string>
#include <vector>
#include <sstream>
#include <set>
#include "foreach_cell/ForeachCell.h"
#include "UserData.h"
#include "ScalarSimulationData.h"
#include "utils/mpi/GlobalMpiSession.h"

namespace vp {
using namespace dyablo;

class RecWriter {
  FILE* f;
public:
  explicit RecWriter(const std::string& path) : f(std::fopen(path.c_str(), "wb"))
  { if(!f){ std::perror(path.c_str()); std::abort(); } std::fwrite("VPREC1\n", 1, 7, f); }
  RecWriter(const RecWriter&) = delete;
  ~RecWriter(){ std::fclose(f); }
  void raw(const std::string& name, const char* dtype, const std::vector<uint64_t>& shape, const void* p, size_t nbytes)
  {
    std::ostringstream h; h << name << "|" << dtype << "|";
    for(size_t i=0;i<shape.size();i++) h << (i?",":"") << shape[i];
    h << "|" << nbytes << "\n";
    std::string s = h.str();
    std::fwrite(s.data(), 1, s.size(), f);
    if(nbytes) std::fwrite(p, 1, nbytes, f);
  }
  void d(const std::string& name, const std::vector<double>& v, std::vector<uint64_t> shape = {})
  { if(shape.empty()) shape = {v.size()}; raw(name, "<f8", shape, v.data(), v.size()*8); }
  void u(const std::string& name, const std::vector<uint64_t>& v, std::vector<uint64_t> shape = {})
  { if(shape.empty()) shape = {v.size()}; raw(name, "<u8", shape, v.data(), v.size()*8); }
  void i(const std::string& name, const std::vector<int64_t>& v, std::vector<uint64_t> shape = {})
  { if(shape.empty()) shape = {v.size()}; raw(name, "<i8", shape, v.data(), v.size()*8); }
  void s(const std::string& name, const std::string& v)
  { raw(name, "str", {v.size()}, v.data(), v.size()); }
};

inline void oct_logical(const LightOctree& lmesh, LightOctree::OctantIndex o, std::vector<uint64_t>& out)
{
  auto c = lmesh.getCorner(o); auto s = lmesh.getSize(o);
  for(int a=0;a<3;a++)
    out.push_back( (a<(int)lmesh.getNdim()) ? (uint64_t)std::llround(c[a]/s[a]) : 0 );
  out.push_back( lmesh.getLevel(o) );
}

// Leaves, ghosts and cell metadata
inline void dump_mesh(RecWriter& w, ForeachCell& fc, bool geometry)
{
  AMRmesh& pmesh = fc.get_amr_mesh();
  const LightOctree& lmesh = pmesh.getLightOctree();
  uint32_t n = lmesh.getNumOctants(), ng = lmesh.getNumGhosts();
  std::vector<uint64_t> o, g;
  for(uint32_t i=0;i<n;i++)  oct_logical(lmesh, {i,false}, o);
  for(uint32_t i=0;i<ng;i++) oct_logical(lmesh, {i,true}, g);
  w.u("oct", o, {n,4}); w.u("ghost_oct", g, {ng,4});
  w.u("counts", {pmesh.getNumOctants(), pmesh.getNumGhosts(), pmesh.getGlobalNumOctants(), n? pmesh.getGlobalIdx(0):0, n? pmesh.getGlobalIdx(n-1):0});
  if(geometry)
  {
    auto bs = fc.blockSize();
    auto meta = fc.getCellMetaData();
    std::vector<double> c, s;
    for(uint32_t i=0;i<n;i++)
      for(uint32_t k=0;k<bs[2];k++) for(uint32_t j=0;j<bs[1];j++) for(uint32_t ii=0;ii<bs[0];ii++)
      {
        ForeachCell::CellIndex ic{{i,false},ii,j,k,bs[0],bs[1],bs[2],ForeachCell::CellIndex::LOCAL_TO_BLOCK};
        auto cc = meta.getCellCenter(ic); auto cs = meta.getCellSize(ic);
        for(int a=0;a<3;a++){ c.push_back(cc[a]); s.push_back(cs[a]); }
      }
    uint64_t nc = (uint64_t)bs[0]*bs[1]*bs[2];
    w.d("center", c, {n,nc,3}); w.d("size", s, {n,nc,3});
  }
}

inline void dump_fields(RecWriter& w, const UserData& U, ForeachCell& fc, bool ghosts)
{
  std::set<std::string> names = U.getEnabledFields();
  if(names.empty()) return;
  const LightOctree& lmesh = fc.get_amr_mesh().getLightOctree();
  uint64_t n = lmesh.getNumOctants(), ng = lmesh.getNumGhosts();
  auto bs = fc.blockSize();
  uint64_t nc = (uint64_t)bs[0]*bs[1]*bs[2];
  for(const std::string& name : names)
  {
    UserData::FieldAccessor A = U.getAccessor({{name,0}});
    for(int pass=0; pass<(ghosts?2:1); pass++)
    {
      uint64_t m = pass? ng:n;
      std::vector<double> v(m*nc);
      size_t p=0;
      for(uint32_t i=0;i<m;i++)
        for(uint32_t k=0;k<bs[2];k++) for(uint32_t j=0;j<bs[1];j++) for(uint32_t ii=0;ii<bs[0];ii++)
          v[p++] = A.at({{i,pass==1},ii,j,k,bs[0],bs[1],bs[2],ForeachCell::CellIndex::LOCAL_TO_BLOCK}, 0);
      w.d((pass?"g:":"f:")+name, v, {m,nc});
    }
  }
}

inline void dump_particles(RecWriter& w, const UserData& U)
{
  for(const std::string& arr : U.getEnabledParticleArrays())
  {
    auto P = U.getParticleArray(arr);
    uint64_t np = P.getNumParticles();
    std::vector<double> pos(np*3);
    for(uint32_t i=0;i<np;i++) for(int a=0;a<3;a++) pos[i*3+a] = P.pos(i,(ComponentIndex3D)a);
    w.d("p:"+arr+":pos", pos, {np,3});
    for(const std::string& at : U.getEnabledParticleAttributes(arr))
    {
      auto A = U.getParticleAccessor(arr, {{at,0}});
      std::vector<double> v(np);
      for(uint32_t i=0;i<np;i++) v[i] = A.at(i,0);
      w.d("p:"+arr+":"+at, v, {np});
    }
  }
}

inline void dump_meta(RecWriter& w, ForeachCell& fc, ScalarSimulationData* sd, const std::string& tag)
{
  AMRmesh& pmesh = fc.get_amr_mesh();
  auto bs = fc.blockSize(); auto cg = pmesh.get_coarse_grid_size(); auto per = pmesh.getPeriodic();
  std::ostringstream m; m.precision(17);
  m << "{\"tag\":\"" << tag << "\",\"rank\":" << pmesh.getRank() << ",\"nproc\":" << pmesh.getNproc()
    << ",\"ndim\":" << fc.getDim() << ",\"bs\":[" << bs[0] << "," << bs[1] << "," << bs[2] << "]"
    << ",\"cg\":[" << cg[0] << "," << cg[1] << "," << cg[2] << "]"
    << ",\"periodic\":[" << per[0] << "," << per[2] << "," << per[4] << "]"
    << ",\"level_min\":" << pmesh.get_level_min() << ",\"level_max\":" << pmesh.get_level_max()
    << ",\"scalars\":{";
  bool first=true;
  if(sd) sd->foreach_var([&](const std::string& n, auto v){ m << (first?"":",") << "\"" << n << "\":" << v; first=false; });
  m << "}}";
  w.s("meta", m.str());
}

inline void dump_state(const std::string& path_prefix, const std::string& tag, const UserData& U, ForeachCell& fc,
                       ScalarSimulationData* sd, bool ghosts, bool geometry=false, bool particles=true)
{
  int rank = GlobalMpiSession::get_comm_world().MPI_Comm_rank();
  RecWriter w(path_prefix + ".r" + std::to_string(rank) + ".rec");
  dump_meta(w, fc, sd, tag);
  dump_mesh(w, fc, geometry);
  dump_fields(w, U, fc, ghosts);
  if(particles) dump_particles(w, U);
}

// splitmix64: the one pseudo-random source of every workload (fully determined by the seed)
inline uint64_t mix(uint64_t z){ z += 0x9e3779b97f4a7c15ull; z = (z^(z>>30))*0xbf58476d1ce4e5b9ull; z = (z^(z>>27))*0x94d049bb133111ebull; return z^(z>>31); }
inline uint64_t hashv(std::initializer_list<uint64_t> l){ uint64_t h=0x1234567; for(uint64_t x: l) h = mix(h ^ mix(x)); return h; }
inline double u01(uint64_t h){ return (h>>11) * (1.0/9007199254740992.0); }
struct Rng { uint64_t s; explicit Rng(uint64_t seed):s(mix(seed)){} uint64_t next(){ s=mix(s); return s; }
  double u(){ return u01(next()); } double u(double a,double b){ return a+(b-a)*u(); } int i(int n){ return n<=0?0:(int)(next()%n); } };
} // namespace vp
