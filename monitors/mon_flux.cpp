// P08: evaluates the program's own flux functions and conversions on pairs of states.
// args: parameter file, input file, output file (arrays of doubles); input per pair: 18 numbers, left and right (rho p u v w Bx By Bz psi);
// output per pair and kind, see below. The first number of the input is the time step.
#include "DyabloSession.hpp"
#include "utils/config/ConfigMap.h"
#include "UserData.h"
#include "RiemannSolvers.h"
#include "states/State_hydro.h"
#include "states/State_MHD.h"
#include "states/State_GLMMHD.h"
#include <fstream>
using namespace dyablo;
static std::vector<double> out;
static PrimHydroState H(const double* q){ return {q[0],q[1],q[2],q[3],q[4]}; }
static PrimMHDState M(const double* q){ return {q[0],q[1],q[2],q[3],q[4],q[5],q[6],q[7]}; }
static PrimGLMMHDState G(const double* q){ return {q[0],q[1],q[2],q[3],q[4],q[5],q[6],q[7],q[8]}; }
static void put(const ConsHydroState& f){ for(double x:{f.rho,f.e_tot,f.rho_u,f.rho_v,f.rho_w}) out.push_back(x); }
static void put(const ConsMHDState& f){ for(double x:{f.rho,f.e_tot,f.rho_u,f.rho_v,f.rho_w,f.Bx,f.By,f.Bz}) out.push_back(x); }
static void put(const ConsGLMMHDState& f){ for(double x:{f.rho,f.e_tot,f.rho_u,f.rho_v,f.rho_w,f.Bx,f.By,f.Bz,f.psi}) out.push_back(x); }
static void put(const PrimHydroState& f){ for(double x:{f.rho,f.p,f.u,f.v,f.w}) out.push_back(x); }
static void put(const PrimMHDState& f){ for(double x:{f.rho,f.p,f.u,f.v,f.w,f.Bx,f.By,f.Bz}) out.push_back(x); }
static void put(const PrimGLMMHDState& f){ for(double x:{f.rho,f.p,f.u,f.v,f.w,f.Bx,f.By,f.Bz,f.psi}) out.push_back(x); }
template<class P> static void conv(const P& q, double g)
{
  auto u3=primToCons<3>(q,g); put(u3); put(consToPrim<3>(u3,g)); put(primToCons<3>(consToPrim<3>(u3,g),g));
  P q2=q; q2.w=0; auto u2=primToCons<2>(q2,g); put(u2); put(consToPrim<2>(u2,g));
  for(auto d:{IX,IY,IZ}){ put(swapComponents(q,d)); put(swapComponents(swapComponents(q,d),d)); put(swapComponents(u3,d)); }
}
int main(int argc, char* argv[])
{
  DyabloSession mpi_session(argc, argv);
  ConfigMap configMap = ConfigMap::broadcast_parameters(std::string(argv[1]));
  RiemannParams params(configMap);
  std::ifstream in(argv[2],std::ios::binary); in.seekg(0,std::ios::end); size_t n=in.tellg()/8; in.seekg(0);
  std::vector<double> a(n); in.read((char*)a.data(),n*8);
  double dt=a[0], g=params.gamma0;
  for(size_t i=1;i+18<=n;i+=18)
  {
    const double *l=&a[i], *r=&a[i+9]; double p=0;
    put(riemann_hydro(H(l),H(r),params,p,dt)); out.push_back(p);                           // 6
    { ConsMHDState f{}; riemann_hlld(M(l),M(r),f,p,params,0.5*(l[5]+r[5])); put(f); }      // 8
    put(riemann_hydro(M(l),M(r),params,p,dt));                                             // 8 (five waves)
    put(riemann_hydro(G(l),G(r),params,p,dt));                                             // 9 (configured solver)
    conv(H(l),g); conv(M(l),g); conv(G(l),g);                                              // 14 x (5, 8, 9)
  }
  std::ofstream o(argv[3],std::ios::binary); o.write((char*)out.data(),out.size()*8);
  std::ofstream(std::string(argv[3])+".txt") << params.ch << std::endl;
  return 0;
}
