// P22: conversions between time and expansion factor of the program's own cosmology module, for the requests of a file.
// args: parameter file, request file; requests: "a <expansion>", "t <time>", "d <expansion>" (length of a step of the configured growth),
// "s <om> <ov> <a> <growth>" (the same for any cosmology); one value per request on standard output
#include "DyabloSession.hpp"
#include "DyabloTimeLoop.h"
#include "Cosmo.h"
#include <fstream>
#include <cstdio>
int main(int argc, char* argv[])
{
  using namespace dyablo;
  DyabloSession mpi_session(argc, argv);
  ConfigMap configMap = ConfigMap::broadcast_parameters(std::string(argv[1]));
  CosmoManager c(configMap);
  std::ifstream in(argv[2]); std::string k; double x, y, z, w;
  while( in >> k >> x )
  {
    double r=0;
    if(k=="a") r=c.expansionToTime(x);
    else if(k=="t") r=c.timeToExpansion(x);
    else if(k=="d") r=c.compute_cosmo_dt(x);
    else if(k=="s"){ in >> y >> z >> w; r=CosmoManager::static_compute_cosmo_dt(x,y,z,w); }
    std::printf("= %s %.17g\n",k.c_str(),r);
  }
  return 0;
}
