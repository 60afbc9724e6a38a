// The real dyablo program (DyabloTimeLoop) with the recorders and workload generators of vp_plugins.h available.
#include <string>
#include "DyabloSession.hpp"
#include "utils/config/ConfigMap.h"
#include "vp_plugins.h"

int main(int argc, char *argv[])
{
  using namespace dyablo;
  DyabloSession mpi_session(argc, argv);
  if( argc < 2 ) return EXIT_FAILURE;
  vp::register_plugins();
  ConfigMap configMap = ConfigMap::broadcast_parameters(std::string(argv[1]));
  DyabloTimeLoop simulation( configMap );
  simulation.run();
  return EXIT_SUCCESS;
}
