import os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import histories
histories.main("P04", ['mon_mesh', 'mon_cells'], 'evaluations: one ghost leaf, ghost cell or reduced cell compared with the global model; distinct: kinds of exchanges and meshes seen', 'exchange|reduce')
