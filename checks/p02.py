import os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import histories
histories.main("P02", ['mon_mesh', 'mon_cells'], "evaluations: one comparison of an adaptation's result with the model, or one adjacent pair checked for 2:1; distinct: kinds of adaptations seen", 'adapt|remap')
