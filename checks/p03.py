import os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import histories
histories.main("P03", ['mon_mesh', 'mon_cells'], 'evaluations: one neighbour, border or position query compared with the dense model; distinct: kinds of mesh operations preceding the queries')
