import os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import histories
histories.main("P01", ['mon_mesh', 'mon_cells'], 'evaluations: one assertion on a gathered mesh state (tiling, order, index, geometry); distinct: kinds of operations seen (dimension, processes, operation, whether leaves were refined/coarsened)')
