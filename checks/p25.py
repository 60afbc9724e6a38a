import os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import histories
histories.main("P25", ['mon_cells'], 'evaluations: one cell or particle value or name compared with the model after an operation; distinct: kinds of operations seen', 'field|particles')
