import os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import histories
histories.main("P06", ['mon_cells'], 'evaluations: one cell value compared after an adaptation and remap; distinct: kinds of remaps seen', 'remap')
