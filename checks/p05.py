import os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import histories
histories.main("P05", ['mon_mesh', 'mon_cells'], 'evaluations: one cell value, particle or process boundary compared after a load balance; distinct: kinds of load balances seen', 'balance')
