import sys,re
sys.path.insert(0,'/verif/tools'); import vlib
