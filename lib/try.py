import sys,time; sys.path.insert(0,'/verif/lib')
from vp import *
t=Tree(); print("prep",t.build_s)
t1=time.time(); bc=t.ir("parse_count.c"); print("ir",time.time()-t1, bc)
