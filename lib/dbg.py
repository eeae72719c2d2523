import sys; sys.path.insert(0,'/verif/lib')
from vp import *
import ctypes
# native shared lib for quick concrete experiments
def build(out="/tmp/libohc.so"):
    t=Tree()
    rc,o=sh(["gcc","-shared","-fPIC","-g","-O1","-w","-I",t.src,"-o",out]+[os.path.join(t.src,f) for f in t.csrc if f!='ohcount.c']+[os.path.join(t.src,"hash/language_hash.c"),"-lpcre","-lmagic"])
    print(o); t.clean()
if __name__=="__main__" and len(sys.argv)<2 or not os.path.exists("/tmp/libohc.so"): build()
L=ctypes.CDLL("/tmp/libohc.so")
CB=ctypes.CFUNCTYPE(None,ctypes.c_char_p,ctypes.c_char_p,ctypes.c_int,ctypes.c_int,ctypes.c_void_p)
L.ohcount_sourcefile_new.restype=ctypes.c_void_p
def parse(lang,data,ent=False):
    sf=L.ohcount_sourcefile_new(b"f.x"); sf=ctypes.c_void_p(sf)
    L.ohcount_sourcefile_set_language(sf,lang.encode()); L.ohcount_sourcefile_set_contents(sf,data)
    out=[]
    cb=CB(lambda l,e,s,t,u: out.append((l.decode(),e.decode(),s,t,data[s:t])))
    (L.ohcount_sourcefile_parse_entities_with_callback if ent else L.ohcount_sourcefile_parse_with_callback)(sf,cb,None)
    return out
if __name__=="__main__" and len(sys.argv)>2:
    d=eval(sys.argv[2])
    for x in parse(sys.argv[1],d,len(sys.argv)>3): print(x)
