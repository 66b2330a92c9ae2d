import sys,os,time,subprocess
sys.path.insert(0,os.path.dirname(__file__))
import vb
def main():
    src=sys.argv[1]; variant=sys.argv[2]
    t=time.time()
    if variant=="sched":
        b=vb.Builder(**vb.TSAN)
        b.harness_cflags=[]
        p=b.build(os.path.basename(src)[:-4],[src,"rt/sched.cpp"],ldflags=["-rdynamic"])
    print(p,round(time.time()-t,1),b.built,b.cached)
main()
