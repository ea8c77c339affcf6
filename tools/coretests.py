"""coretests.py REPO DIR: writes DIR/build.ninja, which builds the repository's own unit tests of dpf, dcf and pir (offline)."""
import glob,os,sys
os.environ["VERIF_REPO"]=sys.argv[1]
sys.path.insert(0,os.path.join(os.path.dirname(os.path.abspath(__file__)),'..','pylib')); import vlib
R,W=sys.argv[1],sys.argv[2]; gen=W+'/gen'; os.makedirs(gen+'/farmhash',exist_ok=True); os.chdir(W)
if not os.path.lexists(gen+'/farmhash/farmhash.h'): os.symlink('/usr/include/farmhash.h',gen+'/farmhash/farmhash.h')
srcs=vlib.sources(['dpf','dcf','pir'])+[f for f in glob.glob(R+'/pir/testing/*.cc') if not f.endswith('_test.cc')]+glob.glob(R+'/dpf/internal/status_matchers*.cc')
protos=sorted({p for c in vlib.PROTO for p in vlib.PROTO[c]}|{os.path.relpath(p,R) for p in glob.glob(R+'/pir/testing/*.proto')+glob.glob(R+'/dpf/internal/*.proto')})
srcs=[s for s in srcs if 'encrypt_decrypt' not in s]
tests=[t for d in ('dpf','dpf/internal','dcf','dcf/fss_gates','pir','pir/internal') for t in sorted(glob.glob(R+'/'+d+'/*_test.cc')) if 'proto_validator_test' not in t]
n=["rule cxx\n command = g++ -std=c++17 -O1 -w -isystem /usr/include/android -I%s -I%s -I/verif/shims -include /verif/shims/prelude.h -MMD -MF $out.d -c $in -o $out\n depfile = $out.d\n deps = gcc"%(R,gen),
"rule protoc\n command = protoc -I%s --cpp_out=%s $in"%(R,gen),"rule ar\n command = rm -f $out && ar rcs $out $in",
"rule link\n command = g++ $in -o $out %s %s -lgmock -lgtest -lgtest_main -lpthread"%(vlib.LIBS,vlib._absl_libs())]
pbh=[];objs=[]
for p in protos:
    b=gen+'/'+p[:-6]; n.append("build %s.pb.cc %s.pb.h: protoc %s/%s"%(b,b,R,p)); pbh.append(b+'.pb.h')
def o(s):
    x=W+'/o/'+s.replace('/','_')+'.o'; n.append("build %s: cxx %s || %s"%(x,s,' '.join(pbh))); return x
objs=[o(s) for s in srcs+[gen+'/'+p[:-6]+'.pb.cc' for p in protos]]
n.append("build lib.a: ar "+' '.join(objs))
for t in tests:
    n.append("build t/%s: link %s lib.a"%(os.path.relpath(t,R).replace('/','_')[:-3],o(t)))
open('build.ninja','w').write('\n'.join(n)+'\n')
