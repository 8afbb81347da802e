mkp () 
{ 
    id=$1;
    mkdir -p seeded/$id;
    W=/tmp/mkp;
    rm -rf /tmp/mkp;
    cp -a /repo /tmp/mkp;
    python3 - "$2" "$3" "$4" <<'E'
import sys
p='/tmp/mkp/'+sys.argv[1]; s=open(p).read(); assert s.count(sys.argv[2])==1,s.count(sys.argv[2])
open(p,'w').write(s.replace(sys.argv[2],sys.argv[3]))
E

    git -C /tmp/mkp diff > seeded/$id/patch.diff;
    rm -rf /tmp/mkp
}
