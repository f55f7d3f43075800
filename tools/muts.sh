# usage: muts.sh PROP FILE <<EOF  with lines  OLD ==> NEW [;; OLD ==> NEW]
P=$1; F=$2
while IFS= read -r line; do [ -z "$line" ] && continue
python3 - "$P" "$F" "$line" <<'P'
import sys,subprocess
p,f,l=sys.argv[1:]
a=[]
for part in l.split(' ;; '):
    o,n=part.split(' ==> ') if ' ==> ' in part else (part.split(' ==>')[0],'')
    a+= [o,n]
print('==',l[:170],flush=True)
subprocess.run(['python3','tools/mut.py',p,f]+a)
P
done
