set -e
rm -rf /tmp/rt; cp -a /repo /tmp/rt; cd /tmp/rt; rm -rf target .git
python3 - <<'P'
import re
t=open('Cargo.toml').read()
i=t.index('[dependencies]'); 
m=re.search(r'\n\[', t[i+5:]); j=i+5+m.start() if m else len(t)
print(t[i:j])
t=t[:i]+'''[dependencies]
num = { path = "/verif/demo_env/num" }
rand = { path = "/verif/demo_env/rand" }
rulinalg = { path = "/verif/demo_env/rulinalg" }
'''+t[j:]
open('Cargo.toml','w').write(t)
P
sed -i 's/f32/f64/g' src/data/transforms/*.rs; sed -i 's/&\[1, 2, 3\]/\&[1usize, 2, 3][..]/' src/data/transforms/shuffle.rs
