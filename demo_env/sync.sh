#!/bin/bash
# regenerates demo_env/{num,rand,rulinalg} from crates/stubs
cd "$(dirname "$0")"
for s in num rand rulinalg; do mkdir -p $s/src; cp -r ../crates/stubs/$s/src/. $s/src/; sed 's#@SYMX@#../symx#' ../crates/stubs/$s/Cargo.toml.in > $s/Cargo.toml; printf '\n[lints.rust]\nwarnings = "allow"\n' >> $s/Cargo.toml; done
python3 - <<'P'
p='rand/src/lib.rs'
s=open(p).read()
s=s.replace('''        let x = hx::fresh("draw");
        hx::assume(hx::ge(x, 0.0));
        x''','''        hx::fresh_exp("draw")''').replace("hx::choose(6) as u64","((hx::choose(1<<31) as u64) << 32) | hx::choose(1<<31) as u64 * 2").replace("hx::assume(hx::gt(x, 0.0));","let _ = x;")
open(p,'w').write(s)
P
