import re
out=['// Written by tools/dev/gen_mpops.py: the oracle of crates/libm-test, one operand store per function and thread, as the kit uses it.','use crate::{Op, Sig::*};','use libm_test::mpfloat::MpOp;','use std::cell::RefCell;']
src=open('/verif/harness/src/ops.rs').read()
out+= [l for l in src.splitlines() if l.startswith('macro_rules')]
out.append('macro_rules! run {($f:ident, $a:expr)=>{{ type R = libm_test::op::$f::Routine; thread_local! { static M: RefCell<<R as MpOp>::MpTy> = RefCell::new(R::new_mp()); } M.with(|m| R::run(&mut m.borrow_mut(), $a)) }};}')
out.append('pub static OPS: &[Op] = &[')
import sys
for l in src.splitlines():
    m=re.match(r'\s*Op \{ name: "(\w+)", fmt: (\d+), sig: (\w+),',l)
    if not m: continue
    n,w,s=m.groups()
    if n.startswith('nextafter'): continue
    b='b%s!'%w
    x=['%s(a[%d])'%(b,i) for i in range(3)]
    args={'U':x[:1],'UI':x[:1],'UU':x[:1],'UUI':x[:1],'B':x[:2],'BBI':x[:2],'T':x,'BI':[x[0],'a[1] as i32'],'IB':['a[0] as i32',x[1]]}[s]
    call='run!(%s, (%s,))'%(n,', '.join(args))
    if s in('U','B','T','BI','IB'): body='[%s.to_bits() as u128, 0]'%call
    elif s=='UI': body='[%s as u32 as u128, 0]'%call
    elif s=='UU': body='{ let r = %s; [r.0.to_bits() as u128, r.1.to_bits() as u128] }'%call
    else: body='{ let r = %s; [r.0.to_bits() as u128, r.1 as u32 as u128] }'%call
    out.append('    Op { name: "%s", fmt: %s, sig: %s, call: |a| %s },'%(n,w,s,body))
out.append('];')
open('/verif/mp/src/oracle.rs','w').write('\n'.join(out)+'\n')
