// hardest arguments of cbrt (f64): midpoints n/2 whose cube is closest to a 53-bit number
fn first(a:u128,m:u128,l:u128,r:u128,d:u32)->Option<u128>{ // min x: l<=a x mod m<=r
  if l==0 {return Some(0)} if a==0||d>200 {return None} if a*2>m {return first(m-a,m,m-r,m-l,d+1)}
  let t=(l+a-1)/a; if t*a<=r {return Some(t)}
  let (l2,r2)=((a-r%a)%a,(a-l%a)%a); if l2>r2 {return None}
  let y=first(m%a,a,l2,r2,d+1)?; if y>1<<18 {return None} Some((l+m*y+a-1)/a)
}
fn mul3(n:u64)->(u64,u128){ // n^3 = hi*2^128+lo
  let n2=(n as u128)*(n as u128); let lo=(n2 as u64 as u128)*(n as u128); let hi=(n2>>64)*(n as u128); let s=lo.wrapping_add(hi<<64); ((hi>>64) as u64+(s<lo) as u64,s) }
fn main(){
  let secs:u64=std::env::args().nth(1).unwrap().parse().unwrap();
  let hs:Vec<_>=(0..8u64).map(|t| std::thread::spawn(move||{
    let t0=std::time::Instant::now(); let mut s=0x9E3779B97F4A7C15u64.wrapping_mul(t+3); let mut best:Vec<(f64,u64,u32)>=vec![]; let mut thr=1e-9f64; let mut cnt=0u64;
    while t0.elapsed().as_secs()<secs { for _ in 0..1000 { s^=s<<13; s^=s>>7; s^=s<<17;
      let n0=((1u64<<53)|(s>>11)) | 1; // odd
      let (hi,lo)=mul3(n0); let bl=128+64-hi.leading_zeros(); let sh=bl-53; let m=1u128<<sh;
      // n=n0+2t : n^3 ~ n0^3 + 6 n0^2 t
      let b=lo&(m-1); let a=(6u128*((n0 as u128*n0 as u128)&((1u128<<124)-1)))&(m-1);
      let w=1u128<<93; // accept b+a t in [-w,w]
      let l=(m-b+m-w)&(m-1); let r=l+2*w; if r>=m {continue}
      if let Some(tt)=first(a,m,l,r,0) { if tt<1<<17 { let n=n0+2*tt as u64; if n>>54!=0 {continue} let (h2,l2)=mul3(n); if 128+64-h2.leading_zeros()!=bl {continue}
        let rem=l2&(m-1); let up=rem>m/2; let dist=(if up {m-rem} else {rem}) as f64/(3.0*(n as f64)*(n as f64)); cnt+=1;
        if dist<thr { let x=((h2 as u128)<<(128-sh)|l2>>sh) as u64+up as u64; best.push((dist,x,sh)); if best.len()>4000 {best.sort_by(|a,b|a.0.partial_cmp(&b.0).unwrap()); best.dedup(); best.truncate(1000); if best.len()==1000{thr=best[999].0;}} } } }
    }} (best,cnt) })).collect();
  let mut all=vec![]; let mut c=0; for h in hs {let (b,k)=h.join().unwrap(); all.extend(b); c+=k}
  all.sort_by(|a,b|a.0.partial_cmp(&b.0).unwrap()); all.dedup(); eprintln!("{c} {} best 2^{:.1} .. 2^{:.1}",all.len(),all[0].0.log2(),all[all.len().min(600)-1].0.log2());
  for (d,x,sh) in all.iter().take(600) { // x*2^sh=n^3 ~ root n (midpoint, 54 bits). choose exponent: x is 53-bit int with e such that e%3==sh%3
     let e=*sh as i32; println!("{:x} {} {:.1}",x,e.rem_euclid(3),d.log2()); }
}
