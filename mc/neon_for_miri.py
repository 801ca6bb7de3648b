import re,sys
root=sys.argv[1]+'/stdarch/crates/core_arch/src/'
def lanes(expr): return '\n    let (a, b) = unsafe { (crate::mem::transmute::<_, [f32; 4]>(a), crate::mem::transmute::<_, [f32; 4]>(b)) };\n    unsafe { crate::mem::transmute([0, 1, 2, 3].map(|i: usize| { let (a, b) = (a[i], b[i]); %s })) }\n'%expr
def lane1(expr): return '\n    let a = unsafe { crate::mem::transmute::<_, [f32; 4]>(a) };\n    unsafe { crate::mem::transmute(a.map(|a| %s)) }\n'%expr
M={
 'arm_shared/neon/generated.rs':{
  'vmaxq_f32':lanes('if a.is_nan() || b.is_nan() { f32::NAN } else { a.max(b) }'),
  'vminq_f32':lanes('if a.is_nan() || b.is_nan() { f32::NAN } else { a.min(b) }'),
  'vcvtq_u32_f32':lane1('a as u32'),
  'vcvtq_s32_f32':lane1('a as i32'),
  'vcageq_f32':lanes('if (if a < 0.0 { -a } else { a }) >= (if b < 0.0 { -b } else { b }) { !0u32 } else { 0u32 }'),
  'vcagtq_f32':lanes('if (if a < 0.0 { -a } else { a }) > (if b < 0.0 { -b } else { b }) { !0u32 } else { 0u32 }'),
 },
 'aarch64/neon/generated.rs':{
  'vcvtnq_u32_f32':lane1('{ let t = a as u32; let r = a - t as f32; if r > 0.5 || (r == 0.5 && t & 1 == 1) { t.saturating_add(1) } else { t } }'),
 }}
for f,m in M.items():
    p=root+f; s=open(p).read()
    for fn,body in m.items():
        s,n=re.subn(r'(\npub (?:unsafe )?fn '+fn+r'\([^{]*\{)\n.*?\n\}\n',lambda k:k.group(1)+body+'}\n',s,count=1,flags=re.S)
        assert n==1,fn
    open(p,'w').write(s)
