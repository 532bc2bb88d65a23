#!/usr/bin/env python3
"""Generates tasks.inc: one task of every arity, with and without result, with assorted argument and result types."""
import sys
K=int(sys.argv[1])
AT=['u64','int','double','u8','void*','short','S8','float','char','u32','long','u16','S8','u64']
RT={0:'u64',1:'u64',2:'int',3:'double',4:'S16',5:'void*',6:'S48',7:'u8',8:'float',9:'short',10:'S8',11:'u64',12:'S48',13:'double',14:'S112'}
def nmt(t): return t.replace('*','p')
out=[]
def at(j): return AT[(j-1)%len(AT)] if j>1 else None
for k in range(1,K+1):
    for v in (0,1):
        n=('V' if v else 'W')+str(k)
        types=', '.join(['Inst*']+[at(j) for j in range(2,k+1)])
        decl=f'VOID_TASK_DECL_{k}({n}, {types})' if v else f'TASK_DECL_{k}({RT[k]}, {n}, {types})'
        out.append(decl)
out.append('TASK_DECL_0(u64, W0)\nVOID_TASK_DECL_0(V0)')
for k in range(1,K+1):
    a=''.join(f', mk_{nmt(at(j))}(h_val(x,{j}))' for j in range(2,k+1))
    out.append(f'#define ARGS_{k}(x) (x){a}')
for what in ('SPAWN','CALL','NEWFRAME','TOGETHER','RUN','RUNEX'):
    o=[f'#define CASES_{what}(x) \\']
    for k in range(1,K+1):
        for v in (0,1):
            n=('V' if v else 'W')+str(k)
            c=f'{what}({n}, ARGS_{k}(x))'.replace(f'ARGS_{k}(x)',f'(h_once(x))'+''.join(f', mk_{nmt(at(j))}(h_val(x,{j}))' for j in range(2,k+1)))
            if v or what in('SPAWN','TOGETHER'): o.append(f' case {2*k+v}: {c}; break; \\')
            else: o.append(f' case {2*k+v}: {{ {RT[k]} r_ = {c}; if (!eq_{nmt(RT[k])}(r_, h_val(x,0))) h_bad_result(x, 1); }} break; \\')
    out.append('\n'.join(o)+'\n')
o=['#define CASES_SYNC(x) \\']
for k in range(1,K+1):
    o.append(f' case {2*k}: {{ {RT[k]} r_ = SYNC(W{k}); h_ran(x); if (!eq_{nmt(RT[k])}(r_, h_val(x,0))) h_bad_result(x, 2); }} break; \\')
    o.append(f' case {2*k+1}: SYNC(V{k}); h_ran(x); break; \\')
out.append('\n'.join(o)+'\n')
o=['#define CASES_RESULT(x, t) \\']
for k in range(1,K+1):
    o.append(f' case {2*k}: if (!eq_{nmt(RT[k])}(*({RT[k]}*)TASK_RESULT(t), h_val(x,0))) h_bad_result(x, 4); break; \\')
    o.append(f' case {2*k+1}: break; \\')
out.append('\n'.join(o)+'\n')
out.append('typedef %s AT2;' % AT[1])
impl=[]
for k in range(1,K+1):
    for v in (0,1):
        n=('V' if v else 'W')+str(k)
        args=', '.join(['Inst*, x']+[f'{at(j)}, a{j}' for j in range(2,k+1)])
        head=f'VOID_TASK_IMPL_{k}({n}, {args})' if v else f'TASK_IMPL_{k}({RT[k]}, {n}, {args})'
        b=[head,'{',f'  Inst *i_ = h_enter(x, {2*k+v}, LACE_WORKER_ID, __lace_worker, lace_get_worker(), lace_is_worker());', '  H_PU();']
        for j in range(2,k+1):
            b.append(f'  if (!eq_{nmt(at(j))}(a{j}, h_val(i_,{j}))) h_bad_arg(i_, {j});')
        b.append('  body(__lace_worker, __lace_dq_head, i_);')
        b.append('  h_leave(i_, LACE_WORKER_ID);')
        if not v: b.append(f'  return mk_{nmt(RT[k])}(h_val(i_, 0));')
        b.append('}')
        impl.append('\n'.join(b))
print('\n'.join(out)); print('#ifdef IMPLEMENT_TASKS'); print('\n'.join(impl)); print('#endif')
