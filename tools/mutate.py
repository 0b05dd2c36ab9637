#!/usr/bin/env python3
"""Mechanical mutants of /repo/src (outside #[cfg(test)]): lists them as (file, line, start, end, new, kind).
Used to look for behaviour the monitors do not constrain; see DESIGN.md."""
import re,os,sys,json
SRC='/repo/src'
def code_lines(path):
    L=open(path).read().split('\n'); out=[]
    for n,l in enumerate(L):
        if l.strip()=='#[cfg(test)]': break
        out.append(l)
    return out,L
def enums():
    e={}
    for d,_,fs in os.walk(SRC):
        for f in fs:
            t='\n'.join(code_lines(os.path.join(d,f))[0])
            for m in re.finditer(r'pub enum (\w+) \{(.*?)\n\}',t,re.S):
                vs=re.findall(r'^\s{4}(\w+)(?:\s*=\s*\d+)?,',re.sub(r'//.*','',m.group(2)),re.M)
                if len(vs)>1: e.setdefault(m.group(1),[]) ; e[m.group(1)]=vs if not e[m.group(1)] else e[m.group(1)]
    return e
ENUMS=enums()
FIELD={'q_d':['q'],'dq_d':['dq','ddq_d'],'ddq_d':['dq_d'],'tau_J_d':['tau_J'],'O_T_EE_c':['O_T_EE','O_T_EE_d'],'O_dP_EE_c':['O_dP_EE_d','O_ddP_EE_c'],'O_ddP_EE_c':['O_dP_EE_c'],
 'elbow_c':['elbow','elbow_d'],'delbow_c':['ddelbow_c','elbow_c'],'ddelbow_c':['delbow_c'],'q':['q_d'],'dq':['dq_d'],'F_T_EE':['F_T_NE'],'EE_T_K':['NE_T_EE'],'m_total':['m_ee','m_load'],'I_total':['I_ee','I_load'],'F_x_Ctotal':['F_x_Cee','F_x_Cload'],
 'last_motion_errors':['current_errors'],'m_ee':['m_load'],'F_x_Cee':['F_x_Cload'],'I_ee':['I_load'],'O_T_EE':['O_T_EE_d'],'theta':['q'],'dtheta':['dq'],'tau_J':['tau_J_d'],'dtau_J':['tau_J'],'O_F_ext_hat_K':['K_F_ext_hat_K'],'K_F_ext_hat_K':['O_F_ext_hat_K'],'joint_contact':['joint_collision'],'joint_collision':['joint_contact'],'cartesian_contact':['cartesian_collision'],'cartesian_collision':['cartesian_contact'],'elbow':['elbow_d'],'elbow_d':['elbow'],'F_T_NE':['NE_T_EE'],'NE_T_EE':['F_T_NE'],'O_T_EE_d':['O_T_EE'],'O_dP_EE_d':['O_dP_EE_c'],'m_load':['m_ee'],'F_x_Cload':['F_x_Cee'],'I_load':['I_ee'],'tau_ext_hat_filtered':['tau_J']}
def muts(path):
    rel=os.path.relpath(path,'/repo'); L,_=code_lines(path); out=[]
    def add(n,a,b,new,k):
        if L[n][a:b]!=new: out.append((rel,n,a,b,new,k))
    depth_skip=False
    for n,l in enumerate(L):
        s=l.strip()
        if s.startswith('//') or s.startswith('#') or s.startswith('use ') or s.startswith('pub use') or s.startswith('mod ') or s.startswith('pub mod') or s.startswith('extern '): continue
        code=re.sub(r'//.*$','',l)
        # blank out strings
        blank=re.sub(r'"(?:[^"\\]|\\.)*"',lambda m:'"'+'_'*(len(m.group(0))-2)+'"',code)
        for m in re.finditer(r'(?<![\w.])(\d+)\.(\d*)(e-?\d+)?(?![\w.])|(?<![\w.])(\d+)(_u8)?(?![\w.])',blank):
            t=m.group(0)
            if '.' in t:
                v=float(t); add(n,m.start(),m.end(),repr(v*1.02) if v else '0.001','float')
                if v not in (0,): add(n,m.start(),m.end(),repr(-v) ,'floatneg')
            else:
                v=int(m.group(4)); add(n,m.start(),m.end(),str(v+1),'int')
                if v>0: add(n,m.start(),m.end(),str(v-1),'int')
        for a,bs in (('<=',['<']),('>=',['>']),('==',['!=']),('!=',['==']),('&&',['||']),('||',['&&'])):
            for m in re.finditer(re.escape(' '+a+' '),blank):
                for b in bs: add(n,m.start(),m.end(),' '+b+' ','cmp')
        for m in re.finditer(r'(?<=\s)(&&|\|\|)(?=\s)',blank):
            if blank[m.start()-1:m.end()+1].strip()==m.group(1) and not re.search(r' (&&|\|\|) ',blank[max(0,m.start()-1):m.end()+1]): add(n,m.start(),m.end(),'||' if m.group(1)=='&&' else '&&','bool')
        for m in re.finditer(r' < | > ',blank):
            t=m.group(0).strip(); add(n,m.start(),m.end(),' '+t+'= ','cmp'); add(n,m.start(),m.end(),' > ' if t=='<' else ' < ','cmpflip')
        for m in re.finditer(r'(?<=\s)([-+*/])(?=\s)',blank):
            o=m.group(1); add(n,m.start(),m.end(),{'+':'-','-':'+','*':'/','/':'*'}[o],'arith')
        for m in re.finditer(r'([-+])= ',blank): add(n,m.start(),m.end(),{'+':'-','-':'+'}[m.group(1)]+'= ','arith')
        for m in re.finditer(r'\btrue\b|\bfalse\b',blank): add(n,m.start(),m.end(),'false' if m.group(0)=='true' else 'true','bool')
        for m in re.finditer(r'f64::(min|max)\b|usize::min|\.(min|max)\(',blank):
            t=m.group(0); add(n,m.start(),m.end(),t.replace('min','QQ').replace('max','min').replace('QQ','max'),'minmax')
        for m in re.finditer(r'(?<![\w)\]])!(?=[\w(])(?<!\w!)',blank):
            if not re.match(r'\w',blank[m.start()-1:m.start()] or ' '): add(n,m.start(),m.end(),'','not')
        for m in re.finditer(r'\bif (?!let)(.*?) \{',blank):
            add(n,m.start(1),m.end(1),'true','cond'); add(n,m.start(1),m.end(1),'false','cond')
        for m in re.finditer(r'\b(\w+)::(\w+)\b',blank):
            e=m.group(1)
            if e in ENUMS and m.group(2) in ENUMS[e]:
                vs=ENUMS[e]; i=vs.index(m.group(2))
                for j in {(i+1)%len(vs),(i-1)%len(vs)}:
                    add(n,m.start(2),m.end(2),vs[j],'variant')
        for m in re.finditer(r'\b(?:robot_)?state\.(\w+)',blank):
            for r in FIELD.get(m.group(1),[]): add(n,m.start(1),m.end(1),r,'field')
        if re.match(r'^\s{8,}[a-z][\w.():&<>,!*\[\] =+\-|?{}"]*;$',code) and not re.match(r'^\s*(let|return|break|continue|const|static|pub|use|type)\b',code):
            i=len(code)-len(code.lstrip()); add(n,i,len(code),'','delete')
        if re.search(r'\?;$',code.rstrip()) and not s.startswith('let') and not s.startswith('.') and not s.startswith(')'):
            pass
        # swap with next argument line
        if n+1<len(L) and re.match(r'^\s+[&*\w.\[\]]+,$',l) and re.match(r'^\s+[&*\w.\[\]]+,$',L[n+1]) and (len(l)-len(l.lstrip()))==(len(L[n+1])-len(L[n+1].lstrip())) and l!=L[n+1]:
            out.append((rel,n,0,len(l),L[n+1]+'\n'+l+'\x00','swapargs'))
        m=re.search(r'\(([&\w.]+), ([&\w.]+)([,)])',blank)
        if m and m.group(1)!=m.group(2): add(n,m.start(1),m.end(2),m.group(2)+', '+m.group(1),'swapargs')
    return out
def all_mutants():
    r=[]
    for d,_,fs in sorted(os.walk(SRC)):
        for f in sorted(fs):
            r+=muts(os.path.join(d,f))
    return r
def apply(m,root):
    rel,n,a,b,new,k=m
    p=os.path.join(root,rel); L=open(p).read().split('\n')
    if new.endswith('\x00'):
        L[n:n+2]=new[:-1].split('\n')
    else: L[n]=L[n][:a]+new+L[n][b:]
    open(p,'w').write('\n'.join(L))
if __name__=='__main__':
    ms=all_mutants()
    from collections import Counter
    print(len(ms),Counter(m[0] for m in ms),Counter(m[5] for m in ms))
