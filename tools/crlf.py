"""Editing helper for the repository's sources that keeps each file's line ends."""
def load(p):
    s=open(p,newline='').read(); return s.replace('\r\n','\n'), ('\r\n' in s)
def store(p,s,crlf):
    open(p,'w',newline='').write(s.replace('\n','\r\n') if crlf else s)
def edit(p,*pairs):
    s,c=load(p)
    for a,b in pairs:
        assert s.count(a)==1,(p,s.count(a),a)
        s=s.replace(a,b)
    store(p,s,c)
def fix_lineends(p):
    import subprocess
    o=subprocess.check_output(['git','show','HEAD:'+p])
    s=open(p,newline='').read().replace('\r\n','\n')
    if o.count(b'\r\n')==o.count(b'\n'): store(p,s,True)
    else: print('mixed',p,o.count(b'\r\n'),o.count(b'\n'))
