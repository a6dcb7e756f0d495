import subprocess
def commit(msg):
    subprocess.run(['git','-C','/repo','commit','-qam',msg],check=True)
def edit(path,pairs):
    p='/repo/'+path; s=open(p).read()
    for a,b in pairs:
        assert s.count(a)==1,(path,s.count(a),a)
        s=s.replace(a,b)
    open(p,'w').write(s)
