import subprocess
m={'base64_decode indexed':'P09','url_decode':'P09','xml_encode':'P10','float_to_bytes':'P11','base64_2binary refused':'P09','a request line that ends':'P03','trailers of a chunked':'P04','chunked content over':'P04','bodyless responses':'P04','multipart part headers':'P07','multipart field directly':'P01','signed Content-Length':'P04','content buffer of':'P01','missing data beyond':'P06','base64_2binary ran':'P09',"request's first line":'P12','assigning a message':'P12','receive() and read()':'P08','parse_uri':'P07','multipart forms with':'P07','multipart field took':'P07','sending a message again':'P08','SPDY parser read':'P14','SPDY header blocks':'P14'}
import json,os
ext='/verif/tools/fixed_map.json'
if os.path.exists(ext): m.update(json.load(open(ext)))
out=open('/verif/known-findings.txt').read().split('\nfixed:')[0].split('\nfinding:')[0].rstrip()+'\n'
fnd=[l for l in open('/verif/known-findings.txt') if l.startswith('finding:')]
out+=''.join(fnd)
for l in subprocess.run("git -C /repo log --reverse --format='%h %s' e5de2e7..HEAD",shell=True,capture_output=True,text=True).stdout.splitlines():
    h,s=l.split(' ',1); 
    assert s.startswith('fix: ')
    s=s[5:]
    p=[v for k,v in m.items() if s.startswith(k)]
    assert len(p)==1,(s,p)
    out+='fixed: property=%s %s %s\n'%(p[0],h,s)
open('/verif/known-findings.txt','w').write(out)
