import os, subprocess, json
V='/verif/seeded/'
OV='''# the installed Boost lacks two accessors this version of the code expects
python3 - "$T/ov" <<'EOP'
import os, sys
for rel, a, i in [
  ('boost/asio/basic_socket.hpp', '  /// Get the executor associated with the object.\\n  const executor_type& get_executor() BOOST_ASIO_NOEXCEPT\\n',
   '  boost::asio::io_context& get_io_service() { return static_cast<boost::asio::io_context&>(boost::asio::query(this->get_executor(), boost::asio::execution::context)); }\\n'),
  ('boost/asio/ssl/context.hpp', '  /// Destructor.\\n  BOOST_ASIO_DECL ~context();\\n', '  template <typename IoService> context(IoService&, method m) : context(m) {}\\n')]:
    s = open('/usr/include/' + rel).read(); assert s.count(a) == 1
    p = os.path.join(sys.argv[1], rel); os.makedirs(os.path.dirname(p), exist_ok=True); open(p, 'w').write(s.replace(a, i + a))
EOP
'''
DEMO='''#!/bin/bash
# exit 0: behaviour as specified; nonzero: broken
D=$(cd "$(dirname "$0")" && pwd)
T=$(mktemp -d)
trap 'rm -rf "$T"' EXIT
%(ov)sCC="g++ -std=c++11 -O0 -w -DNDEBUG -DBOOST_DISABLE_PRAGMA_MESSAGE -DBOOST_NO_CXX11_EXPLICIT_CONVERSION_OPERATORS -include boost/logic/tribool_io.hpp -DPION_CMAKE_BUILD %(flags)s -I$T/ov -I_build/Bin -Iinclude -Iservices"
printf '%%s\\n' "$D/demo.cpp" %(srcs)s | xargs -P 8 -I{} sh -c "$CC -c {} -o $T/\$(basename {} .cpp).o" || exit 3
g++ %(flags)s "$T"/*.o -o "$T/demo" -lboost_thread -lboost_system -lboost_filesystem -lboost_regex -lboost_chrono -lz -lssl -lcrypto -ldl -lpthread || exit 3
cd "$T" && timeout 120 ./demo
'''
def mk(id, prop, edits, demo, srcs, needs, breaks, flags='', demosh=None, ov=False):
    d=V+id; os.makedirs(d, exist_ok=True)
    assert not subprocess.run('git -C /repo status --porcelain',shell=True,capture_output=True,text=True).stdout.strip()
    try:
        for f,a,b in edits:
            p='/repo/'+f; s=open(p).read(); assert s.count(a)==1,(id,f,s.count(a),a); open(p,'w').write(s.replace(a,b))
        diff=subprocess.run('git -C /repo diff',shell=True,capture_output=True,text=True).stdout
    finally:
        subprocess.run('git -C /repo checkout -- .',shell=True)
    assert diff
    open(d+'/patch.diff','w').write(diff)
    open(d+'/demo.sh','w').write(demosh or DEMO%dict(srcs=' '.join('src/%s.cpp'%s for s in srcs.split()),flags=flags,ov=OV if ov else ''))
    os.chmod(d+'/demo.sh',0o755)
    if demo: open(d+'/demo.cpp','w').write(demo)
    json.dump({'property':prop,'needs':needs,'what_it_breaks':breaks},open(d+'/meta.json','w'),indent=1)
