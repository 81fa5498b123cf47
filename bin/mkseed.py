#!/usr/bin/env python3
"""mkseed.py SPEC.py: write planted-bug folders from a python file defining SEEDS (dev aid)."""
import sys,os,json,subprocess,runpy
D=os.path.dirname(os.path.abspath(__file__))
HPP=r'''// plain state vector used as the reference of the demonstration
#pragma once
#include "qalu.hpp"
#include "qfactory.hpp"
#include "qparity.hpp"
#include <complex>
#include <cstdio>
#include <vector>
using namespace Qrack;
typedef std::complex<double> cd;
typedef std::vector<bitLenInt> BV;
struct Ref {
    int n;
    std::vector<cd> v;
    Ref(int n_, size_t p = 0) : n(n_), v((size_t)1 << n_) { v[p] = 1; }
    void g(const cd* m, int t, size_t cm = 0, size_t cv = 0)
    {
        const size_t T = (size_t)1 << t;
        for (size_t i = 0; i < v.size(); ++i)
            if (!(i & T) && ((i & cm) == cv)) {
                const cd a = v[i], b = v[i | T];
                v[i] = m[0] * a + m[1] * b;
                v[i | T] = m[2] * a + m[3] * b;
            }
    }
    void h(int t) { const double s = sqrt(0.5); const cd m[4] = { s, s, s, -s }; g(m, t); }
    void phase(cd a, cd b, int t, size_t cm = 0, size_t cv = 0) { const cd m[4] = { a, 0, 0, b }; g(m, t, cm, cv); }
    void inv(cd a, cd b, int t, size_t cm = 0, size_t cv = 0) { const cd m[4] = { 0, a, b, 0 }; g(m, t, cm, cv); }
    void cz(int c, int t) { phase(1, -1, t, 1u << c, 1u << c); }
    void cx(int c, int t) { inv(1, 1, t, 1u << c, 1u << c); }
    void x(int t) { inv(1, 1, t); }
    template <class F> void perm(F f)
    {
        std::vector<cd> w(v.size());
        for (size_t i = 0; i < v.size(); ++i)
            w[f(i)] += v[i];
        v = w;
    }
};
static inline std::vector<cd> stateOf(QInterfacePtr q)
{
    std::vector<complex> b((size_t)1 << q->GetQubitCount());
    q->GetQuantumState(b.data());
    std::vector<cd> r;
    for (auto& x : b) r.push_back(cd(x.real(), x.imag()));
    return r;
}
// equal up to a global phase
static inline bool same(const std::vector<cd>& a, const std::vector<cd>& b, double tol = 1e-3)
{
    if (a.size() != b.size()) return false;
    cd ov = 0;
    for (size_t i = 0; i < a.size(); ++i) ov += std::conj(b[i]) * a[i];
    if (!(std::abs(ov) > 0.1)) return false;
    ov /= std::abs(ov);
    for (size_t i = 0; i < a.size(); ++i)
        if (!(std::abs(a[i] - ov * b[i]) < tol)) return false;
    return true;
}
static inline QInterfacePtr make(std::vector<QInterfaceEngine> e, int n, size_t perm = 0)
{
    return CreateQuantumInterface(e, (bitLenInt)n, (bitCapInt)perm, std::make_shared<qrack_rand_gen>(7U), ONE_CMPLX, false, false, false);
}
#define CHECK(c) do { if (!(c)) { printf("FAILED line %d: %s\n", __LINE__, #c); return 1; } } while (0)
'''
SH='''#!/bin/bash
# exit 0 when the property holds, nonzero otherwise; run with cwd /repo after build.sh
here=$(cd "$(dirname "$0")" && pwd)
t=$(mktemp -d)
trap 'rm -rf "$t"' EXIT
g++ -std=c++14 -O1 -mrdrnd -DBOOST_AVAILABLE=1 -DENABLE_RDRAND=1 -I/repo/include -I/repo/include/common \\
    -I/repo/_build/include -I/repo/_build/include/common -I"$here" "$here/demo.cpp" %s -lpthread -o "$t/demo" || exit 3
%s"$t/demo"
'''
for s in runpy.run_path(sys.argv[1])["SEEDS"]:
    if len(sys.argv)>2 and s["id"] not in sys.argv[2:]: continue
    d=os.path.join(D,"..","seeded",s["id"]); os.makedirs(d,exist_ok=True)
    assert subprocess.run("git -C /repo status --short",shell=True,capture_output=True,text=True).stdout=="" ,"dirty repo"
    for f,a,b in s["edits"]:
        p="/repo/"+f; t=open(p).read(); k=s.get("nth",{}).get(a)
        assert t.count(a)==1 or k is not None,(s["id"],f,t.count(a),a)
        if k is None: t=t.replace(a,b)
        else:
            i=-1
            for _ in range(k): i=t.index(a,i+1)
            t=t[:i]+b+t[i+len(a):]
        open(p,"w").write(t)
    diff=subprocess.run("git -C /repo diff",shell=True,capture_output=True,text=True).stdout
    subprocess.run("git -C /repo checkout -- .",shell=True)
    assert diff
    open(d+"/patch.diff","w").write(diff)
    open(d+"/d.hpp","w").write(HPP)
    open(d+"/demo.cpp","w").write('#include "d.hpp"\n'+s.get("pre","")+"int main()\n{\n"+s["demo"].strip("\n")+"\n    return 0;\n}\n")
    open(d+"/demo.sh","w").write(SH%(s.get("lib","/repo/_build/libqrack.a"),s.get("run","")))
    os.chmod(d+"/demo.sh",0o755)
    json.dump({"property":s["prop"],"needs":s["needs"],"what_it_breaks":s["breaks"]},open(d+"/meta.json","w"),indent=1)
    print("wrote",s["id"])
