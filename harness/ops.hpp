// Binding of the specification's operations to the implementation's public interface.
#pragma once
#include "json.hpp"
#include "qalu.hpp"
#include "qcircuit.hpp"
#include "qfactory.hpp"
#include "qparity.hpp"
#include <cmath>
#include <complex>
#include <iostream>
#include <sstream>

using namespace Qrack;
typedef std::complex<double> cd;
typedef std::vector<cd> Vec;

struct Unsupported : std::runtime_error {
    Unsupported(const std::string& s)
        : std::runtime_error(s)
    {
    }
};

static inline cd ring(const js::V& v)
{
    static const double h = std::sqrt(0.5);
    const double a = v[0].n, b = v[1].n, c = v[2].n, d = v[3].n;
    return cd(a + h * b - h * d, h * b + c + h * d);
}
static inline double surd(const js::V& v) { return v[0].n + std::sqrt(2.0) * v[1].n; }
static inline Vec vec(const js::V& p)
{
    Vec r;
    double n2 = 0;
    for (const js::V& x : p.a) {
        r.push_back(ring(x));
        n2 += std::norm(r.back());
    }
    const double s = 1 / std::sqrt(n2);
    for (cd& x : r)
        x *= s;
    return r;
}
struct M2 {
    complex m[4];
};
static inline M2 mat(const js::V& g)
{
    M2 r;
    const cd s = ring(g["s"]);
    for (int i = 0; i < 4; ++i) {
        const cd z = ring(g["m"][i]) / s;
        r.m[i] = complex((real1)z.real(), (real1)z.imag());
    }
    return r;
}

struct OpV {
    std::string o;
    std::vector<bitLenInt> q, c;
    std::vector<long long> k;
    const js::V* j;
    OpV(const js::V& v)
        : o(v["o"].s)
        , j(&v)
    {
        for (auto& x : v["q"].a)
            q.push_back((bitLenInt)x.i());
        for (auto& x : v["c"].a)
            c.push_back((bitLenInt)x.i());
        for (auto& x : v["k"].a)
            k.push_back(x.i());
    }
    double arg(size_t i) const { return std::arg(ring((*j)["z"][i]["e"])); }
    M2 g(size_t i) const { return mat((*j)["g"][i]); }
    size_t nz() const { return (*j)["z"].size(); }
    size_t ng() const { return (*j)["g"].size(); }
    std::string str() const
    {
        std::ostringstream s;
        s << o << "(q=[";
        for (auto x : q)
            s << (int)x << ",";
        s << "] c=[";
        for (auto x : c)
            s << (int)x << ",";
        s << "] k=[";
        for (auto x : k)
            s << x << ",";
        s << "]";
        for (size_t i = 0; i < nz(); ++i)
            s << " z" << i << "=" << arg(i);
        for (size_t i = 0; i < ng(); ++i) {
            M2 m = g(i);
            s << " g" << i << "=" << m.m[0] << m.m[1] << m.m[2] << m.m[3];
        }
        s << ")";
        return s.str();
    }
};

static inline QAluPtr alu(QInterfacePtr r)
{
    QAluPtr a = std::dynamic_pointer_cast<QAlu>(r);
    if (!a)
        throw Unsupported("no QAlu");
    return a;
}
static inline QParityPtr par(QInterfacePtr r)
{
    QParityPtr a = std::dynamic_pointer_cast<QParity>(r);
    if (!a)
        throw Unsupported("no QParity");
    return a;
}
static inline bitCapInt B(long long v) { return (bitCapInt)(unsigned long long)v; }
static inline long long L(const bitCapInt& v) { return (long long)(unsigned long long)v; }

// Apply op; returns the reported value or -1.  force: replace a reporting measurement by the forcing
// variant with outcome `want`.
static long long applyOp(QInterfacePtr& r, const OpV& op, bool force, long long want)
{
    const std::string& o = op.o;
    const std::vector<bitLenInt>&q = op.q, &c = op.c;
    const std::vector<long long>& k = op.k;
    typedef std::vector<bitLenInt> BV;
#define ANG(i) ((real1_f)op.arg(i))
#define ANG2(i) ((real1_f)(2 * op.arg(i)))
#define N1(NAME)                                                                                                       \
    if (o == #NAME) {                                                                                                  \
        r->NAME(q[0]);                                                                                                 \
        return -1;                                                                                                     \
    }
    N1(X) N1(Y) N1(Z) N1(H) N1(S) N1(IS) N1(T) N1(IT) N1(SqrtX) N1(ISqrtX) N1(SqrtY) N1(ISqrtY) N1(SqrtW) N1(ISqrtW)
    N1(SH) N1(HIS) N1(SqrtH)
#undef N1
#define NC(NAME)                                                                                                       \
    if (o == #NAME) {                                                                                                  \
        r->NAME(c[0], q[0]);                                                                                           \
        return -1;                                                                                                     \
    }
    NC(CNOT) NC(AntiCNOT) NC(CY) NC(AntiCY) NC(CZ) NC(AntiCZ) NC(CH) NC(AntiCH) NC(CS) NC(AntiCS) NC(CIS) NC(AntiCIS)
    NC(CT) NC(CIT)
#undef NC
#define NCC(NAME)                                                                                                      \
    if (o == #NAME) {                                                                                                  \
        r->NAME(c[0], c[1], q[0]);                                                                                     \
        return -1;                                                                                                     \
    }
    NCC(CCNOT) NCC(AntiCCNOT) NCC(CCY) NCC(AntiCCY) NCC(CCZ) NCC(AntiCCZ)
#undef NCC
    if (o == "Mtrx") {
        r->Mtrx(op.g(0).m, q[0]);
        return -1;
    }
    if (o == "Phase") {
        M2 m = op.g(0);
        r->Phase(m.m[0], m.m[3], q[0]);
        return -1;
    }
    if (o == "Invert") {
        M2 m = op.g(0);
        r->Invert(m.m[1], m.m[2], q[0]);
        return -1;
    }
    if (o == "MCMtrx" || o == "MACMtrx" || o == "UCMtrx") {
        M2 m = op.g(0);
        if (o[0] == 'U')
            r->UCMtrx(c, m.m, q[0], B(k[0]));
        else if (o[1] == 'C')
            r->MCMtrx(c, m.m, q[0]);
        else
            r->MACMtrx(c, m.m, q[0]);
        return -1;
    }
    if (o == "MCPhase" || o == "MACPhase" || o == "UCPhase") {
        M2 m = op.g(0);
        if (o[0] == 'U')
            r->UCPhase(c, m.m[0], m.m[3], q[0], B(k[0]));
        else if (o[1] == 'C')
            r->MCPhase(c, m.m[0], m.m[3], q[0]);
        else
            r->MACPhase(c, m.m[0], m.m[3], q[0]);
        return -1;
    }
    if (o == "MCInvert" || o == "MACInvert" || o == "UCInvert") {
        M2 m = op.g(0);
        if (o[0] == 'U')
            r->UCInvert(c, m.m[1], m.m[2], q[0], B(k[0]));
        else if (o[1] == 'C')
            r->MCInvert(c, m.m[1], m.m[2], q[0]);
        else
            r->MACInvert(c, m.m[1], m.m[2], q[0]);
        return -1;
    }
    if (o == "UCSB" || o == "UCSBS") {
        std::vector<complex> ms;
        for (size_t i = 0; i < op.ng(); ++i) {
            M2 m = op.g(i);
            ms.insert(ms.end(), m.m, m.m + 4);
        }
        if (o == "UCSBS") {
            std::vector<bitCapInt> sk;
            for (size_t i = 1; i < k.size(); ++i)
                sk.push_back(pow2((bitLenInt)k[i]));
            r->UniformlyControlledSingleBit(c, q[0], ms.data(), sk, B(k[0]));
        } else {
            r->UniformlyControlledSingleBit(c, q[0], ms.data());
        }
        return -1;
    }
    if (o == "UCRY" || o == "UCRZ") {
        std::vector<real1> a;
        for (size_t i = 0; i < op.nz(); ++i)
            a.push_back((real1)(2 * op.arg(i)));
        if (o == "UCRY")
            r->UniformlyControlledRY(c, q[0], a.data());
        else
            r->UniformlyControlledRZ(c, q[0], a.data());
        return -1;
    }
    if (o == "RT") {
        r->RT(ANG2(0), q[0]);
        return -1;
    }
    if (o == "RX") {
        r->RX(ANG2(0), q[0]);
        return -1;
    }
    if (o == "RY") {
        r->RY(ANG2(0), q[0]);
        return -1;
    }
    if (o == "RZ") {
        r->RZ(ANG2(0), q[0]);
        return -1;
    }
    if (o == "CRY") {
        r->CRY(ANG2(0), c[0], q[0]);
        return -1;
    }
    if (o == "CRZ") {
        r->CRZ(ANG2(0), c[0], q[0]);
        return -1;
    }
    if (o == "U") {
        r->U(q[0], ANG2(0), ANG(1), ANG(2));
        return -1;
    }
    if (o == "U2") {
        r->U2(q[0], ANG(0), ANG(1));
        return -1;
    }
    if (o == "IU2") {
        r->IU2(q[0], ANG(0), ANG(1));
        return -1;
    }
    if (o == "CU") {
        r->CU(c, q[0], ANG2(0), ANG(1), ANG(2));
        return -1;
    }
    if (o == "AntiCU") {
        r->AntiCU(c, q[0], ANG2(0), ANG(1), ANG(2));
        return -1;
    }
    if (o == "AI") {
        r->AI(q[0], ANG(0), ANG2(1));
        return -1;
    }
    if (o == "IAI") {
        r->IAI(q[0], ANG(0), ANG2(1));
        return -1;
    }
    if (o == "CAI") {
        r->CAI(c[0], q[0], ANG(0), ANG2(1));
        return -1;
    }
    if (o == "AntiCAI") {
        r->AntiCAI(c[0], q[0], ANG(0), ANG2(1));
        return -1;
    }
    if (o == "CIAI") {
        r->CIAI(c[0], q[0], ANG(0), ANG2(1));
        return -1;
    }
    if (o == "AntiCIAI") {
        r->AntiCIAI(c[0], q[0], ANG(0), ANG2(1));
        return -1;
    }
    if (o == "PhaseRootN") {
        r->PhaseRootN((bitLenInt)k[0], q[0]);
        return -1;
    }
    if (o == "IPhaseRootN") {
        // not part of the built interface (register-spanning API only): the equivalent phase
        if (k[0] > 0)
            r->Phase(ONE_CMPLX, std::polar((real1)1, (real1)(M_PI / (double)(1 << (k[0] - 1)))), q[0]);
        return -1;
    }
    if (o == "CPhaseRootN") {
        r->CPhaseRootN((bitLenInt)k[0], c[0], q[0]);
        return -1;
    }
    if (o == "AntiCPhaseRootN") {
        r->AntiCPhaseRootN((bitLenInt)k[0], c[0], q[0]);
        return -1;
    }
    if (o == "CIPhaseRootN") {
        r->CIPhaseRootN((bitLenInt)k[0], c[0], q[0]);
        return -1;
    }
    if (o == "AntiCIPhaseRootN") {
        r->AntiCIPhaseRootN((bitLenInt)k[0], c[0], q[0]);
        return -1;
    }
#define SW(NAME)                                                                                                       \
    if (o == #NAME) {                                                                                                  \
        r->NAME(q[0], q[1]);                                                                                           \
        return -1;                                                                                                     \
    }
    SW(Swap) SW(ISwap) SW(IISwap) SW(SqrtSwap) SW(ISqrtSwap)
#undef SW
#define SW(NAME)                                                                                                       \
    if (o == #NAME) {                                                                                                  \
        r->NAME(c, q[0], q[1]);                                                                                        \
        return -1;                                                                                                     \
    }
    SW(CSwap) SW(CSqrtSwap) SW(CISqrtSwap) SW(AntiCSwap) SW(AntiCSqrtSwap) SW(AntiCISqrtSwap)
#undef SW
    if (o == "FSim") {
        r->FSim(ANG(0), ANG(1), q[0], q[1]);
        return -1;
    }
    if (o == "XMask") {
        r->XMask(B(k[0]));
        return -1;
    }
    if (o == "YMask") {
        r->YMask(B(k[0]));
        return -1;
    }
    if (o == "ZMask") {
        r->ZMask(B(k[0]));
        return -1;
    }
    if (o == "XReg") {
        r->X((bitLenInt)k[0], (bitLenInt)k[1]);
        return -1;
    }
    if (o == "HReg") {
        r->H((bitLenInt)k[0], (bitLenInt)k[1]);
        return -1;
    }
    if (o == "PhaseRootNMask") {
        r->PhaseRootNMask((bitLenInt)k[0], B(k[1]));
        return -1;
    }
    if (o == "PhaseParity") {
        r->PhaseParity(ANG2(0), B(k[0]));
        return -1;
    }
    if (o == "UniformParityRZ") {
        par(r)->UniformParityRZ(B(k[0]), ANG(0));
        return -1;
    }
    if (o == "CUniformParityRZ") {
        par(r)->CUniformParityRZ(c, B(k[0]), ANG(0));
        return -1;
    }
    if (o == "ZeroPhaseFlip") {
        r->ZeroPhaseFlip((bitLenInt)k[0], (bitLenInt)k[1]);
        return -1;
    }
    if (o == "PhaseFlip") {
        r->PhaseFlip();
        return -1;
    }
    if (o == "Reverse") {
        r->Reverse((bitLenInt)k[0], (bitLenInt)k[1]);
        return -1;
    }
#define SH3(NAME)                                                                                                      \
    if (o == #NAME) {                                                                                                  \
        r->NAME((bitLenInt)k[0], (bitLenInt)k[1], (bitLenInt)k[2]);                                                    \
        return -1;                                                                                                     \
    }
    SH3(ROL) SH3(ROR) SH3(ASL) SH3(ASR) SH3(LSL) SH3(LSR)
#undef SH3
    if (o == "QFT") {
        r->QFT((bitLenInt)k[0], (bitLenInt)k[1]);
        return -1;
    }
    if (o == "IQFT") {
        r->IQFT((bitLenInt)k[0], (bitLenInt)k[1]);
        return -1;
    }
    if (o == "QFTR") {
        r->QFTR(q);
        return -1;
    }
    if (o == "IQFTR") {
        r->IQFTR(q);
        return -1;
    }
    if (o == "SetPermutation") {
        r->SetPermutation(B(k[0]), ONE_CMPLX);
        return -1;
    }
    // measurement
    if (o == "M") {
        if (force)
            return r->ForceM(q[0], want != 0, true, true) ? 1 : 0;
        return r->M(q[0]) ? 1 : 0;
    }
    if (o == "MAll") {
        if (force)
            return L(r->ForceMReg(0, r->GetQubitCount(), B(want), true));
        return L(r->MAll());
    }
    if (o == "MReg") {
        if (force)
            return L(r->ForceMReg((bitLenInt)k[0], (bitLenInt)k[1], B(want), true));
        return L(r->MReg((bitLenInt)k[0], (bitLenInt)k[1]));
    }
    if (o == "MBits") {
        if (force) {
            std::vector<bool> v;
            for (auto x : q)
                v.push_back((want >> x) & 1);
            return L(r->ForceM(q, v));
        }
        return L(r->M(q));
    }
    if (o == "MParity") {
        if (force)
            return par(r)->ForceMParity(B(k[0]), want != 0, true) ? 1 : 0;
        return par(r)->MParity(B(k[0])) ? 1 : 0;
    }
    if (o == "ForceM")
        return r->ForceM(q[0], k[0] != 0) ? 1 : 0;
    if (o == "ForceMReg")
        return L(r->ForceMReg((bitLenInt)k[0], (bitLenInt)k[1], B(k[2])));
    if (o == "ForceMBits") {
        std::vector<bool> v;
        for (size_t i = 0; i < q.size(); ++i)
            v.push_back((k[0] >> i) & 1);
        return L(r->ForceM(q, v));
    }
    if (o == "ForceMBitsLen") // one bit, two values
        return L(r->ForceM(q, std::vector<bool>{ true, false }));
    if (o == "ForceMParity")
        return par(r)->ForceMParity(B(k[0]), k[1] != 0) ? 1 : 0;
    if (o == "SetBit") {
        r->SetBit(q[0], k[0] != 0);
        return -1;
    }
    if (o == "SetReg") {
        r->SetReg((bitLenInt)k[0], (bitLenInt)k[1], B(k[2]));
        return -1;
    }
    // structure
    if (o == "Allocate") {
        const long long s = (long long)r->Allocate((bitLenInt)k[0], (bitLenInt)k[1]);
        if (s != k[0])
            throw std::runtime_error("Allocate returned " + std::to_string(s));
        return -1;
    }
    if (o == "AllocateEnd") {
        const long long s = (long long)r->Allocate((bitLenInt)k[1]);
        if (s != k[0])
            throw std::runtime_error("Allocate returned " + std::to_string(s));
        return -1;
    }
    if (o == "Dispose") {
        r->Dispose((bitLenInt)k[0], (bitLenInt)k[1]);
        return -1;
    }
    if (o == "DisposePerm") {
        r->Dispose((bitLenInt)k[0], (bitLenInt)k[1], B(k[2]));
        return -1;
    }
    if (o == "TrySep1") {
        r->TrySeparate(q[0]);
        return -1;
    }
    if (o == "TrySep2") {
        r->TrySeparate(q[0], q[1]);
        return -1;
    }
    if (o == "TrySepN") {
        r->TrySeparate(q, (real1_f)0.001f);
        return -1;
    }
    if (o == "Finish") {
        r->Finish();
        return -1;
    }
    if (o == "UpdateRunningNorm") {
        r->UpdateRunningNorm();
        return -1;
    }
    if (o == "NormalizeState") {
        r->NormalizeState();
        return -1;
    }
    if (o == "DumpNothing") {
        r->isFinished();
        return -1;
    }
    if (o == "SetNoise") {
        QInterfaceNoisyPtr z = std::dynamic_pointer_cast<QInterfaceNoisy>(r);
        if (!z)
            throw Unsupported("SetNoise");
        z->SetNoiseParameter(k[0] == 0 ? 0.0f : (k[0] == 1 ? 0.25f : 1.0f));
        return -1;
    }
    if (o == "SelfClone") {
        r = r->Clone();
        return -1;
    }
    // arithmetic
#define BL(i) ((bitLenInt)k[i])
    if (o == "INC") {
        r->INC(B(k[0]), BL(1), BL(2));
        return -1;
    }
    if (o == "DEC") {
        r->DEC(B(k[0]), BL(1), BL(2));
        return -1;
    }
    if (o == "CINC") {
        r->CINC(B(k[0]), BL(1), BL(2), c);
        return -1;
    }
    if (o == "CDEC") {
        r->CDEC(B(k[0]), BL(1), BL(2), c);
        return -1;
    }
    if (o == "INCC") {
        r->INCC(B(k[0]), BL(1), BL(2), q[0]);
        return -1;
    }
    if (o == "DECC") {
        r->DECC(B(k[0]), BL(1), BL(2), q[0]);
        return -1;
    }
    if (o == "INCS") {
        r->INCS(B(k[0]), BL(1), BL(2), q[0]);
        return -1;
    }
    if (o == "DECS") {
        r->DECS(B(k[0]), BL(1), BL(2), q[0]);
        return -1;
    }
    if (o == "INCSC4") {
        alu(r)->INCSC(B(k[0]), BL(1), BL(2), q[0]);
        return -1;
    }
    if (o == "DECSC4") {
        alu(r)->DECSC(B(k[0]), BL(1), BL(2), q[0]);
        return -1;
    }
    if (o == "INCSC") {
        alu(r)->INCSC(B(k[0]), BL(1), BL(2), q[0], q[1]);
        return -1;
    }
    if (o == "DECSC") {
        alu(r)->DECSC(B(k[0]), BL(1), BL(2), q[0], q[1]);
        return -1;
    }
    if (o == "MUL") {
        alu(r)->MUL(B(k[0]), BL(1), BL(2), BL(3));
        return -1;
    }
    if (o == "DIV") {
        alu(r)->DIV(B(k[0]), BL(1), BL(2), BL(3));
        return -1;
    }
    if (o == "CMUL") {
        alu(r)->CMUL(B(k[0]), BL(1), BL(2), BL(3), c);
        return -1;
    }
    if (o == "CDIV") {
        alu(r)->CDIV(B(k[0]), BL(1), BL(2), BL(3), c);
        return -1;
    }
    if (o == "MULModNOut") {
        r->MULModNOut(B(k[0]), B(k[1]), BL(2), BL(3), BL(4));
        return -1;
    }
    if (o == "IMULModNOut") {
        r->IMULModNOut(B(k[0]), B(k[1]), BL(2), BL(3), BL(4));
        return -1;
    }
    if (o == "POWModNOut") {
        alu(r)->POWModNOut(B(k[0]), B(k[1]), BL(2), BL(3), BL(4));
        return -1;
    }
    if (o == "CMULModNOut") {
        r->CMULModNOut(B(k[0]), B(k[1]), BL(2), BL(3), BL(4), c);
        return -1;
    }
    if (o == "CIMULModNOut") {
        r->CIMULModNOut(B(k[0]), B(k[1]), BL(2), BL(3), BL(4), c);
        return -1;
    }
    if (o == "CPOWModNOut") {
        alu(r)->CPOWModNOut(B(k[0]), B(k[1]), BL(2), BL(3), BL(4), c);
        return -1;
    }
    if (o == "IndexedLDA" || o == "IndexedADC" || o == "IndexedSBC" || o == "IndexedLDANoReset") {
        std::vector<unsigned char> t;
        const size_t vb = (size_t)((k[3] + 7) / 8);
        for (size_t i = 4; i < k.size(); ++i)
            for (size_t b = 0; b < vb; ++b)
                t.push_back((unsigned char)((k[i] >> (8 * b)) & 0xff));
        if (o == "IndexedLDA")
            alu(r)->IndexedLDA(BL(0), BL(1), BL(2), BL(3), t.data(), true);
        else if (o == "IndexedLDANoReset")
            alu(r)->IndexedLDA(BL(0), BL(1), BL(2), BL(3), t.data(), false);
        else if (o == "IndexedADC")
            alu(r)->IndexedADC(BL(0), BL(1), BL(2), BL(3), q[0], t.data());
        else
            alu(r)->IndexedSBC(BL(0), BL(1), BL(2), BL(3), q[0], t.data());
        return -1;
    }
    if (o == "Hash") {
        std::vector<unsigned char> t;
        for (size_t i = 2; i < k.size(); ++i)
            t.push_back((unsigned char)k[i]);
        alu(r)->Hash(BL(0), BL(1), t.data());
        return -1;
    }
    if (o == "PhaseFlipIfLess") {
        alu(r)->PhaseFlipIfLess(B(k[0]), BL(1), BL(2));
        return -1;
    }
    if (o == "CPhaseFlipIfLess") {
        alu(r)->CPhaseFlipIfLess(B(k[0]), BL(1), BL(2), q[0]);
        return -1;
    }
#define LG(NAME)                                                                                                       \
    if (o == #NAME) {                                                                                                  \
        r->NAME(q[0], q[1], q[2]);                                                                                     \
        return -1;                                                                                                     \
    }                                                                                                                  \
    if (o == "CL" #NAME) {                                                                                             \
        r->CL##NAME(q[0], k[0] != 0, q[1]);                                                                            \
        return -1;                                                                                                     \
    }
    LG(AND) LG(OR) LG(XOR) LG(NAND) LG(NOR) LG(XNOR)
#undef LG
    if (o == "FullAdd") {
        r->FullAdd(q[0], q[1], q[2], q[3]);
        return -1;
    }
    if (o == "IFullAdd") {
        r->IFullAdd(q[0], q[1], q[2], q[3]);
        return -1;
    }
    if (o == "CFullAdd") {
        r->CFullAdd(c, q[0], q[1], q[2], q[3]);
        return -1;
    }
    if (o == "CIFullAdd") {
        r->CIFullAdd(c, q[0], q[1], q[2], q[3]);
        return -1;
    }
    if (o == "ADC") {
        r->ADC(BL(0), BL(1), BL(2), BL(3), BL(4));
        return -1;
    }
    if (o == "IADC") {
        r->IADC(BL(0), BL(1), BL(2), BL(3), BL(4));
        return -1;
    }
    if (o == "CADC") {
        r->CADC(c, BL(0), BL(1), BL(2), BL(3), BL(4));
        return -1;
    }
    if (o == "CIADC") {
        r->CIADC(c, BL(0), BL(1), BL(2), BL(3), BL(4));
        return -1;
    }
#undef BL
    throw std::runtime_error("harness: unknown op " + o);
}
#undef ANG
#undef ANG2

// ---------------------------------------------------------------------------------------------
// stacks
struct Stack {
    std::vector<QInterfaceEngine> eng;
    bool sparse = false;
    bitLenInt thresh = 0;
    bool phaseExact = false;
    bool cliffordOnly = false;
};
static Stack stackOf(const std::string& name)
{
    // name: layers joined by '+', options after ':' (s = sparse, pN = qubit threshold N, r = random global phase)
    Stack s;
    std::string layers = name, opts;
    size_t c = name.find(':');
    if (c != std::string::npos) {
        layers = name.substr(0, c);
        opts = name.substr(c + 1);
    }
    static const std::map<std::string, QInterfaceEngine> m = { { "cpu", QINTERFACE_CPU },
        { "bdt", QINTERFACE_BDT }, { "bdth", QINTERFACE_BDT_HYBRID }, { "stab", QINTERFACE_STABILIZER },
        { "sh", QINTERFACE_STABILIZER_HYBRID }, { "pager", QINTERFACE_QPAGER }, { "unit", QINTERFACE_QUNIT },
        { "uc", QINTERFACE_QUNIT_CLIFFORD }, { "tn", QINTERFACE_TENSOR_NETWORK }, { "noisy", QINTERFACE_NOISY } };
    std::stringstream ss(layers);
    std::string l;
    while (std::getline(ss, l, '+'))
        s.eng.push_back(m.at(l));
    for (size_t i = 0; i < opts.size(); ++i) {
        if (opts[i] == 's')
            s.sparse = true;
        if (opts[i] == 'p')
            s.thresh = (bitLenInt)atoi(opts.c_str() + i + 1);
        if (opts[i] == 't') // parallel stride power: asynchronous dispatch and threads at small sizes
            setenv("QRACK_PSTRIDEPOW", opts.c_str() + i + 1, 1);
        if (opts[i] == 'l') // light cones above this number of qubits
            setenv("QRACK_QTENSORNETWORK_THRESHOLD_QB", opts.c_str() + i + 1, 1);
    }
    s.cliffordOnly = (s.eng[0] == QINTERFACE_STABILIZER) || (s.eng[0] == QINTERFACE_QUNIT_CLIFFORD);
    s.phaseExact = false; // global phase is unobservable
    return s;
}
static QInterfacePtr mk(const Stack& s, bitLenInt n, long long perm, qrack_rand_gen_ptr rng)
{
    QInterfacePtr q = CreateQuantumInterface(s.eng, n, B(perm), rng, ONE_CMPLX, false, false, false, (int64_t)-1, false,
        s.sparse, REAL1_EPSILON, std::vector<int64_t>{}, s.thresh, _qrack_qunit_sep_thresh);
    if (!(s.eng[0] == QINTERFACE_NOISY))
        return q;
    q->SetNoiseParameter(ZERO_R1_F);
    return q;
}

static Vec stateOf(QInterfacePtr r)
{
    const size_t N = (size_t)1 << r->GetQubitCount();
    std::vector<complex> b(N);
    r->GetQuantumState(b.data());
    Vec v(N);
    for (size_t i = 0; i < N; ++i)
        v[i] = cd((double)b[i].real(), (double)b[i].imag());
    return v;
}
// distance up to global phase (or exact), infinite when the sizes or norm disagree
static double dist(const Vec& got, const Vec& want, bool exact)
{
    if (got.size() != want.size())
        return 1e9;
    cd ov = 0;
    for (size_t i = 0; i < got.size(); ++i)
        ov += std::conj(want[i]) * got[i];
    cd ph = exact ? cd(1, 0) : (std::abs(ov) < 1e-9 ? cd(1, 0) : ov / std::abs(ov));
    double d = 0;
    for (size_t i = 0; i < got.size(); ++i) {
        const double x = std::abs(got[i] - ph * want[i]);
        if (!(x <= d))
            d = std::isnan(x) ? 1e9 : x;
    }
    return d;
}
static std::string show(const Vec& v)
{
    std::ostringstream s;
    s.precision(4);
    s << "[";
    for (size_t i = 0; i < v.size(); ++i)
        if (std::abs(v[i]) > 1e-4)
            s << i << ":" << v[i].real() << (v[i].imag() < 0 ? "-" : "+") << std::abs(v[i].imag()) << "i ";
    s << "]";
    return s.str();
}


// ------------------------------------------------------------------------------------------------ queries
// The answer of the implementation to a query, as plain numbers (the caller knows what to expect).
static std::vector<double> queryVals(QInterfacePtr r, const OpV& op, uint32_t h)
{
    const std::string o = op.o.substr(1);
    const auto&q = op.q, &c = op.c;
    const auto& k = op.k;
    typedef std::vector<double> D;
    auto all = [](const std::vector<real1>& b) { return D(b.begin(), b.end()); };
    if (o == "Prob")
        return D{ r->Prob(q[0]) };
    if (o == "ProbAll")
        return D{ r->ProbAll(B(k[0])) };
    if (o == "ProbReg")
        return D{ r->ProbReg((bitLenInt)k[0], (bitLenInt)k[1], B(k[2])) };
    if (o == "ProbMask")
        return D{ r->ProbMask(B(k[0]), B(k[1])) };
    if (o == "ProbParity")
        return D{ par(r)->ProbParity(B(k[0])) };
    if (o == "CProb")
        return D{ r->CProb(c[0], q[0]) };
    if (o == "ACProb")
        return D{ r->ACProb(c[0], q[0]) };
    if (o == "ProbRegAll") {
        std::vector<bitLenInt> b;
        for (long long i = 0; i < k[1]; ++i)
            b.push_back((bitLenInt)(k[0] + i));
        std::vector<real1> buf((size_t)1 << b.size());
        auto e = std::dynamic_pointer_cast<QEngine>(r);
        if (e)
            e->ProbRegAll((bitLenInt)k[0], (bitLenInt)k[1], buf.data());
        else
            r->ProbBitsAll(b, buf.data());
        return all(buf);
    }
    if (o == "ProbBitsAll") {
        std::vector<real1> buf((size_t)1 << q.size());
        r->ProbBitsAll(q, buf.data());
        return all(buf);
    }
    if (o == "ProbMaskAll") {
        std::vector<real1> buf((size_t)1 << __builtin_popcountll((unsigned long long)k[0]));
        r->ProbMaskAll(B(k[0]), buf.data());
        return all(buf);
    }
    if (o == "Fidelity") {
        return D{ r->GetUnitaryFidelity() };
    }
    if (o == "GetProbs") {
        std::vector<real1> buf((size_t)1 << r->GetQubitCount());
        r->GetProbs(buf.data());
        return all(buf);
    }
    if (o == "ExpBits")
        return D{ r->ExpectationBitsAll(q, B(k[0])) };
    if (o == "VarBits")
        return D{ r->VarianceBitsAll(q, B(k[0])) };
    if (o == "ExpFact" || o == "VarFact") {
        std::vector<bitCapInt> f;
        for (auto x : k)
            f.push_back(B(x));
        return D{ o == "ExpFact" ? r->ExpectationBitsFactorized(q, f) : r->VarianceBitsFactorized(q, f) };
    }
    if (o == "ExpFloatFact" || o == "VarFloatFact") {
        std::vector<real1_f> f;
        for (auto x : k)
            f.push_back((real1_f)x);
        return D{ o == "ExpFloatFact" ? r->ExpectationFloatsFactorized(q, f) : r->VarianceFloatsFactorized(q, f) };
    }
    if (o == "ExpPauli" || o == "VarPauli") {
        std::vector<Pauli> p;
        for (auto x : k)
            p.push_back((Pauli)x);
        return D{ o == "ExpPauli" ? r->ExpectationPauliAll(q, p) : r->VariancePauliAll(q, p) };
    }
    if (o == "ExpUnit" || o == "VarUnit") {
        M2 m = op.g(0);
        std::shared_ptr<complex> b(new complex[4], std::default_delete<complex[]>());
        std::copy(m.m, m.m + 4, b.get());
        std::vector<real1_f> ev{ (real1_f)k[0], (real1_f)k[1] };
        std::vector<std::shared_ptr<complex>> bo{ b };
        return D{ o == "ExpUnit" ? r->ExpectationUnitaryAll(q, bo, ev) : r->VarianceUnitaryAll(q, bo, ev) };
    }
    if (o == "ExpU3" || o == "VarU3") {
        std::vector<real1_f> bo{ (real1_f)(2 * op.arg(0)), (real1_f)op.arg(1), (real1_f)op.arg(2) };
        std::vector<real1_f> ev{ (real1_f)k[0], (real1_f)k[1] };
        return D{ o == "ExpU3" ? r->ExpectationUnitaryAll(q, bo, ev) : r->VarianceUnitaryAll(q, bo, ev) };
    }
    if (o == "GetAmp") {
        const complex a = r->GetAmplitude(B(k[0]));
        return D{ std::abs(cd(a.real(), a.imag())) };
    }
    if (o == "MultiShot") { // (outcome, count) pairs
        std::vector<bitCapInt> qp;
        for (auto x : q)
            qp.push_back(pow2(x));
        const unsigned shots = (unsigned)k[0];
        D res;
        if (h & 1) {
            for (auto& x : r->MultiShotMeasureMask(qp, shots)) {
                res.push_back((double)L(x.first));
                res.push_back(x.second);
            }
        } else {
            std::vector<unsigned long long> buf(shots, ~0ULL);
            r->MultiShotMeasureMask(qp, shots, buf.data());
            for (auto x : buf) {
                res.push_back(x > 1000000ULL ? -1 : (double)x);
                res.push_back(1);
            }
        }
        return res;
    }
    throw std::runtime_error("harness: unknown query " + o);
}
