// Kinds of objects the library can build, for histories of constructions under failing allocations.
#pragma once
#include "core/sim.hpp"
#include "core/seams.hpp"
#include <opm/core/grid.h>
#include <functional>
#include <memory>

// What the drawn objects are built from (owned by the run, never touched by the library).
struct MemBase {
    UnstructuredGrid* g = nullptr;
    std::vector<int> dims, connpos, cells; std::vector<double> perm, totmob, src, WI, bhp, htrans, trans;
    std::vector<int> part; bool wells() const { return connpos.size() > 1; }
};
struct MemOp { int kind = 0; bool whole = true;   /* all or nothing when memory runs out */
    std::vector<int> i; std::vector<double> d; };

struct MemItem {
    virtual ~MemItem() {}
    virtual MemItem* twin() const = 0;                 // same parameters, nothing built yet
    virtual bool create() = 0;                         // the library call; false when it reports failure
    virtual void destroy() = 0;
    virtual void dump(std::vector<double>& v) = 0;     // all that a user can read
    virtual void draw(Sim&, MemOp& o) { o.kind = -1; }     // an operation on the object, if there is any
    virtual bool op(const MemOp&) { return true; }
    double tol = 0;                                    // relative tolerance of the contents
};
template <class T> struct MemItemOf : MemItem { MemItem* twin() const override { T* t = new T(*static_cast<const T*>(this)); t->reset(); return t; } };

struct MemKind { const char* name; std::function<MemItem*(Sim&, const MemBase&)> make; };
std::vector<MemKind>& memKinds();
template <class T> struct MemKindReg { explicit MemKindReg(const char* n) { memKinds().push_back(MemKind{n, [](Sim& s, const MemBase& b) -> MemItem* { return new T(s, b); }}); } };

inline void put(std::vector<double>& v, double x) { v.push_back(x); }
template <class P> inline void putN(std::vector<double>& v, const P* p, size_t n) { if (!p && n) { v.push_back(-12345); return; } for (size_t i = 0; i < n; ++i) v.push_back(double(p[i])); }
template <class M> inline void putCsr(std::vector<double>& v, const M* A, bool values) {
    put(v, double(A->m)); put(v, double(A->nnz)); putN(v, A->ia, A->m + 1); putN(v, A->ja, A->ia[A->m]); if (values) putN(v, A->sa, A->ia[A->m]);
}
