// Stand-in for the ScalFMM library, which is not available offline: the same
// interface as the part of ScalFMM that feeLLGood uses, computing the potential
// of the sources on the targets by direct summation.
#ifndef VF_SCALFMM_HPP
#define VF_SCALFMM_HPP
#include <omp.h>
#include <algorithm>
#include <array>
#include <cassert>
#include <cmath>
#include <cstdio>
#include <cstdlib>
#include <functional>
#include <iostream>
#include <list>
#include <map>
#include <memory>
#include <sstream>
#include <string>
#include <tuple>
#include <vector>

typedef long long int FSize;

// Optional observation point, called once the potentials of a charge
// distribution have been computed (weak: may be undefined).
extern "C" void vf_on_fmm_execute(long nsources, long ntargets) __attribute__((weak));

template<class FReal>
class FPoint
    {
    FReal d[3];
public:
    FPoint() : d{0, 0, 0} {}
    FPoint(const FReal x, const FReal y, const FReal z) : d{x, y, z} {}
    FReal getX() const { return d[0]; }
    FReal getY() const { return d[1]; }
    FReal getZ() const { return d[2]; }
    FReal operator[](const int i) const { return d[i]; }
    };

enum class FParticleType { FParticleTypeSource, FParticleTypeTarget };

template<class FReal>
class FP2PParticleContainerIndexed
    {
public:
    std::vector<FPoint<FReal>> pos;
    std::vector<FSize> indexes;
    std::vector<FReal> values, potentials, fx, fy, fz;
    FSize getNbParticles() const { return pos.size(); }
    const std::vector<FSize> &getIndexes() const { return indexes; }
    FReal *getPhysicalValues() { return values.data(); }
    const FReal *getPhysicalValues() const { return values.data(); }
    FReal *getPotentials() { return potentials.data(); }
    const FReal *getPotentials() const { return potentials.data(); }
    FReal *getForcesX() { return fx.data(); }
    FReal *getForcesY() { return fy.data(); }
    FReal *getForcesZ() { return fz.data(); }
    void push(const FPoint<FReal> &p, const FSize idx, const FReal q)
        {
        pos.push_back(p); indexes.push_back(idx); values.push_back(q); potentials.push_back(0);
        fx.push_back(0); fy.push_back(0); fz.push_back(0);
        }
    };

template<class FReal, class Container>
class FTypedLeaf
    {
    Container src, tgt;
public:
    Container *getSrc() { return &src; }
    Container *getTargets() { return &tgt; }
    void push(const FPoint<FReal> &p, const FParticleType t, const FSize idx, const FReal q)
        { (t == FParticleType::FParticleTypeSource ? src : tgt).push(p, idx, q); }
    };

template<class FReal, int P>
class FTypedRotationCell
    {
public:
    void resetToInitialState() {}
    };

template<class FReal, class Cell, class Container, int P>
class FRotationKernel
    {
public:
    FRotationKernel(const int, const FReal, const FPoint<FReal> &) {}
    };

template<class FReal, class Cell, class Container, class Leaf>
class FOctree
    {
    std::map<std::tuple<int, int, int>, std::unique_ptr<Leaf>> leaves;
    Cell root;
    const FReal width;
    const FPoint<FReal> center;
public:
    FOctree(const int, const int, const FReal w, const FPoint<FReal> &c) : width(w), center(c) {}

    // Real ScalFMM has undefined behaviour for a particle out of the box: make it visible.
    int slot(const FReal x, const FReal c) const
        {
        const FReal r = (x - c) / width + 0.5;
        if (!(r >= 0 && r <= 1))
            {
            std::cerr << "VF-SCALFMM: particle outside the box\n";
            exit(86);
            }
        return std::min(3, int(r * 4));
        }
    void insert(const FPoint<FReal> &p, const FParticleType t, const FSize idx, const FReal q = 0)
        {
        auto &l = leaves[std::make_tuple(slot(p.getX(), center.getX()),
                slot(p.getY(), center.getY()), slot(p.getZ(), center.getZ()))];
        if (!l) l.reset(new Leaf);
        l->push(p, t, idx, q);
        }
    void forEachLeaf(const std::function<void(Leaf *)> &f) { for (auto &x : leaves) f(x.second.get()); }
    void forEachCell(const std::function<void(Cell *)> &f) { f(&root); }
    };

template<class Octree, class Cell, class Container, class Kernel, class Leaf>
class FFmmAlgorithmThreadTsm
    {
    Octree *tree;
public:
    FFmmAlgorithmThreadTsm(Octree *t, Kernel *) : tree(t) {}
    void execute()
        {
        std::vector<Leaf *> ls;
        tree->forEachLeaf([&ls](Leaf *l) { ls.push_back(l); });
        long ns = 0, nt = 0;
        for (Leaf *s : ls) ns += s->getSrc()->getNbParticles();
        for (Leaf *t : ls)
            {
            auto *tc = t->getTargets();
            nt += tc->getNbParticles();
            for (FSize i = 0; i < tc->getNbParticles(); ++i)
                {
                double v = 0;
                for (Leaf *s : ls)
                    {
                    auto *sc = s->getSrc();
                    for (FSize j = 0; j < sc->getNbParticles(); ++j)
                        {
                        const double dx = tc->pos[i].getX() - sc->pos[j].getX();
                        const double dy = tc->pos[i].getY() - sc->pos[j].getY();
                        const double dz = tc->pos[i].getZ() - sc->pos[j].getZ();
                        v += sc->values[j] / std::sqrt(dx * dx + dy * dy + dz * dz);
                        }
                    }
                tc->potentials[i] += v;
                }
            }
        if (vf_on_fmm_execute) vf_on_fmm_execute(ns, nt);
        }
    };
#endif
