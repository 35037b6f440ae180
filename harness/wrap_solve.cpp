// Link-time wrapper (ld --wrap) around the linear solve of the time loop, and around the
// production of the header of a .sol file. The rest of the program is the real one.
//
// VF_LOG    file where the attempts are logged (JSON lines)
// VF_SCRIPT file with the outcome of each attempt, one line each:
//     <outcome> <ratio> <sig> <where>
//   outcome: O = succeeds, with the largest variation equal to ratio*max(du)
//            F = the linear solve fails      R = the real solve, not scripted
//   sig: a signal to raise during this attempt, or 0; where: b|a|d = before|after the solve|both
//   X <n> <sig>  raise sig in the n-th potential computation; S <n> <sig>  in the n-th .sol header
//   D <max(du)>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <csignal>
#include <fstream>
#include <sstream>
#include <string>
#include <vector>
#include <map>
#include <dirent.h>
#include "linear_algebra.h"
#include "time_integration.h"

namespace
    {
    struct Line { char out; double ratio; int sig; char where; };
    std::vector<Line> script;
    std::map<long, int> fmm_sig, sol_sig;
    double dumax = 0.02;
    long n_att = 0, n_fmm = 0, n_sol = 0;
    FILE *vlog = nullptr;
    std::string evol, outdir;
    bool ready = false;

    void init()
        {
        if (ready) return;
        ready = true;
        if (const char *p = getenv("VF_LOG")) vlog = fopen(p, "a");
        if (const char *p = getenv("VF_EVOL")) evol = p;
        if (const char *p = getenv("VF_OUTDIR")) outdir = p;
        if (const char *p = getenv("VF_SCRIPT"))
            {
            std::ifstream f(p);
            std::string s;
            while (std::getline(f, s))
                {
                std::istringstream i(s);
                char c;
                if (!(i >> c)) continue;
                long n; int sig;
                if (c == 'X') { i >> n >> sig; fmm_sig[n] = sig; }
                else if (c == 'S') { i >> n >> sig; sol_sig[n] = sig; }
                else if (c == 'D') i >> dumax;
                else
                    {
                    Line l{c, 0.3, 0, 'a'};
                    i >> l.ratio >> l.sig >> l.where;
                    script.push_back(l);
                    }
                }
            }
        }

    // Number of complete data rows of the .evol file.
    long rows()
        {
        std::ifstream f(evol, std::ios::binary);
        std::string s;
        long n = 0;
        std::stringstream ss;
        ss << f.rdbuf();
        std::string all = ss.str();
        size_t pos = 0, e;
        while ((e = all.find('\n', pos)) != std::string::npos)
            {
            if (all[pos] != '#') n++;
            pos = e + 1;
            }
        return n;
        }

    long sols()
        {
        long n = 0;
        if (DIR *d = opendir(outdir.c_str()))
            {
            while (dirent *e = readdir(d))
                if (strstr(e->d_name, "_iter") && strstr(e->d_name, ".sol")) n++;
            closedir(d);
            }
        return n;
        }

    void vec(const char *name, Mesh::mesh *m, int k)
        {
        fprintf(vlog, ",\"%s\":[", name);
        const int n = m->getNbNodes();
        for (int i = 0; i < n; i++)
            {
            const Eigen::Vector3d u = m->node[m->getNodeIndex(i)].d[k].u;
            for (int c = 0; c < 3; c++)
                {
                if (i || c) fputc(',', vlog);
                if (std::isnan(u(c))) fputs("null", vlog); else fprintf(vlog, "%.9f", u(c));
                }
            }
        fputc(']', vlog);
        }

    template<class L> auto set_vmax(L *l, double v, int) -> decltype((void) (l->v_max = v)) { l->v_max = v; }
    template<class L> void set_vmax(L *, double, long) { fprintf(stderr, "VF: no v_max\n"); _exit(87); }
    }

extern "C" bool __real__ZN10LinAlgebra5solveERK6timing(LinAlgebra *, const timing &) __attribute__((weak));
extern "C" bool __wrap__ZN10LinAlgebra5solveERK6timing(LinAlgebra *self, const timing &t)
    {
    init();
    Line l{'O', 0.3, 0, 'a'};
    if (!getenv("VF_SCRIPT")) l.out = 'R';
    if (n_att < (long) script.size()) l = script[n_att];
    const long n = n_att++;
    Mesh::mesh *m = self->msh;
    if (vlog)
        {
        fprintf(vlog, "{\"e\":\"att\",\"n\":%ld,\"t\":%.17g,\"dt\":%.17g,\"rows\":%ld,\"sols\":%ld,\"out\":\"%c\",\"sig\":%d,\"where\":\"%c\"",
                n, t.get_t(), t.get_dt(), rows(), sols(), l.out, l.sig, l.where);
        vec("cur", m, Nodes::CURRENT);
        }
    if (l.sig && l.where != 'a') raise(l.sig);
    bool err = false;
    if (l.out == 'R')
        err = __real__ZN10LinAlgebra5solveERK6timing(self, t);
    else if (l.out == 'F')
        err = true;
    else
        {
        const double v = l.ratio * dumax / t.get_dt();
        for (int i = 0; i < m->getNbNodes(); i++)
            if (m->magNode[i])
                m->updateNode(i, v * cos(n + 0.1 * i) / gamma0, v * sin(n + 0.1 * i) / gamma0, t.get_dt());
        set_vmax(self, v, 0);
        }
    if (vlog)
        {
        fprintf(vlog, ",\"err\":%d,\"du\":%.17g", int(err), err ? 0.0 : self->get_v_max() * t.get_dt());
        vec("next", m, Nodes::NEXT);
        fprintf(vlog, "}\n");
        fflush(vlog);
        }
    if (l.sig && l.where != 'b') raise(l.sig);  // 'd': a second time
    return err;
    }

extern "C" std::string __real__ZNK8Settings11solMetadataB5cxx11Ed(const Settings *, double) __attribute__((weak));
extern "C" std::string __wrap__ZNK8Settings11solMetadataB5cxx11Ed(const Settings *self, double t)
    {
    init();
    const long n = ++n_sol;
    if (vlog) { fprintf(vlog, "{\"e\":\"sol\",\"n\":%ld,\"t\":%.17g}\n", n, t); fflush(vlog); }
    auto it = sol_sig.find(n);
    if (it != sol_sig.end())
        {
        if (vlog) { fprintf(vlog, "{\"e\":\"sig\",\"sig\":%d}\n", it->second); fflush(vlog); }
        raise(it->second);
        }
    return __real__ZNK8Settings11solMetadataB5cxx11Ed(self, t);
    }

extern "C" void vf_on_fmm_execute(long, long)
    {
    init();
    const long n = ++n_fmm;
    auto it = fmm_sig.find(n);
    if (it != fmm_sig.end())
        {
        if (vlog) { fprintf(vlog, "{\"e\":\"sig\",\"sig\":%d}\n", it->second); fflush(vlog); }
        raise(it->second);
        }
    }
