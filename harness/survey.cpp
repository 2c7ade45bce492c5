#include "ops.hpp"
#include <sys/wait.h>
using namespace mk;
int main(int argc,char**argv)
{
    auto v = ops::all();
    int sh = atoi(argv[1]), n = atoi(argv[2]);
    for (int a = 0; a < (int)v.size(); a++) for (int b = 0; b < (int)v.size(); b++)
    {
        if ((a * 131 + b) % n != sh) continue;
        fflush(stdout);
        pid_t p = fork();
        if (!p)
        {
            alarm(3);
            freopen("/dev/null", "w", stderr);
            reset(); int id = alloc(0); ops::buildBase(id);
            int ra = v[a].run(id); auto s1=csnap(id);
            auto e1 = validateM2(s1.m2); if (e1.empty()) e1 = validateGeom(s1.m2);
            if(!e1.empty()) { printf("INVALID1 %s: %s\n", v[a].name.c_str(), e1.c_str());}
            int rb = v[b].run(id); std::string er = rb ? lastError() : "";
            auto s2=csnap(id);
            auto e2 = validateM2(s2.m2); if (e2.empty()) e2 = validateGeom(s2.m2);
            if (e1.empty() && !e2.empty()) printf("INVALID2 %s ; %s: %s\n", v[a].name.c_str(), v[b].name.c_str(), e2.c_str());
            if (rb && !ra) printf("ERR %s ; %s: %d %s %s\n", v[a].name.c_str(), v[b].name.c_str(), rb, er.c_str(), diff(s1,s2).c_str());
            fflush(stdout);
            _exit(0);
        }
        int st; waitpid(p, &st, 0);
        if (WIFSIGNALED(st)) printf("CRASH %s ; %s: signal %d\n", v[a].name.c_str(), v[b].name.c_str(), WTERMSIG(st));
    }
}
