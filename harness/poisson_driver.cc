// Drives the Poisson probabilities. One command per line, answered by one line:
//   held                                    -> what the process holds, see held.hh
//   new <obj> <max_k>                       -> ok
//   del <obj>                               -> ok
//   array <obj> <k> <lambda>                -> ok | E msg
//   read <obj> <count> <i>...               -> V x...     elements of the generator's array
//   eval <obj> <count> <lambda> <k>...      -> V x...
//   single <count> <lambda> <k>...          -> V x...
#include <cstdio>
#include <cstdlib>
#include <iostream>
#include <map>
#include <sstream>
#include <stdexcept>
#include <string>
#include <vector>
#include "poisson_pmf.hh"
#include "held.hh"
using namespace std;

static double number(istringstream& ss) { string t; ss >> t; return strtod(t.c_str(), NULL); }

int main()
{
    map<int, PoissonPMFGenerator*> objs;
    string line;
    while (getline(cin, line)) {
        if (line == "held") { print_held(); fflush(stdout); continue; }
        istringstream ss(line);
        string cmd; ss >> cmd;
        try {
            int obj = -1;
            if (cmd != "single") ss >> obj;
            if (cmd == "new") { int m; ss >> m; objs[obj] = new PoissonPMFGenerator(m); printf("ok\n"); }
            else if (cmd == "del") { delete objs[obj]; objs.erase(obj); printf("ok\n"); }
            else if (cmd == "array") {
                int k; ss >> k; double lambda = number(ss);
                try { objs[obj]->compute_array(k, lambda); printf("ok\n"); }
                catch (exception& e) { printf("E %s\n", e.what()); }
            } else if (cmd == "read") {
                int c; ss >> c; printf("V");
                for (int i = 0; i < c; ++i) { int j; ss >> j; printf(" %a", objs[obj]->get_array()[j]); }
                printf("\n");
            } else {
                int c; ss >> c; double lambda = number(ss); printf("V");
                for (int i = 0; i < c; ++i) {
                    int k; ss >> k;
                    printf(" %a", cmd == "eval" ? objs[obj]->evaluate_pmf(lambda, k) : poisson_pmf(lambda, k));
                }
                printf("\n");
            }
        } catch (exception& e) { printf("X %s\n", e.what()); }
        fflush(stdout);
    }
    for (map<int, PoissonPMFGenerator*>::iterator i = objs.begin(); i != objs.end(); ++i) delete i->second;
    return 0;
}
