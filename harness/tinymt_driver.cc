// Drives TinyMT64. Generators are numbered. One command per line:
//   init <obj> <mat1> <mat2> <tmat> <seed>          -> ok <z>
//   array <obj> <mat1> <mat2> <tmat> <len> <key>... -> ok <z>
//   draw <obj> <kind> <count>   -> V x... <z>     kind: u64 double d01 d12 dOC dOO
// z is 1 if the 127 bits of the state are all zero. Numbers are decimal.
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <iostream>
#include <map>
#include <sstream>
#include <string>
#include <vector>
#include "tinymt64.h"
using namespace std;

static uint64_t number(istringstream& ss) { string t; ss >> t; return strtoull(t.c_str(), NULL, 10); }
static int zero(const tinymt64_t& g) { return (g.status[0] & TINYMT64_MASK) == 0 && g.status[1] == 0; }

int main()
{
    map<int, tinymt64_t> gens;
    string line;
    while (getline(cin, line)) {
        istringstream ss(line);
        string cmd; int obj;
        ss >> cmd >> obj;
        if (cmd == "draw") {
            string kind; int c; ss >> kind >> c;
            tinymt64_t& g = gens[obj];
            int z = 0;
            printf("V");
            for (int i = 0; i < c; ++i) {
                if (kind == "u64") printf(" %llu", (unsigned long long)tinymt64_generate_uint64(&g));
                else if (kind == "double") printf(" %a", tinymt64_generate_double(&g));
                else if (kind == "d01") printf(" %a", tinymt64_generate_double01(&g));
                else if (kind == "d12") printf(" %a", tinymt64_generate_double12(&g));
                else if (kind == "dOC") printf(" %a", tinymt64_generate_doubleOC(&g));
                else if (kind == "dOO") printf(" %a", tinymt64_generate_doubleOO(&g));
                z |= zero(g);
            }
            printf(" %d\n", z);
        } else {
            tinymt64_t g;
            memset(&g, 0x5a, sizeof g);
            g.mat1 = (uint32_t)number(ss); g.mat2 = (uint32_t)number(ss); g.tmat = number(ss);
            if (cmd == "init") tinymt64_init(&g, number(ss));
            else {
                int len; ss >> len;
                vector<uint64_t> key(len + 1);
                for (int i = 0; i < len; ++i) key[i] = number(ss);
                tinymt64_init_by_array(&g, &key[0], len);
            }
            gens[obj] = g;
            printf("ok %d\n", zero(g));
        }
        fflush(stdout);
    }
    return 0;
}
