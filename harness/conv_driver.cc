// Drives FFTWConvolver objects. One command per line:
//   held                       -> what the process holds, see held.hh
//   new <obj> <M>              -> ok | E msg
//   del <obj>                  -> ok
//   conv <obj> <size> <len> <offa> <offb> <offo> <mode> a... b...   (len numbers each, len >= size)
//        mode: bit 0: inputs and output in memory used again and again; bit 1: b is a, the same memory
//        -> V out...           the first `size` outputs
//           E msg              refused
//           O                  something outside out[0..size-1] was written
//           M                  the inputs were modified
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <iostream>
#include <map>
#include <sstream>
#include <stdexcept>
#include <string>
#include <vector>
#include "fftwconvolver.hh"
#include "held.hh"
using namespace std;
// "turns R k" and k conv commands: all of them in turn, R times; answered with the different answers of each

static const double MARK = -12345.678;

static map<int, FFTWConvolver*> objs;
static vector<double> ka(20000), kb(20000), ko(20000);

struct Request { int obj, size, len, oa, ob, oo, mode; vector<double> a, b; };

static Request read_request(istringstream& ss)
{
    Request q;
    ss >> q.obj >> q.size >> q.len >> q.oa >> q.ob >> q.oo >> q.mode;
    string t;
    for (int i = 0; i < q.len; ++i) { ss >> t; q.a.push_back(strtod(t.c_str(), NULL)); }
    for (int i = 0; i < q.len; ++i) { ss >> t; q.b.push_back(strtod(t.c_str(), NULL)); }
    return q;
}

static string convolve(const Request& q)
{
    int ob = q.ob;
    const int len = q.len, size = q.size > 0 ? q.size : 0;
    vector<double> fa, fb, fo;
    const bool keep = (q.mode & 1) && len + q.oa <= (int)ka.size() && len + ob <= (int)kb.size();
    vector<double> &a = keep ? ka : fa, &b = (q.mode & 2) ? a : keep ? kb : fb, &out = keep ? ko : fo;
    a.resize(len + q.oa);
    if (!(q.mode & 2)) b.resize(len + ob);
    else ob = q.oa;
    out.assign(size + q.oo + 8, MARK);
    for (int i = 0; i < len; ++i) a[i+q.oa] = q.a[i];
    for (int i = 0; i < len; ++i) b[i+ob] = q.b[i];
    const vector<double> a0 = a, b0 = b;
    bool refused = false; string why;
    try {
        objs[q.obj]->convolve_same_size(q.size, a.data() + q.oa, b.data() + ob, out.data() + q.oo);
    } catch (exception& e) { refused = true; why = e.what(); }
    bool over = false;
    for (int i = 0; i < (int)out.size(); ++i)
        if ((i < q.oo || i >= q.oo + size || refused) && out[i] != MARK) over = true;
    if (over) return "O";
    if (len > 0 && (memcmp(a.data(), a0.data(), a.size()*sizeof(double)) || memcmp(b.data(), b0.data(), b.size()*sizeof(double)))) return "M";
    if (refused) return "E " + why;
    string res = "V";
    char t[64];
    for (int i = 0; i < size; ++i) { snprintf(t, sizeof(t), " %a", out[q.oo+i]); res += t; }
    return res;
}

int main()
{
    string line;
    while (getline(cin, line)) {
        if (line == "held") { print_held(); fflush(stdout); continue; }
        istringstream ss(line);
        string cmd; int obj;
        ss >> cmd;
        try {
            if (cmd == "new") {
                int M; ss >> obj >> M;
                objs[obj] = new FFTWConvolver(M);
                printf("ok\n");
            } else if (cmd == "del") {
                ss >> obj;
                delete objs[obj]; objs.erase(obj);
                printf("ok\n");
            } else if (cmd == "turns") {
                int turns, k; ss >> turns >> k;
                vector<Request> qs;
                for (int i = 0; i < k && getline(cin, line); ++i) {
                    istringstream s(line);
                    s >> cmd;
                    qs.push_back(read_request(s));
                }
                vector<vector<string> > seen(qs.size());
                for (int t = 0; t < turns; ++t)
                    for (size_t i = 0; i < qs.size(); ++i) {
                        const string a = convolve(qs[i]);
                        bool known = false;
                        for (size_t j = 0; j < seen[i].size(); ++j) known = known || seen[i][j] == a;
                        if (!known && seen[i].size() < 4) seen[i].push_back(a);
                    }
                printf("turns");
                for (size_t i = 0; i < qs.size(); ++i)
                    for (size_t j = 0; j < seen[i].size(); ++j) printf("%s%s", j ? "\x01" : "\x02", seen[i][j].c_str());
                printf("\n");
            } else {
                printf("%s\n", convolve(read_request(ss)).c_str());
            }
        } catch (exception& e) {
            printf("X %s\n", e.what());
        }
        fflush(stdout);
    }
    for (map<int, FFTWConvolver*>::iterator i = objs.begin(); i != objs.end(); ++i) delete i->second;
    return 0;
}
