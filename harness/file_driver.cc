// Reads boundary files. argv[1] is a scratch file. One command per line:
//   text <hex>     writes the bytes to the scratch file and reads it
//   path <name>    reads that file
//   held           what the process holds, see held.hh
// Answer:  V nb v... nB v...  (hexfloats) | E message | X message
#include <cstdio>
#include <cstdlib>
#include <fstream>
#include <iostream>
#include <sstream>
#include <stdexcept>
#include <string>
#include <utility>
#include <vector>
#include "read_boundaries_file.hh"
#include "held.hh"
using namespace std;

static string one_line(string s)
{
    string r;
    for (size_t i = 0; i < s.size() && i < 200; ++i) r += (s[i] >= ' ' && s[i] < 127) ? s[i] : '?';
    return r;
}

int main(int, char* argv[])
{
    string line;
    while (getline(cin, line)) {
        if (line == "held") { print_held(); fflush(stdout); continue; }
        string cmd = line.substr(0, 4), arg = line.size() > 5 ? line.substr(5) : "";
        string name = arg;
        if (cmd == "text") {
            name = argv[1];
            ofstream f(name.c_str(), ios::binary | ios::trunc);
            for (size_t i = 0; i + 1 < arg.size(); i += 2) f.put((char)strtol(arg.substr(i, 2).c_str(), NULL, 16));
        }
        try {
            pair<vector<double>, vector<double> > r = read_and_check_boundaries_file(name);
            printf("V %d", (int)r.first.size());
            for (size_t i = 0; i < r.first.size(); ++i) printf(" %a", r.first[i]);
            printf(" %d", (int)r.second.size());
            for (size_t i = 0; i < r.second.size(); ++i) printf(" %a", r.second[i]);
            printf("\n");
        } catch (runtime_error& e) {
            printf("E %s\n", one_line(e.what()).c_str());
        } catch (exception& e) {
            printf("X %s\n", one_line(e.what()).c_str());
        }
        fflush(stdout);
    }
    return 0;
}
