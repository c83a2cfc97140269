// held: what the process holds, see held.hh
// Reads questions from stdin, one per line:  id op nb v... nB v...
// (numbers in any form strtod accepts) and answers each with one line:
//   id V <hexfloat>    a value        id E <message>   a runtime_error
//   id X <message>     another exception               id M   the input lists were modified
// "turns R k" and k questions: all of them in turn, R times. Answered with the different outcomes (up to 20) of each.
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <iostream>
#include <iterator>
#include <sstream>
#include <stdexcept>
#include <string>
#include <vector>
#include "common.hh"
#include "ecdf1_mns2016.hh"
#include "ecdf1_new.hh"
#include "ecdf2.hh"
#include "held.hh"
using namespace std;

static bool same(const vector<double>& a, const vector<double>& b)
{
    return a.size() == b.size() && (a.empty() || memcmp(&a[0], &b[0], a.size()*sizeof(double)) == 0);
}

static string one_line(string s)
{
    for (size_t i = 0; i < s.size(); ++i) if (s[i] == '\n') s[i] = ' ';
    return s;
}

static vector<double> read_list(istringstream& ss)
{
    int k; ss >> k;
    vector<double> v; v.reserve(k);
    string tok;
    for (int i = 0; i < k; ++i) { ss >> tok; v.push_back(strtod(tok.c_str(), NULL)); }
    return v;
}

struct Question { string id, op; vector<double> b, B; };

static Question read_question(const string& line)
{
    istringstream ss(line);
    Question q;
    ss >> q.id >> q.op;
    q.b = read_list(ss);
    q.B = read_list(ss);
    return q;
}

static string answer(Question& q)
{
    const vector<double> b0 = q.b, B0 = q.B;
    stringstream sink;
    streambuf* real_cout = cout.rdbuf(sink.rdbuf());
    string a;
    try {
        double r = 0;
        if (q.op == "ks") r = ecdf2(q.b, q.B, false);
        else if (q.op == "fft") r = ecdf2(q.b, q.B, true);
        else if (q.op == "new_b") r = ecdf1_new_b(q.b);
        else if (q.op == "new_B") r = ecdf1_new_B(q.B);
        else if (q.op == "mns_b") r = ecdf1_mns2016_b(q.b);
        else if (q.op == "mns_B") r = ecdf1_mns2016_B(q.B);
        else { fprintf(stderr, "unknown op %s\n", q.op.c_str()); exit(9); }
        char text[64];
        snprintf(text, sizeof(text), "V %a", r);
        a = text;
    } catch (runtime_error& e) {
        a = "E " + one_line(e.what());
    } catch (exception& e) {
        a = "X " + one_line(e.what());
    }
    cout.rdbuf(real_cout);
    return same(q.b, b0) && same(q.B, B0) ? a : "M";
}

int main()
{
    string line;
    while (getline(cin, line)) {
        if (line == "held") { print_held(); fflush(stdout); continue; }
        int turns = 0, k = 0;
        if (sscanf(line.c_str(), "turns %d %d", &turns, &k) == 2) {
            vector<Question> qs;
            for (int i = 0; i < k && getline(cin, line); ++i) qs.push_back(read_question(line));
            vector<vector<string> > seen(qs.size());
            for (int t = 0; t < turns; ++t) {
                for (size_t i = 0; i < qs.size(); ++i) {
                    string a = answer(qs[i]);
                    bool known = false;
                    for (size_t j = 0; j < seen[i].size(); ++j) known = known || seen[i][j] == a;
                    if (!known && seen[i].size() < 20) seen[i].push_back(a);
                }
            }
            printf("turns");
            for (size_t i = 0; i < qs.size(); ++i) {
                for (size_t j = 0; j < seen[i].size(); ++j) printf("%s%s", j ? "\x01" : "\x02", seen[i][j].c_str());
            }
            printf("\n");
            fflush(stdout);
            continue;
        }
        Question q = read_question(line);
        printf("%s ", q.id.c_str());
        fflush(stdout);
        printf("%s\n", answer(q).c_str());
        fflush(stdout);
    }
    return 0;
}
