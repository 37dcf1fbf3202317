#include "vdrv.h"
#include <pdfmm/pdfmm.h>
#include <pdfmm/base/PdfError.h>
#include <fstream>
#include <iostream>
#include <sstream>
#include <sys/wait.h>
#include <sys/stat.h>
#include <sys/resource.h>
#include <unistd.h>
#include <signal.h>
#include <poll.h>
#include <fcntl.h>
#include <cstring>
#include <cerrno>
#include <chrono>
#include <cstdlib>

using namespace std;

static void esc(const string& s, string& out)
{
    out += '"';
    for (unsigned char c : s)
    {
        if (c == '"' || c == '\\') { out += '\\'; out += (char)c; }
        else if (c < 0x20 || c >= 0x7f) { char b[8]; snprintf(b, sizeof b, "\\u%04x", c); out += b; }
        else out += (char)c;
    }
    out += '"';
}
static void dumpTo(const J& j, string& out)
{
    switch (j.t)
    {
        case J::Null: out += "\"null\""; break;
        case J::Bool: out += j.i ? "true" : "false"; break;
        case J::Int: out += to_string(j.i); break;
        case J::Str: esc(j.s, out); break;
        case J::Arr: { out += '['; bool f = true; for (auto& e : j.a) { if (!f) out += ','; f = false; dumpTo(e, out); } out += ']'; break; }
        case J::Obj: { out += '{'; bool f = true; for (auto& e : j.o) { if (!f) out += ','; f = false; esc(e.first, out); out += ':'; dumpTo(e.second, out); } out += '}'; break; }
    }
}
string J::dump() const { string s; dumpTo(*this, s); return s; }
namespace {
struct P
{
    const string& s; size_t i = 0;
    void ws() { while (i < s.size() && strchr(" \t\r\n", s[i])) i++; }
    [[noreturn]] void bad() { throw runtime_error("driver: bad json at " + to_string(i)); }
    string str()
    {
        string r; if (s[i] != '"') bad(); i++;
        while (i < s.size() && s[i] != '"')
        {
            if (s[i] == '\\')
            {
                i++;
                switch (s[i])
                {
                    case 'n': r += '\n'; break; case 't': r += '\t'; break; case 'r': r += '\r'; break;
                    case 'b': r += '\b'; break; case 'f': r += '\f'; break;
                    case 'u': r += (char)stoi(s.substr(i + 1, 4), nullptr, 16); i += 4; break; // latin-1 bytes
                    default: r += s[i];
                }
                i++;
            }
            else r += s[i++];
        }
        i++; return r;
    }
    J val()
    {
        ws(); J j;
        if (i >= s.size()) bad();
        if (s[i] == '{')
        {
            j.t = J::Obj; i++; ws();
            if (s[i] == '}') { i++; return j; }
            while (true) { ws(); string k = str(); ws(); if (s[i] != ':') bad(); i++; j.o.emplace_back(k, val()); ws(); if (s[i] == ',') { i++; continue; } if (s[i] == '}') { i++; return j; } bad(); }
        }
        if (s[i] == '[')
        {
            j.t = J::Arr; i++; ws();
            if (s[i] == ']') { i++; return j; }
            while (true) { j.a.push_back(val()); ws(); if (s[i] == ',') { i++; continue; } if (s[i] == ']') { i++; return j; } bad(); }
        }
        if (s[i] == '"') { j.t = J::Str; j.s = str(); return j; }
        if (s.compare(i, 4, "true") == 0) { i += 4; return J(true); }
        if (s.compare(i, 5, "false") == 0) { i += 5; return J(false); }
        if (s.compare(i, 4, "null") == 0) { i += 4; return J(); }
        size_t e = i; while (e < s.size() && (isdigit((unsigned char)s[e]) || s[e] == '-')) e++;
        if (e == i) bad();
        j.t = J::Int; j.i = stoll(s.substr(i, e - i)); i = e; return j;
    }
};
}
J J::parse(const string& s) { P p{ s }; return p.val(); }

string hexOf(const string_view& s) { string r; char b[3]; for (unsigned char c : s) { snprintf(b, 3, "%02x", c); r += b; } return r; }
string unhex(const string& s) { string r; for (size_t i = 0; i + 1 < s.size(); i += 2) r += (char)stoi(s.substr(i, 2), nullptr, 16); return r; }
J bytesOf(const string_view& s) { J a = J::arr(); for (unsigned char c : s) a.push(J((int)c)); return a; }
string bytesTo(const J& a) { string r; for (auto& e : a.a) r += (char)e.i; return r; }

map<string, CaseFn>& registry() { static map<string, CaseFn> r; return r; }
static string g_tmp;
string tmpDir() { return g_tmp; }

J guarded(const function<J()>& f)
{
    try { return f(); }
    catch (const mm::PdfError& e) { return J::obj().set("err", string(mm::PdfError::ErrorName(e.GetError()))); }
    catch (const exception& e)
    {
        if (strncmp(e.what(), "driver:", 7) == 0) throw;
        return J::obj().set("err", string("std:") + e.what());
    }
}

// vdrv <subsystem> <cases.ndjson> <out.ndjson> [timeout seconds per case]
int main(int argc, char** argv)
{
    if (argc < 4) { cerr << "usage\n"; return 2; }
    auto it = registry().find(argv[1]);
    if (it == registry().end()) { cerr << "no such subsystem\n"; return 2; }
    int tmo = argc > 4 ? atoi(argv[4]) : 20;
    char tmpl[] = "/tmp/vdrv.XXXXXX";
    if (!mkdtemp(tmpl)) return 2;
    g_tmp = tmpl;
    mm::PdfCommon::SetMaxLoggingSeverity(mm::PdfLogSeverity::None);
    ifstream in(argv[2]);
    ofstream out(argv[3]);
    string line;
    int rcAll = 0;
    while (getline(in, line))
    {
        if (line.empty()) continue;
        J c = J::parse(line);
        int fd[2];
        if (pipe(fd)) return 2;
        pid_t pid = fork();
        if (pid == 0)
        {
            close(fd[0]);
            struct rlimit rl { 0, 0 }; setrlimit(RLIMIT_CORE, &rl);
            struct rlimit as { 4ull << 30, 4ull << 30 };
#ifndef __SANITIZE_ADDRESS__
            setrlimit(RLIMIT_AS, &as);
#else
            (void)as;
#endif
            int dn = open("/dev/null", O_WRONLY); dup2(dn, 2); dup2(dn, 1);
            auto emit = [&](const J& ev) {
                string s = ev.dump() + "\n";
                size_t off = 0;
                while (off < s.size()) { ssize_t w = write(fd[1], s.data() + off, s.size() - off); if (w <= 0) _exit(98); off += (size_t)w; }
            };
            int code = 0;
            try { it->second(c, emit); }
            catch (const mm::PdfError& e) { emit(J::obj().set("op", "uncaught").set("what", string(mm::PdfError::ErrorName(e.GetError())))); }
            catch (const exception& e)
            {
                if (strncmp(e.what(), "driver:", 7) == 0) { emit(J::obj().set("op", "drivererror").set("what", string(e.what()))); code = 97; }
                else emit(J::obj().set("op", "uncaught").set("what", string(e.what())));
            }
            close(fd[1]);
            _exit(code);
        }
        close(fd[1]);
        string buf; char tmp[65536];
        auto deadline = chrono::steady_clock::now() + chrono::seconds(tmo);
        bool hung = false;
        while (true)
        {
            auto left = chrono::duration_cast<chrono::milliseconds>(deadline - chrono::steady_clock::now()).count();
            if (left <= 0) { hung = true; kill(pid, SIGKILL); break; }
            struct pollfd pf { fd[0], POLLIN, 0 };
            int pr = poll(&pf, 1, (int)left);
            if (pr < 0 && errno == EINTR) continue;
            if (pr == 0) continue;
            ssize_t r = read(fd[0], tmp, sizeof tmp);
            if (r <= 0) break;
            buf.append(tmp, (size_t)r);
            if (buf.size() > (64u << 20)) { hung = true; kill(pid, SIGKILL); break; }
        }
        close(fd[0]);
        int st = 0; waitpid(pid, &st, 0);
        // assemble
        string o = "{\"id\":"; o += c["id"].dump();
        if (c.has("meta")) { o += ",\"meta\":"; o += c["meta"].dump(); }
        o += ",\"ev\":[";
        bool first = true; size_t p = 0;
        while (true)
        {
            size_t e = buf.find('\n', p); if (e == string::npos) break;
            if (!first) o += ','; first = false;
            o.append(buf, p, e - p); p = e + 1;
        }
        string extra;
        if (hung) extra = "{\"op\":\"hang\"}";
        else if (WIFSIGNALED(st)) extra = "{\"op\":\"crash\",\"sig\":" + to_string(WTERMSIG(st)) + "}";
        else if (WIFEXITED(st) && WEXITSTATUS(st) == 97) rcAll = 3;
        else if (WIFEXITED(st) && WEXITSTATUS(st) != 0) extra = "{\"op\":\"crash\",\"sig\":" + to_string(1000 + WEXITSTATUS(st)) + "}";
        if (!extra.empty()) { if (!first) o += ','; o += extra; }
        o += "]}\n";
        out << o; out.flush();
    }
    string rm = string("rm -rf ") + tmpl; // a directory this process created with mkdtemp
    if (system(rm.c_str())) {}
    return rcAll;
}
