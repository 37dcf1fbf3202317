// Byte devices: buffers, spans, streams and files.  Subsystem "devices".
#include "common_pdf.h"
#include <pdfmm/base/PdfStreamDevice.h>
#include <sstream>
#include <fstream>
#include <unistd.h>
using namespace std;
using namespace mm;

namespace {
struct Dev
{
    string kind, path;
    string s; vector<char> v; charbuff b;
    unique_ptr<stringstream> ss; unique_ptr<istringstream> is; unique_ptr<ostringstream> os;
    unique_ptr<StreamDevice> d;
    string content()
    {
        if (kind == "string" || kind == "span" || kind == "spanr" || kind == "stringr") return s;
        if (kind == "vector") return string(v.data(), v.size());
        if (kind == "buffer") return string(b.data(), b.size());
        if (kind == "ss") return ss->str();
        if (kind == "iss") return is->str();
        if (kind == "oss") return os->str();
        if (kind == "file")
        {
            ifstream f(path, ios::binary);
            return string(istreambuf_iterator<char>(f), istreambuf_iterator<char>());
        }
        return "";
    }
};
int counter;
void open(Dev& x, const J& op)
{
    string data = bytesTo(op["data"]);
    x.d.reset();
    x.kind = op.str("kind");
    string acc = op.str("access");
    auto A = acc == "r" ? DeviceAccess::Read : acc == "w" ? DeviceAccess::Write : DeviceAccess::ReadWrite;
    bool ate = op.num("ate") != 0;
    if (x.kind == "string") { x.s = data; x.d.reset(new StringStreamDevice(x.s, A, ate)); }
    else if (x.kind == "stringr") { x.s = data; const string& c = x.s; x.d.reset(new StringStreamDevice(c)); }
    else if (x.kind == "vector") { x.v.assign(data.begin(), data.end()); x.d.reset(new VectorStreamDevice(x.v, A, ate)); }
    else if (x.kind == "buffer") { x.b.assign(data.data(), data.size()); x.d.reset(new BufferStreamDevice(x.b, A, ate)); }
    else if (x.kind == "span") { x.s = data; x.d.reset(new SpanStreamDevice(x.s, A)); }
    else if (x.kind == "spanr") { x.s = data; const string& c = x.s; x.d.reset(new SpanStreamDevice(c)); }
    else if (x.kind == "null") x.d.reset(new NullStreamDevice());
    else if (x.kind == "ss") { x.ss.reset(new stringstream(data, ios::in | ios::out | ios::binary)); x.d.reset(new StandardStreamDevice(static_cast<iostream&>(*x.ss))); }
    else if (x.kind == "iss") { x.is.reset(new istringstream(data, ios::in | ios::binary)); x.d.reset(new StandardStreamDevice(static_cast<istream&>(*x.is))); }
    else if (x.kind == "oss") { x.os.reset(new ostringstream(data, ios::out | ios::binary)); x.d.reset(new StandardStreamDevice(static_cast<ostream&>(*x.os))); }
    else if (x.kind == "file")
    {
        x.path = tmpDir() + "/dev" + to_string(getpid()) + "_" + to_string(counter++ % 64);
        remove(x.path.c_str());
        if (op.num("exists")) { ofstream f(x.path, ios::binary); f.write(data.data(), data.size()); }
        string m = op.str("mode");
        auto M = m == "CreateNew" ? FileMode::CreateNew : m == "Create" ? FileMode::Create : m == "Open" ? FileMode::Open
            : m == "OpenOrCreate" ? FileMode::OpenOrCreate : m == "Truncate" ? FileMode::Truncate : FileMode::Append;
        x.d.reset(new FileStreamDevice(x.path, M, A));
    }
    else throw runtime_error("driver: kind " + x.kind);
}
void run(const J& c, const Emit& emit)
{
    Dev x;
    bool big = c.num("big") != 0;
    for (auto& op : c["ops"].a)
    {
        J ev = op;
        string o = op.str("op");
        long long off = op.num("off"); string dir = op.str("dir");
        if (o == "seek" && x.d != nullptr && x.kind == "file")
        {
            // files are not positioned behind their end
            long long len = (long long)x.d->GetLength(), at = dir == "cur" ? (long long)x.d->GetPosition() : dir == "end" ? len : 0;
            if (at + off > len) { off = len; dir = "begin"; ev.set("off", off).set("dir", dir); }
        }
        J r = guarded([&]() -> J {
            J r = J::obj();
            if (o == "open") { open(x, op); return r; }
            if (x.d == nullptr) throw runtime_error("no device");
            auto& d = *x.d;
            size_t n = (size_t)op.num("n");
            if (o == "write") { string b = bytesTo(op["b"]); if (op.num("how") == 0) d.Write(b); else if (op.num("how") == 1) d.Write(b.data(), b.size()); else for (char ch : b) d.Write(ch); }
            else if (o == "read") { string b(n + 1, '#'); static_cast<InputStream&>(d).Read(&b[0], n); r.set("b", bytesOf(b.substr(0, n))).set("guard", b[n] == '#'); }
            else if (o == "reade") { string b(n + 1, '#'); bool eof = true; size_t k = static_cast<InputStream&>(d).Read(&b[0], n, eof); r.set("b", bytesOf(b.substr(0, k))).set("eof", eof).set("guard", b[n] == '#'); }
            else if (o == "readch") { char ch = d.ReadChar(); r.set("b", bytesOf(string(1, ch))); }
            else if (o == "readb") { char ch = 0; bool ok = static_cast<InputStream&>(d).Read(ch); r.set("b", bytesOf(string(ok ? 1 : 0, ch))); }
            else if (o == "peek") { char ch = 0; bool ok = d.Peek(ch); r.set("b", bytesOf(string(ok ? 1 : 0, ch))); }
            else if (o == "seek") { if (dir == "set") d.Seek((size_t)off); else d.Seek((ssize_t)off, dir == "begin" ? SeekDirection::Begin : dir == "cur" ? SeekDirection::Current : SeekDirection::End); }
            else if (o == "copy") { string t; StringStreamDevice to(t); if (op.num("n") < 0) d.CopyTo(to); else d.CopyTo(to, n); r.set("b", bytesOf(t)); }
            else if (o == "flush") d.Flush();
            else throw runtime_error("driver: op " + o);
            return r;
        });
        if (!r.has("err")) r.set("err", "");
        J q = guarded([&]() -> J {
            J q = J::obj();
            if (x.d == nullptr) return q;
            q.set("len", x.d->GetLength()).set("pos", x.d->GetPosition()).set("end", x.d->Eof()).set("canseek", x.d->CanSeek());
            if (!big || op.num("show")) { if (x.kind == "file" && x.d->GetAccess() != DeviceAccess::Read) x.d->Flush(); q.set("content", bytesOf(x.content())); }
            return q;
        });
        if (q.has("err")) r.set("oerr", q.str("err")); else { r.set("oerr", ""); for (auto& p : q.o) r.set(p.first, p.second); }
        r.set("open", x.d != nullptr);
        ev.set("out", r);
        emit(ev);
    }
}
Reg reg("devices", run);
}
