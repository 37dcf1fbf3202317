// Streams of objects.  Subsystem "ostream".
#include "common_pdf.h"
#include <pdfmm/base/PdfFilter.h>
#include <optional>
using namespace std;
using namespace mm;
namespace {
const pair<const char*, PdfFilterType> Types[] = {
    { "hex", PdfFilterType::ASCIIHexDecode }, { "a85", PdfFilterType::ASCII85Decode }, { "rle", PdfFilterType::RunLengthDecode },
    { "lzw", PdfFilterType::LZWDecode }, { "flate", PdfFilterType::FlateDecode }, { "dct", PdfFilterType::DCTDecode },
    { "jpx", PdfFilterType::JPXDecode }, { "ccitt", PdfFilterType::CCITTFaxDecode }, { "jbig2", PdfFilterType::JBIG2Decode } };
const char* Names[] = { "ASCIIHexDecode", "ASCII85Decode", "RunLengthDecode", "LZWDecode", "FlateDecode", "DCTDecode", "JPXDecode", "CCITTFaxDecode", "JBIG2Decode" };
int idx(const string& f) { for (int i = 0; i < 9; i++) if (f == Types[i].first) return i; throw runtime_error("driver: filter " + f); }
string shortOf(const string& n) { for (int i = 0; i < 9; i++) if (n == Names[i]) return Types[i].first; return n; }
PdfFilterList listOf(const J& a) { PdfFilterList l; for (auto& f : a.a) l.push_back(Types[idx(f.s)].second); return l; }

struct World
{
    unique_ptr<PdfMemDocument> doc;
    charbuff file;                    // what doc was loaded from
    PdfReference refs[5];
    PdfObject loose{ PdfDictionary() };
    optional<PdfObjectInputStream> in[3];
    optional<PdfObjectOutputStream> out[3];
    int handleOf[3] = { 0, 0, 0 };    // object of the handle
    PdfObject& obj(int i)
    {
        if (i == 4) return loose;
        return doc->GetObjects().MustGetObject(refs[i]);
    }
    bool open(int o) const { return handleOf[1] == o || handleOf[2] == o; }
};
void freshen(World& w)
{
    w.doc.reset(new PdfMemDocument());
    w.doc->GetPages().CreatePage(PdfRect(0, 0, 10, 10));
    PdfArray keep;
    for (int i = 1; i <= 3; i++)
    {
        auto& o = w.doc->GetObjects().CreateDictionaryObject();
        w.refs[i] = o.GetIndirectReference();
        keep.Add(PdfObject(w.refs[i]));
    }
    w.doc->GetCatalog().GetDictionary().AddKey("VDRV", keep);
    BufferStreamDevice dev(w.file);
    w.doc->Save(dev, saveOpts("g"));
    w.doc.reset(new PdfMemDocument());
    w.doc->LoadFromBuffer(w.file);
}
J observe(World& w)
{
    J st = J::arr();
    for (int i = 1; i <= 4; i++)
    {
        J x = J::obj().set("open", w.open(i) ? 1 : 0);
        if (w.open(i)) { st.push(x); continue; }
        auto& o = w.obj(i);
        bool has = o.IsDictionary() && o.HasStream();
        x.set("has", has);
        if (has)
        {
            auto& s = o.MustGetStream();
            J f = J::arr(), df = J::arr();
            for (auto t : s.GetFilters()) for (auto& p : Types) if (p.second == t) f.push(p.first);
            auto fo = o.GetDictionary().FindKey("Filter");
            if (fo && fo->IsName()) df.push(shortOf(string(fo->GetName().GetString())));
            else if (fo && fo->IsArray()) for (auto& e : fo->GetArray()) df.push(shortOf(string(e.GetName().GetString())));
            auto raw = s.GetCopy(true);
            auto data = s.GetCopySafe();
            x.set("f", f).set("df", df).set("raw", bytesOf(raw)).set("data", bytesOf(data)).set("len", s.GetLength());
        }
        st.push(x);
    }
    return st;
}
string code(const PdfError& e) { return string(PdfError::ErrorName(e.GetError())); }
void persist(World& w, const J& op)
{
    bool upd = op["op"].s == "update";
    string opts = op.str("opts");
    if (upd)
    {
        charbuff f = w.file;
        BufferStreamDevice dev(f);
        w.doc->SaveUpdate(dev, saveOpts(opts));
        w.file = f;
    }
    else
    {
        charbuff f;
        BufferStreamDevice dev(f);
        w.doc->Save(dev, saveOpts(opts));
        w.file = f;
    }
    if (op.num("stay") && !upd) return;
    w.doc.reset(new PdfMemDocument());
    w.doc->LoadFromBuffer(w.file);
}
void step(World& w, const J& op, J& ev)
{
    string k = op["op"].s;
    if (k == "set")
    {
        auto& s = w.obj((int)op.num("o")).GetOrCreateStream();
        string b = bytesTo(op["b"]);
        string how = op.str("how");
        SpanStreamDevice in(b);
        if (how == "raw") s.SetData(bufferview(b), true);
        else if (how == "rawstream") s.SetData(in, true);
        else if (how == "def") s.SetData(bufferview(b));
        else if (how == "defstream") s.SetData(in);
        else if (how == "list") s.SetData(bufferview(b), listOf(op["f"]));
        else s.SetData(in, listOf(op["f"]));
    }
    else if (k == "openo")
    {
        int h = (int)op.num("h"), o = (int)op.num("o");
        auto& s = w.obj(o).GetOrCreateStream();
        string how = op.str("how");
        bool app = op.num("app") != 0;
        auto mk = [&]() { return how == "raw" ? s.GetOutputStreamRaw(app) : how == "def" ? s.GetOutputStream(app) : s.GetOutputStream(listOf(op["f"]), app); };
        w.out[h].emplace(mk());
        w.handleOf[h] = o;
    }
    else if (k == "write")
    {
        string b = bytesTo(op["b"]);
        auto& h = *w.out[op.num("h")];
        if (b.size() == 1 && op.num("n") == 1) h.Write(b[0]);
        else h.Write(string_view(b));
        if (op.num("n") == 2) h.Flush();
    }
    else if (k == "close")
    {
        int h = (int)op.num("h");
        w.in[h].reset(); w.out[h].reset(); w.handleOf[h] = 0;
    }
    else if (k == "hmove")
    {
        int h = (int)op.num("h"), g = (int)op.num("g");
        if (w.in[h])
        {
            w.out[g].reset();
            if (op.num("n") && !w.in[g]) w.in[g].emplace(std::move(*w.in[h]));
            else { if (!w.in[g]) w.in[g].emplace(); *w.in[g] = std::move(*w.in[h]); }
            w.in[h].reset();
        }
        else
        {
            w.in[g].reset();
            if (op.num("n") && !w.out[g]) w.out[g].emplace(std::move(*w.out[h]));
            else { if (!w.out[g]) w.out[g].emplace(); *w.out[g] = std::move(*w.out[h]); }
            w.out[h].reset();
        }
        w.handleOf[g] = w.handleOf[h]; w.handleOf[h] = 0;
    }
    else if (k == "openi")
    {
        int h = (int)op.num("h"), o = (int)op.num("o");
        auto& s = w.obj(o).MustGetStream();
        bool raw = op.num("israw") != 0;
        ev.set("raw", J::arr());
        if (!w.open(o)) ev.set("raw", bytesOf(s.GetCopy(true)));
        w.in[h].emplace(s.GetInputStream(raw));
        w.handleOf[h] = o;
    }
    else if (k == "read")
    {
        auto& h = *w.in[op.num("h")];
        string kind = op["k"].s;
        size_t n = (size_t)op.num("n");
        string buf(n + 1, '\0');
        if (kind == "exact") { h.Read(&buf[0], n); buf.resize(n); }
        else if (kind == "char") { buf.resize(1); buf[0] = h.ReadChar(); }
        else { bool eof = true; size_t r = h.Read(&buf[0], n, eof); buf.resize(r); ev.set("eof", eof ? 1 : 0); }
        ev.set("out", bytesOf(buf));
    }
    else if (k == "copy")
    {
        auto& s = w.obj((int)op.num("o")).MustGetStream();
        bool raw = op.num("israw") != 0, safe = op.num("safe") != 0;
        charbuff r(string_view("junk")), rw;
        s.CopyTo(rw, true);
        ev.set("raw", bytesOf(rw));
        switch (op.num("n"))
        {
            case 0: r = safe && !raw ? s.GetCopySafe() : s.GetCopy(raw); break;
            case 1: if (safe && !raw) s.CopyToSafe(r); else s.CopyTo(r, raw); break;
            default:
            {
                r.clear();
                StringStreamDevice d(r);
                if (safe && !raw) s.CopyToSafe(d); else s.CopyTo(d, raw);
            }
        }
        ev.set("out", bytesOf(r));
    }
    else if (k == "assign" || k == "move")
    {
        auto& a = w.obj((int)op.num("o")).GetOrCreateStream();
        auto& b = w.obj((int)op.num("p")).MustGetStream();
        if (k == "assign") a = b; else a = std::move(b);
    }
    else if (k == "oassign")
    {
        auto& a = w.obj((int)op.num("o")); auto& b = w.obj((int)op.num("p"));
        if (op.num("n")) { PdfObject t(b); a = std::move(t); }
        else a = b;
    }
    else if (k == "omove")
    {
        int o = (int)op.num("o"), p = (int)op.num("p");
        auto& a = w.obj(o); auto& b = w.obj(p);
        a = std::move(b);
        if (o != p) b = PdfObject(PdfDictionary());
    }
    else if (k == "oclear") w.obj((int)op.num("o")) = PdfObject(PdfDictionary());
    else if (k == "unwrap") w.obj((int)op.num("o")).MustGetStream().Unwrap();
    else if (k == "save" || k == "update") persist(w, op);
    else if (k == "inject")
    {
        auto& o = w.obj((int)op.num("o"));
        o = PdfObject(PdfDictionary());
        string b = bytesTo(op["b"]);
        o.GetOrCreateStream().SetData(bufferview(b), true);
        PdfArray fl, pl;
        bool any = false;
        for (auto& f : op["f"].a) fl.Add(PdfObject(PdfName(Names[idx(f.s)])));
        for (auto& f : op["m"].a) fl.Add(PdfObject(PdfName(Names[idx(f.s)])));
        for (auto& q : op["q"].a)
        {
            if (!q.has("given") || q["given"].a.size() == 0) { pl.Add(PdfObject(PdfVariant())); continue; }
            any = true;
            PdfDictionary d;
            for (auto& p : q["given"].a)
            {
                static const map<string, const char*> K = { { "pred", "Predictor" }, { "colors", "Colors" }, { "bpc", "BitsPerComponent" }, { "cols", "Columns" }, { "early", "EarlyChange" } };
                d.AddKey(K.at(p.s), PdfObject((int64_t)q[p.s].i));
            }
            pl.Add(PdfObject(d));
        }
        for (size_t i = 0; i < op["m"].a.size(); i++) pl.Add(PdfObject(PdfVariant()));
        if (fl.GetSize() == 1 && !op.num("arr")) o.GetDictionary().AddKey("Filter", fl[0]);
        else if (fl.GetSize() != 0) o.GetDictionary().AddKey("Filter", fl);
        if (any)
        {
            PdfObject v = pl.GetSize() == 1 && !op.num("arr") ? pl[0] : PdfObject(pl);
            if (op.num("ind")) o.GetDictionary().AddKeyIndirect("DecodeParms", w.doc->GetObjects().CreateObject(v));
            else o.GetDictionary().AddKey("DecodeParms", v);
        }
        J s = J::obj().set("op", "save").set("opts", op.num("z") ? "gz" : "g");
        persist(w, s);
    }
    else throw runtime_error("driver: op " + k);
}
void run(const J& c, const Emit& emit)
{
    World w;
    freshen(w);
    for (auto& op : c["ops"].a)
    {
        J ev = op;
        ev.set("err", "");
        try { step(w, op, ev); }
        catch (const PdfError& e) { ev.set("err", code(e)); }
        bool saving = op["op"].s == "save" || op["op"].s == "update" || op["op"].s == "inject";
        if (saving && op.num("quiet") && ev["err"].s.empty() && !op.num("stay"))
        {
            // observed in a second document, the streams of the first stay unloaded
            unique_ptr<PdfMemDocument> other(new PdfMemDocument());
            other->LoadFromBuffer(w.file);
            swap(other, w.doc);
            ev.set("st", observe(w));
            swap(other, w.doc);
        }
        else if (!op.num("quiet") || saving) ev.set("st", observe(w));
        emit(ev);
    }
}
Reg reg("ostream", run);
}
