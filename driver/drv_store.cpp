// Document store: object graph, numbering, garbage, save / incremental update / load,
// encryption.  Subsystem "store".
#include "common_pdf.h"
#include <algorithm>
#include <fstream>
#include <sstream>
#include <unistd.h>
using namespace std;
using namespace mm;

namespace {

struct Ctx
{
    unique_ptr<PdfMemDocument> doc;
    string bytes;                    // latest saved image
    vector<string> keep;             // buffers which back loaded documents
    list<string> backing;
    string file;
    int nfile = 0;
    map<string, string> slots;
};

// replaces the symbolic references "$k" of a case by those the library handed out
J resolve(const Ctx& c, const J& v)
{
    J r = v;
    if (v.t == J::Arr) { for (auto& x : r.a) x = resolve(c, x); }
    if (v.t == J::Obj)
        for (auto& p : r.o)
        {
            if ((p.first == "ref" || p.first == "r") && p.second.t == J::Str && !p.second.s.empty() && p.second.s[0] == '$')
            {
                if (p.second.s == "$root") p.second = J(refStr(c.doc->GetCatalog().GetObject().GetIndirectReference()));
                else { auto it = c.slots.find(p.second.s); p.second = J(it == c.slots.end() ? string("99999 0") : it->second); }
            }
            else p.second = resolve(c, p.second);
        }
    return r;
}

PdfObject& nav(PdfMemDocument& d, const J& e)
{
    PdfObject* o = &d.GetObjects().MustGetObject(mkRef(e["ref"].s));
    if (e.has("path"))
        for (auto& p : e["path"].a)
        {
            if (p.t == J::Str) o = &o->GetDictionary().MustGetKey(p.s);
            else o = &o->GetArray()[(unsigned)p.i];
        }
    return *o;
}

PdfFilterList filtersOf(const string& m)
{
    PdfFilterList l;
    for (char c : m)
    {
        if (c == 'F') l.push_back(PdfFilterType::FlateDecode);
        if (c == 'H') l.push_back(PdfFilterType::ASCIIHexDecode);
        if (c == '8') l.push_back(PdfFilterType::ASCII85Decode);
        if (c == 'R') l.push_back(PdfFilterType::RunLengthDecode);
    }
    return l;
}

J dumpDoc(PdfMemDocument& d)
{
    J o = J::obj();
    vector<PdfReference> refs;
    for (auto p : d.GetObjects()) refs.push_back(p->GetIndirectReference());
    for (auto& r : refs) o.set(refStr(r), valueOf(d.GetObjects().MustGetObject(r)));
    return o;
}

J rootOf(PdfMemDocument& d)
{
    J t = J::obj();
    auto& dict = d.GetTrailer().GetDictionary();
    for (auto k : { "Root", "Info" })
        t.set(k, dict.HasKey(k) ? valueOf(*dict.GetKey(k)) : J::obj().set("s", "none"));
    return t;
}

J freeOf(PdfMemDocument& d)
{
    J a = J::arr();
    for (auto& r : d.GetObjects().GetFreeObjects()) a.push(J::arr().push(J((int)r.ObjectNumber())).push(J((int)r.GenerationNumber())));
    return a;
}

PdfEncryptAlgorithm algOf(const string& s)
{
    if (s == "RC4V1") return PdfEncryptAlgorithm::RC4V1;
    if (s == "RC4V2") return PdfEncryptAlgorithm::RC4V2;
    if (s == "AESV2") return PdfEncryptAlgorithm::AESV2;
#ifdef PDFMM_HAVE_LIBIDN
    if (s == "AESV3") return PdfEncryptAlgorithm::AESV3;
    if (s == "AESV3R6") return PdfEncryptAlgorithm::AESV3R6;
#endif
    throw runtime_error("driver: alg");
}

J permsOf(const PdfMemDocument& d)
{
    J p = J::arr();
    p.push(d.IsPrintAllowed()).push(d.IsEditAllowed()).push(d.IsCopyAllowed()).push(d.IsEditNotesAllowed())
        .push(d.IsFillAndSignAllowed()).push(d.IsAccessibilityAllowed()).push(d.IsDocAssemblyAllowed()).push(d.IsHighPrintAllowed());
    return p;
}

J step(Ctx& c, const J& e)
{
    const string op = e["op"].s;
    auto mk = [&](const J& r) { return J::obj().set("ok", r); };
    if (op == "init")
    {
        c.doc.reset(new PdfMemDocument());
        return mk(J::obj().set("objs", dumpDoc(*c.doc)).set("root", rootOf(*c.doc)));
    }
    if (op == "setenc")
    {
        if (e["alg"].s == "none") c.doc->SetEncrypt(nullptr);
        else c.doc->SetEncrypted(unhex(e["uraw"].s), unhex(e["oraw"].s), (PdfPermissions)e["perm"].i, algOf(e["alg"].s), (PdfKeyLength)e.num("len", 40));
        return mk("");
    }
    if (op == "file") { c.bytes = unhex(e["hex"].s); return mk(""); }
    if (op == "load")
    {
        string pw = unhex(e.str("pwraw"));
        string how = e.str("how", "buffer");
        auto target = [&]() { if (how.find("same") == string::npos || !c.doc) c.doc.reset(new PdfMemDocument()); };
        if (how.find("file") != string::npos)
        {
            string f = tmpDir() + "/f" + to_string(getpid()) + "_" + to_string(c.nfile++) + ".pdf";
            { ofstream o(f, ios::binary); o.write(c.bytes.data(), (streamsize)c.bytes.size()); }
            c.file = f;
            target();
            c.doc->Load(f, pw);
        }
        else
        {
            c.backing.push_back(c.bytes);
            c.file.clear();
            target();
            c.doc->LoadFromBuffer(c.backing.back(), pw);
        }
        J r = J::obj().set("root", rootOf(*c.doc));
        J nums = J::arr();
        for (auto p : c.doc->GetObjects()) nums.push(refStr(p->GetIndirectReference()));
        r.set("refs", nums).set("perms", permsOf(*c.doc)).set("enc", c.doc->IsEncrypted());
        return mk(r);
    }
    PdfMemDocument& d = *c.doc;
    auto& objs = d.GetObjects();
    if (op == "new")
    {
        PdfObject v = mkValue(e["v"]);
        PdfObject* o;
        string how = e.str("how", "copy");
        if (how == "move") o = &objs.CreateObject(std::move(v));
        else if (how == "dict") { o = &objs.CreateDictionaryObject(); for (auto& p : v.GetDictionary()) o->GetDictionary().AddKey(p.first, p.second); }
        else if (how == "arr") { o = &objs.CreateArrayObject(); for (auto& p : v.GetArray()) o->GetArray().Add(p); }
        else o = &objs.CreateObject(v);
        return mk(refStr(o->GetIndirectReference()));
    }
    if (op == "clone")
    {
        PdfObject& src = objs.MustGetObject(mkRef(e["ref"].s));
        PdfObject* o;
        if (e.str("how") == "assign") { o = &objs.CreateDictionaryObject(); *o = src; }
        else o = &objs.CreateObject(src);
        return mk(refStr(o->GetIndirectReference()));
    }
    if (op == "get")
    {
        auto o = objs.GetObject(mkRef(e["ref"].s));
        if (o == nullptr) return mk(J::obj().set("s", "none"));
        return mk(valueOf(*o));
    }
    if (op == "put")
    {
        PdfObject& o = nav(d, e);
        PdfObject v = mkValue(e["v"]);
        string how = e.str("how", "copy");
        PdfName k = PdfName::FromRaw(e["k"].s);
        if (how == "move") o.GetDictionary().AddKey(k, std::move(v));
        else if (how == "assign" && o.GetDictionary().HasKey(e["k"].s)) o.GetDictionary().MustGetKey(e["k"].s) = v;
        else if ((how == "ref" || how == "safe") && e["v"].has("r"))
        {
            auto t = objs.GetObject(mkRef(e["v"]["r"].s));
            if (t == nullptr) o.GetDictionary().AddKey(k, v);
            else if (how == "safe") o.GetDictionary().AddKeyIndirectSafe(k, *t);
            else o.GetDictionary().AddKeyIndirect(k, *t);
        }
        else if (how == "safe") o.GetDictionary().AddKeyIndirectSafe(k, v);
        else if (how == "iter" && o.GetDictionary().HasKey(e["k"].s))
        {
            for (auto& p : o.GetDictionary()) if (p.first == k) p.second = v;
        }
        else o.GetDictionary().AddKey(k, v);
        return mk("");
    }
    if (op == "del") { return mk(nav(d, e).GetDictionary().RemoveKey(e["k"].s)); }
    if (op == "clear")
    {
        PdfObject& o = nav(d, e);
        if (o.IsArray()) o.GetArray().Clear(); else o.GetDictionary().Clear();
        return mk("");
    }
    if (op == "scalar")
    {
        // change a scalar in place through its typed setter
        PdfObject& o = nav(d, e);
        const string& s = e["v"]["s"].s;
        if (s == "true" || s == "false") o.SetBool(s == "true");
        else if (s[0] == 'f') o.SetReal(strtod(s.c_str() + 1, nullptr));
        else if (s[0] == '/') o.SetName(PdfName::FromRaw(unhex(s.substr(1))));
        else if (s[0] == '(' || s[0] == '<') o.SetString(mkValue(e["v"]).GetString());
        else o.SetNumber(stoll(s));
        return mk("");
    }
    if (op == "aadd" || op == "ains" || op == "aset" || op == "adel")
    {
        PdfArray& a = nav(d, e).GetArray();
        unsigned i = (unsigned)e.num("i");
        string how = e.str("how");
        PdfObject* t = nullptr;
        PdfObject v = e.has("v") ? mkValue(e["v"]) : PdfObject();
        if ((how == "ref" || how == "safe") && e["v"].has("r")) t = objs.GetObject(mkRef(e["v"]["r"].s));
        if (op == "aadd")
        {
            if (how == "ref" && t) a.AddIndirect(*t);
            else if (how == "safe") a.AddIndirectSafe(t ? *t : v);
            else if (how == "move") a.Add(std::move(v));
            else if (how == "end") a.insert(a.end(), v);
            else if (how == "range") { vector<PdfObject> l{ v }; a.insert(a.end(), l.begin(), l.end()); }
            else if (how == "resize") a.Resize(a.GetSize() + 1, v);
            else a.Add(v);
        }
        if (op == "ains")
        {
            if (how == "move") a.insert(a.begin() + i, std::move(v));
            else if (how == "range") { vector<PdfObject> l{ v }; a.insert(a.begin() + i, l.begin(), l.end()); }
            else a.insert(a.begin() + i, v);
        }
        if (op == "aset")
        {
            if (how == "ref" && t) a.SetAtIndirect(i, t);
            else if (how == "safe") a.SetAtIndirectSafe(i, t ? *t : v);
            else if (how == "move") a.SetAt(i, std::move(v));
            else if (how == "index") a[i] = v;
            else if (how == "iter") { auto it = a.begin(); std::advance(it, i); *it = v; }
            else if (how == "riter") { auto it = a.rbegin(); std::advance(it, a.size() - 1 - i); *it = v; }
            else if (how == "front" && i == 0) a.front() = v;
            else if (how == "back" && i + 1 == a.size()) a.back() = v;
            else a.SetAt(i, v);
        }
        if (op == "adel")
        {
            if (how == "erase") a.erase(a.begin() + i);
            else if (how == "range") a.erase(a.begin() + i, a.begin() + i + 1);
            else if (how == "resize" && i + 1 == a.size()) a.resize(i);
            else a.RemoveAt(i);
        }
        return mk("");
    }
    if (op == "setc")
    {
        // replace the whole content of a container
        PdfObject& o = nav(d, e);
        PdfObject v = mkValue(e["v"]);
        bool mv = e.str("how") == "move";
        if (o.IsArray()) { if (mv) o.GetArray() = std::move(v.GetArray()); else o.GetArray() = v.GetArray(); }
        else { if (mv) o.GetDictionary() = std::move(v.GetDictionary()); else o.GetDictionary() = v.GetDictionary(); }
        return mk("");
    }
    if (op == "stream")
    {
        PdfObject& o = objs.MustGetObject(mkRef(e["ref"].s));
        string data = unhex(e["x"].s);
        string m = e.str("mode", "F");
        if (m == "def") o.GetOrCreateStream().SetData(data);
        else if (m == "app")
        {
            auto out = o.GetOrCreateStream().GetOutputStream();
            size_t h = data.size() / 2;
            out.Write(string_view(data).substr(0, h));
            out.Write(string_view(data).substr(h));
        }
        else if (m == "raw") o.GetOrCreateStream().SetData(data, true);
        else o.GetOrCreateStream().SetData(data, filtersOf(m));
        return mk("");
    }
    if (op == "remove")
    {
        auto r = objs.RemoveObject(mkRef(e["ref"].s));
        return mk(r == nullptr ? J::obj().set("s", "none") : valueOf(*r));
    }
    if (op == "replace")
    {
        auto v = new PdfObject(mkValue(e["v"]));
        unique_ptr<PdfObject> hold(v);
        auto r = objs.ReplaceObject(mkRef(e["ref"].s), v);
        hold.release();
        return mk(valueOf(*r));
    }
    if (op == "gc") { d.CollectGarbage(); return mk(""); }
    if (op == "dump") return mk(J::obj().set("objs", dumpDoc(d)).set("root", rootOf(d)));
    if (op == "dirty")
    {
        J a = J::arr();
        for (auto p : objs) if (p->IsDirty()) a.push(refStr(p->GetIndirectReference()));
        return mk(a);
    }
    if (op == "free")
    {
        d.FreeObjectMemory(mkRef(e["ref"].s));
        return mk("");
    }
    if (op == "count") return mk((int)objs.GetSize());
    if (op == "save" || op == "update")
    {
        auto opts = saveOpts(e.str("opts"));
        string how = e.str("how", "buffer");
        string before = c.bytes;
        charbuff out;
        if (op == "save")
        {
            if (how == "xrs")
            {
                StringStreamDevice dev(out);
                if ((int)(opts & PdfSaveOptions::NoCollectGarbage) == 0) d.CollectGarbage();
                PdfWriter w(objs, d.GetTrailer().GetObject());
                w.SetSaveOptions(opts);
                w.SetUseXRefStream(true);
                if (d.GetEncrypt() != nullptr) w.SetEncrypt(*d.GetEncrypt());
                w.Write(dev);
                c.bytes = string(out);
            }
            else if (how == "file")
            {
                string f = tmpDir() + "/s" + to_string(getpid()) + "_" + to_string(c.nfile++) + ".pdf";
                d.Save(f, opts);
                ifstream i(f, ios::binary); stringstream ss; ss << i.rdbuf(); c.bytes = ss.str();
            }
            else
            {
                StringStreamDevice dev(out);
                d.Save(dev, opts);
                c.bytes = string(out);
            }
        }
        else
        {
            if (!c.file.empty())
            {
                d.SaveUpdate(c.file, opts);
                ifstream i(c.file, ios::binary); stringstream ss; ss << i.rdbuf(); c.bytes = ss.str();
            }
            else
            {
                out = charbuff(c.bytes);
                StringStreamDevice dev(out);
                d.SaveUpdate(dev, opts);
                c.bytes = string(out);
            }
        }
        J r = J::obj();
        r.set("hex", hexOf(c.bytes));
        if (op == "update")
            r.set("prefix", c.bytes.size() > before.size() && c.bytes.compare(0, before.size(), before) == 0).set("oldlen", (int)before.size());
        return mk(r);
    }
    throw runtime_error("driver: unknown op " + op);
}

Reg r("store", [](const J& cs, const Emit& emit) {
    Ctx c;
    for (auto& e0 : cs["ops"].a)
    {
        J e = resolve(c, e0);
        J ev = e;
        if (ev.has("xb"))
            ev.o.erase(std::remove_if(ev.o.begin(), ev.o.end(), [](const pair<string, J>& p) { return p.first == "x"; }), ev.o.end());
        J out = guarded([&]() { return step(c, e); });
        if (out.has("err")) { ev.set("err", out["err"]); ev.set("out", J::obj().set("s", "error")); }
        else
        {
            ev.set("err", ""); ev.set("out", out["ok"]);
            if (e.has("slot")) c.slots["$" + to_string(e["slot"].i)] = out["ok"].s;
        }
        if (ev.str("op") == "file") ev.set("hex", "");
        emit(ev);
    }
});
}
