// Objects, arrays and dictionaries as values.  Subsystem "containers".
// Slots f1.. are objects of no document, slots d1.. indirect objects of a loaded document.
#include "common_pdf.h"
#include <algorithm>
#include <sstream>
using namespace std;
using namespace mm;

namespace {
const char* const TYPES[] = { "bool", "int", "real", "name", "str", "ref" };

struct World
{
    map<string, unique_ptr<PdfObject>> free;
    map<string, PdfReference> refs;             // of the document slots
    vector<unique_ptr<charbuff>> buffers;
    unique_ptr<PdfMemDocument> doc;

    string symbol(const string& ref) const
    {
        for (auto& p : refs) if (refStr(p.second) == ref) return p.first;
        return "x";
    }
    // references by the names of their slots, both ways
    J rename(const J& v, bool out) const
    {
        if (v.has("r"))
        {
            if (out) return J::obj().set("r", symbol(v["r"].s));
            auto it = refs.find(v["r"].s);
            return J::obj().set("r", it == refs.end() ? string("9999 0") : refStr(it->second));
        }
        J r = J::obj();
        for (auto& p : v.o)
        {
            if (p.first == "a") { J a = J::arr(); for (auto& e : p.second.a) a.push(rename(e, out)); r.set("a", a); }
            else if (p.first == "d") { J d = J::obj(); for (auto& e : p.second.o) d.set(e.first, rename(e.second, out)); r.set("d", d); }
            else r.set(p.first, p.second);
        }
        return r;
    }
    PdfObject& slot(const string& s)
    {
        if (s[0] == 'f') return *free.at(s);
        return doc->GetObjects().MustGetObject(refs.at(s));
    }
    PdfObject& at(const J& loc)
    {
        PdfObject* o = &slot(loc["s"].s);
        for (auto& k : loc["p"].a)
        {
            if (k.t == J::Str) o = o->GetDictionary().GetKey(k.s);
            else o = &o->GetArray()[(size_t)k.i];
            if (o == nullptr) throw runtime_error("no such path");
        }
        return *o;
    }
    void put(PdfObject& o, const J& v)
    {
        o = mkValue(rename(v, false));
        if (v.has("x")) o.GetOrCreateStream().SetData(unhex(v["x"].s));
    }
    J dump()
    {
        J st = J::obj();
        for (auto& p : free) st.set(p.first, rename(valueOf(*p.second), true));
        for (auto& p : refs) st.set(p.first, rename(valueOf(slot(p.first)), true));
        return st;
    }
    static bool owned(const PdfObject& o, PdfDocument* doc)
    {
        const PdfDataContainer* c = nullptr;
        if (o.GetDocument() != doc) return false;
        auto child = [&](const PdfObject& e) {
            return e.GetParent() == c && !e.IsIndirect() && owned(e, doc);
        };
        if (o.IsArray())
        {
            c = &o.GetArray();
            if (c->GetOwner() != &o) return false;
            for (auto& e : o.GetArray()) if (!child(e)) return false;
        }
        else if (o.IsDictionary())
        {
            c = &o.GetDictionary();
            if (c->GetOwner() != &o) return false;
            for (auto& e : o.GetDictionary()) if (!child(e.second)) return false;
        }
        return true;
    }
    bool sound()
    {
        for (auto& p : free)
            if (p.second->GetParent() != nullptr || p.second->IsIndirect() || !owned(*p.second, nullptr)) return false;
        for (auto& p : refs)
        {
            auto& o = slot(p.first);
            if (o.GetParent() != nullptr || o.GetIndirectReference() != p.second || !owned(o, doc.get())) return false;
        }
        return true;
    }
    void load(bool first)
    {
        buffers.emplace_back(new charbuff());
        {
            StringStreamDevice dev(*buffers.back());
            if (first)
                doc->Save(dev, PdfSaveOptions::NoModifyDateUpdate);
            else
            {
                dev.Write(*buffers[buffers.size() - 2]);
                doc->SaveUpdate(dev, PdfSaveOptions::NoModifyDateUpdate);
            }
        }
        unique_ptr<PdfMemDocument> d(new PdfMemDocument());
        d->LoadFromBuffer(*buffers.back());
        doc = std::move(d);
        map<string, PdfReference> now;
        for (auto& p : refs)
            now[p.first] = doc->GetCatalog().GetDictionary().MustGetKey("Slot" + p.first).GetReference();
        refs = now;
    }
};

string f6(double d) { char b[64]; snprintf(b, sizeof b, "f%.6f", d); return string(b) == "f-0.000000" ? "f0.000000" : b; }
string show(const World&, bool v) { return v ? "true" : "false"; }
string show(const World&, int64_t v) { return to_string(v); }
string show(const World&, double v) { return f6(v); }
string show(const World&, const PdfName& v) { return "/" + hexOf(v.GetRawData()); }
string show(const World&, const PdfString& v) { return variantOf(PdfVariant(v))["s"].s; }
string show(const World& w, const PdfReference& v) { return w.symbol(refStr(v)); }

template <typename F> string orE(F f) { try { return f(); } catch (const PdfError&) { return "E"; } }

template <typename T> struct Def { static T val() { return T(); } };
template <> struct Def<int64_t> { static int64_t val() { return 4242; } };
template <> struct Def<double> { static double val() { return 4242; } };
template <> struct Def<PdfName> { static PdfName val() { return PdfName("dflt"); } };
template <> struct Def<PdfString> { static PdfString val() { return PdfString("dflt"); } };
template <> struct Def<PdfReference> { static PdfReference val() { return PdfReference(4242, 7); } };

// the default is told apart by calling twice with different defaults where the type allows it
template <typename T> string shown(const World& w, const T& v) { return v == Def<T>::val() ? "def" : show(w, v); }

template <typename T, typename F> string withDef(const World& w, F f) { return orE([&] { return shown<T>(w, f(Def<T>::val())); }); }
// a bool default can not be told apart from a value: both are tried
template <> string shown<bool>(const World& w, const bool& v) { return show(w, v); }
template <typename F> string withDefBool(const World& w, F f)
{
    return orE([&] { bool a = f(false), b = f(true); return a != b ? string("def") : show(w, a); });
}
template <typename T> struct WD { template <typename F> static string go(const World& w, F f) { return withDef<T>(w, f); } };
template <> struct WD<bool> { template <typename F> static string go(const World& w, F f) { return withDefBool(w, f); } };

template <typename T, typename F> string tried(const World& w, F f)
{
    return orE([&] { T v = Def<T>::val(); if (f(v)) return show(w, v); return v == T() ? string("no") : string("kept"); });
}

template <typename T> J typed(World& w, PdfObject& o, const J& k)
{
    J r = J::obj();
    if (o.IsDictionary())
    {
        auto& d = o.GetDictionary();
        const string& key = k.s;
        r.set("find", WD<T>::go(w, [&](T def) { return d.FindKeyAs<T>(key, def); }));
        r.set("findsafe", WD<T>::go(w, [&](T def) { return d.FindKeyAsSafe<T>(key, def); }));
        r.set("tryfind", tried<T>(w, [&](T& v) { return d.TryFindKeyAs<T>(key, v); }));
        r.set("get", WD<T>::go(w, [&](T def) { return d.GetKeyAs<T>(key, def); }));
        r.set("up", WD<T>::go(w, [&](T def) { return d.FindKeyParentAs<T>(key, def); }));
        r.set("upsafe", WD<T>::go(w, [&](T def) { return d.FindKeyParentAsSafe<T>(key, def); }));
        r.set("tryup", tried<T>(w, [&](T& v) { return d.TryFindKeyParentAs<T>(key, v); }));
        return r;
    }
    auto& a = o.GetArray();
    unsigned i = (unsigned)k.i;
    r.set("find", WD<T>::go(w, [&](T def) { return a.FindAtAs<T>(i, def); }));
    r.set("findsafe", WD<T>::go(w, [&](T def) { return a.FindAtAsSafe<T>(i, def); }));
    r.set("tryfind", tried<T>(w, [&](T& v) { return a.TryFindAtAs<T>(i, v); }));
    r.set("get", orE([&] { return show(w, a.GetAtAs<T>(i)); }));
    r.set("getsafe", WD<T>::go(w, [&](T def) { return a.GetAtAsSafe<T>(i, def); }));
    r.set("tryget", tried<T>(w, [&](T& v) { return a.TryGetAtAs<T>(i, v); }));
    return r;
}

J found(World& w, const function<const PdfObject*()>& f)
{
    try
    {
        auto o = f();
        if (o == nullptr) return J::obj().set("e", "none");
        return J::obj().set("v", w.rename(valueOf(*o, false), true));
    }
    catch (const PdfError&) { return J::obj().set("e", "error"); }
}
J value(World& w, const PdfObject& o) { return w.rename(valueOf(o, false), true); }

// one operation; returns false when the reference returned is not the element set
bool mutate(World& w, const J& op)
{
    string o = op.str("op");
    PdfObject& t = w.at(op["t"]);
    unsigned i = (unsigned)op.num("i"), j = (unsigned)op.num("j"), n = (unsigned)op.num("n");
    string k = op.str("k");
    string how = op.has("v") ? op["v"].str("k") : "";
    // the value given: a literal, or an object that exists
    PdfObject lit;
    PdfObject* src = nullptr;
    if (how == "lit")
    {
        w.put(lit, op["v"]["v"]);
        src = &lit;
    }
    else if (how != "") src = &w.at(op["v"]);
    bool mv = how == "move" || (how == "lit" && op.num("rv") != 0);
    // through a variant
    auto var = [&] { return PdfObject(PdfVariant(src->GetVariant())); };
    if (o == "assign")
    {
        if (mv) t = std::move(*src); else if (how == "var") t = var(); else t = *src;
        return true;
    }
    if (o == "swap") { std::swap(t, w.at(op["t2"])); return true; }
    if (o == "setbool") { t.SetBool(src->GetBool()); return true; }
    if (o == "setnum") { t.SetNumber(src->GetNumber()); return true; }
    if (o == "setreal") { t.SetReal(src->GetReal()); return true; }
    if (o == "setname") { t.SetName(src->GetName()); return true; }
    if (o == "setstr") { t.SetString(src->GetString()); return true; }
    if (o == "setref") { t.SetReference(src->GetReference()); return true; }

    auto A = [&]() -> PdfArray& { return t.GetArray(); };
    auto D = [&]() -> PdfDictionary& { return t.GetDictionary(); };
    if (o == "add")
    {
        auto& a = A();
        auto& r = mv ? a.Add(std::move(*src)) : how == "var" ? a.Add(var()) : a.Add(*src);
        return &r == &a[a.GetSize() - 1];
    }
    if (o == "insert")
    {
        auto& a = A();
        auto it = mv ? a.insert(a.begin() + i, std::move(*src)) : a.insert(a.begin() + i, *src);
        return it == a.begin() + i;
    }
    if (o == "insertrange") { auto& a = A(); auto& b = src->GetArray(); a.insert(a.begin() + i, b.begin(), b.end()); return true; }
    if (o == "setat")
    {
        auto& a = A();
        auto& r = mv ? a.SetAt(i, std::move(*src)) : a.SetAt(i, *src);
        return &r == &a[i];
    }
    if (o == "removeat") { A().RemoveAt(i); return true; }
    if (o == "erase") { auto& a = A(); a.erase(a.begin() + i); return true; }
    if (o == "eraserange") { auto& a = A(); a.erase(a.begin() + i, a.begin() + j); return true; }
    if (o == "resize") { auto& a = A(); if (src == nullptr) a.resize(n); else a.Resize(n, *src); return true; }
    if (o == "aclear") { A().Clear(); return true; }
    if (o == "reserve") { A().Reserve(n); return true; }
    if (o == "addind") { A().AddIndirect(*src); return true; }
    if (o == "addindsafe") { auto& a = A(); auto& r = a.AddIndirectSafe(*src); return &r == &a[a.GetSize() - 1]; }
    if (o == "setind") { A().SetAtIndirect(i, src); return true; }
    if (o == "setindsafe") { auto& a = A(); auto& r = a.SetAtIndirectSafe(i, *src); return &r == &a[i]; }
    if (o == "aassign")
    {
        auto& a = A();
        if (mv) a = std::move(src->GetArray());
        else { const PdfArray& b = src->GetArray(); a = b; }
        return true;
    }
    if (o == "reverse") { auto& a = A(); std::reverse(a.begin(), a.end()); return true; }

    if (o == "addkey")
    {
        auto& d = D();
        auto& r = mv ? d.AddKey(k, std::move(*src)) : how == "var" ? d.AddKey(k, var()) : d.AddKey(k, *src);
        return &r == d.GetKey(k);
    }
    if (o == "keyind") { D().AddKeyIndirect(k, *src); return true; }
    if (o == "keyindsafe") { auto& d = D(); auto& r = d.AddKeyIndirectSafe(k, *src); return &r == d.GetKey(k); }
    if (o == "remove") { auto& d = D(); bool had = d.HasKey(k); return d.RemoveKey(k) == had; }
    if (o == "dclear") { D().Clear(); return true; }
    if (o == "dassign")
    {
        auto& d = D();
        if (mv) d = std::move(src->GetDictionary());
        else { const PdfDictionary& b = src->GetDictionary(); d = b; }
        return true;
    }
    throw runtime_error("driver: op " + o);
}

void run(const J& c, const Emit& emit)
{
    World w;
    for (auto& op : c["ops"].a)
    {
        J ev = op;
        string o = op.str("op");
        bool query = false;
        J r = guarded([&]() -> J {
            if (o == "init")
            {
                w.doc.reset(new PdfMemDocument());
                for (auto& p : op["st"].o)
                {
                    if (p.first[0] == 'f') continue;
                    auto& obj = w.doc->GetObjects().CreateDictionaryObject();
                    w.refs[p.first] = obj.GetIndirectReference();
                    w.doc->GetCatalog().GetDictionary().AddKeyIndirect("Slot" + p.first, obj);
                }
                for (auto& p : op["st"].o)
                {
                    if (p.first[0] == 'f') continue;
                    w.put(w.slot(p.first), p.second);
                }
                w.load(true);
                for (auto& p : op["st"].o)
                {
                    if (p.first[0] != 'f') continue;
                    w.free[p.first].reset(new PdfObject());
                    w.put(*w.free[p.first], p.second);
                }
                return J::obj().set("ret", true);
            }
            if (o == "reload") { w.load(false); return J::obj().set("ret", true); }
            query = true;
            J r = J::obj();
            if (o == "find")
            {
                PdfObject& t = w.at(op["t"]);
                const PdfObject& ct = t;
                const J& k = op["k"];
                if (t.IsDictionary())
                {
                    auto& d = t.GetDictionary();
                    auto& cd = ct.GetDictionary();
                    bool cst = op.num("cst") != 0;
                    r.set("get", found(w, [&] { return cst ? cd.GetKey(k.s) : d.GetKey(k.s); }));
                    r.set("mget", found(w, [&] { return cst ? &cd.MustGetKey(k.s) : &d.MustGetKey(k.s); }));
                    r.set("find", found(w, [&] { return cst ? cd.FindKey(k.s) : d.FindKey(k.s); }));
                    r.set("mfind", found(w, [&] { return cst ? &cd.MustFindKey(k.s) : &d.MustFindKey(k.s); }));
                    r.set("up", found(w, [&] { return cst ? cd.FindKeyParent(k.s) : d.FindKeyParent(k.s); }));
                    r.set("mup", found(w, [&] { return cst ? &cd.MustFindKeyParent(k.s) : &d.MustFindKeyParent(k.s); }));
                    r.set("has", d.HasKey(k.s));
                    return r;
                }
                auto& a = t.GetArray();
                auto& ca = ct.GetArray();
                unsigned i = (unsigned)k.i;
                r.set("get", found(w, [&] { return &a[i]; }));
                r.set("mget", found(w, [&] { return &ca[i]; }));
                r.set("find", found(w, [&] { return a.FindAt(i); }));
                r.set("mfind", found(w, [&] { return &a.MustFindAt(i); }));
                r.set("has", i < a.GetSize());
                return r;
            }
            if (o == "typed")
            {
                PdfObject& t = w.at(op["t"]);
                J as = J::obj();
                as.set("bool", typed<bool>(w, t, op["k"])).set("int", typed<int64_t>(w, t, op["k"]));
                as.set("real", typed<double>(w, t, op["k"])).set("name", typed<PdfName>(w, t, op["k"]));
                as.set("str", typed<PdfString>(w, t, op["k"])).set("ref", typed<PdfReference>(w, t, op["k"]));
                return r.set("as", as);
            }
            if (o == "scalar")
            {
                const PdfObject& t = w.at(op["t"]);
                J as = J::obj(), tr = J::obj();
                as.set("bool", orE([&] { return show(w, t.GetBool()); }));
                as.set("int", orE([&] { return show(w, t.GetNumber()); }));
                as.set("lenient", orE([&] { return show(w, t.GetNumberLenient()); }));
                as.set("real", orE([&] { return show(w, t.GetReal()); }));
                as.set("strict", orE([&] { return show(w, t.GetRealStrict()); }));
                as.set("name", orE([&] { return show(w, t.GetName()); }));
                as.set("str", orE([&] { return show(w, t.GetString()); }));
                as.set("ref", orE([&] { return show(w, t.GetReference()); }));
                { bool v = true; tr.set("bool", t.TryGetBool(v) ? show(w, v) : v == false ? "E" : "kept"); }
                { int64_t v = 1; tr.set("int", t.TryGetNumber(v) ? show(w, v) : v == 0 ? "E" : "kept"); }
                { int64_t v = 1; tr.set("lenient", t.TryGetNumberLenient(v) ? show(w, v) : v == 0 ? "E" : "kept"); }
                { double v = 1; tr.set("real", t.TryGetReal(v) ? show(w, v) : v == 0 ? "E" : "kept"); }
                { double v = 1; tr.set("strict", t.TryGetRealStrict(v) ? show(w, v) : v == 0 ? "E" : "kept"); }
                { PdfName v("z"); tr.set("name", t.TryGetName(v) ? show(w, v) : v == PdfName() ? "E" : "kept"); }
                { PdfString v("z"); tr.set("str", t.TryGetString(v) ? show(w, v) : v == PdfString() ? "E" : "kept"); }
                { PdfReference v(1, 1); tr.set("ref", t.TryGetReference(v) ? show(w, v) : v == PdfReference() ? "E" : "kept"); }
                string kind = t.IsBool() ? "bool" : t.IsNumber() ? "int" : t.IsRealStrict() ? "real" : t.IsName() ? "name" : t.IsString() ? "str"
                    : t.IsReference() ? "ref" : t.IsArray() ? "arr" : t.IsDictionary() ? "dict" : t.IsNull() ? "null" : "other";
                if ((kind == "int" || kind == "real") != t.IsNumberOrReal()) kind = "other";
                return r.set("as", as).set("tries", tr).set("kind", kind);
            }
            if (o == "iter")
            {
                PdfObject& t = w.at(op["t"]);
                const PdfObject& ct = t;
                if (t.IsArray())
                {
                    auto& a = t.GetArray();
                    J x = J::arr(), y = J::arr(), z = J::arr();
                    for (auto e : a.GetIndirectIterator()) x.push(value(w, *e));
                    for (auto e : ct.GetArray().GetIndirectIterator()) y.push(value(w, *e));
                    for (auto it = a.rbegin(); it != a.rend(); it++) z.push(value(w, *it));
                    bool ends = a.IsEmpty() ? a.GetSize() == 0 : &a.front() == &a[0] && &a.back() == &a[a.GetSize() - 1];
                    return r.set("all", x).set("call", y).set("back", z).set("n", a.GetSize()).set("ends", ends && a.size() == a.GetSize());
                }
                auto& d = t.GetDictionary();
                J x = J::obj(), y = J::obj();
                for (auto& e : d.GetIndirectIterator()) x.set(string(e.first.GetRawData()), value(w, *e.second));
                for (auto& e : ct.GetDictionary().GetIndirectIterator()) y.set(string(e.first.GetRawData()), value(w, *e.second));
                return r.set("all", x).set("call", y).set("n", d.GetSize());
            }
            if (o == "eq")
            {
                PdfObject& a = w.at(op["t"]);
                PdfObject& b = w.at(op["t2"]);
                r.set("eq", a == b).set("ne", a != b);
                r.set("veq", a.GetVariant() == b.GetVariant()).set("vne", a.GetVariant() != b.GetVariant());
                // the containers themselves where both are, else object and variant
                if (a.IsArray() && b.IsArray()) r.set("ceq", a.GetArray() == b.GetArray()).set("cne", a.GetArray() != b.GetArray());
                else if (a.IsDictionary() && b.IsDictionary()) r.set("ceq", a.GetDictionary() == b.GetDictionary()).set("cne", a.GetDictionary() != b.GetDictionary());
                else r.set("ceq", a == b.GetVariant()).set("cne", a != b.GetVariant());
                return r;
            }
            query = false;
            return J::obj().set("ret", mutate(w, op));
        });
        if (!r.has("err")) r.set("err", "");
        if (!query) r.set("st", w.dump()).set("sound", w.sound());
        ev.set("out", r);
        emit(ev);
    }
}
Reg reg("containers", run);
}
