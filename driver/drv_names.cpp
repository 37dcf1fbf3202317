// What is registered with a document: name trees, named destinations, attachments ("names"); viewing settings and extensions ("settings").
#include "common_pdf.h"
#include <pdfmm/base/PdfNameTree.h>
#include <pdfmm/base/PdfFileSpec.h>
#include <pdfmm/base/PdfDestination.h>
#include <pdfmm/base/PdfExtension.h>
using namespace std;
using namespace mm;

namespace {
void put8(string& s, long long u)
{
    if (u < 0x80) s += (char)u;
    else if (u < 0x800) { s += (char)(0xC0 | u >> 6); s += (char)(0x80 | (u & 63)); }
    else if (u < 0x10000) { s += (char)(0xE0 | u >> 12); s += (char)(0x80 | (u >> 6 & 63)); s += (char)(0x80 | (u & 63)); }
    else { s += (char)(0xF0 | u >> 18); s += (char)(0x80 | (u >> 12 & 63)); s += (char)(0x80 | (u >> 6 & 63)); s += (char)(0x80 | (u & 63)); }
}
string utf8(const J& v) { string s; for (auto& x : v.a) put8(s, x.i); return s; }
// the bytes of a string as they are in files
string written(const PdfString& s)
{
    string w; StringStreamDevice d(w);
    charbuff b;
    { charbuff t; s.Write(d, PdfWriteFlags::None, { }, t); }
    if (w[0] == '<') return unhex(w.substr(1, w.size() - 2));
    string r;
    for (size_t i = 1; i + 1 < w.size(); i++)
    {
        if (w[i] != '\\') { r += w[i]; continue; }
        char c = w[++i];
        r += c == 'n' ? '\n' : c == 'r' ? '\r' : c == 't' ? '\t' : c == 'b' ? '\b' : c == 'f' ? '\f' : c;
    }
    return r;
}
J keyOf(const PdfString& s) { return bytesOf(written(s)); }
// a key is given by its text, or by its bytes
PdfString mkKey(const J& k, bool raw) { return raw ? PdfString::FromRaw(bytesTo(k["b"])) : PdfString(utf8(k["t"])); }

struct Run
{
    vector<unique_ptr<string>> files;
    unique_ptr<PdfMemDocument> doc;
    void start(unsigned pages) { doc.reset(new PdfMemDocument()); for (unsigned i = 0; i < pages; i++) doc->GetPages().CreatePage(PdfRect(0, 0, 100, 100)); }
    void reload(const string& how)
    {
        bool up = how == "update" && !files.empty();
        files.emplace_back(new string(up ? *files.back() : string()));
        StringStreamDevice dev(*files.back());
        if (up) doc->SaveUpdate(dev); else doc->Save(dev);
        unique_ptr<PdfMemDocument> d(new PdfMemDocument());
        d->LoadFromBuffer(*files.back());
        doc = move(d);
    }
    PdfObject value(const J& v)
    {
        // an integer, its object, or a dictionary which holds it
        string k = v.str("k"); int64_t n = v.num("v");
        if (k == "int") return PdfObject(n);
        if (k == "dict") { PdfDictionary d; d.AddKey("V", PdfObject(n)); return PdfObject(d); }
        if (k == "page" || k == "pagedict")
        {
            PdfArray a; a.Add(doc->GetPages().GetPageAt((unsigned)n).GetObject().GetIndirectReference()); a.Add(PdfName("Fit"));
            if (k == "page") return v.num("ind") ? PdfObject(doc->GetObjects().CreateObject(PdfObject(a)).GetIndirectReference()) : PdfObject(a);
            PdfDictionary d; d.AddKey("D", v.num("ind") ? PdfObject(doc->GetObjects().CreateObject(PdfObject(a)).GetIndirectReference()) : PdfObject(a));
            return PdfObject(doc->GetObjects().CreateObject(PdfObject(d)).GetIndirectReference());
        }
        return PdfObject(doc->GetObjects().CreateObject(PdfObject(n)).GetIndirectReference());
    }
    PdfObject node(const J& x, bool root)
    {
        PdfDictionary d;
        auto ind = [&](const PdfArray& a) { return x.num("ind") ? PdfObject(doc->GetObjects().CreateObject(PdfObject(a)).GetIndirectReference()) : PdfObject(a); };
        if (x.has("kids"))
        {
            PdfArray a;
            for (auto& y : x["kids"].a) a.Add(PdfObject(doc->GetObjects().CreateObject(node(y, false)).GetIndirectReference()));
            d.AddKey("Kids", ind(a));
        }
        if (x.has("names"))
        {
            PdfArray a;
            for (auto& y : x["names"].a) { a.Add(mkKey(y["key"], true)); a.Add(value(y["val"])); }
            d.AddKey("Names", ind(a));
        }
        if (!root)
        {
            PdfArray a;
            a.Add(mkKey(x["lo"], true)); a.Add(mkKey(x["hi"], true));
            d.AddKey("Limits", a);
        }
        return PdfObject(d);
    }
    void build(const J& op)
    {
        start((unsigned)op.num("pages"));
        PdfDictionary names;
        for (auto& t : op["trees"].a)
        {
            auto n = node(t["root"], true);
            names.AddKey(PdfName(t.str("tree")), t.num("ind") ? PdfObject(doc->GetObjects().CreateObject(n).GetIndirectReference()) : n);
        }
        auto& cat = doc->GetCatalog().GetDictionary();
        cat.AddKey("Names", op.num("ind") ? PdfObject(doc->GetObjects().CreateObject(PdfObject(names)).GetIndirectReference()) : PdfObject(names));
        if (!op["old"].a.empty())
        {
            PdfDictionary d;
            for (auto& x : op["old"].a) d.AddKey(PdfName(x.str("key")), value(x["val"]));
            cat.AddKey("Dests", d);
        }
        reload("save");
    }
    J shown(const PdfObject* o)
    {
        if (o == nullptr) return J::arr();
        int64_t n;
        if (o->IsReference()) o = doc->GetObjects().GetObject(o->GetReference());
        if (o == nullptr) return J::arr();
        if (o->TryGetNumber(n)) return J::arr().push((long long)n);
        if (o->IsDictionary() && o->GetDictionary().HasKey("V")) return J::arr().push((long long)o->GetDictionary().MustFindKey("V").GetNumber());
        return J::arr().push(-7);
    }
    // a destination shows its page
    J dest(const function<unique_ptr<PdfDestination>()>& f)
    {
        unique_ptr<PdfDestination> d;
        try { d = f(); } catch (PdfError&) { return J::arr(); }
        if (d->GetType() != PdfDestinationType::Fit) return J::arr().push(-7);
        auto p = d->GetPage();
        return J::arr().push(p == nullptr ? -8ll : (long long)p->GetPageNumber() - 1);
    }
    void nodes(const PdfObject& o, J& out, int depth)
    {
        if (depth > 50) throw runtime_error("driver: deep tree");
        size_t at = out.a.size();
        out.push(J());
        J x = J::obj(), kids = J::arr(), names = J::arr(), lim = J::arr();
        auto& d = o.GetDictionary();
        if (auto k = d.FindKey("Kids")) for (auto& y : k->GetArray()) { kids.push((long long)out.a.size() + 1); nodes(doc->GetObjects().MustGetObject(y.GetReference()), out, depth + 1); }
        if (auto k = d.FindKey("Names"))
        {
            auto& a = k->GetArray();
            for (unsigned i = 0; i < a.size(); i += 2)
            {
                auto v = a.FindAt(i + 1);
                J s = shown(v);
                if (!s.a.empty() && s.a[0].i == -7)
                {
                    // destinations and files
                    if (v->IsArray()) s = dest([&]() { return make_unique<PdfDestination>(*const_cast<PdfObject*>(v)); });
                    else if (v->IsDictionary() && v->GetDictionary().HasKey("D")) s = dest([&]() { return make_unique<PdfDestination>(*const_cast<PdfObject*>(v->GetDictionary().FindKey("D"))); });
                    else if (v->IsDictionary() && v->GetDictionary().HasKey("EF")) s = fileOf(*const_cast<PdfObject*>(v));
                }
                names.push(J::arr().push(keyOf(a[i].GetString())).push(s.a.empty() ? J(-9) : s.a[0]));
            }
        }
        if (auto k = d.FindKey("Limits")) for (auto& y : k->GetArray()) lim.push(keyOf(y.GetString()));
        x.set("k", string(d.HasKey("Kids") ? "k" : "") + (d.HasKey("Names") ? "n" : "")).set("kids", kids).set("names", names).set("lim", lim);
        out.a[at] = x;
    }
    // the content of an attachment is a number
    J fileOf(PdfObject& o)
    {
        charbuff b;
        auto ef = o.GetDictionary().FindKey("EF");
        if (ef == nullptr) return J::arr().push(-7);
        ef->GetDictionary().MustFindKey("F").MustGetStream().CopyTo(b);
        return J::arr().push(stoll(string(b.data(), b.size())));
    }
    void step(const J& op, J& r)
    {
        string o = op.str("op");
        if (o == "start") start((unsigned)op.num("pages"));
        else if (o == "build") build(op);
        else if (o == "addmany")
        {
            auto& t = doc->GetOrCreateNameTree();
            auto& ks = op["keys"].a; auto& vs = op["vals"].a;
            for (size_t i = 0; i < ks.size(); i++) t.AddValue(op.str("tree"), mkKey(ks[i], op.num("raw")), value(vs[i]));
        }
        else if (o == "adddest")
            doc->AddNamedDestination(PdfDestination(doc->GetPages().GetPageAt((unsigned)op["val"].num("v")), PdfDestinationFit::Fit), mkKey(op["key"], op.num("raw")));
        else if (o == "attach")
        {
            string s = to_string(op["val"].num("v"));
            PdfFileSpec f(*doc, utf8(op["file"]), s.data(), s.size());
            doc->AttachFile(f);
            r.set("name", keyOf(f.GetFilename(false)));
        }
        else if (o == "getmany")
        {
            J vs = J::arr(), hs = J::arr();
            auto t = doc->GetNames();
            for (auto& k : op["keys"].a)
            {
                auto key = mkKey(k, op.num("raw"));
                string tree = op.str("tree");
                if (tree == "Dests") { vs.push(dest([&]() { return PdfDestination::Create(doc->GetObjects().CreateObject(PdfObject(key))); })); }
                else if (tree == "EmbeddedFiles") { unique_ptr<PdfFileSpec> f(doc->GetAttachment(key)); vs.push(f == nullptr ? J::arr() : fileOf(f->GetObject())); }
                else vs.push(t == nullptr ? J::arr() : shown(t->GetValue(tree, key)));
                hs.push(t != nullptr && t->HasValue(tree, key) ? 1 : 0);
            }
            r.set("vals", vs).set("has", hs);
        }
        else if (o == "old")
        {
            J vs = J::arr();
            for (auto& k : op["keys"].a) vs.push(dest([&]() { return PdfDestination::Create(doc->GetObjects().CreateObject(PdfObject(PdfName(k.s)))); }));
            r.set("vals", vs);
        }
        else if (o == "todict")
        {
            PdfDictionary d; d.AddKey("Before", PdfObject((int64_t)1));
            auto t = doc->GetNames();
            J ps = J::arr();
            if (t != nullptr) { t->ToDictionary(op.str("tree"), d); for (auto& p : d) ps.push(J::arr().push(keyOf(PdfString(p.first.GetString()))).push(shown(&p.second).a.empty() ? J(-9) : shown(&p.second).a[0])); }
            r.set("pairs", ps);
        }
        else if (o == "nodes")
        {
            J ns = J::arr();
            auto names = doc->GetCatalog().GetDictionary().FindKey("Names");
            auto root = names == nullptr ? nullptr : names->GetDictionary().FindKey(op.str("tree"));
            if (root != nullptr) nodes(*root, ns, 0);
            r.set("nodes", ns);
        }
        else if (o == "node") { if (op.str("tree") == "Dests") doc->GetOrCreateNameTree().GetDestsNode(true); else doc->GetOrCreateNameTree().GetJavaScriptNode(true); }
        else if (o == "reload") reload(op.str("how"));
        else throw runtime_error("driver: op " + o);
    }
};

struct Set
{
    vector<unique_ptr<string>> files;
    unique_ptr<PdfMemDocument> doc;
    void reload(const string& how)
    {
        bool up = how == "update" && !files.empty();
        files.emplace_back(new string(up ? *files.back() : string()));
        StringStreamDevice dev(*files.back());
        if (up) doc->SaveUpdate(dev); else doc->Save(dev);
        unique_ptr<PdfMemDocument> d(new PdfMemDocument());
        d->LoadFromBuffer(*files.back());
        doc = move(d);
    }
    J obs()
    {
        auto& c = doc->GetCatalog();
        auto& d = c.GetDictionary();
        auto name = [](const PdfObject* o) { return o == nullptr ? string() : o->IsName() ? o->GetName().GetString() : string("?"); };
        J r = J::obj(), p = J::arr(), e = J::arr(), raw = J::arr();
        r.set("mode", name(d.FindKey("PageMode"))).set("layout", name(d.FindKey("PageLayout")));
        const char* modes[] = {"DontCare", "UseNone", "UseThumbs", "UseOutlines", "FullScreen", "UseOC", "UseAttachments"};
        r.set("got", modes[(int)c.GetPageMode()]);
        if (auto v = d.FindKey("ViewerPreferences")) for (auto& x : v->GetDictionary()) p.push(J::arr().push(x.first.GetString()).push(x.second.IsBool() ? string(x.second.GetBool() ? "true" : "false") : name(&x.second)));
        r.set("prefs", p);
        auto l = c.GetLangObject(); r.set("lang", l == nullptr ? string("none") : l->GetString().GetString());
        auto u = d.FindKey("URI"); r.set("base", u == nullptr ? string("none") : u->GetDictionary().MustFindKey("Base").GetString().GetString());
        for (auto& x : doc->GetPdfExtensions()) e.push(J::arr().push(x.GetNamespace()).push((long long)x.GetBaseVersion()).push((long long)x.GetLevel()));
        if (auto v = d.FindKey("Extensions")) for (auto& x : v->GetDictionary()) if (x.first.GetString() != "Type") raw.push(x.first.GetString());
        r.set("exts", e).set("raw", raw);
        J h = J::arr();
        for (string ns : {"ADBE", "ns", "GLGR"}) for (int n = 0; n < 4; n++) if (doc->HasPdfExtension(ns, n)) h.push(J::arr().push(ns).push(n));
        r.set("has", h).set("version", (long long)doc->GetMetadata().GetPdfVersion());
        return r;
    }
    void step(const J& op, J& r)
    {
        (void)r;
        string o = op.str("op");
        auto cat = [&]() -> PdfCatalog& { return doc->GetCatalog(); };
        if (o == "start")
        {
            doc.reset(new PdfMemDocument());
            doc->GetPages().CreatePage(PdfRect(0, 0, 100, 100));
            auto& d = cat().GetDictionary();
            if (!op.str("mode").empty()) d.AddKey("PageMode", PdfName(op.str("mode")));
            if (op.num("prefs"))
            {
                PdfDictionary v; v.AddKey("NumCopies", PdfName("Two"));
                d.AddKey("ViewerPreferences", op.num("prefs") == 2 ? PdfObject(doc->GetObjects().CreateObject(PdfObject(v)).GetIndirectReference()) : PdfObject(v));
            }
            if (!op["exts"].a.empty())
            {
                PdfDictionary x; if (op.num("type")) x.AddKey("Type", PdfName("Extensions"));
                for (auto& y : op["exts"].a) { PdfDictionary z; z.AddKey("BaseVersion", PdfName("1.7")); z.AddKey("ExtensionLevel", PdfObject((int64_t)y.a[1].i)); if (op.num("type")) z.AddKey("Type", PdfName("DeveloperExtensions")); x.AddKey(PdfName(y.a[0].s), z); }
                d.AddKey("Extensions", x);
            }
            reload("save");
        }
        else if (o == "new") { doc.reset(new PdfMemDocument()); doc->GetPages().CreatePage(PdfRect(0, 0, 100, 100)); }
        else if (o == "mode") { auto m = op.str("v"); cat().SetPageMode(m == "DontCare" ? PdfPageMode::DontCare : m == "UseNone" ? PdfPageMode::UseNone : m == "UseThumbs" ? PdfPageMode::UseThumbs : m == "UseOutlines" ? PdfPageMode::UseBookmarks : m == "FullScreen" ? PdfPageMode::FullScreen : m == "UseOC" ? PdfPageMode::UseOC : PdfPageMode::UseAttachments); }
        else if (o == "full") cat().SetUseFullScreen();
        else if (o == "layout") { auto m = op.str("v"); cat().SetPageLayout(m == "Ignore" ? PdfPageLayout::Ignore : m == "Default" ? PdfPageLayout::Default : m == "SinglePage" ? PdfPageLayout::SinglePage : m == "OneColumn" ? PdfPageLayout::OneColumn : m == "TwoColumnLeft" ? PdfPageLayout::TwoColumnLeft : m == "TwoColumnRight" ? PdfPageLayout::TwoColumnRight : m == "TwoPageLeft" ? PdfPageLayout::TwoPageLeft : PdfPageLayout::TwoPageRight); }
        else if (o == "pref")
        {
            auto k = op.str("key");
            if (k == "HideToolbar") cat().SetHideToolbar(); else if (k == "HideMenubar") cat().SetHideMenubar(); else if (k == "HideWindowUI") cat().SetHideWindowUI();
            else if (k == "FitWindow") cat().SetFitWindow(); else if (k == "CenterWindow") cat().SetCenterWindow(); else if (k == "DisplayDocTitle") cat().SetDisplayDocTitle();
            else if (k == "PrintScaling") cat().SetPrintScaling(op.str("v")); else if (k == "Direction") cat().SetBindingDirection(op.str("v"));
            else throw runtime_error("driver: pref " + k);
        }
        else if (o == "lang") cat().SetLanguage(op.str("v"));
        else if (o == "base") cat().SetBaseURI(op.str("v"));
        else if (o == "version") doc->GetMetadata().SetPdfVersion((PdfVersion)op.num("v"));
        else if (o == "addext") doc->AddPdfExtension(op.str("ns"), op.num("level"));
        else if (o == "remext") doc->RemovePdfExtension(op.str("ns"), op.num("level"));
        else if (o == "reload") reload(op.str("how"));
        else throw runtime_error("driver: op " + o);
    }
};
void names(const J& c, const Emit& emit)
{
    Run x;
    for (auto& op : c["ops"].a)
    {
        J ev = op, r = J::obj();
        J e = guarded([&]() { x.step(op, r); return J::obj(); });
        r.set("err", e.str("err"));
        ev.set("out", r);
        emit(ev);
    }
}
void settings(const J& c, const Emit& emit)
{
    Set x;
    for (auto& op : c["ops"].a)
    {
        J ev = op, r = J::obj();
        J e = guarded([&]() { x.step(op, r); return J::obj(); });
        r.set("err", e.str("err"));
        J w = guarded([&]() { return J::obj().set("o", x.obs()); });
        r.set("oerr", w.str("err"));
        if (w.has("o")) r.set("obs", w["o"]);
        ev.set("out", r);
        emit(ev);
    }
}
Reg reg("names", names);
Reg reg2("settings", settings);
}
