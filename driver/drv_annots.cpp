// Annotations of pages: histories of creating, setting, removing, saving, with foreign annotations.  Subsystem "annots".
#include "common_pdf.h"
#include <pdfmm/base/PdfAnnotation.h>
#include <pdfmm/base/PdfAnnotationWidget.h>
#include <pdfmm/base/PdfFileSpec.h>
#include <cmath>
#include <algorithm>
using namespace std;
using namespace mm;

namespace {
const char* Names[] = {"Unknown", "Text", "Link", "FreeText", "Line", "Square", "Circle", "Polygon", "PolyLine", "Highlight", "Underline", "Squiggly", "StrikeOut", "Stamp", "Caret", "Ink", "Popup",
    "FileAttachment", "Sound", "Movie", "Widget", "Screen", "PrinterMark", "TrapNet", "Watermark", "3D", "RichMedia", "WebMedia", "Redact", "Projection"};
const char* Actions[] = {"Unknown", "GoTo", "GoToR", "GoToE", "Launch", "Thread", "URI", "Sound", "Movie", "Hide", "Named", "SubmitForm", "ResetForm", "ImportData", "JavaScript", "SetOCGState", "Rendition", "Trans", "GoTo3DView", "RichMediaExecute"};
const char* Dests[] = {"Unknown", "XYZ", "Fit", "FitH", "FitV", "FitR", "FitB", "FitBH", "FitBV"};
int indexOf(const char** t, size_t n, const string& s) { for (size_t i = 0; i < n; i++) if (s == t[i]) return (int)i; throw runtime_error("driver: name " + s); }
J none() { return J::arr().push(-1); }
bool isNone(const J& v) { return v.a.size() == 1 && v.a[0].t == J::Int && v.a[0].i == -1; }
void put8(string& s, long long u)
{
    if (u < 0x80) s += (char)u;
    else if (u < 0x800) { s += (char)(0xC0 | u >> 6); s += (char)(0x80 | (u & 63)); }
    else if (u < 0x10000) { s += (char)(0xE0 | u >> 12); s += (char)(0x80 | (u >> 6 & 63)); s += (char)(0x80 | (u & 63)); }
    else { s += (char)(0xF0 | u >> 18); s += (char)(0x80 | (u >> 12 & 63)); s += (char)(0x80 | (u >> 6 & 63)); s += (char)(0x80 | (u & 63)); }
}
string utf8(const J& v) { string s; for (auto& x : v.a) put8(s, x.i); return s; }
J codes(const string_view& s)
{
    J r = J::arr();
    for (size_t i = 0; i < s.size();)
    {
        unsigned char c = s[i]; int n = c < 0x80 ? 0 : c < 0xE0 ? 1 : c < 0xF0 ? 2 : 3;
        long long u = n == 0 ? c : c & (0x3F >> n);
        for (int k = 0; k < n; k++) u = u << 6 | (s[i + 1 + k] & 63);
        i += n + 1; r.push(u);
    }
    return r;
}
long long milli(double d) { return llround(d * 1000); }
J num(const PdfObject& o) { double d; if (o.TryGetReal(d)) return milli(d); return -999999; }
J nums(const PdfArray& a) { J r = J::arr(); for (unsigned i = 0; i < a.size(); i++) r.push(num(a.MustFindAt(i))); return r; }
J rectOf(const PdfRect& r) { return J::arr().push(milli(r.GetLeft())).push(milli(r.GetBottom())).push(milli(r.GetWidth())).push(milli(r.GetHeight())); }
J text(const nullable<const PdfString&>& s) { return s.has_value() ? codes(s->GetString()) : none(); }
J colorOf(const PdfColor& c) { if (c.IsTransparent()) return J::arr(); J r = J::arr(); for (auto& x : c.ToArray()) r.push(num(x)); return r; }
unsigned numberOf(const PdfObject* o) { if (o == nullptr || !o->GetIndirectReference().IsIndirect()) return 0; auto r = o->GetIndirectReference(); return r.ObjectNumber() * 1000 + r.GenerationNumber(); }
PdfReference refTo(unsigned n) { return PdfReference(n / 1000, (uint16_t)(n % 1000)); }
PdfColor mkColor(const J& v)
{
    auto d = [&](int i) { return v.a[i].i / 1000.0; };
    switch (v.a.size()) { case 0: return PdfColor::CreateTransparent(); case 1: return PdfColor(d(0)); case 3: return PdfColor(d(0), d(1), d(2)); default: return PdfColor(d(0), d(1), d(2), d(3)); }
}
PdfArray mkArr(const J& v) { PdfArray a; for (auto& x : v.a) a.Add(PdfObject(x.i / 1000.0)); return a; }

struct Run
{
    vector<unique_ptr<string>> files;
    unique_ptr<PdfMemDocument> doc;
    vector<unique_ptr<PdfXObjectForm>> forms;
    vector<unsigned> known;

    PdfPage& page(size_t i) { return doc->GetPages().GetPageAt((unsigned)i); }
    void reload(bool update)
    {
        files.emplace_back(new string(update && !files.empty() ? *files.back() : string()));
        bool up = update && files.size() > 1;
        StringStreamDevice dev(*files.back());
        if (up) doc->SaveUpdate(dev); else doc->Save(dev);
        forms.clear();
        unique_ptr<PdfMemDocument> d(new PdfMemDocument());
        d->LoadFromBuffer(*files.back());
        doc = move(d);
    }
    template <class T> bool quad(PdfAnnotation& a, const function<void(PdfQuadPointsProvider<T>&)>& f) { auto t = dynamic_cast<T*>(&a); if (t != nullptr) f(*t); return t != nullptr; }
    bool onQuad(PdfAnnotation& a, const function<void(const function<void(nullable<const PdfArray&>)>&, const function<nullable<const PdfArray&>()>&)>& f)
    {
        auto g = [&](auto& q) { f([&](nullable<const PdfArray&> v) { q.SetQuadPoints(v); }, [&]() { return q.GetQuadPoints(); }); };
        return quad<PdfAnnotationLink>(a, g) || quad<PdfAnnotationTextMarkupBase>(a, g) || quad<PdfAnnotationRedact>(a, g);
    }
    J destOf(PdfDestination& d)
    {
        J q = J::obj();
        auto tryv = [&](const function<J()>& f) -> J { try { return f(); } catch (PdfError&) { return J::arr().push(-1); } };
        q.set("type", Dests[(int)d.GetType()]);
        q.set("page", tryv([&]() { auto p = d.GetPage(); return J::arr().push(p == nullptr ? 0 : numberOf(&p->GetObject())); }));
        q.set("left", tryv([&]() { return J::arr().push(milli(d.GetLeft())); }));
        q.set("top", tryv([&]() { return J::arr().push(milli(d.GetTop())); }));
        q.set("zoom", tryv([&]() { return J::arr().push(milli(d.GetZoom())); }));
        q.set("rect", tryv([&]() { return rectOf(d.GetRect()); }));
        q.set("val", tryv([&]() { return J::arr().push(milli(d.GetDValue())); }));
        return q;
    }
    J one(PdfAnnotation& a, PdfPage& p)
    {
        J g = J::obj(), w = J::obj();
        auto& d = a.GetDictionary();
        auto find = [&](const char* k) { return d.FindKey(k); };
        auto str = [&](const char* k) -> J { auto o = find(k); const PdfString* s; return o != nullptr && o->TryGetString(s) ? codes(s->GetString()) : none(); };
        auto arr = [&](const char* k) -> J { auto o = find(k); return o != nullptr && o->IsArray() ? nums(o->GetArray()) : none(); };
        g.set("n", numberOf(&a.GetObject())).set("type", Names[(int)a.GetType()]).set("page", a.GetPage() == &p ? 1 : 0);
        w.set("type", find("Subtype") != nullptr ? find("Subtype")->GetName().GetString() : string());
        g.set("rect", rectOf(a.GetRect())); w.set("rect", arr("Rect"));
        g.set("flags", (long long)a.GetFlags()); w.set("flags", find("F") == nullptr ? -1 : find("F")->GetNumber());
        g.set("title", text(a.GetTitle())); w.set("title", str("T"));
        g.set("contents", text(a.GetContents())); w.set("contents", str("Contents"));
        g.set("color", colorOf(a.GetColor())); w.set("color", arr("C"));
        {
            J b = none(); auto o = find("Border");
            if (o != nullptr) { b = J::arr(); for (auto& x : o->GetArray()) { if (x.IsArray()) { b.push(-7); for (auto& y : x.GetArray()) b.push(num(y)); } else b.push(num(x)); } }
            w.set("border", b);
        }
        J q = none();
        onQuad(a, [&](auto&, auto& get) { auto v = get(); if (v.has_value()) q = nums(*v); });
        g.set("quad", q); w.set("quad", arr("QuadPoints"));
        int open = -1;
        if (auto x = dynamic_cast<PdfAnnotationText*>(&a)) open = x->GetOpen(); else if (auto y = dynamic_cast<PdfAnnotationPopup*>(&a)) open = y->GetOpen();
        g.set("open", open); w.set("open", find("Open") == nullptr ? -1 : (int)find("Open")->GetBool());
        J ds = J::arr(), as = J::arr(), fs = J::arr();
        if (auto x = dynamic_cast<PdfAnnotationLink*>(&a)) { auto v = x->GetDestination(); if (v != nullptr) ds.push(destOf(*v)); }
        if (auto x = dynamic_cast<PdfAnnotationActionBase*>(&a))
        {
            auto v = x->GetAction();
            if (v != nullptr) as.push(J::obj().set("n", numberOf(&v->GetObject())).set("type", Actions[(int)v->GetType()]).set("s", v->GetObject().GetDictionary().MustFindKey("S").GetName().GetString())
                .set("uri", v->HasURI() ? codes(v->GetURI().GetString()) : none()).set("js", v->HasScript() ? codes(v->GetScript().GetString()) : none()));
        }
        if (auto x = dynamic_cast<PdfAnnotationFileAttachement*>(&a))
        {
            auto v = x->GetFileAttachement();
            if (v != nullptr)
            {
                J r = J::obj();
                r.set("name", codes(v->GetFilename(true).GetString()));
                auto ef = v->GetObject().GetDictionary().FindKey("EF");
                J data = none(); long long size = -1;
                if (ef != nullptr)
                {
                    auto& s = ef->GetDictionary().MustFindKey("F");
                    charbuff b; s.MustGetStream().CopyTo(b); data = bytesOf(b);
                    size = s.GetDictionary().MustFindKey("Params").GetDictionary().MustFindKey("Size").GetNumber();
                }
                fs.push(r.set("data", data).set("size", size));
            }
        }
        g.set("dest", ds).set("action", as).set("file", fs);
        w.set("dest", find("Dest") == nullptr ? 0 : 1).set("action", find("A") == nullptr ? 0 : 1).set("file", find("FS") == nullptr ? 0 : 1);
        // appearances
        vector<PdfAppearanceIdentity> ids;
        a.GetAppearanceStreams(ids);
        J ap = J::arr(), one = J::arr();
        const char* T[] = {"N", "R", "D"}; PdfAppearanceType AT[] = {PdfAppearanceType::Normal, PdfAppearanceType::Rollover, PdfAppearanceType::Down};
        for (auto& i : ids) ap.push(J::arr().push(i.Type == PdfAppearanceType::Normal ? "N" : i.Type == PdfAppearanceType::Rollover ? "R" : "D").push(i.State.IsNull() ? string() : i.State.GetString()).push((long long)numberOf(i.Object)));
        for (int i = 0; i < 3; i++)
            for (auto st : {"", "On", "Off", "A x"})
            {
                auto o = const_cast<const PdfAnnotation&>(a).GetAppearanceStream(AT[i], PdfName(st));
                one.push(J::arr().push(T[i]).push(string(st)).push(o == nullptr ? -1 : o->HasStream() ? (long long)numberOf(o) : 0));
            }
        g.set("ap", ap).set("ap1", one).set("as", find("AS") == nullptr ? string() : find("AS")->GetName().GetString());
        PdfAppearanceCharacteristics* mk = nullptr; bool can = false;
        if (auto x = dynamic_cast<PdfAnnotationWidget*>(&a)) { mk = x->GetAppearanceCharacteristics(); can = true; } else if (auto y = dynamic_cast<PdfAnnotationScreen*>(&a)) { mk = y->GetAppearanceCharacteristics(); can = true; }
        J m = J::arr();
        if (mk != nullptr) m.push(J::obj().set("BC", colorOf(mk->GetBorderColor())).set("BG", colorOf(mk->GetBackgroundColor())).set("RC", text(mk->GetRolloverCaption())).set("AC", text(mk->GetAlternateCaption())).set("CA", text(mk->GetCaption())));
        (void)can;
        g.set("mk", m);
        J wm = J::arr();
        if (auto o = find("MK"))
        {
            J r = J::obj(); auto& md = o->GetDictionary();
            for (auto k : {"BC", "BG"}) { auto v = md.FindKey(k); r.set(k, v == nullptr ? none() : nums(v->GetArray())); }
            for (auto k : {"RC", "AC", "CA"}) { auto v = md.FindKey(k); r.set(k, v == nullptr ? none() : codes(v->GetString().GetString())); }
            wm.push(r);
        }
        w.set("mk", wm);
        return J::obj().set("bad", 0).set("g", g).set("w", w);
    }
    J obs()
    {
        J r = J::arr();
        for (unsigned i = 0; i < doc->GetPages().GetCount(); i++)
        {
            auto& p = page(i);
            auto& as = p.GetAnnotations();
            J l = J::arr();
            vector<PdfAnnotation*> it;
            for (auto x : as) it.push_back(x);
            for (unsigned k = 0; k < as.GetCount(); k++)
            {
                PdfAnnotation* a = nullptr;
                try { a = &as.GetAnnotAt(k); } catch (PdfError&) {}
                if (a == nullptr) l.push(J::obj().set("bad", it[k] == nullptr ? 1 : 2));
                else { J q = one(*a, p); if (k >= it.size() || it[k] != a) q.set("bad", 2); l.push(q); }
            }
            r.push(J::obj().set("n", numberOf(&p.GetObject())).set("as", l).set("cnt", (long long)it.size()));
        }
        return r;
    }
    // the k-th annotation of the page that f accepts; its place from 1, or 0
    unsigned pick(const J& op, const function<bool(PdfAnnotation&)>& ok, PdfAnnotation*& a)
    {
        auto& as = page(op.num("page")).GetAnnotations();
        vector<unsigned> v;
        for (unsigned k = 0; k < as.GetCount(); k++) { try { if (ok(as.GetAnnotAt(k))) v.push_back(k); } catch (PdfError&) {} }
        if (v.empty()) return 0;
        unsigned i = v[op.num("k") % v.size()];
        a = &as.GetAnnotAt(i);
        return i + 1;
    }
    void start(unsigned pages) { doc.reset(new PdfMemDocument()); for (unsigned i = 0; i < pages; i++) doc->GetPages().CreatePage(PdfRect(0, 0, 100 + i, 100)); }
    J pageNumbers() { J r = J::arr(); for (unsigned i = 0; i < doc->GetPages().GetCount(); i++) r.push((long long)numberOf(&page(i).GetObject())); return r; }
    void build(const J& op, J& r)
    {
        start((unsigned)op["pages"].a.size());
        J xs = J::arr(), ns = J::arr();
        vector<PdfObject*> fx;
        for (int i = 0; i < op.num("forms"); i++)
        {
            auto fp = doc->CreateXObjectForm(PdfRect(0, 0, 5, 5)); auto& f = *fp;
            fx.push_back(&f.GetObject());
            f.GetObject().GetOrCreateStream().SetData(bufferview("q Q"));
            xs.push((long long)numberOf(&f.GetObject()));
        }
        for (size_t i = 0; i < op["pages"].a.size(); i++)
        {
            auto& pg = op["pages"].a[i];
            J pn = J::arr();
            if (pg.str("arr") == "none") { ns.push(pn); continue; }
            PdfArray a;
            vector<PdfObject*> objs;
            for (auto& x : pg["items"].a)
            {
                string k = x.str("k");
                PdfObject* o = nullptr; PdfObject direct = PdfObject(PdfDictionary());
                long long n = 0;
                if (k == "null") a.Add(PdfObject());
                else if (k == "dangling") a.Add(PdfReference(9999, 0));
                else if (k == "int") a.Add(PdfObject((int64_t)7));
                else
                {
                    if (k != "direct") { o = &doc->GetObjects().CreateDictionaryObject("Annot"); n = numberOf(o); }
                    auto& d = (o == nullptr ? direct : *o).GetDictionary();
                    if (k != "nosub")
                    {
                        PdfObject nm = PdfObject(PdfName(k == "unk" ? string("Foo") : x.str("type")));
                        if (x.num("subind")) d.AddKey("Subtype", doc->GetObjects().CreateObject(nm.GetVariant()).GetIndirectReference()); else d.AddKey("Subtype", nm);
                    }
                    if (x.has("rect"))
                    {
                        auto c = [&](int j) { return x["rect"].a[j].i / 1000.0; };
                        double v[4] = {c(0), c(1), c(0) + c(2), c(1) + c(3)};
                        if (x.num("flip") & 1) swap(v[0], v[2]);
                        if (x.num("flip") & 2) swap(v[1], v[3]);
                        PdfArray ra; for (double y : v) ra.Add(PdfObject(y));
                        d.AddKey("Rect", ra);
                        if (x.num("flags") >= 0) d.AddKey("F", (int64_t)x.num("flags"));
                        if (!isNone(x["title"])) d.AddKey("T", PdfString(utf8(x["title"])));
                        if (!isNone(x["contents"])) d.AddKey("Contents", PdfString(utf8(x["contents"])));
                        if (!isNone(x["color"])) d.AddKey("C", mkArr(x["color"]));
                        if (x.num("open") >= 0) d.AddKey("Open", PdfObject(x.num("open") != 0));
                        if (x["ap"].a.size())
                        {
                            PdfDictionary ap;
                            for (auto& y : x["ap"].a)
                            {
                                auto ref = fx[y.a[2].i]->GetIndirectReference();
                                if (y.a[1].s.empty()) ap.AddKey(y.a[0].s, ref);
                                else { if (!ap.HasKey(y.a[0].s)) ap.AddKey(y.a[0].s, PdfDictionary()); ap.MustGetKey(y.a[0].s).GetDictionary().AddKey(y.a[1].s, ref); }
                            }
                            if (x.num("apind")) d.AddKey("AP", doc->GetObjects().CreateObject(PdfVariant(ap)).GetIndirectReference()); else d.AddKey("AP", ap);
                        }
                        if (!x.str("as").empty()) d.AddKey("AS", PdfName(x.str("as")));
                        if (x.num("par", -1) >= 0 && objs[x.num("par")] != nullptr) d.AddKey("Parent", objs[x.num("par")]->GetIndirectReference());
                    }
                    if (o == nullptr) a.Add(direct); else a.Add(o->GetIndirectReference());
                }
                objs.push_back(o);
                pn.push(n);
                if (n) known.push_back((unsigned)n);
            }
            ns.push(pn);
            if (pg.str("arr") == "indirect") page(i).GetDictionary().AddKey("Annots", doc->GetObjects().CreateObject(PdfVariant(a)).GetIndirectReference());
            else page(i).GetDictionary().AddKey("Annots", a);
        }
        r.set("xs", xs).set("ns", ns);
        reload(false);
    }
    void set(const J& op, J& r)
    {
        string k = op.str("attr");
        auto can = [&](PdfAnnotation& a) -> bool {
            if (k == "quad") return onQuad(a, [](auto&, auto&) {});
            if (k == "open") return a.GetType() == PdfAnnotationType::Text || a.GetType() == PdfAnnotationType::Popup;
            if (k == "dest") return a.GetType() == PdfAnnotationType::Link && !a.GetDictionary().HasKey("A");
            if (k == "action") return dynamic_cast<PdfAnnotationActionBase*>(&a) != nullptr && !a.GetDictionary().HasKey("Dest");
            if (k == "destaction") return a.GetType() == PdfAnnotationType::Link && a.GetDictionary().HasKey("A");
            if (k == "file") return a.GetType() == PdfAnnotationType::FileAttachement;
            if (k == "mk") return a.GetType() == PdfAnnotationType::Widget || a.GetType() == PdfAnnotationType::Screen;
            return true;
        };
        PdfAnnotation* ap = nullptr;
        unsigned i = pick(op, can, ap);
        r.set("i", i);
        if (i == 0) return;
        auto& a = *ap;
        if (k == "rect") { auto& v = op["v"].a; a.SetRect(PdfRect(v[0].i / 1000.0, v[1].i / 1000.0, v[2].i / 1000.0, v[3].i / 1000.0)); }
        else if (k == "flags") a.SetFlags((PdfAnnotationFlags)op["v"].i);
        else if (k == "title" || k == "contents")
        {
            PdfString s(isNone(op["v"]) ? string() : utf8(op["v"]));
            nullable<const PdfString&> v; if (!isNone(op["v"])) v = s;
            if (k == "title") a.SetTitle(v); else a.SetContents(v);
        }
        else if (k == "color")
        {
            PdfColor c; nullable<const PdfColor&> v;
            if (!isNone(op["v"])) { c = mkColor(op["v"]); v = c; }
            a.SetColor(v);
        }
        else if (k == "border")
        {
            auto& v = op["v"].a; auto d = [&](int j) { return v[j].i / 1000.0; };
            if (v.size() == 3) a.SetBorderStyle(d(0), d(1), d(2));
            else { PdfArray s; for (size_t j = 3; j < v.size(); j++) s.Add(PdfObject(d((int)j))); a.SetBorderStyle(d(0), d(1), d(2), s); }
        }
        else if (k == "quad")
            onQuad(a, [&](auto& st, auto&) { PdfArray q; nullable<const PdfArray&> v; if (!isNone(op["v"])) { q = mkArr(op["v"]); v = q; } st(v); });
        else if (k == "open")
        {
            nullable<bool> v; if (op["v"].i >= 0) v = op["v"].i != 0;
            if (auto x = dynamic_cast<PdfAnnotationText*>(&a)) x->SetOpen(v); else dynamic_cast<PdfAnnotationPopup&>(a).SetOpen(v);
        }
        else if (k == "dest" || k == "destaction")
        {
            auto& p = page(op.num("to")); string t = op.str("t"); auto& v = op["v"].a; auto d = [&](int j) { return v[j].i / 1000.0; };
            shared_ptr<PdfDestination> x;
            if (t == "XYZ") x.reset(new PdfDestination(p, d(0), d(1), d(2)));
            else if (t == "FitR") x.reset(new PdfDestination(p, PdfRect(d(0), d(1), d(2), d(3))));
            else if (t == "Fit") x.reset(new PdfDestination(p, PdfDestinationFit::Fit));
            else if (t == "FitB") x.reset(new PdfDestination(p, PdfDestinationFit::FitB));
            else x.reset(new PdfDestination(p, t == "FitH" ? PdfDestinationFit::FitH : t == "FitV" ? PdfDestinationFit::FitV : t == "FitBH" ? PdfDestinationFit::FitBH : PdfDestinationFit::FitBV, d(0)));
            dynamic_cast<PdfAnnotationLink&>(a).SetDestination(x);
        }
        else if (k == "action")
        {
            auto x = make_shared<PdfAction>(*doc, (PdfActionType)indexOf(Actions, size(Actions), op.str("t")));
            if (!isNone(op["uri"])) x->SetURI(PdfString(utf8(op["uri"])));
            if (!isNone(op["js"])) x->SetScript(PdfString(utf8(op["js"])));
            r.set("n", (long long)numberOf(&x->GetObject()));
            dynamic_cast<PdfAnnotationActionBase&>(a).SetAction(x);
        }
        else if (k == "file")
        {
            string data = bytesTo(op["data"]);
            auto x = make_shared<PdfFileSpec>(*doc, utf8(op["dir"]) + utf8(op["name"]), data.data(), data.size(), op.num("strip") != 0);
            dynamic_cast<PdfAnnotationFileAttachement&>(a).SetFileAttachement(x);
        }
        else if (k == "ap")
        {
            if (forms.empty() || op.num("x") == 0)
            {
                forms.push_back(doc->CreateXObjectForm(PdfRect(0, 0, 5, 5)));
                forms.back()->GetObject().GetOrCreateStream().SetData(bufferview("q Q"));
            }
            auto& f = *forms[op.num("x") % forms.size()];
            r.set("x", (long long)numberOf(&f.GetObject()));
            string t = op.str("t");
            auto at = t == "N" ? PdfAppearanceType::Normal : t == "R" ? PdfAppearanceType::Rollover : PdfAppearanceType::Down;
            if (op.str("state").empty()) a.SetAppearanceStream(f, at); else a.SetAppearanceStream(f, at, op.str("state"));
        }
        else if (k == "mk")
        {
            auto w = dynamic_cast<PdfAnnotationWidget*>(&a);
            auto& m = w != nullptr ? w->GetOrCreateAppearanceCharacteristics() : dynamic_cast<PdfAnnotationScreen&>(a).GetOrCreateAppearanceCharacteristics();
            string key = op.str("key");
            PdfColor c; nullable<const PdfColor&> cv; PdfString s; nullable<const PdfString&> sv;
            if (!isNone(op["v"])) { if (key == "BC" || key == "BG") { c = mkColor(op["v"]); cv = c; } else { s = PdfString(utf8(op["v"])); sv = s; } }
            if (key == "BC") m.SetBorderColor(cv); else if (key == "BG") m.SetBackgroundColor(cv);
            else if (key == "RC") m.SetRolloverCaption(sv); else if (key == "AC") m.SetAlternateCaption(sv); else m.SetCaption(sv);
        }
        else throw runtime_error("driver: attr " + k);
    }
    void step(const J& op, J& r)
    {
        string o = op.str("op");
        if (o == "start") { start((unsigned)op.num("pages")); r.set("pages", pageNumbers()); }
        else if (o == "build") { build(op, r); r.set("pages", pageNumbers()); }
        else if (o == "create")
        {
            auto& v = op["rect"].a;
            auto& a = page(op.num("page")).GetAnnotations().CreateAnnot((PdfAnnotationType)indexOf(Names, size(Names), op.str("type")), PdfRect(v[0].i / 1000.0, v[1].i / 1000.0, v[2].i / 1000.0, v[3].i / 1000.0));
            known.push_back(numberOf(&a.GetObject()));
            r.set("n", (long long)known.back());
        }
        else if (o == "set") set(op, r);
        else if (o == "remove") page(op.num("page")).GetAnnotations().RemoveAnnotAt((unsigned)op.num("i"));
        else if (o == "removeref" || o == "getref")
        {
            unsigned n = known.empty() ? 9999000 : known[op.num("k") % known.size()];
            r.set("n", (long long)n);
            auto& as = page(op.num("page")).GetAnnotations();
            if (o == "removeref") as.RemoveAnnot(refTo(n));
            else { r.set("got", 0); r.set("got", (long long)numberOf(&as.GetAnnot(refTo(n)).GetObject())); }
        }
        else if (o == "reload") reload(op.num("update") != 0);
        else throw runtime_error("driver: op " + o);
    }
};
void run(const J& c, const Emit& emit)
{
    Run x;
    for (auto& op : c["ops"].a)
    {
        J ev = op, r = J::obj();
        J e = guarded([&]() { x.step(op, r); return J::obj(); });
        r.set("err", e.str("err"));
        if (op.num("quiet")) { r.set("oerr", ""); ev.set("out", r); emit(ev); continue; }
        J w = guarded([&]() { return J::obj().set("o", x.obs()); });
        r.set("oerr", w.str("err"));
        if (w.has("o")) r.set("obs", w["o"]);
        ev.set("out", r);
        emit(ev);
    }
}
Reg reg("annots", run);
}
