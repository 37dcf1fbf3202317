// Page tree, inherited attributes, importing pages, outlines.  Subsystem "pages".
#include "common_pdf.h"
#include <algorithm>
#include <cmath>
#include <deque>
#include <list>
#include <set>
using namespace std;
using namespace mm;

namespace {

struct Doc
{
    unique_ptr<PdfMemDocument> doc;
    map<string, PdfPage*> handles;            // pages created in this session, by mark
    map<string, PdfOutlineItem*> items;       // outline items created in this session, by title
};
struct Ctx
{
    map<string, Doc> docs;
    list<string> backing;
    map<string, string> bytes;
};

int cents(double v) { return (int)llround(v * 100); }
J rectJ(const PdfRect& r) { return J::arr().push(cents(r.GetLeft())).push(cents(r.GetBottom())).push(cents(r.GetWidth())).push(cents(r.GetHeight())); }
PdfRect rectOf(const J& a) { return PdfRect(a.a[0].i / 100.0, a.a[1].i / 100.0, a.a[2].i / 100.0, a.a[3].i / 100.0); }

string markOf(const PdfObject& o)
{
    auto m = o.GetDictionary().GetKey("Mark");
    return m == nullptr || !m->IsString() ? "" : string(m->GetString().GetString());
}

// canonical text of a value: references are replaced by the order in which they are met, page objects by their mark
struct Canon
{
    PdfDocument& doc;
    map<PdfReference, int> num;
    string out;
    int budget = 4000;
    explicit Canon(PdfDocument& d) : doc(d) {}
    void val(const PdfObject& o, bool pageTop)
    {
        if (budget-- <= 0) { out += "!"; return; }
        if (o.IsReference())
        {
            auto r = o.GetReference();
            auto t = doc.GetObjects().GetObject(r);
            if (t == nullptr) { out += "null"; return; }
            if (t->IsDictionary())
            {
                auto ty = t->GetDictionary().GetKey("Type");
                if (ty && ty->IsName() && ty->GetName() == "Page") { out += "page:" + markOf(*t); return; }
                if (ty && ty->IsName() && ty->GetName() == "Pages") { out += "pages"; return; }
            }
            auto it = num.find(r);
            if (it != num.end()) { out += "@" + to_string(it->second); return; }
            int n = (int)num.size() + 1;
            num[r] = n;
            out += "@" + to_string(n) + "=";
            val(*t, false);
            return;
        }
        if (o.IsArray()) { out += "["; for (auto& e : o.GetArray()) { val(e, false); out += " "; } out += "]"; return; }
        if (o.IsDictionary())
        {
            out += "<";
            for (auto& p : o.GetDictionary())
            {
                string k(p.first.GetRawData());
                if (k == "Length" || k == "Filter" || k == "DecodeParms") continue;
                if (pageTop && (k == "Parent" || k == "MediaBox" || k == "CropBox" || k == "Rotate" || k == "Resources"
                    || k == "TrimBox" || k == "BleedBox" || k == "ArtBox" || k == "Mark")) continue;
                out += k + ":"; val(p.second, false); out += " ";
            }
            out += ">";
            if (o.HasStream()) out += "{" + blob(o.MustGetStream().GetCopySafe()) + "}";
            return;
        }
        auto v = valueOf(o, false);
        out += v["s"].s;
    }
};
string canonOf(const PdfObject& o, PdfDocument& d, bool page)
{
    Canon c(d);
    c.val(o, page);
    return c.out.size() <= 60 ? c.out : blob(c.out);
}

PdfObject rectArr(const J& a)
{
    PdfArray arr;
    for (auto& e : a.a) { if (e.i % 100 == 0) arr.Add(PdfObject((int64_t)(e.i / 100))); else arr.Add(PdfObject(e.i / 100.0)); }
    return PdfObject(arr);
}

// a nested value with references to new objects at every depth
PdfObject deepVal(PdfMemDocument& d, unsigned& g, int depth)
{
    auto rnd = [&](unsigned n) { g = g * 1103515245u + 12345u; return (g >> 16) % n; };
    unsigned k = depth <= 0 ? rnd(2) : rnd(6);
    if (k == 0) return PdfObject((int64_t)rnd(1000));
    if (k == 1)
    {
        auto& o = d.GetObjects().CreateDictionaryObject();
        o.GetDictionary().AddKey("Id", PdfObject((int64_t)rnd(100000)));
        return PdfObject(o.GetIndirectReference());
    }
    if (k == 2 || k == 3)
    {
        PdfArray a;
        for (unsigned i = 0, n = 1 + rnd(3); i < n; i++) a.Add(deepVal(d, g, depth - 1));
        if (k == 2) return PdfObject(a);
        if (rnd(2)) return PdfObject(d.GetObjects().CreateObject(PdfObject(a)).GetIndirectReference());
        return PdfObject(a);
    }
    PdfDictionary m;
    for (unsigned i = 0, n = 1 + rnd(3); i < n; i++) m.AddKey(PdfName("K" + to_string(i)), deepVal(d, g, depth - 1));
    if (k == 4) return PdfObject(m);
    auto& o = d.GetObjects().CreateDictionaryObject();
    for (auto& kv : m) o.GetDictionary().AddKey(kv.first, kv.second);
    if (rnd(2)) o.GetOrCreateStream().SetData("stream " + to_string(rnd(10000)));
    return PdfObject(o.GetIndirectReference());
}

void putAttrs(PdfMemDocument& d, PdfObject& node, const J& n)
{
    const pair<const char*, const char*> boxes[] = { { "M", "MediaBox" }, { "C", "CropBox" }, { "T", "TrimBox" }, { "B", "BleedBox" }, { "A", "ArtBox" } };
    bool ind = n.num("ind") != 0;
    auto put = [&](const char* key, const PdfObject& v) {
        if (ind) node.GetDictionary().AddKeyIndirect(key, d.GetObjects().CreateObject(v));
        else node.GetDictionary().AddKey(key, v);
    };
    for (auto& b : boxes) if (n.has(b.first)) put(b.second, rectArr(n[b.first]));
    if (n.has("R"))
    {
        if (n.num("Rreal")) put("Rotate", PdfObject((double)n["R"].i));
        else put("Rotate", PdfObject((int64_t)n["R"].i));
    }
    if (n.has("res"))
    {
        PdfDictionary r;
        r.AddKey("Tag", PdfString(n["res"].s));
        if (n.has("deep")) { unsigned g = (unsigned)n["deep"].i; r.AddKey("Sub", deepVal(d, g, 4)); r.AddKey("Sub2", deepVal(d, g, 4)); }
        put("Resources", PdfObject(r));
    }
}

PdfObject& buildTree(PdfMemDocument& d, PdfObject& node, const J& n, unsigned& count)
{
    // node is a Pages node
    PdfArray kids;
    unsigned total = 0;
    putAttrs(d, node, n);
    for (auto& k : n["kids"].a)
    {
        if (k.has("junk"))
        {
            // gaps in the numbering
            auto& j = d.GetObjects().CreateDictionaryObject();
            d.GetObjects().RemoveObject(j.GetIndirectReference());
            continue;
        }
        if (k.has("kids"))
        {
            auto& o = d.GetObjects().CreateDictionaryObject("Pages");
            unsigned c = 0;
            buildTree(d, o, k, c);
            total += c;
            o.GetDictionary().AddKey("Parent", node.GetIndirectReference());
            kids.Add(o.GetIndirectReference());
        }
        else
        {
            auto& o = d.GetObjects().CreateDictionaryObject("Page");
            o.GetDictionary().AddKey("Mark", PdfString(k["m"].s));
            o.GetDictionary().AddKey("Parent", node.GetIndirectReference());
            putAttrs(d, o, k);
            if (k.has("deep")) { unsigned g = (unsigned)k["deep"].i + 1; o.GetDictionary().AddKey("PieceInfo", deepVal(d, g, 4)); }
            auto& st = d.GetObjects().CreateDictionaryObject();
            st.GetOrCreateStream().SetData("content of " + k["m"].s);
            if (k.num("carr"))
            {
                PdfArray a; a.Add(st.GetIndirectReference());
                o.GetDictionary().AddKey("Contents", a);
            }
            else o.GetDictionary().AddKey("Contents", st.GetIndirectReference());
            kids.Add(o.GetIndirectReference());
            total++;
        }
    }
    if (n.num("kind")) node.GetDictionary().AddKeyIndirect("Kids", d.GetObjects().CreateObject(PdfObject(kids)));
    else node.GetDictionary().AddKey("Kids", kids);
    node.GetDictionary().AddKey("Count", PdfObject((int64_t)total));
    count = total;
    return node;
}

J attrsOf(PdfDocument& d, const PdfObject& node)
{
    J o = J::obj();
    const pair<const char*, const char*> boxes[] = { { "M", "MediaBox" }, { "C", "CropBox" }, { "T", "TrimBox" }, { "B", "BleedBox" }, { "A", "ArtBox" } };
    for (auto& b : boxes)
    {
        auto v = node.GetDictionary().FindKey(b.second);
        if (v == nullptr || !v->IsArray()) continue;
        J a = J::arr();
        for (auto& e : v->GetArray()) a.push(cents(e.GetReal()));
        o.set(b.first, a);
    }
    auto r = node.GetDictionary().FindKey("Rotate");
    if (r != nullptr && r->IsNumberOrReal()) o.set("R", (int)r->GetReal());
    auto res = node.GetDictionary().GetKey("Resources");
    if (res != nullptr)
    {
        auto rd = node.GetDictionary().FindKey("Resources");
        if (rd != nullptr) o.set("res", canonOf(*rd, d, false));
    }
    return o;
}

J treeOf(PdfMemDocument& d, PdfObject& root)
{
    J t = J::obj();
    set<PdfReference> seen;
    deque<PdfObject*> todo{ &root };
    while (!todo.empty())
    {
        PdfObject* n = todo.front(); todo.pop_front();
        if (!seen.insert(n->GetIndirectReference()).second) continue;
        J e = J::obj();
        auto type = n->GetDictionary().FindKey("Type");
        bool pages = type && type->IsName() && type->GetName() == "Pages";
        e.set("k", pages ? "node" : "page").set("at", attrsOf(d, *n));
        auto par = n->GetDictionary().GetKey("Parent");
        e.set("parent", par == nullptr ? "none" : par->IsReference() ? refStr(par->GetReference()) : "direct");
        J kids = J::arr();
        e.set("count", 0);
        if (pages)
        {
            auto cnt = n->GetDictionary().FindKey("Count");
            e.set("count", cnt == nullptr ? -1 : (int)cnt->GetNumber());
            for (auto& k : n->GetDictionary().MustFindKey("Kids").GetArray())
            {
                kids.push(refStr(k.GetReference()));
                auto o = d.GetObjects().GetObject(k.GetReference());
                if (o != nullptr) todo.push_back(o);
            }
        }
        e.set("kids", kids);
        t.set(refStr(n->GetIndirectReference()), e);
    }
    return t;
}

string destMark(PdfDocument& d, const PdfObject& item)
{
    auto dest = item.GetDictionary().FindKey("Dest");
    if (dest == nullptr || !dest->IsArray() || dest->GetArray().size() == 0 || !dest->GetArray()[0].IsReference()) return "none";
    auto p = d.GetObjects().GetObject(dest->GetArray()[0].GetReference());
    return p == nullptr ? "none" : markOf(*p);
}

J itemOf(PdfMemDocument& d, const PdfOutlineItem& it, int depth)
{
    J e = J::obj();
    e.set("d", depth).set("t", string(it.GetTitle().GetString())).set("p", destMark(d, it.GetObject()));
    e.set("f", (int)it.GetTextFormat()).set("c", J::arr().push(cents(it.GetTextColorRed())).push(cents(it.GetTextColorGreen())).push(cents(it.GetTextColorBlue())));
    return e;
}
void apiWalk(PdfMemDocument& d, const PdfOutlineItem& parent, int depth, J& out, int& budget)
{
    const PdfOutlineItem* last = nullptr;
    for (auto it = parent.First(); it != nullptr; it = it->Next())
    {
        if (budget-- <= 0) throw runtime_error("outline cycle");
        J e = itemOf(d, *it, depth);
        e.set("ok", it->Prev() == last && it->GetParentOutline() == &parent);
        out.push(e);
        apiWalk(d, *it, depth + 1, out, budget);
        last = it;
    }
    if (parent.Last() != last) out.push(J::obj().set("d", -1).set("t", "last differs"));
}
J rawOutline(PdfMemDocument& d)
{
    J t = J::obj();
    auto root = d.GetCatalog().GetDictionary().FindKey("Outlines");
    if (root == nullptr) return t;
    set<PdfReference> seen;
    deque<PdfObject*> todo{ root };
    while (!todo.empty())
    {
        PdfObject* n = todo.front(); todo.pop_front();
        if (!seen.insert(n->GetIndirectReference()).second) continue;
        J e = J::obj();
        for (auto k : { "Parent", "First", "Last", "Prev", "Next" })
        {
            auto v = n->GetDictionary().GetKey(k);
            e.set(k, v == nullptr ? "none" : v->IsReference() ? refStr(v->GetReference()) : "direct");
            if (v != nullptr && v->IsReference())
            {
                auto o = d.GetObjects().GetObject(v->GetReference());
                if (o != nullptr && o->IsDictionary()) todo.push_back(o); else e.set(k, "dangling");
            }
        }
        auto ti = n->GetDictionary().FindKey("Title");
        e.set("t", ti == nullptr || !ti->IsString() ? "" : string(ti->GetString().GetString()));
        t.set(refStr(n->GetIndirectReference()), e);
    }
    return t;
}

string sigOf(PdfMemDocument& d, const PdfPage& p) { return canonOf(p.GetObject(), d, true); }

J pageJ(PdfMemDocument& d, PdfPage& p)
{
    J e = J::obj();
    e.set("m", markOf(p.GetObject())).set("sig", sigOf(d, p));
    e.set("M", rectJ(p.GetMediaBox())).set("C", rectJ(p.GetCropBox())).set("T", rectJ(p.GetTrimBox()))
        .set("B", rectJ(p.GetBleedBox())).set("A", rectJ(p.GetArtBox()));
    int rot = p.GetRotationRaw();
    e.set("R", ((rot % 360) + 360) % 360);
    double teta = 0;
    bool has = p.HasRotation(teta);
    e.set("teta", has ? (((int)llround(-teta * 180 / M_PI) % 360) + 360) % 360 : 0);
    auto res = p.GetResources();
    e.set("res", res == nullptr ? "<>" : canonOf(res->GetObject(), d, false));
    return e;
}

J view(Doc& dc, bool lazy)
{
    auto& d = *dc.doc;
    auto& pages = d.GetPages();
    J v = J::obj();
    v.set("count", (int)pages.GetCount());
    J ps = J::arr();
    for (unsigned i = 0; i < pages.GetCount(); i++)
    {
        auto& p = pages.GetPageAt(i);
        J e = pageJ(d, p);
        e.set("ref", refStr(p.GetObject().GetIndirectReference()));
        auto h = dc.handles.find(e["m"].s);
        e.set("fresh", h != dc.handles.end() && h->second == &p);
        e.set("idx", (int)p.GetIndex()).set("num", (int)p.GetPageNumber());
        if (!lazy) e.set("same", &pages.GetPage(p.GetObject().GetIndirectReference()) == &p);
        else e.set("same", true);
        ps.push(e);
    }
    v.set("pages", ps);
    v.set("tree", treeOf(d, pages.GetObject()));
    v.set("root", refStr(pages.GetObject().GetIndirectReference()));
    J walk = J::arr();
    int budget = 2000;
    auto ol = d.GetOutlines();
    if (ol != nullptr) apiWalk(d, *ol, 1, walk, budget);
    v.set("walk", walk).set("raw", rawOutline(d));
    v.set("oroot", ol == nullptr ? "none" : refStr(ol->GetObject().GetIndirectReference()));
    return v;
}

void freshHandles(Doc& dc) { dc.handles.clear(); dc.items.clear(); }

PdfOutlineItem* findItem(PdfOutlineItem& parent, const string& title)
{
    for (auto it = parent.First(); it != nullptr; it = it->Next())
    {
        if (it->GetTitle().GetString() == title) return it;
        auto r = findItem(*it, title);
        if (r != nullptr) return r;
    }
    return nullptr;
}

J step(Ctx& c, const J& e)
{
    const string op = e["op"].s;
    Doc& dc = c.docs[e.str("doc", "A")];
    auto mk = [&](const J& r) { return J::obj().set("ok", r); };
    if (op == "build")
    {
        dc.doc.reset(new PdfMemDocument());
        freshHandles(dc);
        auto& d = *dc.doc;
        for (int i = 0; i < e.num("gap"); i++)
        {
            auto& j = d.GetObjects().CreateDictionaryObject();
            d.GetObjects().RemoveObject(j.GetIndirectReference());
        }
        unsigned count = 0;
        buildTree(d, d.GetPages().GetObject(), e["tree"], count);
        if (e.num("reload", 1))
        {
            charbuff out; StringStreamDevice dev(out);
            d.Save(dev, saveOpts("g"));
            c.backing.push_back(string(out));
            dc.doc.reset(new PdfMemDocument());
            dc.doc->LoadFromBuffer(c.backing.back());
            c.bytes[e.str("doc", "A")] = c.backing.back();
        }
        return mk(view(dc, true));
    }
    if (!dc.doc) throw runtime_error("driver: no doc");
    auto& d = *dc.doc;
    auto& pages = d.GetPages();
    if (op == "view") return mk(view(dc, e.num("lazy") != 0));
    if (op == "reload")
    {
        charbuff out;
        string& bytes = c.bytes[e.str("doc", "A")];
        if (e.str("how") == "update" && !bytes.empty()) { out = charbuff(bytes); StringStreamDevice dev(out); d.SaveUpdate(dev, saveOpts(e.str("opts"))); }
        else { StringStreamDevice dev(out); d.Save(dev, saveOpts(e.str("opts"))); }
        bytes = string(out);
        c.backing.push_back(bytes);
        freshHandles(dc);
        dc.doc.reset(new PdfMemDocument());
        dc.doc->LoadFromBuffer(c.backing.back());
        return mk("");
    }
    if (op == "create")
    {
        auto rect = rectOf(e["M"]);
        PdfPage& p = e.has("at") ? pages.CreatePageAt((unsigned)e["at"].i, rect) : pages.CreatePage(rect);
        p.GetObject().GetDictionary().AddKey("Mark", PdfString(e["m"].s));
        p.GetOrCreateContents().GetStreamForAppending().SetData("new " + e["m"].s);
        dc.handles[e["m"].s] = &p;
        J r = J::obj();
        r.set("sig", sigOf(d, p)).set("idx", (int)p.GetIndex());
        return mk(r);
    }
    if (op == "remove")
    {
        unsigned i = (unsigned)e["i"].i;
        if (i < pages.GetCount())
        {
            auto& p = pages.GetPageAt(i);
            auto it = dc.handles.find(markOf(p.GetObject()));
            if (it != dc.handles.end() && it->second == &p) dc.handles.erase(it);
        }
        pages.RemovePageAt(i);
        return mk("");
    }
    if (op == "move") { pages.GetPageAt((unsigned)e["i"].i).MoveAt((unsigned)e["j"].i); return mk(""); }
    if (op == "append") { pages.AppendDocumentPages(*c.docs[e["src"].s].doc); return mk(""); }
    if (op == "range") { pages.AppendDocumentPages(*c.docs[e["src"].s].doc, (unsigned)e["from"].i, (unsigned)e["n"].i); return mk(""); }
    if (op == "insert") { pages.InsertDocumentPageAt((unsigned)e["at"].i, *c.docs[e["src"].s].doc, (unsigned)e["i"].i); return mk(""); }
    if (op == "handle")
    {
        auto it = dc.handles.find(e["m"].s);
        if (it == dc.handles.end()) return mk(J::obj().set("idx", -1).set("num", -1));
        return mk(J::obj().set("idx", (int)it->second->GetIndex()).set("num", (int)it->second->GetPageNumber()));
    }
    if (op == "get")
    {
        auto& p = pages.GetPageAt((unsigned)e["i"].i);
        return mk(J::obj().set("m", markOf(p.GetObject())).set("idx", (int)p.GetIndex()));
    }
    if (op == "attr")
    {
        auto& p = pages.GetPageAt((unsigned)e["i"].i);
        string k = e["k"].s;
        if (k == "R") p.SetRotationRaw((int)e["v"].i);
        else if (k == "M") p.SetMediaBox(rectOf(e["v"]));
        else if (k == "T") p.SetTrimBox(rectOf(e["v"]));
        else if (k == "W") p.SetPageWidth((int)e["v"].i);
        else if (k == "H") p.SetPageHeight((int)e["v"].i);
        else throw runtime_error("driver: attr");
        return mk("");
    }
    if (op == "content")
    {
        auto& p = pages.GetPageAt((unsigned)e["i"].i);
        p.GetOrCreateContents().GetStreamForAppending(PdfStreamAppendFlags::NoSaveRestorePrior).SetData(e["x"].s);
        return mk(sigOf(d, p));
    }
    if (op == "gc") { d.CollectGarbage(); return mk(""); }
    // outlines
    if (op == "oroot") { d.GetOrCreateOutlines().CreateRoot(PdfString(e["t"].s)); return mk(""); }
    auto dest = [&]() {
        auto& p = pages.GetPageAt((unsigned)e["page"].i);
        return std::make_shared<PdfDestination>(p, PdfDestinationFit::Fit);
    };
    auto item = [&](const string& t) -> PdfOutlineItem& {
        auto r = t.empty() ? &d.GetOrCreateOutlines() : findItem(d.GetOrCreateOutlines(), t);
        if (r == nullptr) throw runtime_error("no such outline item");
        return *r;
    };
    if (op == "ochild") { item(e["at"].s).CreateChild(PdfString(e["t"].s), dest()); return mk(""); }
    if (op == "onext") { item(e["at"].s).CreateNext(PdfString(e["t"].s), dest()); return mk(""); }
    if (op == "oerase") { item(e["at"].s).Erase(); return mk(""); }
    if (op == "oset")
    {
        auto& it = item(e["at"].s);
        it.SetTitle(PdfString(e["t"].s));
        it.SetTextFormat((PdfOutlineFormat)e["f"].i);
        it.SetTextColor(e["c"].a[0].i / 100.0, e["c"].a[1].i / 100.0, e["c"].a[2].i / 100.0);
        return mk("");
    }
    throw runtime_error("driver: unknown op " + op);
}

Reg r("pages", [](const J& cs, const Emit& emit) {
    Ctx c;
    for (auto& e : cs["ops"].a)
    {
        J ev = e;
        J out = guarded([&]() { return step(c, e); });
        if (out.has("err")) { ev.set("err", out["err"]).set("out", J::obj()); }
        else ev.set("err", "").set("out", out["ok"]);
        emit(ev);
    }
});
}
