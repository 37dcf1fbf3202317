// Metadata of a document: information dictionary and XMP packet.  Subsystem "meta".
#include "common_pdf.h"
#include <ctime>
using namespace std;
using namespace mm;
J dateOf(const PdfDate& d);
PdfDate mkDate(const J& x);

namespace {
string utf8(const J& cps)
{
    string r;
    for (auto& c : cps.a)
    {
        unsigned x = (unsigned)c.i;
        if (x < 0x80) r += (char)x;
        else if (x < 0x800) { r += (char)(0xC0 | x >> 6); r += (char)(0x80 | (x & 63)); }
        else if (x < 0x10000) { r += (char)(0xE0 | x >> 12); r += (char)(0x80 | (x >> 6 & 63)); r += (char)(0x80 | (x & 63)); }
        else { r += (char)(0xF0 | x >> 18); r += (char)(0x80 | (x >> 12 & 63)); r += (char)(0x80 | (x >> 6 & 63)); r += (char)(0x80 | (x & 63)); }
    }
    return r;
}
J cps(const string& s)
{
    J r = J::arr();
    for (size_t i = 0; i < s.size();)
    {
        unsigned c = (unsigned char)s[i], n = c < 0x80 ? 1 : c < 0xE0 ? 2 : c < 0xF0 ? 3 : 4;
        unsigned x = n == 1 ? c : c & (0xFF >> (n + 1));
        for (unsigned k = 1; k < n; k++) x = x << 6 | ((i + k < s.size() ? (unsigned char)s[i + k] : 0) & 63);
        r.push((long long)x);
        i += n;
    }
    return r;
}
J none() { return J::arr().push(-1); }
bool isNone(const J& v) { return v.a.size() == 1 && v.a[0].i == -1; }
J text(const nullable<PdfString>& s) { return s.has_value() ? cps(s->GetString()) : none(); }
J date(const nullable<PdfDate>& d)
{
    if (!d.has_value()) return none();
    J x = dateOf(*d);
    return J::arr().push(x["days"]).push(x["sod"]).push(x["off"]);
}
PdfDate toDate(const J& v)
{
    return mkDate(J::obj().set("days", v.a[0]).set("sod", v.a[1]).set("off", v.a[2]));
}
const pair<const char*, PdfALevel> levels[] = { { "1B", PdfALevel::L1B }, { "1A", PdfALevel::L1A }, { "2B", PdfALevel::L2B }, { "2A", PdfALevel::L2A },
    { "2U", PdfALevel::L2U }, { "3B", PdfALevel::L3B }, { "3A", PdfALevel::L3A }, { "3U", PdfALevel::L3U }, { "4E", PdfALevel::L4E }, { "4F", PdfALevel::L4F },
    { "", PdfALevel::Unknown } };

struct Run
{
    // documents read their files on demand
    vector<unique_ptr<string>> files;
    unique_ptr<PdfMemDocument> doc;
    string& next(bool copy)
    {
        files.emplace_back(new string(copy ? *files.back() : string()));
        return *files.back();
    }
    void start(const J& op)
    {
        {
            PdfMemDocument d;
            d.GetPages().CreatePage(PdfRect(0, 0, 10, 10));
            auto& dict = d.GetTrailer().GetDictionary().MustFindKey("Info").GetDictionary();
            for (auto k : { "Title", "Author", "Subject", "Keywords", "Creator", "Producer", "CreationDate", "ModDate", "Trapped" }) dict.RemoveKey(k);
            for (auto& p : op["info"].o)
            {
                if (p.first == "Trapped") dict.AddKey("Trapped", PdfName(p.second.s));
                else dict.AddKey(PdfName(p.first), PdfString(utf8(p.second)));
            }
            if (op.num("hasxmp"))
            {
                auto& o = d.GetObjects().CreateDictionaryObject("Metadata", "XML");
                o.GetOrCreateStream().SetData(bytesTo(op["xml"]), op.num("flate") == 0);
                d.GetCatalog().GetDictionary().AddKey("Metadata", o.GetIndirectReference());
            }
            if (op.num("noinfo")) d.GetTrailer().GetDictionary().RemoveKey("Info");
            StringStreamDevice dev(next(false));
            d.Save(dev, PdfSaveOptions::NoModifyDateUpdate);
        }
        load(op.num("over") != 0);
    }
    void load(bool over)
    {
        if (!over || doc == nullptr) doc.reset(new PdfMemDocument());
        doc->LoadFromBuffer(*files.back());
    }
    J xml(const string& s) { return bytesOf(s); }
    J step(const J& op)
    {
        string o = op.str("op");
        J r = J::obj();
        if (o == "start") { start(op); return r; }
        auto& m = doc->GetMetadata();
        bool sync = op.num("sync") != 0;
        if (o == "set")
        {
            string f = op.str("f");
            nullable<PdfString> s;
            if (!isNone(op["v"])) s = PdfString(utf8(op["v"]));
            nullable<const PdfString&> v;
            if (s.has_value()) v = *s;
            if (f == "Title") m.SetTitle(v, sync);
            else if (f == "Author") m.SetAuthor(v, sync);
            else if (f == "Subject") m.SetSubject(v, sync);
            else if (f == "Creator") m.SetCreator(v, sync);
            else if (f == "Producer") m.SetProducer(v, sync);
            else throw runtime_error("driver: field");
        }
        else if (o == "setdate")
        {
            nullable<PdfDate> d;
            if (!isNone(op["v"])) d = toDate(op["v"]);
            if (op.str("f") == "ModDate") m.SetModifyDate(d, sync); else m.SetCreationDate(d, sync);
        }
        else if (o == "keywords")
        {
            vector<string> l;
            for (auto& k : op["list"].a) l.push_back(utf8(k));
            m.SetKeywords(l, sync);
        }
        else if (o == "level")
        {
            for (auto& p : levels) if (op.str("v") == p.first) m.SetPdfALevel(p.second, sync);
        }
        else if (o == "trapped")
        {
            if (op.str("v").empty()) m.SetTrapped(nullptr);
            else m.SetTrapped(PdfName(op.str("v")));
        }
        else if (o == "ensure") m.EnsureXMPMetadata();
        else if (o == "sync") m.SyncXMPMetadata(op.num("force") != 0);
        else if (o == "setxmp") doc->GetCatalog().SetMetadataStreamValue(bytesTo(op["xml"]));
        else if (o == "take")
        {
            auto p = m.TakeXMPPacket();
            r.set("has", p != nullptr);
            r.set("xml", p == nullptr ? J::arr() : bytesOf(p->ToString()));
        }
        else if (o == "get")
        {
            J v = J::obj();
            v.set("Title", text(m.GetTitle())).set("Author", text(m.GetAuthor())).set("Subject", text(m.GetSubject())).set("Keywords", text(m.GetKeywordsRaw()));
            v.set("Creator", text(m.GetCreator())).set("Producer", text(m.GetProducer())).set("CreationDate", date(m.GetCreationDate())).set("ModDate", date(m.GetModifyDate()));
            r.set("view", v);
            J l = J::arr();
            for (auto& k : m.GetKeywords()) l.push(cps(k));
            r.set("list", l);
            r.set("trapped", m.GetTrapped());
            string lv = "?";
            for (auto& p : levels) if (m.GetPdfALevel() == p.second) lv = p.first;
            r.set("level", lv);
        }
        else if (o == "peek")
        {
            J v = J::obj();
            auto info = doc->GetInfo();
            for (auto k : { "Title", "Author", "Subject", "Keywords", "Creator", "Producer", "CreationDate", "ModDate", "Foo" })
            {
                auto x = info == nullptr ? nullptr : info->GetDictionary().FindKey(k);
                v.set(k, x == nullptr ? none() : cps(x->GetString().GetString()));
            }
            auto t = info == nullptr ? nullptr : info->GetDictionary().FindKey("Trapped");
            v.set("Trapped", t == nullptr ? string() : t->GetName().GetString());
            r.set("info", v);
            r.set("xml", bytesOf(doc->GetCatalog().GetMetadataStreamValue()));
        }
        else if (o == "save")
        {
            auto now = []() { time_t t = chrono::system_clock::to_time_t(chrono::system_clock::now()); return J::arr().push((long long)(t / 86400)).push((long long)(t % 86400)); };
            r.set("t0", now());
            auto opts = op.num("nomod") ? PdfSaveOptions::NoModifyDateUpdate : PdfSaveOptions::None;
            if (op.num("update"))
            {
                StringStreamDevice dev(next(true));
                doc->SaveUpdate(dev, opts);
            }
            else
            {
                StringStreamDevice dev(next(false));
                doc->Save(dev, opts);
            }
            r.set("t1", now());
            r.set("mod", date(m.GetModifyDate()));
            load(op.num("over") != 0);
        }
        else throw runtime_error("driver: op " + o);
        return r;
    }
};
void run(const J& c, const Emit& emit)
{
    Run x;
    for (auto& op : c["ops"].a)
    {
        J ev = op;
        J r = guarded([&]() -> J { return x.step(op); });
        if (!r.has("err")) r.set("err", "");
        ev.set("out", r);
        emit(ev);
    }
}
Reg reg("meta", run);
}
