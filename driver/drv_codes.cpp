// Codes of strings and the characters they stand for: the table of codes ("codemap"), CMaps ("cmap"), encodings of one byte ("simple"), fonts ("fonttext").
#include "common_pdf.h"
#include <pdfmm/base/PdfCharCodeMap.h>
#include <pdfmm/base/PdfCMapEncoding.h>
#include <pdfmm/base/PdfEncodingMapFactory.h>
#include <pdfmm/base/PdfEncodingFactory.h>
#include <pdfmm/base/PdfDifferenceEncoding.h>
#include <pdfmm/base/PdfFontMetricsStandard14.h>
using namespace std;
using namespace mm;

namespace {
void put8(string& s, long long u)
{
    if (u < 0x80) s += (char)u;
    else if (u < 0x800) { s += (char)(0xC0 | u >> 6); s += (char)(0x80 | (u & 63)); }
    else if (u < 0x10000) { s += (char)(0xE0 | u >> 12); s += (char)(0x80 | (u >> 6 & 63)); s += (char)(0x80 | (u & 63)); }
    else { s += (char)(0xF0 | u >> 18); s += (char)(0x80 | (u >> 12 & 63)); s += (char)(0x80 | (u >> 6 & 63)); s += (char)(0x80 | (u & 63)); }
}
string utf8Of(const J& v) { string s; for (auto& x : v.a) put8(s, x.i); return s; }
J pointsOf(const string& s)
{
    J r = J::arr();
    for (size_t i = 0; i < s.size();)
    {
        unsigned char c = s[i];
        int n = c < 0x80 ? 1 : c < 0xE0 ? 2 : c < 0xF0 ? 3 : 4;
        long long u = n == 1 ? c : c & (0xFF >> (n + 1));
        for (int k = 1; k < n && i + k < s.size(); k++) u = u << 6 | ((unsigned char)s[i + k] & 63);
        r.push(u); i += n;
    }
    return r;
}
size_t pointsIn(const string_view& s) { size_t n = 0; for (char c : s) if (((unsigned char)c & 0xC0) != 0x80) n++; return n; }
PdfCharCode mkCode(const J& v) { unsigned c = 0; for (auto& x : v.a) c = c << 8 | (unsigned)x.i; return PdfCharCode(c, (unsigned char)v.a.size()); }
J codeOf(const PdfCharCode& c) { string s; c.AppendTo(s); return bytesOf(s); }
vector<codepoint> mkPoints(const J& v) { vector<codepoint> r; for (auto& x : v.a) r.push_back((codepoint)x.i); return r; }
J listOf(const vector<codepoint>& v) { J r = J::arr(); for (auto x : v) r.push((long long)x); return r; }
J shown(const vector<codepoint>& v) { J r = J::arr(); for (auto x : v) if (x != 0 && x <= 0x10FFFF && !(x >= 0xD800 && x < 0xE000)) r.push((long long)x); return r; }

void codemap(const J& c, const Emit& emit)
{
    unique_ptr<PdfCharCodeMap> m(new PdfCharCodeMap());
    for (auto& op : c["ops"].a)
    {
        J ev = op, r = J::obj();
        string o = op.str("op");
        J e = guarded([&]() {
            if (o == "push")
            {
                auto p = mkPoints(op["cps"]);
                if (p.size() == 1 && op.num("one")) m->PushMapping(mkCode(op["code"]), p[0]);
                else m->PushMapping(mkCode(op["code"]), p);
            }
            else if (o == "points") { vector<codepoint> p = {7}; bool ok = m->TryGetCodePoints(mkCode(op["code"]), p); r.set("ok", ok).set("cps", listOf(p)); }
            else if (o == "code")
            {
                auto p = mkPoints(op["cps"]);
                PdfCharCode k(77, 3);
                bool ok = p.size() == 1 && op.num("one") ? m->TryGetCharCode(p[0], k) : m->TryGetCharCode(p, k);
                r.set("ok", ok).set("code", codeOf(k));
            }
            else if (o == "next")
            {
                string s = utf8Of(op["cps"]); string_view v(s);
                auto it = v.begin(), b = v.begin(); PdfCharCode k(77, 3);
                bool ok = m->TryGetNextCharCode(it, v.end(), k);
                r.set("ok", ok).set("code", codeOf(k)).set("used", pointsIn(v.substr(0, it - b)));
            }
            else if (o == "move")
            {
                if (op.num("assign")) { unique_ptr<PdfCharCodeMap> n(new PdfCharCodeMap()); if (op.num("assign") == 2) n->PushMapping(PdfCharCode(9, 4), U'x'); *n = std::move(*m); m = std::move(n); }
                else { unique_ptr<PdfCharCodeMap> n(new PdfCharCodeMap(std::move(*m))); m = std::move(n); }
            }
            else if (o == "all")
            {
                J l = J::arr(); for (auto& p : *m) l.push(codeOf(p.first));
                r.set("codes", l).set("min", (int)m->GetLimits().MinCodeSize).set("max", (int)m->GetLimits().MaxCodeSize);
                if (m->GetSize() != l.a.size()) throw runtime_error("size");
            }
            else throw runtime_error("driver: op " + o);
            return J::obj();
        });
        r.set("err", e.str("err"));
        ev.set("out", r);
        emit(ev);
    }
}

J encodeWith(const PdfEncodingMap& m, const string& text, bool& ok)
{
    J l = J::arr(); string_view v(text); auto it = v.begin(), end = v.end(); ok = true;
    while (it != end) { PdfCharCode k; if (!m.TryGetNextCharCode(it, end, k)) { ok = false; break; } l.push(codeOf(k)); }
    return l;
}

void cmap(const J& c, const Emit& emit)
{
    PdfMemDocument doc;
    shared_ptr<const PdfEncodingMap> u, id;
    unique_ptr<PdfEncoding> enc;
    for (auto& op : c["ops"].a)
    {
        J ev = op, r = J::obj();
        string o = op.str("op");
        J e = guarded([&]() {
            if (o == "load")
            {
                auto load = [&](const string& text) {
                    auto& obj = doc.GetObjects().CreateDictionaryObject();
                    obj.GetOrCreateStream().SetData(unhex(text));
                    return shared_ptr<const PdfEncodingMap>(PdfCMapEncoding::CreateFromObject(obj).release());
                };
                u = load(op.str("text"));
                id = op.str("cidtext").empty() ? u : load(op.str("cidtext"));
                enc.reset(new PdfEncoding(id, u));
                r.set("min", (int)u->GetLimits().MinCodeSize).set("max", (int)u->GetLimits().MaxCodeSize);
            }
            else if (o == "text")
            {
                string t = "x"; auto s = PdfString::FromRaw(bytesTo(op["bytes"]));
                bool ok = enc->TryConvertToUtf8(s, t);
                r.set("ok", ok).set("cps", pointsOf(t)).set("same", enc->ConvertToUtf8(s) == t);
            }
            else if (o == "cids")
            {
                vector<PdfCID> l; bool ok = enc->TryConvertToCIDs(PdfString::FromRaw(bytesTo(op["bytes"])), l);
                J a = J::arr(); for (auto& x : l) a.push(J::obj().set("id", (long long)x.Id).set("code", codeOf(x.Unit)));
                r.set("ok", ok).set("cids", a);
            }
            else if (o == "scan")
            {
                auto s = PdfString::FromRaw(bytesTo(op["bytes"]));
                auto ctx = enc->StartStringScan(s);
                J a = J::arr();
                while (!ctx.IsEndOfString())
                {
                    PdfCID cid; string t; vector<codepoint> p;
                    bool ok = ctx.TryScan(cid, t, p);
                    a.push(J::obj().set("ok", ok).set("code", codeOf(cid.Unit)).set("cps", pointsOf(t)));
                }
                r.set("steps", a);
            }
            else if (o == "encode") { bool ok; r.set("codes", encodeWith(*u, utf8Of(op["cps"]), ok)); r.set("ok", ok); }
            else if (o == "points") { vector<codepoint> p; bool ok = u->TryGetCodePoints(mkCode(op["code"]), p); r.set("ok", ok).set("cps", listOf(p)); }
            else throw runtime_error("driver: op " + o);
            return J::obj();
        });
        r.set("err", e.str("err"));
        ev.set("out", r);
        emit(ev);
    }
}

void simple(const J& c, const Emit& emit)
{
    PdfMemDocument doc;
    unique_ptr<PdfEncoding> enc;
    for (auto& op : c["ops"].a)
    {
        J ev = op, r = J::obj();
        string o = op.str("op");
        J e = guarded([&]() {
            if (o == "start")
            {
                auto& font = doc.GetObjects().CreateDictionaryObject("Font");
                if (!op.num("diff")) font.GetDictionary().AddKey("Encoding", PdfName(op.str("base")));
                else
                {
                    PdfDictionary d; d.AddKey("Type", PdfName("Encoding"));
                    if (!op.str("base").empty()) d.AddKey("BaseEncoding", PdfName(op.str("base")));
                    PdfArray a;
                    for (auto& x : op["diffs"].a) if (x.num("n") >= 0) a.Add(PdfObject((int64_t)x.num("n"))); else a.Add(PdfObject(PdfName(x.str("name"))));
                    if (!a.IsEmpty() || op.num("empty")) d.AddKey("Differences", a);
                    font.GetDictionary().AddKey("Encoding", d);
                }
                enc.reset(new PdfEncoding(PdfEncodingFactory::CreateEncoding(font, *PdfFontMetricsStandard14::GetInstance(PdfStandard14FontType::Helvetica))));
                auto& m = enc->GetEncodingMap();
                J dec = J::arr(), back = J::arr();
                for (unsigned k = 0; k < 256; k++)
                {
                    vector<char32_t> p; bool ok = m.TryGetCodePoints(PdfCharCode(k, 1), p);
                    dec.push(!ok ? -1LL : p.size() != 1 ? -2LL : (long long)p[0]);
                    PdfCharCode b; back.push(ok && p.size() == 1 && m.TryGetCharCode(p[0], b) ? (b.CodeSpaceSize == 1 ? (long long)b.Code : -2LL) : -1LL);
                }
                r.set("dec", dec).set("back", back);
            }
            else if (o == "text") r.set("cps", pointsOf(enc->ConvertToUtf8(PdfString::FromRaw(bytesTo(op["bytes"])))));
            else if (o == "encode") { bool ok; r.set("codes", encodeWith(enc->GetEncodingMap(), utf8Of(op["cps"]), ok)); r.set("ok", ok); }
            else throw runtime_error("driver: op " + o);
            return J::obj();
        });
        r.set("err", e.str("err"));
        ev.set("out", r);
        emit(ev);
    }
}

void fonttext(const J& c, const Emit& emit)
{
    unique_ptr<PdfMemDocument> doc(new PdfMemDocument());
    doc->GetPages().CreatePage(PdfRect(0, 0, 100, 100));
    vector<unique_ptr<string>> files;
    vector<PdfFont*> fonts;
    vector<PdfReference> refs;
    vector<vector<string>> written;
    auto all = [&](size_t i) { J a = J::arr(); for (auto& s : written[i]) a.push(pointsOf(fonts[i]->GetEncoding().ConvertToUtf8(PdfString::FromRaw(s)))); return a; };
    for (auto& op : c["ops"].a)
    {
        J ev = op, r = J::obj();
        string o = op.str("op");
        J e = guarded([&]() {
            if (o == "start")
            {
                for (auto& f : op["fonts"].a)
                {
                    PdfFontCreateParams p;
                    string n = f.str("enc");
                    if (n == "win") p.Encoding = PdfEncodingFactory::CreateWinAnsiEncoding(); else if (n == "mac") p.Encoding = PdfEncodingFactory::CreateMacRomanEncoding();
                    p.Flags = (PdfFontCreateFlags)f.num("flags");
                    PdfFont* x = f.num("std") >= 0 ? doc->GetFonts().GetStandard14Font((PdfStandard14FontType)f.num("std"), p) : doc->GetFonts().GetFont(f.str("name"), p);
                    if (x == nullptr) throw runtime_error("driver: no font " + f.str("name"));
                    doc->GetPages().GetPageAt(0).GetOrCreateResources().AddResource("Font", PdfName("F" + to_string(fonts.size())), x->GetObject()); fonts.push_back(x); refs.push_back(x->GetObject().GetIndirectReference()); written.emplace_back();
                }
            }
            else if (o == "write")
            {
                size_t i = op.num("f"); charbuff b;
                bool ok = fonts[i]->GetEncoding().TryConvertToEncoded(utf8Of(op["cps"]), b);
                if (ok) written[i].push_back(b);
                r.set("ok", ok).set("bytes", bytesOf(ok ? (string)b : string())).set("all", all(i));
            }
            else if (o == "reload")
            {
                files.emplace_back(new string());
                StringStreamDevice dev(*files.back());
                doc->Save(dev);
                unique_ptr<PdfMemDocument> d(new PdfMemDocument());
                d->LoadFromBuffer(*files.back());
                fonts.clear(); doc = move(d);
                J a = J::arr();
                for (size_t i = 0; i < refs.size(); i++)
                {
                    auto& obj = doc->GetObjects().MustGetObject(refs[i]);
                    fonts.push_back(doc->GetFonts().GetLoadedFont(obj));
                    if (fonts.back() == nullptr) throw runtime_error("font not loaded");
                    auto text = [&](const char* key) { auto x = obj.GetDictionary().FindKey(key); if (x == nullptr || !x->HasStream()) return string(); string t; StringStreamDevice s(t); x->MustGetStream().CopyTo(s); return hexOf(t); };
                    a.push(J::obj().set("all", all(i)).set("unitext", text("ToUnicode")).set("cidtext", text("Encoding")));
                }
                r.set("fonts", a);
            }
            else throw runtime_error("driver: op " + o);
            return J::obj();
        });
        r.set("err", e.str("err"));
        ev.set("out", r);
        emit(ev);
    }
}
Reg reg3("simple", simple);
Reg reg4("fonttext", fonttext);
Reg reg("codemap", codemap);
Reg reg2("cmap", cmap);
}
