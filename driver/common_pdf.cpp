#include "common_pdf.h"
#include <cmath>
#include <cstring>
using namespace std;
using namespace mm;

string refStr(const PdfReference& r) { return to_string(r.ObjectNumber()) + " " + to_string(r.GenerationNumber()); }
PdfReference mkRef(const string& s)
{
    unsigned n = 0, g = 0;
    if (sscanf(s.c_str(), "%u %u", &n, &g) < 1) throw runtime_error("driver: bad ref " + s);
    return PdfReference(n, (uint16_t)g);
}
string latin(const string_view& s) { return string(s); }
string blob(const string_view& s)
{
    if (s.size() <= 48)
        return hexOf(s);
    uint64_t h = 1469598103934665603ull;
    for (unsigned char c : s) { h ^= c; h *= 1099511628211ull; }
    char b[64]; snprintf(b, sizeof b, "#%zu:%016llx", s.size(), (unsigned long long)h);
    return b;
}
// the bytes a string stands for in a file (text states included), without evaluating it
static string strRaw(const PdfString& s)
{
    if (s.GetState() == PdfStringState::RawBuffer)
        return string(s.GetRawData());
    charbuff buf, tmp;
    StringStreamDevice dev(buf);
    PdfVariant v(s);
    v.Write(dev, PdfWriteFlags::None, PdfStatefulEncrypt(), tmp);
    string w(buf), r;
    if (w.size() >= 2 && w[0] == '<') return unhex(w.substr(1, w.size() - 2));
    for (size_t i = 1; i + 1 < w.size(); i++)
    {
        if (w[i] != '\\') { r += w[i]; continue; }
        i++;
        switch (w[i])
        {
            case 'n': r += '\n'; break; case 'r': r += '\r'; break; case 't': r += '\t'; break;
            case 'b': r += '\b'; break; case 'f': r += '\f'; break; default: r += w[i];
        }
    }
    return r;
}
J variantOf(const PdfVariant& v)
{
    switch (v.GetDataType())
    {
        case PdfDataType::Null: return J::obj().set("s", "null");
        case PdfDataType::Bool: return J::obj().set("s", v.GetBool() ? "true" : "false");
        case PdfDataType::Number: return J::obj().set("s", to_string(v.GetNumber()));
        case PdfDataType::Real:
        {
            char b[400]; snprintf(b, sizeof b, "f%.6f", v.GetReal());
            if (strcmp(b, "f-0.000000") == 0) return J::obj().set("s", "f0.000000");
            return J::obj().set("s", string(b));
        }
        case PdfDataType::Name: return J::obj().set("s", "/" + hexOf(v.GetName().GetRawData()));
        case PdfDataType::String:
        {
            const PdfString& s = v.GetString();
            string o = s.IsHex() ? "<" : "(";
            o += hexOf(strRaw(s));
            return J::obj().set("s", o);
        }
        case PdfDataType::Reference: return J::obj().set("r", refStr(v.GetReference()));
        case PdfDataType::Array:
        {
            J a = J::arr();
            for (auto& e : v.GetArray()) a.push(valueOf(e, false));
            return J::obj().set("a", a);
        }
        case PdfDataType::Dictionary:
        {
            J d = J::obj();
            for (auto& p : v.GetDictionary()) d.set(string(p.first.GetRawData()), valueOf(p.second, false));
            return J::obj().set("d", d);
        }
        case PdfDataType::RawData: return J::obj().set("s", "raw");
        default: return J::obj().set("s", "unknown");
    }
}
J valueOf(const PdfObject& obj, bool withStream)
{
    J v = variantOf(obj.GetVariant());
    if (withStream && obj.IsDictionary() && obj.HasStream())
    {
        J d = J::obj();
        for (auto& p : v["d"].o)
            if (p.first != "Length" && p.first != "Filter" && p.first != "DecodeParms") d.set(p.first, p.second);
        charbuff data = obj.MustGetStream().GetCopySafe();
        return J::obj().set("d", d).set("x", blob(data));
    }
    return v;
}
PdfObject mkValue(const J& v)
{
    if (v.has("r")) return PdfObject(mkRef(v["r"].s));
    if (v.has("a"))
    {
        PdfArray arr;
        for (auto& e : v["a"].a) arr.Add(mkValue(e));
        return PdfObject(arr);
    }
    if (v.has("d"))
    {
        PdfDictionary d;
        for (auto& p : v["d"].o) d.AddKey(PdfName::FromRaw(p.first), mkValue(p.second));
        return PdfObject(d);
    }
    const string& s = v["s"].s;
    if (s == "null") return PdfObject(PdfVariant());
    if (s == "true") return PdfObject(true);
    if (s == "false") return PdfObject(false);
    if (s[0] == 'f') return PdfObject(strtod(s.c_str() + 1, nullptr));
    if (s[0] == '/') return PdfObject(PdfName::FromRaw(unhex(s.substr(1))));
    if (s[0] == '(' || s[0] == '<')
    {
        if (s.size() > 1 && s[1] == 't') return PdfObject(PdfString(unhex(s.substr(2))));
        return PdfObject(PdfString::FromRaw(unhex(s.substr(1)), s[0] == '<'));
    }
    return PdfObject((int64_t)stoll(s));
}
PdfSaveOptions saveOpts(const string& s)
{
    PdfSaveOptions o = PdfSaveOptions::NoModifyDateUpdate;
    for (char c : s)
    {
        if (c == 'g') o = o | PdfSaveOptions::NoCollectGarbage;
        else if (c == 'c') o = o | PdfSaveOptions::Clean;
        else if (c == 'z') o = o | PdfSaveOptions::NoFlateCompress;
        else if (c == 'm') o = (PdfSaveOptions)((int)o & ~(int)PdfSaveOptions::NoModifyDateUpdate);
    }
    return o;
}
