// Lexing, parsing and writing of objects; content streams.  Subsystem "syntax".
#include "common_pdf.h"
#include <pdfmm/base/PdfTokenizer.h>
#include <pdfmm/base/PdfPostScriptTokenizer.h>
#include <cstring>
#include <cmath>
using namespace std;
using namespace mm;

J tagOf(const PdfVariant& v)
{
    auto T = [](const char* t) { return J::obj().set("t", t); };
    switch (v.GetDataType())
    {
        case PdfDataType::Null: return T("null");
        case PdfDataType::Bool: return T(v.GetBool() ? "true" : "false");
        case PdfDataType::Number: return T("int").set("v", bytesOf(to_string(v.GetNumber())));
        case PdfDataType::Real:
        {
            char b[400]; snprintf(b, sizeof b, "%.6f", v.GetReal());
            if (strcmp(b, "-0.000000") == 0) return T("real").set("v", bytesOf("0.000000"));
            return T("real").set("v", bytesOf(b));
        }
        case PdfDataType::Name: return T("name").set("n", bytesOf(v.GetName().GetRawData()));
        case PdfDataType::String:
        {
            const PdfString& s = v.GetString();
            if (s.GetState() != PdfStringState::RawBuffer) return T("text");
            return T("str").set("s", bytesOf(s.GetRawData())).set("hex", s.IsHex());
        }
        case PdfDataType::Reference:
            return T("ref").set("r", J::arr().push(bytesOf(to_string(v.GetReference().ObjectNumber()))).push(bytesOf(to_string(v.GetReference().GenerationNumber()))));
        case PdfDataType::Array:
        {
            J a = J::arr();
            for (auto& e : v.GetArray()) a.push(tagOf(e.GetVariant()));
            return T("arr").set("a", a);
        }
        case PdfDataType::Dictionary:
        {
            J d = J::arr();
            for (auto& p : v.GetDictionary()) d.push(J::arr().push(bytesOf(p.first.GetRawData())).push(tagOf(p.second.GetVariant())));
            return T("dict").set("d", d);
        }
        default: return T("other");
    }
}
PdfVariant mkTag(const J& v)
{
    const string& t = v["t"].s;
    if (t == "null") return PdfVariant();
    if (t == "true") return PdfVariant(true);
    if (t == "false") return PdfVariant(false);
    if (t == "int") return PdfVariant((int64_t)stoll(bytesTo(v["v"])));
    if (t == "real") return PdfVariant(strtod(bytesTo(v["v"]).c_str(), nullptr));
    if (t == "name") return PdfVariant(PdfName::FromRaw(bytesTo(v["n"])));
    if (t == "str") return PdfVariant(PdfString::FromRaw(bytesTo(v["s"]), v["hex"].i != 0));
    if (t == "ref") return PdfVariant(PdfReference((uint32_t)stoul(bytesTo(v["r"].a[0])), (uint16_t)stoul(bytesTo(v["r"].a[1]))));
    if (t == "arr")
    {
        PdfArray a;
        for (auto& e : v["a"].a) a.Add(PdfObject(mkTag(e)));
        return PdfVariant(a);
    }
    if (t == "dict")
    {
        PdfDictionary d;
        for (auto& p : v["d"].a) d.AddKey(PdfName::FromRaw(bytesTo(p.a[0])), PdfObject(mkTag(p.a[1])));
        return PdfVariant(d);
    }
    throw runtime_error("driver: bad value");
}

namespace {
struct Tok : PdfTokenizer
{
    Tok(bool r) : PdfTokenizer(r) {}
    // one object or keyword
    bool next(InputStreamDevice& d, J& out)
    {
        string_view token; PdfTokenType type;
        if (!TryReadNextToken(d, token, type)) return false;
        string text(token);
        PdfVariant v;
        if (TryReadNextVariant(d, token, type, v, { })) out = tagOf(v);
        else out = J::obj().set("t", "kw").set("k", bytesOf(text));
        return true;
    }
};

J readAll(const J& op)
{
    string b = bytesTo(op["b"]);
    SpanStreamDevice dev(b);
    J seq = J::arr();
    if (op.num("refs"))
    {
        Tok t(true);
        J v;
        while (t.next(dev, v)) seq.push(v);
    }
    else
    {
        PdfPostScriptTokenizer t;
        PdfPostScriptTokenType type; string_view kw; PdfVariant v;
        while (t.TryReadNext(dev, type, kw, v))
        {
            if (type == PdfPostScriptTokenType::Variant) seq.push(tagOf(v));
            else if (type == PdfPostScriptTokenType::Keyword) seq.push(J::obj().set("t", "kw").set("k", bytesOf(kw)));
            else seq.push(J::obj().set("t", "brace"));
        }
    }
    return J::obj().set("v", seq);
}
J write(const J& op)
{
    charbuff out, tmp;
    StringStreamDevice dev(out);
    PdfVariant v = mkTag(op["v"]);
    string f = op.str("f");
    PdfWriteFlags fl = PdfWriteFlags::None;
    if (f.find('c') != string::npos) fl |= PdfWriteFlags::Clean;
    if (f.find('o') != string::npos)
    {
        PdfObject obj(v);
        obj.Write(dev, fl, nullptr, tmp);
    }
    else if (f.find('s') != string::npos)
        return J::obj().set("b", bytesOf(v.ToString()));
    else
        v.Write(dev, fl, PdfStatefulEncrypt(), tmp);
    return J::obj().set("b", bytesOf(string_view(out.data(), out.size())));
}

void run(const J& c, const Emit& emit)
{
    for (auto& op : c["ops"].a)
    {
        J ev = op;
        string o = op["op"].s;
        J r = guarded([&]() -> J {
            if (o == "read") return readAll(op);
            if (o == "write") return write(op);
            throw runtime_error("driver: op " + o);
        });
        if (r.has("err")) ev.set("err", r["err"].s); else { ev.set("err", ""); ev.set("out", r); }
        emit(ev);
    }
}
Reg reg("syntax", run);
}
