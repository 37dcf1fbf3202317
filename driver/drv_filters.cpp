// Stream filters.  Subsystem "filters".
#include "common_pdf.h"
#include <pdfmm/base/PdfFilter.h>
using namespace std;
using namespace mm;
namespace {
PdfFilterType typeOf(const string& f)
{
    if (f == "hex") return PdfFilterType::ASCIIHexDecode;
    if (f == "a85") return PdfFilterType::ASCII85Decode;
    if (f == "rle") return PdfFilterType::RunLengthDecode;
    if (f == "lzw") return PdfFilterType::LZWDecode;
    if (f == "flate") return PdfFilterType::FlateDecode;
    throw runtime_error("driver: filter " + f);
}
const char* nameOf(const string& f)
{
    return f == "hex" ? "ASCIIHexDecode" : f == "a85" ? "ASCII85Decode" : f == "rle" ? "RunLengthDecode" : f == "lzw" ? "LZWDecode" : "FlateDecode";
}
bool parms(const J& q, PdfDictionary& d)
{
    if (!q.has("given")) return false;
    for (auto& p : q["given"].a)
    {
        const string& k = p.s;
        if (k == "pred") d.AddKey("Predictor", PdfObject((int64_t)q["pred"].i));
        if (k == "colors") d.AddKey("Colors", PdfObject((int64_t)q["colors"].i));
        if (k == "bpc") d.AddKey("BitsPerComponent", PdfObject((int64_t)q["bpc"].i));
        if (k == "cols") d.AddKey("Columns", PdfObject((int64_t)q["cols"].i));
        if (k == "early") d.AddKey("EarlyChange", PdfObject((int64_t)q["early"].i));
    }
    return true;
}
J dec(const J& op)
{
    string b = bytesTo(op["b"]);
    string mode = op.str("mode");
    charbuff out;
    if (mode == "stream")
    {
        // through the stream object of a document
        PdfMemDocument doc;
        auto& obj = doc.GetObjects().CreateDictionaryObject();
        PdfArray fl, pl;
        bool anyParms = false;
        PdfFilterList none;
        for (auto& f : op["fs"].a)
        {
            fl.Add(PdfObject(PdfName(nameOf(f["f"].s))));
            PdfDictionary d;
            if (parms(f["q"], d)) { pl.Add(PdfObject(d)); anyParms = true; }
            else pl.Add(PdfObject(PdfVariant()));
        }
        auto& s0 = obj.GetOrCreateStream();
        SpanStreamDevice in(b);
        s0.SetData(in, true);
        if (fl.GetSize() == 1) obj.GetDictionary().AddKey("Filter", fl[0]);
        else obj.GetDictionary().AddKey("Filter", fl);
        if (anyParms)
        {
            if (op.num("indirect")) { auto& po = doc.GetObjects().CreateObject(pl.GetSize() == 1 ? pl[0] : PdfObject(pl)); obj.GetDictionary().AddKeyIndirect("DecodeParms", po); }
            else if (pl.GetSize() == 1) obj.GetDictionary().AddKey("DecodeParms", pl[0]);
            else obj.GetDictionary().AddKey("DecodeParms", pl);
        }
        // loaded again the stream has the filters of its dictionary
        doc.GetPages().CreatePage(PdfRect(0, 0, 10, 10));
        doc.GetTrailer().GetDictionary().AddKey("VDRV", obj.GetIndirectReference());
        charbuff file;
        BufferStreamDevice dev(file);
        doc.Save(dev);
        PdfMemDocument loaded;
        loaded.LoadFromBuffer(file);
        PdfObject* o = nullptr;
        for (auto x : loaded.GetObjects())
            if (x->GetIndirectReference() == obj.GetIndirectReference()) o = x;
        if (o == nullptr) throw runtime_error("driver: stream lost");
        auto& s = o->MustGetStream();
        int chunk = (int)op.num("chunk", 0);
        if (chunk == 0) out = s.GetCopy();
        else
        {
            auto is = s.GetInputStream();
            vector<char> buf((size_t)chunk);
            while (true)
            {
                bool eof;
                size_t n = is.Read(buf.data(), buf.size(), eof);
                out.append(buf.data(), n);
                if (eof) break;
            }
        }
        return bytesOf(string_view(out.data(), out.size()));
    }
    auto& f0 = op["fs"].a[0];
    auto filter = PdfFilterFactory::Create(typeOf(f0["f"].s));
    PdfDictionary d;
    bool has = parms(f0["q"], d);
    if (mode == "whole")
        filter->DecodeTo(out, b, has ? &d : nullptr);
    else
    {
        BufferStreamDevice dev(out);
        filter->BeginDecode(dev, has ? &d : nullptr);
        size_t p = 0;
        for (auto& c : op["cuts"].a)
        {
            size_t n = min((size_t)c.i, b.size() - p);
            filter->DecodeBlock({ b.data() + p, n });
            p += n;
        }
        if (p < b.size()) filter->DecodeBlock({ b.data() + p, b.size() - p });
        filter->EndDecode();
    }
    return bytesOf(string_view(out.data(), out.size()));
}
J enc(const J& op)
{
    string b = bytesTo(op["b"]);
    auto filter = PdfFilterFactory::Create(typeOf(op["f"].s));
    charbuff out;
    if (!op.has("cuts")) { filter->EncodeTo(out, b); return bytesOf(string_view(out.data(), out.size())); }
    BufferStreamDevice dev(out);
    filter->BeginEncode(dev);
    size_t p = 0;
    for (auto& c : op["cuts"].a)
    {
        size_t n = min((size_t)c.i, b.size() - p);
        filter->EncodeBlock({ b.data() + p, n });
        p += n;
    }
    if (p < b.size()) filter->EncodeBlock({ b.data() + p, b.size() - p });
    filter->EndEncode();
    return bytesOf(string_view(out.data(), out.size()));
}
void run(const J& c, const Emit& emit)
{
    for (auto& op : c["ops"].a)
    {
        J ev = op;
        string o = op["op"].s;
        J r = guarded([&]() -> J { return J::obj().set("v", o == "dec" ? dec(op) : enc(op)); });
        if (r.has("err")) ev.set("err", r["err"].s); else { ev.set("err", ""); ev.set("out", r["v"]); }
        emit(ev);
    }
}
Reg reg("filters", run);
}
