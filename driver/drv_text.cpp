// Text of strings and names.  Subsystem "text".
#include "common_pdf.h"
using namespace std;
using namespace mm;

namespace {
string utf8(const J& cps)
{
    string r;
    for (auto& c : cps.a)
    {
        unsigned x = (unsigned)c.i;
        if (x < 0x80) r += (char)x;
        else if (x < 0x800) { r += (char)(0xC0 | x >> 6); r += (char)(0x80 | (x & 63)); }
        else if (x < 0x10000) { r += (char)(0xE0 | x >> 12); r += (char)(0x80 | (x >> 6 & 63)); r += (char)(0x80 | (x & 63)); }
        else { r += (char)(0xF0 | x >> 18); r += (char)(0x80 | (x >> 12 & 63)); r += (char)(0x80 | (x >> 6 & 63)); r += (char)(0x80 | (x & 63)); }
    }
    return r;
}
J written(const PdfVariant& v)
{
    charbuff out, tmp;
    StringStreamDevice dev(out);
    v.Write(dev, PdfWriteFlags::None, PdfStatefulEncrypt(), tmp);
    return bytesOf(string_view(out.data(), out.size()));
}
J str(PdfString s)
{
    J r = J::obj();
    r.set("w1", written(PdfVariant(s)));
    PdfString copy(s);
    r.set("get", bytesOf(s.GetString()));
    r.set("w2", written(PdfVariant(copy)));
    if (string_view(s) != string_view(copy.GetString())) r.set("get", J::arr().push(-1));
    return r;
}
PdfString item(const J& x)
{
    if (x.str("k") == "cp") return PdfString(utf8(x["cp"]));
    return PdfString::FromRaw(bytesTo(x["b"]), x.num("hex") != 0);
}
J doc(const J& op)
{
    string file;
    vector<PdfReference> refs;
    {
        PdfMemDocument d;
        d.GetPages().CreatePage(PdfRect(0, 0, 10, 10));
        PdfArray anchor;
        for (auto& x : op["items"].a)
        {
            auto& o = d.GetObjects().CreateDictionaryObject();
            o.GetDictionary().AddKey("T", item(x));
            PdfArray a;
            a.Add(item(x));
            o.GetDictionary().AddKey("A", a);
            refs.push_back(o.GetIndirectReference());
            anchor.Add(o.GetIndirectReference());
        }
        d.GetCatalog().GetDictionary().AddKey("VDRV", anchor);
        string e = op.str("enc");
        if (e == "rc4") d.SetEncrypted("u", "o", PdfPermissions::Default, PdfEncryptAlgorithm::RC4V2, PdfKeyLength::L128);
        else if (e == "aes") d.SetEncrypted("u", "o", PdfPermissions::Default, PdfEncryptAlgorithm::AESV2, PdfKeyLength::L128);
        StringStreamDevice dev(file);
        d.Save(dev, PdfSaveOptions::NoModifyDateUpdate);
    }
    for (int round = 0; round < (int)op.num("rounds", 1); round++)
    {
        // reading the texts does not change what is saved
        PdfMemDocument d;
        d.LoadFromBuffer(file, op.str("enc").empty() ? "" : "u");
        for (auto& r : refs)
            if (round % 2 == 0) (void)guarded([&]() -> J { (void)d.GetObjects().MustGetObject(r).GetDictionary().MustFindKey("T").GetString().GetString(); return J(); });
        string next;
        StringStreamDevice dev(next);
        d.Save(dev, PdfSaveOptions::NoModifyDateUpdate);
        file = next;
    }
    PdfMemDocument d;
    d.LoadFromBuffer(file, op.str("enc").empty() ? "" : "u");
    J got = J::arr();
    for (auto& r : refs)
    {
        auto& dict = d.GetObjects().MustGetObject(r).GetDictionary();
        string a, b;
        J rd = guarded([&]() -> J {
        a = dict.MustFindKey("T").GetString().GetString();
        b = dict.MustFindKey("A").GetArray()[0].GetString().GetString();
        return J::obj(); });
        if (rd.has("err")) { got.push(J::arr().push(-2)); continue; }
        got.push(a == b ? bytesOf(a) : J::arr().push(-1));
    }
    return J::obj().set("get", got);
}
void run(const J& c, const Emit& emit)
{
    for (auto& op : c["ops"].a)
    {
        J ev = op;
        string o = op["op"].s;
        J r = guarded([&]() -> J {
            if (o == "mk") { string u = utf8(op["cp"]); return str(op.num("cstr") ? PdfString(u.c_str()) : PdfString(u)); }
            if (o == "raw") return str(PdfString::FromRaw(bytesTo(op["b"]), op.num("hex") != 0));
            if (o == "name" || o == "rawname")
            {
                PdfName n = o == "name" ? PdfName(utf8(op["cp"])) : PdfName::FromRaw(bytesTo(op["b"]));
                J r = J::obj().set("raw", bytesOf(n.GetRawData()));
                r.set("w", written(PdfVariant(n)));
                r.set("get", bytesOf(n.GetString()));
                PdfDictionary d;
                d.AddKey(PdfName::FromRaw(n.GetRawData()), PdfObject((int64_t)7));
                r.set("key", o == "name" && d.HasKey(PdfName(utf8(op["cp"]))) && n == PdfName::FromRaw(n.GetRawData()));
                return r;
            }
            if (o == "doc") return doc(op);
            if (o == "eq")
            {
                PdfString a(utf8(op["cp"])), b(utf8(op["cp2"]));
                J r = J::obj();
                r.set("eq", a == b && a == string_view(utf8(op["cp2"])));
                r.set("ne", a != b && a != string_view(utf8(op["cp2"])));
                r.set("veq", PdfVariant(a) == PdfVariant(b));
                // the bytes written for the text, read back
                charbuff out, tmp;
                StringStreamDevice dev(out);
                a.Write(dev, PdfWriteFlags::None, PdfStatefulEncrypt(), tmp);
                SpanStreamDevice in(out);
                PdfTokenizer tok;
                PdfVariant v;
                tok.ReadNextVariant(in, v);
                // equality does not depend on whether a string was evaluated, and does not evaluate it
                PdfString back = v.GetString();
                bool same = true, other = true;
                for (int k = 0; k < 2; k++)
                {
                    bool diff = op["cp"].dump() != op["cp2"].dump();
                    same = same && back == a && a == back && !(back != a) && back == string_view(utf8(op["cp"]));
                    other = other && (back != b) == diff && (b == back) == !diff && (back == string_view(utf8(op["cp2"]))) == !diff;
                    if (k == 0) { PdfString again = PdfString::FromRaw(back.GetRawData()); same = same && again == back && !(again != back); }
                    (void)back.GetString();
                }
                r.set("req", same && other);
                return r;
            }
            throw runtime_error("driver: op " + o);
        });
        if (r.has("err")) ev.set("out", r); else { r.set("err", ""); ev.set("out", r); }
        emit(ev);
    }
}
Reg reg("text", run);
}
