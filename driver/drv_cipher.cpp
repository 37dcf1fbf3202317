// The security handler on its own: data of objects of any number and generation.  Subsystem "cipher".
#include "common_pdf.h"
using namespace std;
using namespace mm;

namespace {
PdfEncryptAlgorithm algorithm(const string& s)
{
    if (s == "RC4V1") return PdfEncryptAlgorithm::RC4V1;
    if (s == "RC4V2") return PdfEncryptAlgorithm::RC4V2;
    if (s == "AESV2") return PdfEncryptAlgorithm::AESV2;
#ifdef PDFMM_HAVE_LIBIDN
    if (s == "AESV3") return PdfEncryptAlgorithm::AESV3;
    if (s == "AESV3R6") return PdfEncryptAlgorithm::AESV3R6;
#endif
    throw runtime_error("driver: alg");
}
string hexOf(const string_view& v)
{
    static const char* d = "0123456789abcdef";
    string r;
    for (unsigned char c : v) { r += d[c >> 4]; r += d[c & 15]; }
    return r;
}
void run(const J& c, const Emit& emit)
{
    unique_ptr<PdfEncrypt> enc;
    for (auto& op : c["ops"].a)
    {
        J ev = op;
        J r = guarded([&]() -> J {
            string o = op.str("op");
            J res = J::obj().set("err", "");
            if (o == "make")
            {
                auto e = PdfEncrypt::Create(unhex(op["uraw"].s), unhex(op["oraw"].s), (PdfPermissions)op["perm"].i, algorithm(op["alg"].s), (PdfKeyLength)op.num("len"));
                e->GenerateEncryptionKey(PdfString::FromRaw(unhex(op["id"].s)));
                PdfDictionary d;
                e->CreateEncryptionDictionary(d);
                string s;
                PdfObject(d).ToString(s);
                res.set("dict", hexOf(s));
                if (op.num("again"))
                {
                    // by way of the dictionary and a password, as when a file is opened
                    PdfObject obj(d);
                    enc = PdfEncrypt::CreateFromObject(obj);
                    res.set("auth", enc->Authenticate(unhex(op[op.num("again") == 1 ? "uraw" : "oraw"].s), PdfString::FromRaw(unhex(op["id"].s))));
                }
                else { enc = move(e); res.set("auth", true); }
                if (op.num("copy")) enc = PdfEncrypt::CreateFromEncrypt(*enc);
                return res;
            }
            PdfReference ref((uint32_t)op.num("n"), (uint16_t)op.num("g"));
            string x = unhex(op["x"].s);
            charbuff sealed, opened;
            enc->EncryptTo(sealed, bufferview(x.data(), x.size()), ref);
            enc->DecryptTo(opened, bufferview(sealed.data(), sealed.size()), ref);
            res.set("hex", hexOf(string_view(sealed.data(), sealed.size())));
            res.set("back", hexOf(string_view(opened.data(), opened.size())));
            res.set("size", (long long)enc->CalculateStreamLength(x.size()));
            if (sealed.size())
            {
                // read as a stream is
                SpanStreamDevice dev(bufferview(sealed.data(), sealed.size()));
                auto in = enc->CreateEncryptionInputStream(dev, sealed.size(), ref);
                string got;
                vector<char> buf((size_t)op.num("chunk", 64));
                bool eof = false;
                while (!eof)
                {
                    eof = true;     // says nothing before the call
                    size_t n = in->Read(buf.data(), buf.size(), eof);
                    got.append(buf.data(), n);
                }
                res.set("streamed", hexOf(got));
            }
            else res.set("streamed", "");
            return res;
        });
        ev.set("out", r);
        emit(ev);
    }
}
Reg reg("cipher", run);
}
