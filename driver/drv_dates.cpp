// Dates: texts of both formats and the instants they stand for.  Subsystem "dates".
#include "common_pdf.h"
#include <cstring>
using namespace std;
using namespace mm;

namespace {
long long fdiv(long long a, long long b) { long long q = a / b; return a % b < 0 ? q - 1 : q; }
}
J dateOf(const PdfDate& d)
{
    long long s = (long long)d.GetSecondsFromEpoch().count();
    J r = J::obj();
    r.set("days", fdiv(s, 86400)).set("sod", s - fdiv(s, 86400) * 86400);
    r.set("off", d.GetMinutesFromUtc().has_value() ? J((long long)d.GetMinutesFromUtc()->count()) : J(9999));
    return r;
}
PdfDate mkDate(const J& x)
{
    chrono::seconds s(x.num("days") * 86400 + x.num("sod"));
    if (x.num("off") == 9999) return PdfDate(s, { });
    return PdfDate(s, nullable<chrono::minutes>(chrono::minutes(x.num("off"))));
}
namespace {
void run(const J& c, const Emit& emit)
{
    for (auto& op : c["ops"].a)
    {
        J ev = op;
        J r = guarded([&]() -> J {
            string o = op.str("op");
            if (o == "parse")
            {
                // the text is followed by other bytes of the buffer it is part of
                string text = bytesTo(op["b"]), buf = text + bytesTo(op["tail"]);
                string_view v(buf.data(), text.size());
                PdfDate d, e;
                bool w3c = op.num("w3c") != 0;
                bool ok = w3c ? PdfDate::TryParseW3C(v, d) : PdfDate::TryParse(v, d);
                bool ok2 = true;
                try { e = w3c ? PdfDate::ParseW3C(v) : PdfDate::Parse(v); }
                catch (const PdfError&) { ok2 = false; }
                J r = J::obj();
                r.set("ok", ok).set("same", ok == ok2 && (!ok || d == e));
                r.set("v", dateOf(d));
                return r;
            }
            if (o == "format")
            {
                PdfDate d = mkDate(op);
                string a = d.ToString().GetString(), b = d.ToStringW3C().GetString();
                J r = J::obj();
                r.set("pdf", bytesOf(a)).set("w3c", bytesOf(b));
                PdfDate x, y;
                bool okx = PdfDate::TryParse(a, x), oky = PdfDate::TryParseW3C(b, y);
                r.set("back", okx && oky && x == d && y == d && !(x != d));
                return r;
            }
            throw runtime_error("driver: op " + o);
        });
        if (r.has("err")) ev.set("out", r); else { r.set("err", ""); ev.set("out", r); }
        emit(ev);
    }
}
Reg reg("dates", run);
}
