#pragma once
#include "vdrv.h"
#include <pdfmm/pdfmm.h>

// canonical projection of PDF values (see DESIGN.md, "Value projection")
J valueOf(const mm::PdfObject& obj, bool withStream = true);
J variantOf(const mm::PdfVariant& v);
mm::PdfObject mkValue(const J& v);
mm::PdfReference mkRef(const std::string& s);   // "12 0"
std::string refStr(const mm::PdfReference& r);
std::string latin(const std::string_view& s);
std::string blob(const std::string_view& s);    // printable form of stream data
mm::PdfSaveOptions saveOpts(const std::string& s);
