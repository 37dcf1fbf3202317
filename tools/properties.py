#!/usr/bin/env python3
"""Source of properties.jsonl and of MANIFEST.json (run: tools/properties.py)."""
import json, os, sys
ROOT = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
sys.path.insert(0, os.path.join(ROOT, "lib"))
sys.dont_write_bytecode = True
B = "src/pdfmm/base/"
P = []


def p(pid, title, statement, over, text, why, files, mech, level_note, observe=None, technique=None):
    P.append(dict(pid=pid, title=title, statement=statement, over=over, text=text, why=why,
                  files=[B + f if "/" not in f else f for f in files],
                  mech=[{"name": n, "where": B + w if "/" not in w else w} for n, w in mech],
                  note=level_note, observe=observe or [], technique=technique))


TRUST = ("Exhaustive only for the small design model; the binding to the code is by executing behaviours and checking each recorded "
         "event against the specification, so it covers the executed behaviours. Trusts TLC, the projection of library values in the driver")

p("P01", "Saving and loading a document reproduces it",
  "Whatever sequence of edits produced a document, saving it (with any combination of save options, to a file, a buffer, or with a "
  "cross-reference stream) and loading the result yields the same indirect objects under the same references, with equal values and equal "
  "stream contents, and the same catalog and information dictionary. With garbage collection enabled exactly the objects reachable from the "
  "trailer are in the result, otherwise all of them.",
  ["histories", "inputs", "configurations"], "all edit histories, values, stream filters and save options",
  "The tests save a handful of fixed documents; the guarantee quantifies over all object graphs, values and histories.",
  ["PdfMemDocument.cpp", "PdfWriter.cpp", "PdfParser.cpp", "PdfParserObject.cpp", "PdfXRef.cpp", "PdfXRefStream.cpp", "PdfObject.cpp", "PdfVariant.cpp", "PdfObjectStream.cpp"],
  [("object serialisation", "PdfObject.cpp:Write"), ("cross-reference writing", "PdfXRef.cpp"), ("file parser", "PdfParser.cpp"), ("lazy object parser", "PdfParserObject.cpp")],
  TRUST)
p("P02", "Incremental updates preserve the old bytes and carry every change",
  "An incremental update leaves the bytes of the original file untouched as a prefix, and loading the updated file yields exactly the document "
  "as it was in memory when the update was written: every object created or changed since loading (at any nesting depth, in arrays, "
  "dictionaries or stream contents) has its new value, untouched objects keep theirs, and removed objects are gone. This holds for arbitrarily "
  "long chains of updates with reloads in between.",
  ["histories", "configurations"], "all edit histories and update chains, over classic and stream cross-references, files and buffers",
  "The tests update one fixed document once; that every mutation path marks its object as changed must hold for all operations at all depths.",
  ["PdfMemDocument.cpp", "PdfWriter.cpp", "PdfObject.cpp", "PdfDataContainer.cpp", "PdfArray.cpp", "PdfDictionary.cpp", "PdfXRef.cpp"],
  [("changed marking", "PdfObject.cpp:SetDirty"), ("parent propagation", "PdfDataContainer.cpp:SetDirty"), ("update writing", "PdfWriter.cpp:WriteUpdate")],
  TRUST)
p("P03", "A reference never comes to mean another object",
  "Two live objects never share an object number, and a reference handed out for a new object differs from every reference that designated "
  "an object earlier in the history of the document, across removals, garbage collections, saves, updates and reloads; a reused number gets a "
  "higher generation and a number freed at the maximum generation is never reused. Looking up a reference whose object was removed finds nothing.",
  ["histories"], "all create, remove, collect, save and reload histories, including files with any pre-existing free list",
  "Reuse depends on the whole history of removals, which tests sample in a few steps only.",
  ["PdfIndirectObjectList.cpp", "PdfParser.cpp", "PdfXRef.cpp", "PdfReference.cpp"],
  [("free list", "PdfIndirectObjectList.cpp:getNextFreeObject"), ("generation increment", "PdfIndirectObjectList.cpp:SafeAddFreeObject"), ("free entries on load", "PdfParser.cpp")],
  TRUST)
p("P04", "Garbage collection removes exactly the unreachable objects",
  "Collecting garbage (explicitly or as part of saving) removes exactly the objects that cannot be reached from the trailer through any "
  "chain of references, whatever cycles, sharing, dangling references or nesting the graph has, and changes no other object.",
  ["histories", "inputs"], "all object graphs",
  "Reachability quantifies over all graphs; tests hold no cyclic or dangling ones.",
  ["PdfIndirectObjectList.cpp", "PdfMemDocument.cpp"], [("graph traversal", "PdfIndirectObjectList.cpp:visitObject"), ("collection", "PdfIndirectObjectList.cpp:CollectGarbage")],
  TRUST)
p("P05", "Every written file has a consistent cross-reference structure",
  "In every file the library writes, each in-use cross-reference entry holds the exact offset of the object with that number and generation, "
  "every object written is announced by the section of its revision, no number is listed twice in a section, entry 0 heads a well-formed linked list "
  "of free entries, the trailer size exceeds every number, revisions chain backwards to the first one, and identifiers are present.",
  ["histories", "configurations"], "all documents, save modes and update chains",
  "Readers recover silently from broken structure, so round-trip tests cannot see it.",
  ["PdfXRef.cpp", "PdfXRefStream.cpp", "PdfWriter.cpp"], [("section merging", "PdfXRef.cpp"), ("trailer", "PdfWriter.cpp:FillTrailerObject")],
  TRUST + " and the independent byte scanner (lib/pdfraw.py)")

p("P06", "Encrypted documents keep their content, their passwords and their secrecy",
  "A document saved or incrementally updated with any supported encryption opens with exactly its user or owner password and no other, "
  "then contains exactly the objects, strings and streams it had in memory and grants the permissions that were set; an independent "
  "implementation of the standard security handler opens and decrypts the same file to the same content; every string and stream of the file "
  "is encrypted except those the format exempts; and encryption survives loading, saving, updating, replacing and removing it.",
  ["histories", "inputs"], "all documents, passwords, permissions, algorithms and key lengths, and all sequences of saving, updating and reloading",
  "Unit tests check the cipher on a sample; what matters is which objects are encrypted with which key over the life of a document.",
  ["PdfEncrypt.cpp", "PdfWriter.cpp", "PdfParser.cpp", "PdfParserObject.cpp", "PdfMemDocument.cpp"],
  [("keys and passwords", "PdfEncrypt.cpp:Authenticate"), ("writing", "PdfWriter.cpp:Write"), ("loading", "PdfParser.cpp:ReadObjects")],
  TRUST + " and the independent security handler (lib/pdfcrypt.py over libcrypto)")
p("P09", "The document is a sequence of pages",
  "Whatever shape the page tree has, the pages of a document form a sequence: the page count equals its length, GetPageAt(i) is its i-th element, "
  "creating, inserting, moving and removing pages change it exactly as the same operations on a list, a page object obtained earlier reports "
  "its current index, lookup by reference agrees with lookup by index, an out of range index raises an error and changes nothing, and "
  "the raw page tree (Kids, Count, Parent) always represents that sequence, also after saving and reloading.",
  ["histories", "inputs"], "all page trees and all sequences of page operations",
  "Correctness depends on tree shape, the page cache and the history of operations together.",
  ["PdfPageCollection.cpp", "PdfPage.cpp", "PdfPageTreeCache.cpp"],
  [("tree insertion", "PdfPageCollection.cpp:InsertPageAt"), ("deletion", "PdfPageCollection.cpp:DeletePageNode"), ("cache", "PdfPageTreeCache.cpp"), ("move", "PdfPage.cpp:MoveAt")],
  TRUST)
p("P10", "Effective page attributes follow the inheritance rules",
  "The media box, crop box, rotation and resources of a page are its own or those of the nearest ancestor that has them; trim, bleed and art boxes "
  "are never inherited and default to the crop box, which defaults to the media box; boxes are reported in normal form; and setting an "
  "attribute of one page changes that page and no other page, also after saving, reloading and importing the page into another document.",
  ["histories", "inputs"], "all page trees with attributes at any level and all edits of them",
  "Depends on the combination of levels at which attributes are present, which grows with the tree.",
  ["PdfPage.cpp", "PdfPageCollection.cpp", "PdfRect.cpp"],
  [("box lookup", "PdfPage.cpp:GetPageBox"), ("inherited keys", "PdfPage.cpp:GetInheritedKey"), ("resources", "PdfPage.cpp:EnsureResourcesCreated")],
  TRUST)
p("P12", "Outlines form the tree that was built",
  "The outline of a document is the tree of titled items built by creating, inserting, editing and erasing items: navigating it (First, Next, "
  "Prev, Last, parent) visits exactly those items in order with their titles, destinations, colours and styles, and the First, Last, "
  "Next, Prev and Parent entries in the objects agree with it, also after saving and reloading.",
  ["histories"], "all outline editing histories",
  "Linked structure under arbitrary interleavings of insertion and erasure.",
  ["PdfOutlines.cpp"], [("insertion", "PdfOutlines.cpp:InsertChildInternal"), ("erasure", "PdfOutlines.cpp:Erase"), ("loading", "PdfOutlines.cpp")],
  TRUST)
p("P13", "Importing pages brings them over unchanged and leaves the rest alone",
  "Appending a document, appending a range of its pages or inserting one of its pages puts exactly those pages, with the same contents, "
  "resources and effective attributes and in the same order, at the requested position of the target document, joins the outlines, leaves the "
  "target's other pages unchanged and does not modify the source document; object numbers of the two documents never get mixed up.",
  ["histories", "inputs"], "all pairs of documents (page trees, outlines, object numbering) and sequences of imports",
  "References must be renumbered consistently for every numbering of the two documents, including free and sparse numbers.",
  ["PdfDocument.cpp", "PdfPageCollection.cpp", "PdfIndirectObjectList.cpp"],
  [("document append", "PdfDocument.cpp:AppendDocumentPages"), ("reference fixing", "PdfDocument.cpp:fixObjectReferences"), ("page insert", "PdfDocument.cpp:InsertDocumentPageAt")],
  TRUST)

p("P17", "Objects are read and written with the syntax of PDF",
  "Reading any legal spelling of a sequence of PDF objects (numbers, names with escapes, literal strings with escapes and nested parentheses, "
  "hexadecimal strings, references, arrays, dictionaries, comments and white space anywhere) yields exactly the objects it denotes, and writing any "
  "object yields a legal spelling of it, so that a value written next to any other value is read back equal.",
  ["inputs"], "all objects and all spellings of them",
  "The grammar leaves unboundedly many spellings and neighbourhoods of tokens; tests try a few dozen.",
  ["PdfTokenizer.cpp", "PdfVariant.cpp", "PdfName.cpp", "PdfString.cpp", "PdfReference.cpp", "PdfArray.cpp", "PdfDictionary.cpp"],
  [("tokens", "PdfTokenizer.cpp:TryReadNextToken"), ("values", "PdfTokenizer.cpp:ReadNextVariant"), ("strings", "PdfTokenizer.cpp:ReadString"), ("writing", "PdfVariant.cpp:Write")],
  TRUST)
p("P19", "Stream filters decode and encode as specified",
  "Data encoded with ASCIIHexDecode, ASCII85Decode, RunLengthDecode, LZWDecode or FlateDecode (with PNG and TIFF predictors of 8 bits, any number of "
  "colours, bits per component and columns, and both settings of EarlyChange), alone or in chains, decodes to exactly the original data, however the data is split into blocks "
  "on its way and whatever follows the end of data marker; and encoding any data with a supported encoder, in any split, yields data that decodes to it.",
  ["inputs"], "all data, all encodings of it, all parameters, chains and splits into blocks",
  "The filters keep state between blocks; faults show only for certain splits, widths of codes or parameters.",
  ["PdfFilter.cpp", "PdfObjectStream.cpp", "src/pdfmm/private/PdfFiltersPrivate.cpp"],
  [("filters", "src/pdfmm/private/PdfFiltersPrivate.cpp"), ("chains", "PdfFilter.cpp:PdfBufferedDecodeStream"), ("stream decoding", "PdfObjectStream.cpp:getInputStream")],
  TRUST + ". Inflating is left to zlib (called by the harness)")
p("P07", "Streams of objects hold exactly the data put into them",
  "Whatever sequence of operations is applied to the streams of objects (setting data raw or with filters, writing and appending piece by piece, copying, "
  "assigning and moving streams or whole objects, unwrapping, saving, updating and reloading), the decoded data of each stream is the data last put into it, "
  "its /Filter, /DecodeParms and length always describe the encoded bytes, readers deliver the data whatever the sizes of the reads, filters of media are left alone; "
  "while a reader or writer is open, further ones are refused; and operations that fail lose no data.",
  ["inputs", "histories"], "all data, filters and parameters, all interleavings of operations on streams and their readers and writers",
  "Loading is lazy, data passes through several buffers and the dictionary and the stream keep separate notions of the filters; faults need combinations of these.",
  ["PdfObjectStream.cpp", "PdfMemoryObjectStream.cpp", "PdfFilter.cpp", "PdfObject.cpp", "PdfParserObject.cpp"],
  [("writers", "PdfObjectStream.cpp:PdfObjectOutputStream"), ("copies", "PdfObjectStream.cpp:CopyFrom"), ("unwrapping", "PdfObjectStream.cpp:Unwrap"), ("moving objects", "PdfObject.cpp:moveFrom")],
  TRUST)

p("P18", "Text is read from strings and names as it was written",
  "Text put into a string or a name is the text any reader finds in the file, whatever characters it has (PDFDocEncoding, UTF-16 with surrogate pairs, text that looks "
  "like an encoding mark), before and after saving, encrypting and reloading; a string of a file yields exactly the text its bytes denote (PDFDocEncoding, UTF-16, UTF-8); reading a text "
  "never changes what is saved, and strings are equal exactly if their texts are.",
  ["inputs"], "all texts and all bytes of strings",
  "The encoding is chosen by the content and changed when it is evaluated; tests use a few words in four languages.",
  ["PdfString.cpp", "PdfName.cpp", "../private/PdfEncodingPrivate.cpp"],
  [("evaluation", "PdfString.cpp:evaluateString"), ("choice of encoding", "PdfString.cpp:initFromUtf8String"), ("names", "PdfName.cpp:initFromUtf8String")],
  TRUST)

p("P21", "Contents are read as the sequence of their operators",
  "Reading the contents of a page or form yields exactly its operators in order with exactly their operands, however the contents are divided into streams, inline images with their dictionaries and "
  "exact data (also through a custom handler), and unknown keywords as such; XObjects shown are reported, forms are read in place with their own resources and never re-entered recursively, so reading always ends; "
  "wrong operand counts, missing XObjects and recursion are reported as warnings, and as errors if requested, and nothing else is.",
  ["inputs", "configurations"], "all contents, divisions into streams, graphs of forms and options of the reader",
  "Tests read two handwritten contents; divisions of streams, graphs of forms and image data are unbounded.",
  ["PdfContentsReader.cpp", "PdfCanvasInputDevice.cpp", "PdfPostScriptTokenizer.cpp", "PdfOperatorUtils.cpp", "PdfVariantStack.cpp", "PdfXObject.cpp"],
  [("reader", "PdfContentsReader.cpp:TryReadNext"), ("forms", "PdfContentsReader.cpp:tryFollowXObject"), ("streams", "PdfCanvasInputDevice.cpp:readBuffer")],
  TRUST)

p("P08", "Files of any producer mean what they say, whatever is read first",
  "Loading a well-formed file of any other producer yields exactly the objects its newest revision defines: cross-reference tables, streams and hybrid sections in chains of "
  "revisions, compressed objects in object streams, generations and free entries, filters, predictors, indirect lengths and filters, any spelling and white space, and standard protection of every revision. Objects are "
  "read on demand: the order of access, giving objects up and reading them again, and edits in between change nothing of what is read. The file can be changed, saved and updated like one of the library's own, "
  "its structure-carrying objects stay as long as they are needed, and freed numbers keep their generations.",
  ["inputs", "histories", "configurations"], "all well-formed files, orders of access and edits",
  "Tests load a handful of files in one order; the combinations of structure a producer may choose and orders of lazy loading are unbounded.",
  ["PdfParser.cpp", "PdfParserObject.cpp", "PdfXRefStreamParserObject.cpp", "PdfObjectStreamParser.cpp", "PdfTokenizer.cpp", "PdfIndirectObjectList.cpp", "PdfObject.cpp", "PdfEncrypt.cpp"],
  [("sections", "PdfParser.cpp:ReadXRefContents"), ("cross-reference streams", "PdfXRefStreamParserObject.cpp:ReadXRefTable"), ("object streams", "PdfObjectStreamParser.cpp"), ("reading on demand", "PdfParserObject.cpp:DelayedLoad")],
  TRUST + ". The producer is the harness's own")

p("P26", "Dates name the same instant in every form",
  "A date written by the library, in the PDF form or the W3C form, is read back as the same instant, with the same zone (or none), whatever the instant, zone and day of the calendar. "
  "Every well-formed text of a date, shortened to any component the format allows to leave out, with any zone, and with fractions of a second in the W3C form, is read as exactly the instant it names, "
  "whatever bytes follow the text in memory; a text that is not a date is rejected and never read as some other date. Dates put into the document's information are read back equal after saving.",
  ["inputs"], "all instants, zones and texts",
  "The calendar arithmetic, the optional components and the malformed neighbours of every form are an input space of which tests sample a handful.",
  ["PdfDate.cpp", "PdfDate.h", "PdfInfo.cpp"],
  [("reading", "PdfDate.cpp:tryParse"), ("W3C form", "PdfDate.cpp:tryParseW3C"), ("writing", "PdfDate.cpp:createStringRepresentation")],
  TRUST + ". Texts the standards leave open (a day beyond the end of its month, zone hours from 24 on, components of one digit) are not claimed")

p("P27", "Document metadata: one view of information dictionary and XMP packet",
  "What is set as a document's metadata (texts, keywords, dates, trapping, PDF/A level) is what is read back, at once and after saving and loading, whatever characters it has and whether the document has an information dictionary, an XMP packet, both or none, "
  "in whatever shape another producer wrote the packet. A value the dictionary does not have is taken from the packet. After synchronizing, and after saving with a new modification date, an existing packet states exactly what is read, as well-formed XML with "
  "every property once; the modification date is the time of saving unless that was switched off. Properties and keys the library does not know survive, malformed dates are read as absent, and a document loaded over another one shows its own metadata.",
  ["inputs", "histories"], "all metadata, packets and histories of edits, synchronizations, saves and loads",
  "Two representations that must agree over arbitrary histories and texts; tests set a few plain values once.",
  ["PdfMetadata.cpp", "PdfInfo.cpp", "PdfXMPPacket.cpp", "../private/XMPUtils.cpp", "PdfCatalog.cpp", "PdfMemDocument.cpp"],
  [("view", "PdfMetadata.cpp:ensureInitialized"), ("packet", "XMPUtils.cpp"), ("normalization", "PdfXMPPacket.cpp"), ("saving", "PdfMemDocument.cpp:beforeWrite")],
  TRUST + ". Packets use the conventional namespace prefixes; texts are what XML can hold. Saving with the modification date switched off may or may not write pending changes to the packet")

p("P16", "Objects, arrays and dictionaries are values, and their edits reach the file",
  "Copying, assigning, moving, inserting or swapping objects, arrays and dictionaries gives independent deep copies: an operation changes its target (and what it moved from) and nothing else, also when the value given is part of the target "
  "or the target part of it; an operation that fails changes nothing. Every nested value belongs to the container, object and document it is in, so that any edit anywhere in an object of a loaded document survives an incremental save. "
  "Reading by key, position or type gives what was put; Find follows a reference in a document (nothing when its object does not exist), fails outside of one, and follows Parent links, loops among them, to an end; positions out of range and "
  "accesses with the wrong type fail or give the default, as documented per accessor; references are stored only to indirect objects of the same document; equality of containers is equality of their values.",
  ["inputs", "history"], "all values, places and operations",
  "What an operation may damage depends on the history of the containers (reallocations, moves, shared parents) and on how source and target overlap.",
  ["PdfArray.cpp", "PdfArray.h", "PdfDictionary.cpp", "PdfDictionary.h", "PdfObject.cpp", "PdfVariant.cpp", "PdfDataContainer.cpp"],
  [("elements and their owner", "PdfArray.cpp:insertAt"), ("dirty propagation", "PdfDataContainer.cpp:SetDirty"), ("assignment", "PdfObject.cpp:assign"), ("lookups", "PdfDictionary.cpp:findKeyParent")],
  TRUST + ". Not claimed: the value left in an object moved from; inserting a range of an array into itself; streams of values that are not indirect objects")

p("P15", "Form fields keep their tree, type, names, flags and values",
  "A field created on the form, on a page or below another field has the requested type, name and parent, and appears once in the lists it belongs to; widgets of one name and type become children of one field that keeps the name, type, flags and value "
  "of the first; a name with a dot or of a field of another type is refused and changes nothing. Setting a flag changes this flag of this field only, also when flags are inherited; type, names, flags, value and length limit not present in a field "
  "are those of its nearest ancestor that has them; the full name is the path of the names (dots doubled on request), also when parents form a loop. Values read are values set: texts (also rich), options, selections, check marks, captions, "
  "actions, highlighting; values too long or out of range and values of non-terminal fields are refused. Removing a field from a list removes only that. All of this is the same after saving and reopening, and one invalid "
  "element or annotation of a list does not hide the others.",
  ["inputs", "history"], "all fields, forms and histories",
  "What a field shows depends on its ancestors and on the order fields, widgets and flags were created in; the lists are cached beside the arrays of the document.",
  ["PdfAcroForm.cpp", "PdfField.cpp", "PdfFieldChildrenCollection.cpp", "PdfTextBox.cpp", "PdfChoiceField.cpp", "PdfCheckBox.cpp", "PdfButton.cpp", "PdfAnnotationCollection.cpp"],
  [("creation and sharing of names", "PdfField.cpp:CreateField"), ("flags", "PdfField.cpp:SetFieldFlag"), ("list of fields", "PdfAcroForm.cpp:initFields"), ("children", "PdfFieldChildrenCollection.cpp:initFields")],
  TRUST + ". Not claimed: the length limit, options and alternate name of a field that becomes one of several widgets; appearance streams of widgets (P14)")

p("P20", "Devices are sequences of bytes with one position",
  "For buffers, vectors, strings, spans, streams and files alike: writing puts the bytes at the position, changes no others and never shortens; reading gives the bytes from the position on, or fails (or says so) at the end; both advance one common position, in "
  "any order of reads, writes and seeks, also after the end was reached; seeking goes where it is told relative to begin, position or end, and refuses what is outside; peeking and asking for length, position and end change nothing; copying to another stream "
  "copies the rest, or as many bytes as asked, whatever the buffer sizes. What the access or the kind of the device does not allow is refused and changes nothing, and the device stays usable. Files are opened, created, kept or truncated as their mode says.",
  ["inputs", "history"], "all data, devices and sequences of operations",
  "The standard streams keep two positions and an end flag with effects on later operations that only particular sequences show.",
  ["PdfStreamDevice.cpp", "PdfStreamDevice.h", "PdfStreamDeviceBase.cpp", "PdfInputStream.cpp", "PdfOutputStream.cpp", "PdfInputDevice.cpp"],
  [("seeking", "PdfStreamDevice.cpp:StandardStreamDevice::seek"), ("file modes", "PdfStreamDevice.cpp:FileStreamDevice::getFileStream"), ("buffers", "PdfStreamDevice.h:writeBuffer"), ("copying", "PdfInputStream.cpp:InputStream::CopyTo")],
  TRUST + ". Not claimed: positions behind the end of files; I/O errors of the operating system")

p("P11", "Names and settings registered with a document are found again",
  "A name tree of a document is a mapping of names to values: over any history of insertions (new names, repeated names, in any order and number, into trees made by the library or by other programs), saves, updates and loads, looking up a name gives its last value or nothing, "
  "the dictionary of a tree has exactly its names, and the tree of nodes in the document stays well-formed (names ascending by their bytes, each once; limits of every node but the root exactly its least and greatest name; no node without names). Named destinations, of either kind, lead to their pages, attachments to "
  "their content. The settings of the catalog (page mode and what follows full screen, layout, viewer preferences, language, base URI, version, extensions) are those set last.",
  ["histories", "inputs"], "all histories of insertions, lookups, settings, saves and loads, and all well-formed trees found in files",
  "Splitting and limits interact over levels that need thousands of names, or trees of other programs, to come about; lookups go wrong only for names at the edges of limits.",
  ["PdfNameTree.cpp", "PdfDestination.cpp", "PdfDocument.cpp", "PdfCatalog.cpp", "PdfMemDocument.cpp"],
  [("insertion", "PdfNameTree.cpp:AddValue"), ("splitting", "PdfNameTree.cpp:Rebalance"), ("limits", "PdfNameTree.cpp:SetLimits"), ("lookup", "PdfNameTree.cpp:GetKeyValue"), ("extensions", "PdfMemDocument.cpp:RemovePdfExtension")],
  TRUST + ". Not claimed: trees that are not well-formed when found; removal of names (there is none); attachments are registered under the encoded form of their file names")

p("P14", "The annotations of a page are what was made of them",
  "Over any history of creating annotations, removing them (by index or reference), changing their attributes and saving and loading, each page has exactly the annotations the history gives, in order, with the indices, references and looks-ups agreeing, no other page or annotation is "
  "affected, and each annotation has the type, rectangle, flags, texts, color, border, quadrilaterals, open state, destination, action, file, appearance per mode and state, appearance characteristics and popup parent it was given (by the library or by the file it was loaded from); "
  "entries of files that are no annotations count but are otherwise harmless; what is not there is refused without effect.",
  ["histories", "inputs"], "all histories of edits, saves and loads of annotations of all kinds, created or found in files",
  "The collection keeps the array, its cache and a map from references to indices in step over every edit; attributes are spread over optional keys with inheritance; files hold shapes the library never writes.",
  ["PdfAnnotation.cpp", "PdfAnnotationCollection.cpp", "PdfDestination.cpp", "PdfAction.cpp", "PdfFileSpec.cpp", "PdfColor.cpp"],
  [("removal", "PdfAnnotationCollection.cpp:RemoveAnnot"), ("indices", "PdfAnnotationCollection.cpp:fixIndices"), ("appearance", "PdfAnnotation.cpp:SetAppearanceStreamForObject"), ("destinations", "PdfDestination.cpp:PdfDestination")],
  TRUST + ". Not claimed: annotations that are direct objects in the array; named destinations of links; file names other than UF")

p("P25", "A signature covers the whole file but its own place, and later updates keep it",
  "Signing a document on a device that has its file appends an update: the bytes before are kept, the range in the signature's dictionary leaves out exactly the string of the signature (delimiters included) and ends at the end of the file, the signer is given exactly the "
  "bytes of the range once and in order, and the string holds the signature padded with zeros to what was reserved; a signature longer than that is refused. Every earlier signature, and all later updates' and signatures' effect on it, leave range, covered bytes "
  "and value as they were. The signed document reads back with the fields, filters, types, names, dates, reasons, certification and edits it was given, encrypted or not, with the signature flags set and the need for appearances off.",
  ["inputs", "history"], "all documents, signature sizes and histories of edits, updates and signatures",
  "Positions in a file are known only after it is written; the reading loop depends on how sizes of buffer, file and signature meet; earlier signatures must survive every later update.",
  ["PdfSigner.cpp", "PdfSignature.cpp", "PdfData.cpp", "PdfMemDocument.cpp"],
  [("reading what is signed", "PdfSigner.cpp:readForSignature"), ("range", "PdfSigner.cpp:adjustByteRange"), ("value", "PdfSigner.cpp:setSignature"), ("reserved places", "PdfData.cpp:Write")],
  TRUST + ". Not claimed: signing twice without loading the result in between; changing the attributes of a field that is signed already; cryptography (the signer is the caller's)")

p("P22", "What is painted is what was asked for",
  "For every legal sequence of calls of a painter on pages and forms, over any number of sessions, painters and canvases, the contents written are well-formed (operators only where they are allowed, states, texts and marked "
  "contents balanced) and come to exactly the marks asked for: every path, text and XObject with the line width, colors, dashes, clipping, transformations, font and text state that are in effect by the calls (Save and "
  "Restore included), with all resources they name present; what a canvas held before is still painted as it was, once, and unaffected; the getters report the state in effect; illegal calls are refused and draw nothing.",
  ["histories", "configurations"], "all legal sequences of calls, canvases, sessions and painter flags, contents that were there before",
  "Tests draw a line of text in one session and look at nothing but one exact string; states leak or go stale only in sequences of calls.",
  ["PdfPainter.cpp", "PdfPainter.h", "PdfContents.cpp", "PdfResources.cpp", "PdfGraphicsState.cpp", "PdfTextState.cpp", "PdfStringStream.cpp", "PdfXObjectForm.cpp"],
  [("sessions", "PdfPainter.cpp:finishDrawing"), ("state", "PdfPainter.cpp:PdfGraphicsStateWrapper"), ("text", "PdfPainter.cpp:writeTextState"), ("paths", "PdfPainter.cpp:SmoothCurveTo"), ("contents", "PdfContents.cpp:GetStreamForAppending")],
  TRUST)

p("P28", "The codes of shown strings stand for the characters they were made of",
  "A table of codes (of one to four bytes, of which codes of different sizes are different) gives what was put in last, both ways, ligatures by the longest that has a code. A CMap in a file gives strings exactly the texts and identifiers its clauses say, code by code, without losing or "
  "repeating bytes, and codes the other way; one byte encodings do by their tables and differences, also after being written and read. Text written with a font is the text read from its strings at once, after more text, from the saved file by the library, and by the CMaps in the file alone, "
  "whose sections are counted right, whose code spaces have all their codes and in which every code shown has an identifier; characters without codes are refused.",
  ["inputs", "histories"], "all CMaps, encodings with differences, texts, fonts, encodings and flags of them, histories of writing with several fonts",
  "Mistakes show only with codes of mixed sizes, ligatures, ranges at their ends, more characters than one byte can number, or text written after other text.",
  ["PdfCharCodeMap.cpp", "PdfCMapEncoding.cpp", "PdfEncoding.cpp", "PdfEncodingMap.cpp", "PdfDifferenceEncoding.cpp", "PdfIdentityEncoding.cpp", "PdfEncodingCommon.cpp", "PdfFont.cpp", "PdfFontCID.cpp", "PdfFontSimple.cpp"],
  [("table", "PdfCharCodeMap.cpp:tryFindNextCharacterId"), ("clauses", "PdfCMapEncoding.cpp:parseCMapObject"), ("codes of fonts", "PdfFont.cpp:tryAddSubsetGID"), ("export", "PdfEncodingMap.cpp:AppendCodeSpaceRange")],
  TRUST + ". Not claimed: fonts without embedding and with made up codes; which of two characters of one glyph is read; the code 0x60 of the standard encoding")

# ----------------------------------------------------------------------------


def main():
    import props
    table = props.table()
    with open(os.path.join(ROOT, "properties.jsonl"), "w") as f:
        for x in P:
            f.write(json.dumps({"id": x["pid"], "title": x["title"], "statement": x["statement"],
                                "quantifier": {"over": x["over"], "text": x["text"]}, "why_tests_cant": x["why"],
                                "anchors": dict({"files": x["files"], "mechanism": x["mech"], "hook_needed": None},
                                                **({"observe_at": x["observe"]} if x["observe"] else {}))}) + "\n")
    na = json.load(open(os.path.join(ROOT, "tools", "not_applicable.json")))
    checks = []
    for x in P:
        if x["pid"] in table:
            checks.append({"property": x["pid"], "quick_cmd": "bin/check %s quick" % x["pid"], "thorough_cmd": "bin/check %s thorough" % x["pid"],
                           "technique": x["technique"] or "TLA+ specification: TLC model checking, TLC-generated and recorded executions validated against it",
                           "level": "model_checking", "level_note": x["note"]})
    claimed = {c["property"] for c in checks}
    with open(os.path.join(ROOT, "MANIFEST.json"), "w") as f:
        json.dump({"version": 1, "setup_cmd": "bin/setup",
                   "hooks": {"guard": "PDFMM_VERIF", "enable": "lib/vbuild.py compiles /repo's sources with -DPDFMM_VERIF (no hook is needed so far)", "source_commits": []},
                   "checks": checks,
                   "not_applicable": [n for n in na if n["property"] not in claimed]}, f, indent=1)
        f.write("\n")


if __name__ == "__main__":
    main()
