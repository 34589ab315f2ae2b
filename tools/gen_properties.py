#!/usr/bin/env python3
"""Writes /verif/properties.jsonl from the table below (one entry per property)."""
import json, os
P = []
def prop(id, title, statement, over, quant, why, files, mech, observe=None, state=None, hook=None):
    P.append({
        "id": id, "title": title, "statement": statement,
        "quantifier": {"over": over, "text": quant},
        "why_tests_cant": why,
        "anchors": {"files": files,
                    "state": [dict(zip(("name", "meaning", "where"), s)) for s in (state or [])],
                    "mechanism": [dict(zip(("name", "where"), m)) for m in mech],
                    "observe_at": observe or [], "hook_needed": hook}})

# ---------------------------------------------------------------- storage
prop("C01", "Persistent storage is a faithful map of named values",
 "For every sequence of stores and loads, loading a name with a given value size returns exactly the bytes of the last store of that name and size that reported success, and nothing if there was none, whatever the type of the value, its alignment and that of the memory; no store changes what any other (name, size) entry loads. "
 "Names are at most 4 characters: a store under a longer name, or of a value too big for the storage's record format, reports failure, and a store that reports failure changes nothing. "
 "A store of a new entry succeeds exactly when its value plus the fixed 6-byte record overhead fits in the space not yet used, and overwriting an existing entry always succeeds and uses no space.",
 ["histories", "inputs"], "every history of set/get over small alphabets of names, value sizes and capacities; plus long histories with hundreds of records and near-limit value sizes",
 "The tests run one or two stores in a 1 KB buffer; aliasing between names of different length, full storages, and sizes near the record-format limit are never reached.",
 ["PersistentStorage.h", "PersistentStorage.cpp"],
 [("PersistentStorage::set/getIdx", "PersistentStorage.h: linear scan of (size,name) records, append at free head"), ("operator==(array,string_view)", "PersistentStorage.h: NUL padded name comparison")],
 ["return values of set/get"], [("buffer_/free_head_", "record chain and end of used space", "PersistentStorage.h")])
prop("C02", "Stored values survive re-attachment",
 "After any history of stores, discarding the storage object and attaching a new one to the same memory without initialisation yields a storage that answers every load as the old one would have and accepts or refuses every further store as the old one would have, however often this is repeated. "
 "Attaching with initialisation (also when nothing is said about it) always yields an empty storage with its full capacity, whatever the memory held.",
 ["histories"], "every history of stores with re-attachments (and re-initialisations) at every point, to a bounded depth",
 "One test re-attaches once, after one record, in an otherwise zeroed buffer.",
 ["PersistentStorage.cpp", "PersistentStorage.h"],
 [("constructor scan", "PersistentStorage.cpp: walks record sizes to recover the free head; memset on init")],
 ["return values of set/get after reconstruction"], [("record chain", "sizes chained from offset 0, terminated by a zero size", "PersistentStorage.cpp")])
prop("C03", "An interrupted store damages nothing else",
 "If power is lost at any point while a store is being written, then after re-attaching to the memory as it was left (including partially performed memory writes) every name other than the one being stored loads exactly as before the interrupted store, names never stored stay absent, and the storage remains fully usable: later stores, loads and re-attachments behave as they should. "
 "Once a store has returned success, the value survives any later interruption of a store to another name.",
 ["crash_points", "histories"], "every store instruction of every set in short histories, and every torn subset of the bytes that instruction changed, followed by recovery and further operations and further interruptions",
 "Tests never interrupt a store; the guarantee depends on the order in which name, size and data reach memory.",
 ["PersistentStorage.h", "PersistentStorage.cpp"],
 [("set", "PersistentStorage.h: name, then size, then data are written beyond the chain end"), ("constructor scan", "PersistentStorage.cpp: chain ends at a zero size")],
 ["memory image at each store, loads after re-attachment"], [("record chain", "framing of records by their size field", "PersistentStorage.h")])
prop("C04", "Storage is contained and live on any memory image",
 "Whatever bytes the memory holds when a storage is attached to it without initialisation, attaching, loading and storing terminate and never read or write outside the memory handed to it, whatever its length (including zero). "
 "A store that then reports success is loaded back exactly, also after another re-attachment.",
 ["inputs", "histories"], "every memory image over a byte alphabet of record sizes and names up to a small length, every buffer length, followed by loads and stores",
 "Tests only attach to zeroed memory or to memory written by the library itself.",
 ["PersistentStorage.cpp", "PersistentStorage.h"],
 [("constructor scan bounds", "PersistentStorage.cpp"), ("getIdx scan bounds", "PersistentStorage.h")],
 ["guarded memory around the buffer"], [("record chain", "record sizes read from untrusted memory", "PersistentStorage.cpp")])
# ---------------------------------------------------------------- text output
prop("C05", "Formatted output never leaves its buffer",
 "For every buffer size (including zero) and every sequence of inserted items and settings, the formatted output never writes outside the buffer it was given, its size never exceeds its capacity, its data, size and string views agree and start at the buffer, and text inserted earlier is never altered by later insertions. "
 "Clearing empties it and resets its settings, and two outputs never influence one another.",
 ["histories", "inputs"], "every sequence of items and settings (all item types, widths below, at and above the space left) to a bounded depth for every small capacity, plus buffers larger than 64 KiB",
 "Tests use a 128-byte buffer which nothing ever fills.",
 ["BufferedOut.h", "BufferedOut.cpp"],
 [("bounds tests in each operator<<", "BufferedOut.cpp"), ("addPadding", "BufferedOut.cpp"), ("addChar", "BufferedOut.h")],
 ["buffer and guard bytes, size(), data(), asStringView()"], [("pos", "end of the text", "BufferedOut.h"), ("integerWidth/fillChar/floatPrecision", "pending settings", "BufferedOut.h")])
prop("C06", "Formatted output renders integers, bytes and text exactly",
 "Inserting an integer appends its exact decimal form, right-aligned with the fill character to the pending minimum width, which applies to one integer only; a number wider than the minimum is never shortened, and a number (with its padding) that does not fit in the space left appends nothing. "
 "A byte appends two upper-case hexadecimal digits, a byte sequence its bytes in order, never half a byte: whole bytes that no longer fit are left out. "
 "Characters and strings append themselves, cut at the end of the buffer.",
 ["inputs", "histories"], "all values of the integer types around every digit-count and sign boundary (all 2^32 int and unsigned values in the thorough tier), all widths and fills, all 256 bytes, all item sequences to a bounded depth",
 "Tests format about ten values, all of them shorter than the width and far from the end of the buffer.",
 ["BufferedOut.cpp", "BufferedOut.h"],
 [("operator<<", "BufferedOut.cpp: std::to_chars, addPadding, hex digits, append")],
 ["asStringView() after every insertion"], [("integerWidth/fillChar", "pending width, fill", "BufferedOut.h")])
prop("C07", "Floats are rendered as truncated decimals with their sign",
 "A finite float whose integer part fits in 32 bits is rendered as optional minus sign, integer part and, for a precision p > 0, a point and p decimal digits, truncated toward zero: the text differs from the value by less than one unit of its last digit plus single-precision rounding error (1e-7), and a negative value whose text has a non-zero digit carries the minus sign. "
 "Values that are not finite or out of that range never appear as the digits of some other number. "
 "Near the end of the buffer the fraction may be cut, but an integer part that does not fit appends nothing.",
 ["inputs"], "all sign/exponent classes with dense mantissa grids and all short decimals, each for every precision 0..9 and every space left (all 2^32 floats in the thorough tier)",
 "One value with one precision is tested.",
 ["BufferedOut.cpp"], [("toChars(float)", "BufferedOut.cpp: integer part via to_chars, then digit by digit")],
 ["asStringView()"], [("floatPrecision", "number of decimals", "BufferedOut.h")])
prop("C08", "Serial output sends every line once, in order",
 "The bytes that reach the serial port are exactly the concatenation, in order, of the text inserted before each end or end-of-line marker, with one newline added by each end-of-line marker (also when the text exactly fills the buffer); nothing is sent before a marker, sent twice or carried over into the next line, nor are formatting settings. "
 "This holds on both platform back ends, and a line whose transmission fails or is cut short by the port does not corrupt the following lines. A debug message (when enabled) is evaluated once and is one such line of up to 128 characters on the first port. The buffer has between 1 and 65535 characters.",
 ["histories", "fault_sequences"], "every sequence of insertions and markers to a bounded depth for small buffers, with every pattern of port write results (full, partial, error)",
 "There is no test of serial output; the platform files are not even compiled by the tests.",
 ["SerialOut.h", "arduino/SerialOut.cpp", "esp32-esp-idf/SerialOut.cpp", "BufferedOut.h", "Debug.h", "arduino/SerialDebug.cpp", "esp32-esp-idf/SerialDebug.cpp"],
 [("flush / endl", "SerialOut.h and platform SerialOut.cpp")], ["bytes written to the UART driver stand-in"], [("bufferedOut", "pending text", "SerialOut.h")])
prop("C09", "Sub-views always denote the requested part of their parent",
 "For every view and every offset and count (including zero, the exact size, beyond it and the maximum value), taking a sub-view, the first or the last elements yields exactly the elements of the parent that exist in the requested range, never anything outside the parent, through any chain of such operations. "
 "Size, byte size, indexing, forward/reverse and const iteration, front/back, byte views and string conversion of every view agree with each other and denote the same memory.",
 ["inputs", "histories"], "every parent length up to a bound, every offset/count in and around the range and at the extreme values, every chain of operations to a bounded depth, several element types",
 "Tests take five sub-views of one five-element array.",
 ["MemoryView.h"], [("subspan/first/last", "MemoryView.h clamp logic")], ["begin(), size(), elements of resulting views"])
prop("C10", "Byte-order conversion is exact for every value",
 "For every 16-bit and 32-bit value the byte-order conversion returns the value with its bytes in exactly the opposite order, and converting twice gives the value back; the float conversion returns the float whose bit pattern is the reversed one. "
 "The two-register (16x2) conversion swaps the two bytes inside each half of the word and keeps the halves in place.",
 ["inputs"], "all 2^16 and all 2^32 values (a structured 2^26 subset for the quick tier)",
 "Tests sample two values of each.",
 ["EndianConversion.h"], [("masks and shifts", "EndianConversion.h")], ["return values"])
# ---------------------------------------------------------------- graphics
prop("C11", "Frame buffer pixels are independent, exact and complete",
 "At every supported colour depth the frame buffer reports the width and height it was declared with and an image of exactly width x height x depth / 8 bytes, stored row by row, most significant bits and bytes first. "
 "Drawing a pixel sets exactly that pixel to the selected colour reduced to the depth (at depth 1: any non-zero value passed directly is set) and changes no other pixel; clearing sets every pixel. "
 "This holds after any history of drawing, colour changes and clears.",
 ["histories", "configurations"], "depths 1,2,4,8,16,24,32 with several sizes; every pixel, colours including all-ones, out-of-depth and maximum values, sequences of pixel/clear/setColor operations",
 "Only depth 1 is tested, through whole pictures.",
 ["graphics/SimpleFrameBuffer.h", "graphics/FrameBufferBase.h"],
 [("drawPixel", "graphics/SimpleFrameBuffer.h: offset and mask per depth"), ("effectiveWidth/bufferSize", "graphics/SimpleFrameBuffer.h")], ["getImage(), getWidth(), getHeight()"],
 [("buffer/selectedColor", "image and current colour", "graphics/SimpleFrameBuffer.h")])
prop("C12", "Drawing is clipped to the frame, and only clipped",
 "Whatever the coordinates and sizes given (inside, partly or wholly outside, far away or negative) and whatever the rotation, no drawing operation touches a position outside the frame buffer. "
 "The pixels it does set are exactly those of the same drawing on an unbounded canvas that fall inside the frame.",
 ["inputs", "configurations"], "every primitive with all parameter combinations in a window around small frames, far coordinates, all four rotations, compared with the same drawing on a large canvas",
 "Every coordinate in the tests lies inside the frame.",
 ["graphics/Canvas.cpp", "graphics/Canvas.h"], [("setIfVisible", "graphics/Canvas.h"), ("clamping in drawFilledRectangle", "graphics/Canvas.cpp")], ["calls received by a recording frame buffer"])
prop("C13", "Rotation turns the whole picture, pixel for pixel",
 "With the canvas rotated by 90, 180 or 270 degrees, pixels, outlined and filled rectangles, circles, characters, strings and horizontal, vertical or diagonal lines produce exactly the rotated picture of what they produce unrotated on a canvas of the reported size; other lines keep their rotated end points. "
 "Unrotated, a pixel is the frame buffer's pixel at the same coordinates; the colour selected, clearing and the image are those of the frame buffer in every rotation. "
 "The reported size swaps width and height for 90 and 270 degrees; changing the rotation affects only later drawing, and rotated rectangles map to the rectangle covering exactly the rotated pixels.",
 ["configurations", "histories", "inputs"], "all four rotations, non-square frames, all parameters in a window, sequences mixing rotation changes and drawing",
 "One picture per rotation is compared with a stored image.",
 ["graphics/Canvas.cpp", "graphics/Canvas.h"], [("transformCoords / getTransformMatrix / getShifts", "graphics/Canvas.cpp (two separate encodings of the rotation)")], ["pixels set in the frame buffer"], [("rotate", "current rotation", "graphics/Canvas.h")])
prop("C14", "Lines connect their end points with minimal deviation",
 "A line sets both end points, exactly one pixel per step along its longer axis, each within half a pixel of the ideal line along the shorter axis, with neighbouring steps at most one pixel apart, and nothing else; drawing it from either end gives the same pixels. "
 "This holds in every direction, for zero-length, horizontal, vertical and diagonal lines, and in every rotation.",
 ["inputs", "configurations"], "all end-point pairs in a small window, all direction vectors up to 64 (more in the thorough tier), long lines over several hundred pixels, four rotations",
 "About twenty lines are compared with stored pictures.",
 ["graphics/Canvas.cpp"], [("drawLine (Bresenham), drawHorizontalLine, drawVerticalLine", "graphics/Canvas.cpp")], ["pixels set"])
prop("C15", "Rectangles cover exactly their area or border",
 "A filled rectangle sets exactly the pixels of its area and an outlined rectangle exactly the pixels of its one-pixel border, for every position and size, in every rotation. "
 "A rectangle with zero or negative width or height sets no pixel.",
 ["inputs", "configurations"], "all positions and sizes in a window around the frame, including one-pixel-wide, empty and negative sizes, large sizes, four rotations",
 "A handful of rectangles, none of them thin or empty.",
 ["graphics/Canvas.cpp", "graphics/BaseGeometry.h"], [("drawRectangle/drawFilledRectangle", "graphics/Canvas.cpp"), ("Rect corner functions", "graphics/BaseGeometry.h")], ["pixels set"])
prop("C16", "Circles are round, closed, symmetric, and filled without holes",
 "For every centre and radius r >= 0 the outline contains the four extreme points, is symmetric about both axes and both diagonals through the centre, is a closed connected curve, and every pixel of it lies within one pixel of the ideal circle. "
 "The filled circle is exactly the outline plus everything inside it, row by row without holes; radius 0 is the single centre pixel.",
 ["inputs", "configurations"], "all radii 0..200 (more in the thorough tier), centres on and off the frame, outline and filled, four rotations",
 "Two radii are drawn in one stored picture.",
 ["graphics/Canvas.cpp"], [("drawCircle", "graphics/Canvas.cpp: error-driven stepping")], ["pixels set"])
prop("C17", "Text is drawn glyph by glyph at the advancing position",
 "Drawing a character sets exactly the pixels whose bits are set in that character's glyph, row by row from the glyph's offset relative to the given position, and returns the glyph's advance width; unset bits leave the picture untouched. "
 "Drawing a string equals drawing its characters one after another, each displaced by the advances of those before it, for every font, text, position and rotation.",
 ["inputs", "configurations"], "synthetic fonts with all glyph widths and heights in a range, all single-bit and pattern bitmaps, negative offsets, all strings to a bounded length, the built-in font, four rotations",
 "One string in one font is compared with a stored picture.",
 ["graphics/Canvas.cpp", "graphics/Canvas.h", "graphics/EmbeddedFont.cpp"], [("drawCharAt/drawStringAt", "graphics/Canvas.cpp, graphics/Canvas.h")], ["pixels set, returned advance"])
prop("C18", "Glyph lookup is exact and stays inside the font",
 "For every font and every one of the 256 character codes, lookup returns the glyph of that code if the font contains it (fonts reaching above 0x7E have no glyphs for the codes 0x7F to 0x9F, and codes above 0x7F work whether or not plain char is signed) and otherwise the font's first glyph. "
 "The bitmap view returned begins at that glyph's data, ends where the next glyph's data begins (or the font data ends), and never reaches outside the font data. The built-in font has the released glyphs for the 95 printable ASCII characters.",
 ["inputs", "configurations"], "all 256 codes on families of synthetic 7-bit, 8-bit, partial and truncated fonts and the built-in font, built with signed and unsigned plain char",
 "Only letters of one 7-bit font are looked up, and only through one picture.",
 ["graphics/EmbeddedFont.cpp", "graphics/EmbeddedFont.h", "graphics/GFXFontsAdapter.h", "graphics/EmbeddedFonts.cpp"],
 [("getBitmap", "graphics/EmbeddedFont.cpp")], ["CharacterBitmap returned"])
prop("C19", "Text bounds contain the drawn text",
 "For every font and text, drawing the text with the pen placed at the bounds' origin (position plus the returned top-left displacement) sets only pixels inside the rectangle of the returned size at that position, and the rectangle is no larger than needed for the glyph boxes, the pen positions and the baseline. "
 "The bounds of an empty text are empty.",
 ["inputs"], "all strings to length 3 over alphabets including wide, overhanging, below-baseline and blank glyphs on synthetic fonts and the built-in font",
 "Text bounds are not tested at all.",
 ["graphics/EmbeddedFont.cpp"], [("getTextBounds", "graphics/EmbeddedFont.cpp")], ["returned rectangle vs. pixels drawn"])
prop("C20", "Geometry arithmetic is exact",
 "For every point, size and rectangle (of any coordinate type, within its range) the arithmetic is component-wise; translating by a size and compound translation agree; equality and inequality are complementary and compare both coordinates; conversion between rectangle types keeps position and size. "
 "A rectangle's corners are its extreme contained pixels, and matrix times vector is the linear map with its row-major coefficients.",
 ["inputs"], "all values in a small window for int, int8, int16, uint8 plus range extremes",
 "Tests sample one or two values per operation.",
 ["graphics/BaseGeometry.h"], [("Size/Point/Rect/Matrix2x2 operators", "graphics/BaseGeometry.h")], ["return values"])
# ---------------------------------------------------------------- converter
prop("C21", "Bit packing preserves every bit in order",
 "For every sequence of single bits, whole bytes and flushes, the byte stream produced is exactly the sequence of bits written, most significant bit first, in order, with zero padding added only by a flush up to the next byte boundary. "
 "A flush on a byte boundary emits nothing.",
 ["histories"], "every sequence of bit/byte/flush operations to a bounded depth and every bit string to 16 bits",
 "There is no test of the converter.",
 ["gfx-font-converter/BitStream.h"], [("BitStream operators", "gfx-font-converter/BitStream.h")], ["bytes emitted to the sink"], [("buffer/bitCount", "pending bits", "gfx-font-converter/BitStream.h")])
prop("C22", "Converted fonts reproduce the rasterised glyphs",
 "Whenever the font converter reports success, both its outputs (C++ header and binary files) describe, for each character code of the selected encoding, exactly the monochrome bitmap, size, offset and advance that the rasteriser produced for the Unicode character that code stands for, at the position where the library looks that code up; the header is valid C++ and carries the right character range and line height. "
 "A font whose glyph data does not fit the output format is reported as an error instead of being written wrongly.",
 ["inputs", "configurations"], "all glyph widths/heights in a range with padded row pitches and varied metrics served by a stand-in rasteriser, all supported encodings, both formats, boundary-size fonts; real fonts at several sizes",
 "There is no test of the converter.",
 ["gfx-font-converter/main.cpp", "gfx-font-converter/BitStream.h", "gfx-font-converter/FreeTypeFace.cpp", "gfx-font-converter/FreeTypeGlyph.cpp", "gfx-font-converter/FontConverterConfig.cpp", "gfx-font-converter/EncodingConverter.cpp", "graphics/GFXFontsAdapter.h", "graphics/EmbeddedFont.cpp"],
 [("main conversion loop, writeHeaderFile, TextGlyphStream, HexStringStream", "gfx-font-converter/main.cpp")], ["output files loaded back through the library"])
prop("C23", "Converter failures are reported and release everything",
 "If opening or scaling the font, loading, rendering or fetching any glyph, choosing the encoding, or creating or writing any output file fails, the converter ends with a failure status and a message; it reports success only when every output file was written completely. "
 "On every path, successful or not, each library, face, glyph and encoding handle it obtained is released exactly once, glyphs and faces before the library.",
 ["fault_sequences"], "failure of every single rasteriser, encoding and file call of a run, one at a time, in both formats",
 "There is no test of the converter; failures cannot be provoked without a stand-in.",
 ["gfx-font-converter/main.cpp", "gfx-font-converter/FreeTypeLibrary.cpp", "gfx-font-converter/FreeTypeFace.cpp", "gfx-font-converter/FreeTypeGlyph.cpp", "gfx-font-converter/EncodingConverter.cpp"],
 [("unique_ptr handles and exceptions", "gfx-font-converter/FreeType*.h"), ("try/catch in main", "gfx-font-converter/main.cpp")], ["exit status, stderr, handle bookkeeping, output files"])
prop("C24", "Character-set conversion depends only on the character",
 "For encodings without byte-order marks and shift states, feeding a text to the encoding converter byte by byte yields, for each complete character of at most four bytes whose conversion has at most four bytes, exactly that conversion at that character's last byte and nothing before it. "
 "After a complete character, or one rejected as invalid, later conversions are unaffected by what came before; all 256 codes of single-byte encodings convert as the encoding defines or yield nothing.",
 ["histories", "inputs"], "all single-byte codes of several code pages in all pairs, all sequences of UTF-8 characters of 1-4 bytes and invalid bytes to a bounded depth, both conversion entry points",
 "There is no test of the converter.",
 ["gfx-font-converter/EncodingConverter.cpp", "gfx-font-converter/EncodingConverter.h"], [("convert/convertRaw", "gfx-font-converter/EncodingConverter.cpp")], ["returned strings/codes"], [("buf/inSize", "bytes of an incomplete character", "gfx-font-converter/EncodingConverter.h")])
# ---------------------------------------------------------------- platform
prop("C25", "UART reception delivers exactly the bytes received",
 "On both platforms every receive call returns a count no larger than the buffer, fills the buffer with exactly that many bytes taken from the line in order, never invents, repeats, reorders or loses a byte (the packet receive may only discard bytes preceding a start byte), and never writes outside the buffer, whatever its size. "
 "A driver error is never reported as received data.",
 ["schedules", "fault_sequences", "inputs"], "all arrival patterns of short byte scripts (arrival times before, between and after polls and the deadline), all buffer sizes 0..6, all end/start byte choices including 0xFF and 0x00, driver errors at every read",
 "The platform files are not compiled by the tests.",
 ["arduino/PacketUart.cpp", "esp32-esp-idf/PacketUart.cpp", "esp32-esp-idf/SimpleUartDevice.cpp", "PacketUart.h"],
 [("Receive/ReceiveUntil/ReceiveBetween", "arduino/PacketUart.cpp, esp32-esp-idf/PacketUart.cpp")], ["returned count and buffer vs. bytes consumed from the line"])
prop("C26", "UART framing stops at the right byte",
 "Receiving until an end byte returns the bytes up to and including the first end byte, or fewer only because the buffer filled or the time ran out; nothing after the end byte is consumed. "
 "Receiving a packet returns data that begins with the first start byte seen and ends with the first end byte after it, or is cut only because the buffer filled or the time ran out; without a start byte in time, or with a buffer too small for both marks, it returns nothing.",
 ["schedules", "inputs"], "all short scripts over {start, end, other, 0xFF} with arrival patterns and buffer sizes, including equal start and end bytes, on both platforms",
 "The platform files are not compiled by the tests.",
 ["arduino/PacketUart.cpp", "esp32-esp-idf/PacketUart.cpp"], [("end/start byte comparison loops", "PacketUart.cpp of both platforms")], ["returned data vs. script"])
prop("C27", "UART timeouts are honoured at any time",
 "With a non-zero timeout, a receive call that has not got what it waits for neither gives up before the timeout has passed since the call began (less one timer tick), nor keeps waiting longer than the timeout after the later of the call's start and the last byte that became part of its result. "
 "This holds at every value of the millisecond counter, including when it wraps around during the call, and however much unrelated data arrives. A timeout that is not given is 200 ms for Receive (20 ms for receiveBlocking of the serial device) and none for the other calls. Without a timeout, the one configured for the port holds between two bytes (Arduino; the start byte is waited for as long as it takes), or the call waits until it has what it waits for (ReceiveUntil, ESP-IDF).",
 ["schedules", "configurations"], "all short arrival scripts with gaps around the timeout, several timeouts, clock origins at zero, mid-range and just before the 32-bit wrap, endless noise, both platforms",
 "The platform files are not compiled by the tests; a counter wrap takes 49 days.",
 ["arduino/PacketUart.cpp", "esp32-esp-idf/PacketUart.cpp", "esp32-esp-idf/Delays.cpp", "esp32-esp-idf/SimpleUartDevice.cpp"], [("deadline arithmetic", "PacketUart.cpp of both platforms")], ["virtual time at return"])
prop("C28", "UART transmission reports what was sent and is transparent",
 "Sending passes exactly the given bytes, once and in order, to the port, waits until they are out, and returns the number the driver accepted (never more than asked for, zero on error). "
 "Sending and receiving leave the port's configured timeout as they found it.",
 ["inputs", "fault_sequences"], "all lengths in a range and at 16-bit boundaries, every driver result (full, partial, error), every timeout class, send/receive sequences",
 "The platform files are not compiled by the tests.",
 ["arduino/PacketUart.cpp", "esp32-esp-idf/PacketUart.cpp", "esp32-esp-idf/SimpleUartDevice.cpp"], [("Send / sendBlocking, setTimeout save-restore", "PacketUart.cpp, SimpleUartDevice.cpp")], ["bytes and calls at the driver stand-in"])
prop("C29", "SPI transfers move every byte exactly once, in order",
 "For every length from 0 to 65535, sending transmits exactly the given bytes in order, receiving stores exactly the bytes clocked in, and a full-duplex exchange does both for the same positions (also when both are the same buffer), whatever chunking the platform needs; nothing outside the given buffers is read or written and no chunk exceeds the hardware limit. "
 "A driver failure in any chunk makes the call report failure and stops the transfer; bus transactions are always closed. On Arduino they ask for the configured clock (4 MHz when none is given), most significant bit first and mode 0, and bytes sent directly go out unchanged.",
 ["inputs", "fault_sequences"], "all lengths to 300 and around every chunk and 16-bit boundary (all 65536 in the thorough tier), all three transfer kinds, both platforms, failure of each chunk",
 "The platform files are not compiled by the tests.",
 ["arduino/SpiBus.cpp", "arduino/SpiDevice.cpp", "esp32-esp-idf/SpiBus.cpp", "esp32-esp-idf/SpiDevice.cpp", "SpiDevice.h"], [("read/write/readAndWrite split into words and remainder", "arduino/SpiBus.cpp"), ("chunk loop", "esp32-esp-idf/SpiBus.cpp")], ["bytes on the wire at the driver stand-in"])
prop("C30", "SPI bus set-up and release are balanced",
 "Over every sequence of initialise, transfer, release and destruction, with any driver call failing, the bus and device handles obtained from the driver are released exactly once: after a successful release or after destruction nothing is left allocated, nothing is released twice or used after release, and the bus can be initialised again. "
 "Initialise and release report success exactly when the driver did all of it. The driver is given exactly the pins, clock and duplex mode asked for (4 MHz and half duplex when they are not given).",
 ["histories", "fault_sequences"], "all operation sequences to a bounded depth with every driver result",
 "The platform files are not compiled by the tests.",
 ["esp32-esp-idf/SpiBus.cpp", "esp32-esp-idf/SpiBus.h"], [("init/release/~SpiBus", "esp32-esp-idf/SpiBus.cpp")], ["driver stand-in handle state"], [("spiDevice", "device handle or null", "esp32-esp-idf/SpiBus.h")])
prop("C31", "I2C transfers report success only when complete",
 "An I2C send or receive addresses exactly the configured device, transfers exactly the given bytes, and reports success exactly when the device acknowledged and every byte was transferred; on failure it reports failure, and a combined send-then-receive starts the receive only after a successful send. The driver is given the configured address, pins, speed and pull-ups, and is allowed to wait for the configured timeout (200 ms when none is given; to the granularity of a scheduler tick). "
 "Every bus transaction or command list that is begun is also ended, and probing and set-up report success exactly when the driver does. A bus reset sends the general call reset (06 to address 0) on its bus only.",
 ["fault_sequences", "inputs"], "all driver results (short writes, each error code, short reads) at every call, all lengths in a range, all 7-bit addresses, both platforms",
 "The platform files are not compiled by the tests.",
 ["arduino/I2CDevice.cpp", "arduino/I2CBus.cpp", "esp32-esp-idf/I2CDevice.cpp", "esp32-esp-idf/I2CBus.cpp", "I2CDevice.h"], [("sendSync/receiveSync/sendThenReceive", "I2CDevice.cpp of both platforms")], ["driver stand-in log"])
prop("C32", "Digital pins and chip selection drive the right levels",
 "Setting, resetting and level-setting a pin drives exactly that pin to the requested level, reading returns its level, and initialisation requests exactly the given direction and pull mode for that pin only, reporting failure for an invalid pin or a driver error. "
 "A chip selection holds its pin low from its construction to its destruction and high afterwards, on every path and for any nesting over different pins.",
 ["histories", "configurations", "fault_sequences"], "all pins 0..255, all directions and pull modes, all operation sequences to a bounded depth, driver failures, both platforms",
 "The platform files are not compiled by the tests.",
 ["GpioDigitalPin.h", "arduino/GpioDigitalPin.cpp", "esp32-esp-idf/GpioDigitalPin.cpp"], [("GpioDigitalPin, ChipSelector", "GpioDigitalPin.h")], ["driver stand-in pin state"])
prop("C33", "Analog reads are repeatable and leak nothing",
 "Every analog read returns the driver's reading of the channel belonging to that pin, for the first and for every later read in any order over any pins and both converter units, or -1 if the pin has no channel or the driver fails. "
 "The conversion covers the widest input range with the full 12 bits. After each read, successful or not, the converter unit is released.",
 ["histories", "fault_sequences"], "all sequences of reads over pins of both units and non-analog pins with every driver call failing, to a bounded depth",
 "The platform files are not compiled by the tests.",
 ["esp32-esp-idf/AnalogPin.cpp", "arduino/AnalogPin.cpp", "AnalogPin.h"], [("singleReadADC, digitalPinToAnalogChannel", "esp32-esp-idf/AnalogPin.cpp")], ["driver stand-in unit state, returned value"])
prop("C34", "Delays and sleeps last as long as asked, across counter wrap",
 "A microsecond delay and a light sleep (whose time is measured in milliseconds) return only after at least the requested time, to the granularity of the clock they use, and do not exceed it by more than that granularity plus the time the calls themselves take, for every starting value of the counters (including a wrap of the millisecond counter during the wait), every pattern of early wake-ups, failed sleeps and time passing between any two clock readings. "
 "A deep sleep is armed for exactly the requested time before it is entered, a millisecond delay lasts the requested time to within one scheduler tick, and the tick functions report the elapsed time in their units.",
 ["schedules", "fault_sequences", "configurations"], "all patterns of clock advance at each reading, early wake-up and sleep failure, to a bounded number of deviations, with clock origins around the wrap",
 "The platform files are not compiled by the tests; the wrap takes 49 days.",
 ["esp32-esp-idf/SleepFunctions.h", "esp32-esp-idf/Delays.cpp", "arduino/Delays.cpp", "Delays.h"], [("deadline loops", "esp32-esp-idf/SleepFunctions.h, esp32-esp-idf/Delays.cpp")], ["virtual time at return, wake-up timer argument"])
prop("C35", "UART set-up configures exactly what was asked, once",
 "Initialising a serial port configures the port, pins, baud rate, data bits, parity, stop bits and flow control exactly as requested and installs the driver once; a port whose driver is already installed is left untouched and reported as ready. "
 "Any driver failure during set-up is not silently ignored.",
 ["configurations", "fault_sequences"], "all combinations of the configuration enumerations, ports and pins, repeated set-up, failure of each driver call",
 "The platform files are not compiled by the tests.",
 ["esp32-esp-idf/SimpleUartDevice.cpp", "esp32-esp-idf/SimpleUartDevice.h"], [("SimpleUartDevice::init", "esp32-esp-idf/SimpleUartDevice.cpp")], ["driver stand-in configuration"])

prop("C36", "The library never uses the heap",
 "No operation of the library allocates, resizes or releases heap memory, whatever its arguments and whether it succeeds or fails: storage (attaching, storing, loading), "
 "formatted text output of every kind into buffers and onto serial ports, memory views, frame buffers, drawing, fonts and text measuring, and on both platforms the serial, SPI, I2C, "
 "pin, analog, delay, sleep and debug output functions. What the platform's own drivers allocate for themselves does not count, and the font converter, a tool for the host, is not part of the library.",
 ["inputs", "operation_sequences", "fault_sequences"], "all library operations over ranges of sizes, values and settings, short operation sequences, and each failing driver call, with every allocation function watched",
 "The README promises it and targets rely on it (no heap, or one that fragments); it must hold on every path, including rare sizes and error paths that no test visits, and no test watches the heap.",
 ["README.md", "BufferedOut.cpp", "PersistentStorage.h", "PersistentStorage.cpp", "MemoryView.h", "graphics/Canvas.cpp", "graphics/SimpleFrameBuffer.h", "arduino/SerialOut.cpp", "esp32-esp-idf/SerialOut.cpp", "arduino/PacketUart.cpp", "esp32-esp-idf/PacketUart.cpp", "esp32-esp-idf/SpiDevice.cpp", "esp32-esp-idf/I2CDevice.cpp"],
 [("BufferedOut", "BufferedOut.h"), ("PersistentStorage", "PersistentStorage.h"), ("Canvas", "graphics/Canvas.h"), ("PacketUart", "PacketUart.h")], ["calls of malloc, calloc, realloc, free, operator new and delete during library operations"])

prop("C37", "The converter does what its command line says",
 "The font converter accepts the documented options -f/--font, -s/--size, -d/--dpi, -e/--encoding, -b and -o/--output in any order, short or long, with the value attached or following; the last value of a repeated option counts, and options that are not given have their documented defaults (141 dpi, ASCII, a C++ header, the directory of the executable). "
 "The conversion then uses exactly that font file, point size, resolution, encoding and format, and writes exactly the files of the font, named after the font file, size and width of the codes, into that directory. "
 "Without a font, with an unknown option, a missing value, an unknown encoding, or a size or resolution that is not a number or too big for one, it ends with a message and a failure status, without crashing and without writing anything. With -h it prints its usage and writes nothing.",
 ["inputs", "operation_sequences"], "all short sequences of options and spellings, all values in ranges and around the limits, all mistakes in every place",
 "No test runs the converter; combinations of spellings, repeated options and malformed values are not tried by hand.",
 ["gfx-font-converter/FontConverterConfig.cpp", "gfx-font-converter/FontConverterConfig.h", "gfx-font-converter/main.cpp", "README.md"],
 [("FontConverterConfig", "gfx-font-converter/FontConverterConfig.cpp"), ("main", "gfx-font-converter/main.cpp")], ["files written, messages, exit status, calls of the rasteriser"])

here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
with open(os.path.join(here, "properties.jsonl"), "w") as f:
    for p in P:
        f.write(json.dumps(p, ensure_ascii=False) + "\n")
print(len(P), "properties")
