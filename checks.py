"""The checks: for each property, the builds (component of the repository + harness) and the bounds in words."""
import os
REPO = os.environ.get("VERIF_REPO", "/repo")

NOSAN = []
FAST = dict(san=NOSAN, opt="-O2")


def B(name, component, harness, **kw):
    return dict(name=name, component=component, harness=harness, **kw)


def BOTH(harness, **kw):
    """The same harness on both platforms."""
    return [B("arduino", "arduino", harness, flags=["-DPLAT_ARDUINO"], **kw), B("esp", "esp", harness, flags=["-DPLAT_ESP"], **kw)]


CONV = dict(repo_flags=["-Dmain=converter_main"], libs=["-ldl"])


CHECKS = {
    "C10": dict(
        builds=[B("endian", "none", "c10_endian.cpp", **FAST)],
        rule="every one of the 2^16 and 2^32 argument values is passed to every conversion; states are distinct 16 bit values and blocks of 4096 32 bit values, transitions are values checked"),
    "C09": dict(
        builds=[B("views", "none", "c09_memoryview.cpp")],
        rule="every chain of up to 2 (thorough: 3) subspan/first/last operations on parents of 0..6 elements of eight element types, arguments 0..size+1 and four values near the end of the range (views of 8 and 24 byte elements: 1 (3, 2)); plus all combinations of sizes and arguments around the powers of two up to 2^32; every accessor of every resulting view is compared"),
    "C01": dict(
        builds=[B("map", "core", "c01_storage.cpp", flags=["-fno-pie"], libs=["-no-pie"])],
        rule="all histories of 3 (thorough: 4) stores over 9 names (two of them too long), 4 value sizes and 2 values in 12 capacities, of 7 (9) stores over 2 names and 2 sizes; all states that histories of any length over 6 entries with 2 values each reach in 5 memories of up to 4 records; every (name, size) loaded after every store; every pair of names of up to 4 characters out of 3 (4) letters; two interleaved storages; values and offsets around the 8 and 16 bit limits; up to 700 records; every character at every place of a name; 124 sizes of values up to 196609 bytes; 70000 stores on one storage; all sequences of 3 (4) values of 17 types (scalars, structures with padding, bit fields and constant members, types aligned to 16 and 64 bytes), overwritten and re-attached, in memory at every offset from an aligned address",
        assumptions=["names without embedded NUL bytes"]),
    "C02": dict(
        builds=[B("reattach", "core", "c02_reattach.cpp")],
        rule="all histories of 3 (thorough: 4) stores, re-attachments and initialisations over 5 names and 4 value sizes in 10 capacities (thorough: over 3 previous memory contents), of 6 (8) over 2 names and 2 sizes; after every operation a fresh attachment to a copy of the memory is compared on loads and further stores; offsets beyond 16 bits; up to 5000 records; every character at every place of a name",
        assumptions=["names without embedded NUL bytes"]),
    "C03": dict(
        builds=[B("powerloss", "core", "c03_powerloss.cpp", san=[], opt="-O0")],
        technique="stateless model checking of the real code with exhaustive crash-point and torn-write enumeration (every memory write of a store is trapped)",
        rule="all histories of 0..2 (thorough: 3) stores over 3 names and 3 value sizes followed by an interrupted store (new entry, overwrite, refused), interrupted after each single memory write the code performs and after every part of it (all subsets of up to 4 changed bytes; prefixes, suffixes and single bytes of wider writes); then re-attachment, loads of 11 names and of every name the memory spells, further stores and another re-attachment; a second power loss in the first store after the restart; record sizes around 256 bytes, whose size field is torn; states are memory images",
        assumptions=["memory writes reach the memory in program order, as compiled without optimisation"]),
    "C04": dict(
        builds=[B("images", "core", "c04_images.cpp", opt="-O2")],
        rule="every memory image of up to 8 bytes over the alphabet {0,1,6,7,8,0xFF} (bytes 6 to 8 from a subset; thorough: 9 bytes, whole alphabet), every chain of up to 3 (thorough: 4) records with 17 kinds of size fields in memories of 0..33 (47) bytes with 4 fillers, lengths and sizes around multiples of 65536; on each: attachment, loads, store, overwrite, second store, two re-attachments, with values of several byte patterns; memory is a heap block of the exact length under AddressSanitizer"),
    "C05": dict(
        builds=[B("containment", "core", "c05_containment.cpp")],
        rule="all sequences of 3 operations (4 on two of the sizes; thorough: one more) out of 31 (every item type with extreme values, every setting with ordinary, negative and extreme values, clear) on buffers of 12 sizes from 0 to 21; of 6 (8) out of 7 on 3 sizes; two outputs in one block against two that live alone; texts and buffers around and beyond 2^16; buffers are heap blocks of the exact size under AddressSanitizer; after every operation all views and the earlier text are compared; every character and byte in six ways of inserting it; 70000 uses of one output"),
    "C06": dict(
        builds=[B("integers", "core", "c06_integers.cpp")],
        rule="all sequences of 3 (thorough: 4) items and settings over 6 integer types, 4 kinds of text, byte sequences, 9 widths, 4 fills and clear, on buffers of 11 sizes; of 6 (8) out of 7 items and settings; all values next to powers of 2 and 10 of every type with widths 0..24 on 0..26 characters of space; every integer of -131072..131071 (thorough: +-4 million) in every type; every byte; items longer than 2^16"),
    "C07": dict(
        builds=[B("floats", "core", "c07_floats.cpp", **FAST)],
        rule="every sign and exponent with 1280 (thorough: 5120) systematic mantissas and 9 precisions; precisions up to 200000; every multiple of 1/1000 from -200 to 200 (thorough: 10 times as many) with both neighbours; 16 values on every space left of 0..23 characters; infinities, 8 kinds of nan and values out of range on every space; sequences of 6 (7) settings and items",
        assumptions=["the rendered text may deviate by 1e-7 as the property allows"]),
    "C25": dict(
        builds=BOTH("c25_reception.cpp"),
        rule="both platforms: every line of up to 3 (thorough: 4) bytes out of 4 values with 3 pauses between them, every receive call with 4 buffer sizes and 4 timeouts; two calls in a row; all sequences of 4 (thorough: 5) out of 5 calls on lines of 5 bytes; one (thorough: two) driver errors at every read; a driver that fails from any call on; floods of unrelated bytes with 5 periods; lines and buffers around 2^8 and 2^16 bytes; buffers are heap blocks of the exact size under AddressSanitizer",
        assumptions=["the Arduino core and the ESP-IDF driver behave as their documentation says (stubs/)"]),
    "C26": dict(
        builds=BOTH("c26_framing.cpp"),
        rule="both platforms: every line of up to 5 (thorough: 6) bytes out of start, end and another byte (start and end equal as well), two framed calls in a row with 5 buffer sizes, against the exact result; 4 (5) out of 4 calls in a row on lines of 6 bytes; up to 3 (4) bytes with 4 pauses around the timeout; all start bytes with every fifth (every) end byte; packets of 33 lengths up to 65535; 12 silences of up to 65 s before any of 3 (4) bytes; 5 start bytes with every other byte before and behind them at 4 paces; floods of unrelated bytes with 5 periods; no timeout",
        assumptions=["the Arduino core and the ESP-IDF driver behave as their documentation says (stubs/)"]),
    "C27": dict(
        builds=BOTH("c27_timeouts.cpp"),
        rule="both platforms in virtual time: every line of up to 3 (thorough: 4) bytes with 4 pauses around the timeout, 5 timeouts, 5 positions of the counter (wrap of 16, 32 bit milliseconds and 32 bit microseconds, sign change); silence with 11 timeouts up to 65535 ms and the wrap at 7 points within; floods of unrelated bytes with 5 periods and the start byte at 6 times; slow bytes; 4 (5) calls in a row with 2 timeouts; a timeout of zero and none given, with 4 timeouts of the port and up to 3 bytes with 4 pauses",
        assumptions=["the Arduino core and the ESP-IDF driver behave as their documentation says (stubs/); a tick is 1 ms (Arduino), 10 ms (ESP-IDF); two ticks of slack for the end of a wait"]),
    "C28": dict(
        builds=BOTH("c28_transmission.cpp"),
        rule="both platforms: all sequences of 3 (thorough: 4) sends and receives with 6 configured timeouts, the driver accepting all, half, nothing or failing (2 deviations at any call); of 6 (7) out of 5 operations; 15 sizes up to 65535 with 4 drivers; every byte value; 70000 calls on one port",
        assumptions=["the Arduino core and the ESP-IDF driver behave as their documentation says (stubs/)"]),
    "C08": dict(
        builds=[B("arduino", "arduino", "c08_serialout.cpp", flags=["-DPLAT_ARDUINO", "-DDEBUG_SERIAL_OUT"]), B("esp", "esp", "c08_serialout.cpp", flags=["-DPLAT_ESP", "-DDEBUG_SERIAL_OUT"])],
        rule="both platforms: all sequences of 5 (thorough: 6) items, end and endl markers on buffers of 8 sizes from 1 to 16, all 3 (4) of 12 item kinds on 7 sizes; with 2 (3) transmissions at any place accepted half, not at all or failing; two outputs on one port; lines and buffers around 2^8 and up to 65535; all sequences of 3 (4) debug messages of 17 lengths and 4 kinds with a failing transmission at any place; the wire is compared after every item; all sequences of 5 (6) precisions, floats of up to 9 decimals and line ends on 4 sizes; 70000 lines on one output",
        assumptions=["buffers of 1 to 65535 bytes", "the Arduino core and the ESP-IDF driver behave as their documentation says (stubs/)"]),
    "C11": dict(
        builds=[B("frames", "none", "c11_framebuffer.cpp", flags=["-D_GLIBCXX_ASSERTIONS"])],
        rule="all 7 depths: all sequences of 3 (thorough: 4 on small frames) operations (draw at every pixel, select, clear, draw directly; 5 to 7 colours with surplus bits) on 14 frames of up to 16 pixels with 3 previous memory contents, of 6 (7) out of 7 operations on 7 frames; every pixel of 15 frames of up to 614400 pixels, 66000 rows or columns in both orders; 2^16 colours with 4 kinds of surplus bits; the image is decoded and compared after every operation"),
    "C12": dict(
        builds=[B("clip", "graphics", "c12_clipping.cpp", opt="-O2")],
        rule="8 drawing operations in 4 rotations on 4 frames of up to 8x7: every position within 3 (thorough: 5) pixels of the frame with every end point, size (negative too) and radius in and around it; 26x26 positions and 26x26 end points, sizes and radii around the 8 and 16 bit limits and up to 200000; compared with the same drawing on a frame on which nothing is clipped; real frame buffers at depths 1 and 16 in heap blocks",
        assumptions=["coordinates and sizes up to about a million, so that sums of two do not overflow int"]),
    "C13": dict(
        builds=[B("rotate", "graphics", "c13_rotation.cpp")],
        rule="4 rotations of 4 (thorough: 5) frames up to 6x6 (16x12): every position within 3 pixels of the frame, all sizes up to 6 beyond it, radii below 16, 5 glyphs, 6 strings, all horizontal, vertical and diagonal lines up to 14, end points of all other lines; all sequences of 3 (4) changes of rotation and 11 drawings in different colours, of 6 (8) out of 3 rotations and 3 drawings; every operation at 22x22 positions of 4 frames beyond the 8 and 16 bit limits; rectangles at 24x24 positions with 15x15 sizes on 6 frames; all sequences of 4 (5) pixels, colours, clears and rotations of a canvas on 4 real frame buffers of depth 1 to 32"),
    "C14": dict(
        builds=[B("lines", "graphics", "c14_lines.cpp", opt="-O2")],
        rule="every vector of up to 44 (thorough: 130) in each direction in 4 rotations at two places, every pair of points of a 9x7 (13x10) frame, 14 slopes of 15 lengths up to 100000 in 4 directions; every line with both ends within 5 (9) pixels around 4 small frames and lines between 20x20 positions up to 70000 crossing frames of up to 300x270, their visible part; each drawn from both ends and compared with the definition"),
    "C15": dict(
        builds=[B("rects", "graphics", "c15_rectangles.cpp", opt="-O2")],
        rule="all positions from -4 and all sizes from -3 to 6 beyond the frame on 4 (thorough: 5) frames in 4 rotations, filled and outlined; positions and sizes around the 8 and 16 bit limits on frames of up to 66000 pixels in one direction"),
    "C16": dict(
        builds=[B("circles", "graphics", "c16_circles.cpp", opt="-O2")],
        rule="every radius below 290 (thorough: 1100), in 4 rotations, two places; every centre in a small frame for radii below 7; every centre in and around 4 small frames that show only a part, 20 radii up to 300; 16 radii up to 100000: deviation and extreme points; connectivity, closedness and filling decided by flood fill"),
    "C17": dict(
        builds=[B("text", "graphics", "c17_text.cpp")],
        rule="every bit pattern of 20 shapes of up to 10 (thorough: 25 of up to 12) pixels at 6 places with extreme offsets, 22x22 glyph sizes up to 255 with 3 patterns on two backgrounds, every text of up to 4 (5) out of 6 present and absent characters at 3 places, the library's font, texts of up to 600 and, of narrow characters, 70000, 17 positions up to 70000; all in 4 rotations; glyph data, tables and texts are heap blocks of the exact size under AddressSanitizer",
        assumptions=["glyph data is as long as the glyph's size requires"]),
    "C18": dict(
        builds=[B("lookup", "graphics", "c18_lookup.cpp"), B("unsigned", "graphics", "c18_lookup.cpp", flags=["-funsigned-char"])],
        rule="every pair of first and last code with all glyphs, with one missing, one only, and two surplus (quick: a quarter of the last codes for the incomplete ones), every one of 256 codes, with signed and with unsigned plain char; fonts with data beyond 2^15 bytes; the library's font against its header and, bit by bit, against the released glyphs",
        assumptions=["fonts have at least one glyph and their data offsets ascend"]),
    "C19": dict(
        builds=[B("bounds", "graphics", "c19_bounds.cpp")],
        rule="every pair of 324 glyph boxes (sizes, offsets, advances), every text of 3 (thorough: 4) out of 24 boxes, every text of 3 to 6 (8) out of 5 boxes (a blank and a combining one), texts of up to 3 out of 8 extreme glyphs drawn for real, every pair of codes on a font with absent characters, every pair of characters of the library's font drawn for real, texts of up to 70000 characters",
        assumptions=["fonts have at least one glyph and their data offsets ascend"]),
    "C20": dict(
        builds=[B("geometry", "none", "c20_geometry.cpp")],
        rule="9 coordinate types: all combinations of 4 values out of 15 to 27 (with the limits of the type) whose exact result is in range, for every operation, comparison and corner; 12 conversions; fractions; matrices with all combinations of up to 17 values in the first row and column; every pair of signed bytes"),
    "C21": dict(
        builds=[B("bits", "none", "c21_bitstream.cpp")],
        rule="every sequence of 7 (thorough: 9) operations (bits, 5 bytes, flush) and two final flushes, every sequence of 17 (20) bits with a flush at every place, every byte after and before 0..17 bits, glyphs of 40x16 sizes; the bytes are compared after every operation; streams of more than 2^16 bytes"),
    "C29": dict(
        builds=BOTH("c29_spi.cpp") + [B("esp-small", "esp", "c29_spi.cpp", flags=["-DPLAT_ESP", "-DLLDESC_MAX_NUM_PER_DESC=5"])],
        rule="both platforms, ESP-IDF with the real and with a 5 byte chunk: every length from 0 to 2047 (thorough: 8191) sent, received and exchanged, 80 lengths around the chunk and 16 bit limits, all sequences of 3 (4) transfers of 12 lengths, of 6 (7) of 3 lengths; exchanges within one buffer of 140 lengths; a driver failure at every chunk of 9 lengths followed by further transfers, transfers on a bus that is not ready; buffers are heap blocks of the exact size under AddressSanitizer, at every offset from an aligned address; on Arduino every pair of 14 clocks on two ports used in turn, with bytes sent directly; 70000 transfers on one bus",
        assumptions=["the Arduino core and the ESP-IDF driver behave as their documentation says (stubs/); receive alone is used in half-duplex mode, exchange in full-duplex mode, as the interface asks"]),
    "C30": dict(
        builds=[B("esp", "esp", "c30_spibus.cpp", flags=["-DPLAT_ESP"])],
        rule="all sequences of 5 (thorough: 6) initialise (both modes), transfer, release and destruction on one bus and of 4 (5) on two busses, with up to 2 (3) driver calls failing at any place with two error codes; set-up with every pin number in every role, 15 clocks, both modes and the defaults on both busses while the other one is in use; 70000 set-ups and releases with regular failures",
        assumptions=["the ESP-IDF driver behaves as its documentation says (stubs/)"]),
    "C31": dict(
        builds=BOTH("c31_i2c.cpp"),
        rule="both platforms: every length from 0 to 319 (thorough: 2047) sent, received, sent and received with every result of the driver (each error code, short writes and reads) and 3 buffer sizes of the core, 17 lengths up to 65535, every address on two busses, 1353 maximum waits around every power of two, all sequences of 3 (4) transfers and bus resets over 3 devices with 2 failures at any place, of 5 (6) out of 5 transfers with one; probing every address and set-up with every driver result; buffers are heap blocks of the exact size under AddressSanitizer, at every offset from an aligned address; 70000 transfers of one device with regular failures",
        assumptions=["the Arduino core (whose buffer holds at most 255 bytes) and the ESP-IDF driver behave as their documentation says (stubs/)", "receives of at least one byte"]),
    "C32": dict(
        builds=BOTH("c32_gpio.cpp"),
        rule="both platforms: every one of 256 pins with every operation, direction and pull mode from both levels; all sequences of 4 (thorough: 5) operations over 4 pins (with changes from outside and up to 2 failing driver calls), all sequences of 6 (8) selections begun and ended over 4 pins, scopes of up to 4 levels left in every combination of normally, by an exception, by one passed on; all sequences of 5 (6) operations on two pins whose lines read otherwise than they are driven; the state of all pins is compared after every operation",
        assumptions=["the Arduino core and the ESP-IDF driver behave as their documentation says (stubs/)"]),
    "C33": dict(
        builds=BOTH("c33_adc.cpp"),
        rule="both platforms: every one of 256 pins in 4 orders; all sequences of 3 (thorough: 4) reads over 8 pins of both units and without channel, with 2 (3) driver calls failing at any place with 4 error codes, every pin read three times with 3 (4) failures; of 6 (7) reads over 4 pins with one failure; units held by others; every reading has another value; 70000 reads",
        assumptions=["the Arduino core and the ESP-IDF driver behave as their documentation says (stubs/)"]),
    "C34": dict(
        builds=BOTH("c34_delays.cpp"),
        rule="both platforms in virtual time: 16 delays in microseconds and 25 in milliseconds up to the limits of the type from 10 positions of the counters around their wraps, with 2 (thorough: 3) irregularities at any reading of the clock; light sleeps of 20 durations from 30 positions with 3 (4) early or late wake-ups, failed sleeps and interruptions at any place; deep sleeps of 170000 durations; the tick functions at 4000 points around every power of two",
        assumptions=["the Arduino core and the ESP-IDF driver behave as their documentation says (stubs/)", "light sleeps of up to 2000000000 ms"]),
    "C35": dict(
        builds=[B("esp", "esp", "c35_uartsetup.cpp", flags=["-DPLAT_ESP"])],
        rule="every combination of data bits, parity, stop bits and flow control on 3 ports with 11 baud rates and every number of default arguments, every pair of pins from -1 to 63, all sequences of 4 (thorough: 5) set-ups with 3 configurations and closings over 3 ports, one of them possibly in use, with 2 (3) failing driver calls at any place",
        assumptions=["the ESP-IDF driver behaves as its documentation says (stubs/); an aborting failure restarts the chip"]),
    "C36": dict(
        builds=[B("core", "graphics", "c36_heap.cpp", flags=["-DPLAT_CORE"], san=[], opt="-O0"),
                B("arduino", "arduino", "c36_heap.cpp", flags=["-DPLAT_ARDUINO", "-DMC_HEAP", "-DDEBUG_SERIAL_OUT"], san=[], opt="-O0"),
                B("esp", "esp", "c36_heap.cpp", flags=["-DPLAT_ESP", "-DMC_HEAP", "-DDEBUG_SERIAL_OUT"], san=[], opt="-O0")],
        rule="every allocation function of the C library and of C++ is watched while an operation of the library runs: storages of 40 capacities with names of 40 lengths and 4 value sizes over 3 re-attachments; all sequences of 2 (thorough: 3) out of 46 items and settings followed by each item, on 10 buffer sizes; 1600 chains of views on 40 sizes; all drawing operations at 7 colour depths, 4 rotations, 36 places, all character codes of 2 fonts, texts of 29 (36) lengths; on both platforms all sequences of 2 (3) out of 24 items on 8 buffer sizes with ports that take all, half, nothing; every UART, SPI, I2C call with 38 lengths, several time-outs and answers, 256 pins with every direction and pull mode, each single failing driver call",
        assumptions=["what the platform's own drivers allocate is not the library's use", "a failing serial set-up, which restarts the chip"]),
    "C24": dict(
        builds=[B("encoding", "converter-nomain", "c24_encoding.cpp", opt="-O2", libs=["-lfreetype"])],
        rule="23 single byte encodings: every code after every code; 11 encodings of several bytes per character: every sequence of 5 (thorough: 6) bytes out of 8 to 14, every pair of bytes, every Unicode character after 7 beginnings; two converters at once, both entry points; 4 target encodings",
        assumptions=["encodings without byte order marks and shift states; conversions of up to 4 bytes per character"]),
    "C22": dict(
        builds=[B("standin", "converter", "c22_converter.cpp", flags=["-DCONV_REPO=\"%s\"" % REPO], **CONV),
                B("freetype", "converter", "c22_real.cpp", repo_flags=CONV["repo_flags"], libs=["-lfreetype", "-ldl"])],
        rule="the whole converter with a stand-in rasteriser, both formats and three encodings: every glyph size up to 34x26 (thorough: 72x40) with 3 row paddings (noise in them) and 3 (8) patterns, every value of every metric, values beyond the format at 3 positions, fonts around 65536 bytes, 36 encodings, 320 line heights with sizes and resolutions, 128 headers compiled and dumped; earlier files of 5 lengths under the same names; 4 real fonts with the real rasteriser at 24 (60) sizes, 2 resolutions and 4 encodings; each glyph is looked up through the library and compared",
        assumptions=["rows of the rasteriser's bitmaps run downwards (positive pitch)", "codes an encoding does not define may have any glyph"]),
    "C23": dict(
        builds=[B("faults", "converter", "c23_faults.cpp", flags=["-DCONV_FILE_FAULTS"], **CONV)],
        technique="stateless model checking of the real program with exhaustive fault injection (every call of the rasteriser, the encoding tables and the file system)",
        rule="the whole converter, both formats and two encodings: every single call of the rasteriser and of the encoding tables fails (with 2 or 3 errors; with and without error texts; thorough: every pair of failing calls in a sixteenth of the calls); every error code of 1..255 at the first, middle and last calls; every combination of up to 2 (thorough: 3) failing, short or interrupted writes and failing closes; a disk that is full from every 1021st (256th) byte on, one byte earlier and later; output files that are directories, full devices, links to nowhere, loops, longer files and links; glyphs at every position and line heights that do not fit, an unknown encoding",
        assumptions=["the rasteriser's stand-in keeps FreeType's rules on the order of releases"]),
    "C37": dict(
        builds=[B("commandline", "converter", "c37_commandline.cpp", **CONV)],
        rule="the whole converter with a stand-in rasteriser: every sequence of up to 3 (thorough: 4) options out of 21, in the four spellings (short, short attached, long, long with =), with a font before, behind or none; every value of sizes and resolutions up to 400 (4000) and around the powers of two and ten, 9 font names, 15 encodings, 3 directories, in every spelling and after another value; 11 spellings of a directory, the program called by 5 paths, with 4 kinds of earlier files of the same names; numbers that are none or too big, unknown options, missing values, unknown encodings, in every place",
        assumptions=["outside: what follows the digits of a number, sizes and resolutions that are not positive, further arguments, output places that are no directories"]),
}

NOT_APPLICABLE = {}
